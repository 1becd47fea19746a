package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"os"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type deferNode struct {
	fn   Value
	args []Value
	inv  *ssa.CallCommon
	next *deferNode
}

const (
	retNormal = iota
	retDefer  // returning from a deferred call run by RunDefers
	retPanic  // returning from a deferred call run while panicking
	retRoot
)

// Frame is one activation record.
type Frame struct {
	fn        *cfunc
	blk       int
	prev      int
	pc        int
	regs      []Value
	defers    *deferNode
	retKind   int
	retDst    int32
	panicking bool
	panicVal  Value
	recovered bool
}

type Decision struct {
	kind uint8 // 0 branch, 1 n-way choice, 2 value
	c    int32 // branch: 0/1 taken; +2 when implied (not added to the path condition)
	v    uint64
}

type undoRec struct {
	p   *Value
	old Value
	f   func()
}

// gor is a goroutine that is not running at the moment.
type gor struct {
	frames []*Frame
	main   bool
	wait   *Chan // receives from it
	send   *Chan // sends to it
}

type Snapshot struct {
	gors    []gor
	curGo   bool
	stall   int
	frames  []*Frame
	undo    int
	pcLen   int
	decLen  int
	forced  []Decision
	model   []uint64
	modelOK bool
	inLen   int
	obsLen  int
	steps   int64
	ncover  int
}

// InputRec is one nondeterministic input of a path.
type InputRec struct {
	kind string // byte, int, choice
	name string
	t    *Term
	v    uint64 // concrete
	add  int64  // offset for ints
}

type ObsRec struct {
	label string
	v     Value
	typ   types.Type
}

type pathEnd struct {
	why  string // done, assume, violation, unsupported, limit
	what string
}

// Worker explores paths.
var dbgCheck = os.Getenv("VDBG") != ""

type Worker struct {
	deepSeen  map[[2]any]bool
	id        int
	P         *Program
	tc        *TermCtx
	sol       *Solver
	X         *Explorer
	globals   []*Value
	undo      []undoRec
	frames    []*Frame
	gors      []gor // other goroutines, in the order they get their turn
	curGo     bool  // the running goroutine is not the main one
	stall     int   // turns without progress
	pc        []*Term
	dec       []Decision
	forced    []Decision
	fpos      int
	stack     []*Snapshot
	modelOK   bool
	inputs    []InputRec
	obs       []ObsRec
	covers    []string
	steps     int64
	maxStep   int64
	initing   bool
	unwinding bool

	instrUndo int
	instrPC   int
	instrDec  int
	instrIn   int
	instrObs  int
	instrCov  int

	dom   [][4]uint64
	multi []int
	domOK []bool

	nvar      int
	paths     int64
	instrs    int64
	forks     int64
	poison    map[*ssa.Global]string
	entered   map[*cfunc]int64
	stackStr  string
	models    [][]uint64
	mapOrder  bool
	nowSec    int64
	civil     map[*Term]civil
	facts     []fact
	civilBase uint64
	dbgSites  map[string]int64
	task      *Task
	initState map[*ssa.Package]int
	initFail  map[*ssa.Package]string
}

func (w *Worker) top() *Frame { return w.frames[len(w.frames)-1] }

func (w *Worker) get(fr *Frame, o *operand) Value {
	switch o.k {
	case kReg:
		return fr.regs[o.i]
	case kConst:
		return o.v
	}
	return Value{p: w.global(o.i)}
}

func (w *Worker) global(i int32) *Value {
	for int(i) >= len(w.globals) {
		w.globals = append(w.globals, nil)
	}
	if w.globals[i] == nil {
		w.P.mu.RLock()
		g := w.P.gl[i]
		w.P.mu.RUnlock()
		if g.Pkg != nil {
			if w.initState[g.Pkg] == 0 {
				w.ensureInit(g.Pkg)
				if int(i) < len(w.globals) && w.globals[i] != nil {
					return w.globals[i]
				}
			}
			for int(i) >= len(w.globals) {
				w.globals = append(w.globals, nil)
			}
			if why := w.initFail[g.Pkg]; why != "" && !w.initing && !okUninit[g.String()] {
				panic(unsupported("global " + g.String() + ": " + why))
			}
		}
		v := zero(g.Type().Underlying().(*types.Pointer).Elem())
		w.globals[i] = &v
	}
	return w.globals[i]
}

func (w *Worker) setCell(p *Value, v Value) {
	w.undo = append(w.undo, undoRec{p: p, old: *p})
	*p = v
}

// store writes v into the cell p, in place for aggregates.
func (w *Worker) store(p *Value, v Value) {
	switch s := v.p.(type) {
	case *Struct:
		if d, ok := p.p.(*Struct); ok && len(d.f) == len(s.f) {
			if d == s {
				return
			}
			for i := range s.f {
				w.store(&d.f[i], s.f[i])
			}
			return
		}
		v = copyVal(v)
	case *Array:
		if d, ok := p.p.(*Array); ok && len(d.e) == len(s.e) {
			if d == s {
				return
			}
			for i := range s.e {
				w.store(&d.e[i], s.e[i])
			}
			return
		}
		v = copyVal(v)
	}
	w.setCell(p, v)
}

func (w *Worker) rollback(mark int) {
	for i := len(w.undo) - 1; i >= mark; i-- {
		u := &w.undo[i]
		if u.p != nil {
			*u.p = u.old
		} else {
			u.f()
		}
		*u = undoRec{}
	}
	w.undo = w.undo[:mark]
}

func (w *Worker) onUndo(f func()) { w.undo = append(w.undo, undoRec{f: f}) }

// ---- path condition ---------------------------------------------------------------------

func (w *Worker) newVar(name string, width uint8) *Term {
	t := w.tc.Var(fmt.Sprintf("%s#%d", name, w.nvar), width)
	w.nvar++
	w.onUndo(func() { w.nvar-- })
	w.ensureDom()
	return t
}

func (w *Worker) ensureDom() {
	for len(w.dom) < len(w.tc.vars) {
		w.dom = append(w.dom, [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)})
		w.multi = append(w.multi, 0)
	}
}

func (w *Worker) addPC(t *Term) {
	if t.op == OConst {
		return
	}
	if t.op == OAnd {
		w.addPC(t.a)
		w.addPC(t.b)
		return
	}
	w.ensureDom()
	w.pc = append(w.pc, t)
	if tt := w.tc.truth(t); tt != nil {
		v := t.vs[0]
		old := w.dom[v]
		for i := range old {
			w.dom[v][i] &= tt[i]
		}
		w.onUndo(func() { w.dom[v] = old })
		return
	}
	vs := t.vs
	for _, v := range vs {
		w.multi[v]++
	}
	w.onUndo(func() {
		for _, v := range vs {
			w.multi[v]--
		}
	})
	w.narrow(t)
	w.noteFact(t)
}

const enumLimit = 1024

// domSize is the number of assignments to vs within the byte domains, 0 if too many.
func (w *Worker) domSize(vs []int32, limit int) int {
	if len(vs) > 24 {
		return 0
	}
	n := 1
	for _, v := range vs {
		if w.tc.vars[v].w > 8 {
			return 0
		}
		d := &w.dom[v]
		n *= bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
		if n > limit {
			return 0
		}
	}
	return n
}

// enum calls f for every assignment to vs within the domains, until f returns true. The model
// is restored afterwards.
func (w *Worker) enum(vs []int32, f func() bool) {
	save := make([]uint64, len(vs))
	for i, v := range vs {
		save[i] = w.tc.model[v]
	}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(vs) {
			w.tc.bumpGen()
			return f()
		}
		v := vs[i]
		d := w.dom[v]
		for k := range d {
			for x := d[k]; x != 0; x &= x - 1 {
				w.tc.model[v] = uint64(k*64 + bits.TrailingZeros64(x))
				if rec(i + 1) {
					return true
				}
			}
		}
		return false
	}
	rec(0)
	for i, v := range vs {
		w.tc.model[v] = save[i]
	}
	w.tc.bumpGen()
}

// narrow removes from the domains of the variables of t the values t excludes.
func (w *Worker) narrow(t *Term) {
	n := w.domSize(t.vs, enumLimit)
	if n <= 1 {
		return
	}
	sup := make([][4]uint64, len(t.vs))
	w.enum(t.vs, func() bool {
		if w.tc.Eval(t) != 0 {
			for i, v := range t.vs {
				x := w.tc.model[v]
				sup[i][x>>6] |= 1 << (x & 63)
			}
		}
		return false
	})
	for i, v := range t.vs {
		old := w.dom[v]
		if old != sup[i] {
			w.dom[v] = sup[i]
			w.onUndo(func() { w.dom[v] = old })
		}
	}
}

func domEmpty(a, b *[4]uint64) bool {
	return a[0]&b[0]|a[1]&b[1]|a[2]&b[2]|a[3]&b[3] == 0
}

func domPick(a, b *[4]uint64) uint64 {
	for i := 0; i < 4; i++ {
		if x := a[i] & b[i]; x != 0 {
			n := 0
			for x&1 == 0 {
				x >>= 1
				n++
			}
			return uint64(i*64 + n)
		}
	}
	panic("domPick")
}

// feasible decides pc ∧ q. On SatYes the returned model (full) satisfies pc ∧ q.
func (w *Worker) feasible(q *Term) (Sat, []uint64) {
	if q.op == OConst {
		if q.val == 0 {
			return Unsat, nil
		}
		return SatYes, w.tc.model
	}
	w.ensureDom()
	if tt := w.tc.truth(q); tt != nil {
		v := q.vs[0]
		if domEmpty(&w.dom[v], tt) {
			w.sol.stats.DomainHits++
			if w.sol.stats.Audited < w.X.auditN {
				// audit: z3 confirms the verdict of the byte domain
				cs := slicePC(w.pc, q)
				if !w.sol.Cached(cs) {
					w.sol.stats.Audited++
					if r, _, _ := w.sol.Check(cs); r == SatYes {
						panic("byte domain contradicts z3")
					}
				}
			}
			return Unsat, nil
		}
		if w.multi[v] == 0 && w.modelOK {
			w.sol.stats.DomainHits++
			m := append([]uint64(nil), w.tc.model...)
			m[v] = domPick(&w.dom[v], tt)
			return SatYes, m
		}
	}
	if w.modelOK && w.domSize(q.vs, 1) == 1 {
		// every variable of q is fixed by the path condition
		w.sol.stats.DomainHits++
		if w.tc.Eval(q) == 0 {
			return Unsat, nil
		}
		return SatYes, append([]uint64(nil), w.tc.model...)
	}
	cs := slicePC(w.pc, q)
	for len(cs) > 0 && cs[0].op == OConst {
		cs = cs[1:]
	}
	if r, m := w.enumDecide(cs, q); r != Unknown {
		w.sol.stats.EnumHits++
		return r, m
	}
	r, vs, m := w.sol.Check(cs)
	if r != SatYes {
		return r, nil
	}
	full := append([]uint64(nil), w.tc.model...)
	for i, v := range vs {
		full[v] = m[i]
	}
	if !w.modelOK {
		// other components are not known to be satisfied: solve everything
		return w.solveAll(q)
	}
	return SatYes, full
}

// enumDecide decides the conjunction cs by its finite domain if that is small.
func (w *Worker) enumDecide(cs []*Term, q *Term) (Sat, []uint64) {
	if !w.modelOK {
		return Unknown, nil
	}
	var vs []int32
	for _, c := range cs {
		vs = mergeVars(vs, c.vs)
		if len(vs) > 24 {
			return Unknown, nil
		}
	}
	if w.domSize(vs, enumLimit) == 0 {
		return Unknown, nil
	}
	var m []uint64
	w.enum(vs, func() bool {
		if w.tc.Eval(q) == 0 {
			return false
		}
		for _, c := range cs {
			if w.tc.Eval(c) == 0 {
				return false
			}
		}
		m = append([]uint64(nil), w.tc.model...)
		return true
	})
	if m != nil {
		return SatYes, m
	}
	if w.sol.stats.Audited < w.X.auditN && !w.sol.Cached(cs) {
		w.sol.stats.Audited++
		if r, _, _ := w.sol.Check(cs); r == SatYes {
			panic("domain enumeration contradicts z3")
		}
	}
	return Unsat, nil
}

func (w *Worker) solveAll(q *Term) (Sat, []uint64) {
	cs := append([]*Term(nil), w.pc...)
	if q != nil && q.op != OConst {
		cs = append(cs, q)
	}
	if len(cs) == 0 {
		return SatYes, append([]uint64(nil), w.tc.model...)
	}
	r, vs, m := w.sol.Check(cs)
	if r != SatYes {
		return r, nil
	}
	full := append([]uint64(nil), w.tc.model...)
	for i, v := range vs {
		full[v] = m[i]
	}
	return SatYes, full
}

func (w *Worker) setModel(m []uint64) {
	copy(w.tc.model, m)
	w.tc.bumpGen()
}

// nextForced returns the next decision to replay, if any.
func (w *Worker) nextForced(kind uint8) (Decision, bool) {
	if w.fpos >= len(w.forced) {
		return Decision{}, false
	}
	d := w.forced[w.fpos]
	if d.kind != kind {
		panic(fmt.Sprintf("replay divergence: decision %d has kind %d, want %d", w.fpos, d.kind, kind))
	}
	w.fpos++
	if w.fpos == len(w.forced) {
		w.forced, w.fpos = nil, 0
	}
	return d, true
}

// afterForced re-establishes a model when a replayed prefix ends.
func (w *Worker) afterForced() {
	if w.modelOK {
		return
	}
	r, m := w.solveAll(nil)
	switch r {
	case SatYes:
		w.setModel(m)
		w.modelOK = true
	case Unsat:
		panic(pathEnd{"assume", "infeasible prefix"})
	}
}

// branch decides a symbolic condition, forking when both outcomes are feasible.
func (w *Worker) branch(c *Term) bool {
	if c.op == OConst {
		return c.val != 0
	}
	if w.initing {
		panic(unsupported("symbolic branch during package initialisation"))
	}
	if d, ok := w.nextForced(0); ok {
		w.dec = append(w.dec, d)
		taken := d.c&1 != 0
		if d.c&2 == 0 {
			if taken {
				w.addPC(c)
			} else {
				w.addPC(w.tc.Not(c))
			}
		}
		return taken
	}
	if atomic.LoadInt32(&w.X.stop) != 0 {
		panic(pathEnd{"budget", ""})
	}
	w.afterForced()
	nc := w.tc.Not(c)
	if !w.modelOK {
		rt, mt := w.feasible(c)
		rf, mf := w.feasible(nc)
		switch {
		case rt == Unsat && rf == Unsat:
			panic(pathEnd{"assume", "infeasible path"})
		case rt == Unsat:
			w.dec = append(w.dec, Decision{0, 0 | 2, 0})
			return false
		case rf == Unsat:
			w.dec = append(w.dec, Decision{0, 1 | 2, 0})
			return true
		}
		w.pushAlt(Decision{0, 0, 0}, mf, rf == SatYes)
		if rt == SatYes {
			w.setModel(mt)
			w.modelOK = true
		}
		w.dec = append(w.dec, Decision{0, 1, 0})
		w.addPC(c)
		return true
	}
	cur := w.tc.Eval(c) != 0
	alt := nc
	if !cur {
		alt = c
	}
	r, m := w.feasible(alt)
	if dbgCheck {
		for _, t := range w.pc {
			if w.tc.Eval(t) == 0 {
				fmt.Fprintf(os.Stderr, "MODEL BROKEN at %s: %s\n", w.where(), t)
				break
			}
		}
		if r == SatYes {
			save := append([]uint64(nil), w.tc.model...)
			w.setModel(m)
			if w.tc.Eval(alt) == 0 {
				fmt.Fprintf(os.Stderr, "ALT MODEL BROKEN at %s: %s\n", w.where(), alt)
			}
			for _, t := range w.pc {
				if w.tc.Eval(t) == 0 {
					fmt.Fprintf(os.Stderr, "ALT MODEL BROKEN at %s: %s (alt %s)\n", w.where(), t, alt)
				}
			}
			w.setModel(save)
		}
	}
	curBit := int32(0)
	if cur {
		curBit = 1
	}
	if r == Unsat {
		w.dec = append(w.dec, Decision{0, curBit | 2, 0})
		return cur
	}
	w.pushAlt(Decision{0, 1 - curBit, 0}, m, r == SatYes)
	w.dec = append(w.dec, Decision{0, curBit, 0})
	if cur {
		w.addPC(c)
	} else {
		w.addPC(nc)
	}
	return cur
}

func (w *Worker) pushAlt(d Decision, m []uint64, ok bool) {
	if w.unwinding {
		w.unwinding = false
		panic(unsupported("fork while unwinding"))
	}
	w.forks++
	s := &Snapshot{undo: w.instrUndo, pcLen: w.instrPC, decLen: w.instrDec, inLen: w.instrIn, obsLen: w.instrObs, ncover: w.instrCov, steps: w.steps, modelOK: ok}
	s.forced = append(s.forced, w.dec[w.instrDec:]...)
	s.forced = append(s.forced, d)
	if ok {
		s.model = m
	}
	s.frames = copyFrames(w.frames)
	for _, g := range w.gors {
		g.frames = copyFrames(g.frames)
		s.gors = append(s.gors, g)
	}
	s.curGo, s.stall = w.curGo, w.stall
	w.stack = append(w.stack, s)
	if w.dbgSites != nil {
		w.dbgSites[w.where()]++
	}
	w.X.maybeDonate(w)
}

func copyFrames(fs []*Frame) []*Frame {
	r := make([]*Frame, len(fs))
	for i, f := range fs {
		g := *f
		g.regs = append([]Value(nil), f.regs...)
		r[i] = &g
	}
	return r
}

// choose forks over n alternatives without constraints.
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := w.nextForced(1); ok {
		w.dec = append(w.dec, d)
		return int(d.c)
	}
	w.afterForced()
	for i := n - 1; i >= 1; i-- {
		m := append([]uint64(nil), w.tc.model...)
		w.pushAlt(Decision{1, int32(i), 0}, m, w.modelOK)
	}
	w.dec = append(w.dec, Decision{1, 0, 0})
	return 0
}

// concretize forks over the feasible values of t.
func (w *Worker) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	for i := 0; ; i++ {
		var v uint64
		if d, ok := w.nextForced(2); ok {
			v = d.v
			w.dec = append(w.dec, d)
		} else {
			w.afterForced()
			if !w.modelOK {
				panic(unsupported("concretisation without a model"))
			}
			v = w.tc.Eval(t)
			w.dec = append(w.dec, Decision{2, 0, v})
		}
		if i > 4096 {
			panic(unsupported("too many values in concretisation"))
		}
		if w.branch(w.tc.Eq(t, w.tc.Const(t.w, v))) {
			return v
		}
	}
}

func (w *Worker) concInt(v Value, wd uint8, signed bool) int64 {
	n := v.n
	if v.p != nil {
		n = w.concretize(valTerm(w.tc, v, wd))
	}
	if signed {
		return sext(n, wd)
	}
	return int64(n)
}

func (w *Worker) condVal(v Value) bool {
	if v.p == nil {
		return v.n != 0
	}
	return w.branch(v.p.(*Term))
}

// ---- target-level panics ----------------------------------------------------------------

type targetPanic struct{ v Value }

func (w *Worker) rtPanic(msg string) {
	panic(targetPanic{Value{p: &Iface{t: w.P.runtimeErr, v: mkStrC(msg)}}})
}

func (w *Worker) where() string {
	var parts []string
	for i := len(w.frames) - 1; i >= 0 && len(parts) < 12; i-- {
		f := w.frames[i]
		pos := ""
		if f.fn.blocks != nil && f.blk < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.blk].ins) {
			in := f.fn.blocks[f.blk].ins[f.pc].in
			if p := in.Pos(); p.IsValid() {
				q := w.P.prog.Fset.Position(p)
				pos = fmt.Sprintf("%s:%d", trimPath(q.Filename), q.Line)
			}
		}
		parts = append(parts, f.fn.name+"("+pos+")")
	}
	return strings.Join(parts, " < ")
}

func trimPath(s string) string {
	if i := strings.Index(s, "/src/"); i >= 0 && !strings.HasPrefix(s, "/repo") {
		return s[i+5:]
	}
	if i := strings.LastIndex(s, "/pkg/mod/"); i >= 0 {
		return s[i+9:]
	}
	return strings.TrimPrefix(s, "/repo/")
}

// ---- main loop --------------------------------------------------------------------------

func (w *Worker) pushFrame(c *cfunc, args []Value, bind []Value, kind int, dst int32) {
	if len(w.frames) > 3000 {
		panic(pathEnd{"violation", "unbounded recursion (call depth 3000)"})
	}
	fr := &Frame{fn: c, regs: make([]Value, c.nregs), retKind: kind, retDst: dst, prev: -1}
	for i, r := range c.params {
		fr.regs[r] = args[i]
	}
	for i, r := range c.free {
		fr.regs[r] = bind[i]
	}
	if w.entered != nil {
		w.entered[c]++
	}
	w.frames = append(w.frames, fr)
}

func (w *Worker) jump(fr *Frame, to int) {
	from := fr.blk
	cb := &fr.fn.blocks[to]
	if len(cb.phis) > 0 {
		k := -1
		for i, p := range cb.preds {
			if p == from {
				k = i
				break
			}
		}
		w.doPhis(fr, cb, k)
	}
	fr.prev = from
	fr.blk = to
	fr.pc = 0
}

func (w *Worker) doPhis(fr *Frame, cb *cblock, k int) {
	if len(cb.phis) == 1 {
		fr.regs[cb.phis[0].dst] = w.get(fr, &cb.phis[0].ops[k])
		return
	}
	var tmp [8]Value
	vals := tmp[:0]
	for i := range cb.phis {
		vals = append(vals, w.get(fr, &cb.phis[i].ops[k]))
	}
	for i := range cb.phis {
		fr.regs[cb.phis[i].dst] = vals[i]
	}
}

// loop runs until the root frame returns. Target panics and aborts are Go panics.
func (w *Worker) loop(base int) {
	for len(w.frames) > base {
		w.loopProtected(base)
	}
}

func (w *Worker) loopProtected(base int) {
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			w.unwind(tp.v, base)
		}
	}()
	for len(w.frames) > base {
		w.step()
	}
}

// unwind propagates a target panic through the frames.
func (w *Worker) unwind(v Value, base int) {
	for len(w.frames) > base {
		fr := w.top()
		if fr.panicking && fr.recovered {
			fr.panicking, fr.recovered = false, false
		}
		if fr.defers != nil {
			d := fr.defers
			fr.defers = d.next
			fr.panicking = true
			fr.recovered = false
			fr.panicVal = v
			w.unwinding = true
			started := w.callDeferred(d, retPanic)
			w.unwinding = false
			if started {
				return
			}
			continue
		}
		w.frames = w.frames[:len(w.frames)-1]
	}
	panic(pathEnd{"violation", "panic: " + w.panicString(v)})
}

func (w *Worker) panicString(v Value) string {
	if v.p == nil {
		return "nil"
	}
	i := v.p.(*Iface)
	if isString(i.t) {
		if s, ok := i.v.p.(*Str); ok && !s.opaque && s.b == nil {
			return s.s
		}
	}
	return showConcrete(v)
}

// callDeferred starts a deferred call; false when it completed inline.
func (w *Worker) callDeferred(d *deferNode, kind int) bool {
	n := len(w.frames)
	if d.inv != nil {
		w.invoke(d.inv, d.fn, d.args, kind, -1)
	} else {
		w.call(d.fn, d.args, kind, -1)
	}
	return len(w.frames) > n
}

// doReturn pops the top frame and delivers its results.
func (w *Worker) doReturn(v Value) {
	fr := w.top()
	w.frames = w.frames[:len(w.frames)-1]
	switch fr.retKind {
	case retRoot:
		return
	case retNormal:
		cl := w.top()
		if fr.retDst >= 0 {
			cl.regs[fr.retDst] = v
		}
		cl.pc++
	case retDefer:
		// caller stays at its RunDefers instruction
	case retPanic:
		own := w.top()
		if own.recovered {
			own.panicking, own.recovered = false, false
			w.resumeRecovered(own)
			return
		}
		pv := own.panicVal
		panic(targetPanic{pv})
	}
}

// resumeRecovered continues a frame whose panic was recovered: run the remaining defers and return.
func (w *Worker) resumeRecovered(fr *Frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		fr.recovered = true
		fr.panicking = true
		// run as if recovered: after it returns we come back here
		w.unwinding = true
		started := w.callDeferred(d, retPanic)
		w.unwinding = false
		if started {
			return
		}
	}
	fr.panicking, fr.recovered = false, false
	if fr.fn.recov >= 0 {
		fr.prev = fr.blk
		fr.blk = fr.fn.recov
		fr.pc = 0
		return
	}
	// no named results: return zero values
	res := fr.fn.fn.Signature.Results()
	var v Value
	switch res.Len() {
	case 0:
	case 1:
		v = zero(res.At(0).Type())
	default:
		v = zero(res)
	}
	w.doReturn(v)
}

func (w *Worker) step() {
	fr := w.top()
	ci := &fr.fn.blocks[fr.blk].ins[fr.pc]
	w.instrUndo, w.instrPC, w.instrDec = len(w.undo), len(w.pc), len(w.dec)
	w.instrIn, w.instrObs, w.instrCov = len(w.inputs), len(w.obs), len(w.covers)
	w.steps++
	w.instrs++
	if w.steps > w.maxStep {
		panic(pathEnd{"limit", "step limit"})
	}
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		fr.regs[ci.dst] = w.binop(in.Op, in.X.Type(), in.Y.Type(), w.get(fr, &ci.op[0]), w.get(fr, &ci.op[1]))
	case *ssa.UnOp:
		if in.Op == token.ARROW && len(w.gors) > 0 {
			if c, ok := w.get(fr, &ci.op[0]).p.(*Chan); ok && len(c.q) == 0 && !c.closed {
				w.park(gor{wait: c}, "receive from empty channel")
				return
			}
			w.stall = 0
		}
		fr.regs[ci.dst] = w.unop(in, w.get(fr, &ci.op[0]))
	case *ssa.FieldAddr:
		fr.regs[ci.dst] = w.fieldAddr(w.get(fr, &ci.op[0]), in.Field)
	case *ssa.Field:
		s := w.get(fr, &ci.op[0])
		st, ok := s.p.(*Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T", s.p)))
		}
		fr.regs[ci.dst] = st.f[in.Field]
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = w.indexAddr(in, w.get(fr, &ci.op[0]), w.get(fr, &ci.op[1]))
	case *ssa.Index:
		fr.regs[ci.dst] = w.index(in, w.get(fr, &ci.op[0]), w.get(fr, &ci.op[1]))
	case *ssa.Lookup:
		fr.regs[ci.dst] = w.lookup(in, w.get(fr, &ci.op[0]), w.get(fr, &ci.op[1]))
	case *ssa.Store:
		w.storeTo(w.get(fr, &ci.op[0]), w.get(fr, &ci.op[1]))
	case *ssa.Alloc:
		v := zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ci.dst] = Value{p: &v}
	case *ssa.If:
		w.doIf(fr, ci)
		return
	case *ssa.Jump:
		w.jump(fr, fr.fn.blocks[fr.blk].succs[0])
		return
	case *ssa.Return:
		var v Value
		switch len(ci.op) {
		case 0:
		case 1:
			v = w.get(fr, &ci.op[0])
		default:
			t := make([]Value, len(ci.op))
			for i := range ci.op {
				t[i] = w.get(fr, &ci.op[i])
			}
			v = Value{p: &Tuple{t}}
		}
		if fr.fn.post != nil {
			args := make([]Value, len(fr.fn.params))
			for i, r := range fr.fn.params {
				args[i] = fr.regs[r]
			}
			fr.fn.post(w, args, v)
		}
		w.doReturn(v)
		return
	case *ssa.Call:
		args := make([]Value, len(ci.op)-1)
		for i := range args {
			args[i] = w.get(fr, &ci.op[i+1])
		}
		fn := w.get(fr, &ci.op[0])
		if in.Call.IsInvoke() {
			w.invoke(&in.Call, fn, args, retNormal, ci.dst)
		} else {
			w.call(fn, args, retNormal, ci.dst)
		}
		return
	case *ssa.Extract:
		t := w.get(fr, &ci.op[0])
		fr.regs[ci.dst] = t.p.(*Tuple).v[in.Index]
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Value{p: &Iface{t: ci.typ, v: w.get(fr, &ci.op[0])}}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[ci.dst] = w.get(fr, &ci.op[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = w.convert(in.X.Type(), in.Type(), w.get(fr, &ci.op[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = w.convert(in.X.Type(), in.Type(), w.get(fr, &ci.op[0]))
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = w.typeAssert(in, ci.typ, w.get(fr, &ci.op[0]))
	case *ssa.MakeClosure:
		b := make([]Value, len(ci.op)-1)
		for i := range b {
			b[i] = w.get(fr, &ci.op[i+1])
		}
		fr.regs[ci.dst] = Value{p: &Func{fn: in.Fn.(*ssa.Function), bind: b}}
	case *ssa.MakeSlice:
		fr.regs[ci.dst] = w.makeSlice(in, w.get(fr, &ci.op[0]), w.get(fr, &ci.op[1]))
	case *ssa.MakeMap:
		fr.regs[ci.dst] = Value{p: &Map{idx: map[string]int{}}}
	case *ssa.MakeChan:
		n := w.concInt(w.get(fr, &ci.op[0]), 64, true)
		fr.regs[ci.dst] = Value{p: &Chan{cap: int(n)}}
	case *ssa.Slice:
		fr.regs[ci.dst] = w.sliceOp(in, w.get(fr, &ci.op[0]), ci, fr)
	case *ssa.MapUpdate:
		m := w.get(fr, &ci.op[0])
		if m.p == nil {
			w.rtPanic("assignment to entry in nil map")
		}
		w.mapSet(m.p.(*Map), in.Map.Type().Underlying().(*types.Map).Key(), w.get(fr, &ci.op[1]), w.get(fr, &ci.op[2]))
	case *ssa.Range:
		x := w.get(fr, &ci.op[0])
		if isString(in.X.Type()) {
			fr.regs[ci.dst] = Value{p: &Iter{str: strOf(x)}}
		} else {
			it := &Iter{}
			if x.p != nil {
				it.m = w.iterMap(x.p.(*Map))
			}
			fr.regs[ci.dst] = Value{p: it}
		}
	case *ssa.Next:
		fr.regs[ci.dst] = w.next(in, w.get(fr, &ci.op[0]).p.(*Iter))
	case *ssa.Defer:
		d := &deferNode{next: fr.defers}
		d.fn = w.get(fr, &ci.op[0])
		for i := 1; i < len(ci.op); i++ {
			d.args = append(d.args, w.get(fr, &ci.op[i]))
		}
		if in.Call.IsInvoke() {
			d.inv = &in.Call
		}
		fr.defers = d
	case *ssa.RunDefers:
		if fr.defers != nil {
			d := fr.defers
			w.callDeferred(d, retDefer)
			fr.defers = d.next
			return
		}
	case *ssa.Panic:
		v := w.get(fr, &ci.op[0])
		panic(targetPanic{v})
	case *ssa.Select:
		w.doSelect(fr, ci, in)
	case *ssa.Send:
		ch := w.get(fr, &ci.op[0])
		if c, ok := ch.p.(*Chan); ok && len(w.gors) > 0 {
			if w.full(c) && !c.closed {
				w.park(gor{send: c}, "send on full channel")
				return
			}
			w.stall = 0
		}
		if !w.chanSend(ch, w.get(fr, &ci.op[1])) {
			panic(pathEnd{"violation", "deadlock: send on full channel"})
		}
	case *ssa.SliceToArrayPointer:
		x := w.get(fr, &ci.op[0])
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if x.p == nil {
			if n == 0 {
				fr.regs[ci.dst] = Value{}
				break
			}
			w.rtPanic("cannot convert slice to array pointer")
		}
		s := x.p.(*Slice)
		if s.len < n {
			w.rtPanic("cannot convert slice to array pointer: length too short")
		}
		if s.off == 0 && len(s.arr.e) == n {
			c := &Value{p: s.arr}
			fr.regs[ci.dst] = Value{p: c}
		} else {
			panic(unsupported("slice to array pointer"))
		}
	case *ssa.Go:
		if w.initing {
			panic(unsupported("go statement in an initialiser"))
		}
		f := w.get(fr, &ci.op[0])
		var args []Value
		for i := 1; i < len(ci.op); i++ {
			args = append(args, w.get(fr, &ci.op[i]))
		}
		own := w.frames
		w.frames = nil
		if in.Call.IsInvoke() {
			w.invoke(&in.Call, f, args, retRoot, -1)
		} else {
			w.call(f, args, retRoot, -1)
		}
		if len(w.frames) > 0 {
			w.gors = append(append([]gor(nil), w.gors...), gor{frames: w.frames})
			w.stall = 0
		}
		w.frames = own
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	fr.pc++
}

func (w *Worker) doIf(fr *Frame, ci *cinstr) {
	v := w.get(fr, &ci.op[0])
	cb := &fr.fn.blocks[fr.blk]
	if v.p == nil {
		if v.n != 0 {
			w.jump(fr, cb.succs[0])
		} else {
			w.jump(fr, cb.succs[1])
		}
		return
	}
	c := v.p.(*Term)
	if ci.aux != nil {
		// a condition its byte domain decides is no reason to merge
		if k := w.domDecide(c); k != 0 {
			if k > 0 {
				w.jump(fr, cb.succs[0])
			} else {
				w.jump(fr, cb.succs[1])
			}
			return
		}
		if w.tryMerge(fr, c, ci.aux.([]*merge)) {
			return
		}
	}
	if w.branch(c) {
		w.jump(fr, cb.succs[0])
	} else {
		w.jump(fr, cb.succs[1])
	}
}

// domDecide tells whether the domain of the only byte variable of q makes it true (1) or false (-1).
func (w *Worker) domDecide(q *Term) int {
	if len(q.vs) != 1 {
		return 0
	}
	w.ensureDom()
	tt := w.tc.truth(q)
	if tt == nil {
		return 0
	}
	d := &w.dom[q.vs[0]]
	if domEmpty(d, tt) {
		return -1
	}
	for i := range tt {
		if d[i]&^tt[i] != 0 {
			return 0
		}
	}
	return 1
}

func (w *Worker) pureBlock(fr *Frame, b int) (ok bool) {
	cb := &fr.fn.blocks[b]
	for i := range cb.ins {
		switch cb.ins[i].in.(type) {
		case *ssa.If, *ssa.Jump:
		default:
			if !w.pureIns(fr, &cb.ins[i]) {
				return false
			}
		}
	}
	return true
}

func (w *Worker) pureIns(fr *Frame, ci *cinstr) bool {
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		if in.Op == token.QUO || in.Op == token.REM {
			if y := w.get(fr, &ci.op[1]); y.p == nil && y.n == 0 {
				return false
			}
		}
		fr.regs[ci.dst] = w.binop(in.Op, in.X.Type(), in.Y.Type(), w.get(fr, &ci.op[0]), w.get(fr, &ci.op[1]))
	case *ssa.UnOp:
		fr.regs[ci.dst] = w.unop(in, w.get(fr, &ci.op[0]))
	case *ssa.Convert:
		fr.regs[ci.dst] = w.convert(in.X.Type(), in.Type(), w.get(fr, &ci.op[0]))
	case *ssa.ChangeType:
		fr.regs[ci.dst] = w.get(fr, &ci.op[0])
	case *ssa.Extract:
		t, isT := w.get(fr, &ci.op[0]).p.(*Tuple)
		if !isT {
			return false
		}
		fr.regs[ci.dst] = t.v[in.Index]
	case *ssa.Field:
		s, isS := w.get(fr, &ci.op[0]).p.(*Struct)
		if !isS {
			return false
		}
		fr.regs[ci.dst] = s.f[in.Field]
	default:
		return false
	}
	return true
}

func (w *Worker) tryMerge(fr *Frame, c *Term, ms []*merge) bool {
	for _, m := range ms {
		if m.kind == 2 {
			if m.tb >= 0 && !w.pureBlock(fr, m.tb) {
				continue
			}
			if m.eb >= 0 && !w.pureBlock(fr, m.eb) {
				continue
			}
			jb := &fr.fn.blocks[m.join]
			kt, ke := -1, -1
			for i, p := range jb.preds {
				if p == m.fromThen && kt < 0 {
					kt = i
				}
				if p == m.fromElse && ke < 0 {
					ke = i
				}
			}
			var tmp [8]Value
			vals := tmp[:0]
			ok := true
			for i := range jb.phis {
				ph := &jb.phis[i]
				a, b := w.get(fr, &ph.ops[kt]), w.get(fr, &ph.ops[ke])
				wd, _, _ := scalarWidth(ph.t)
				ta, tb := valTerm(w.tc, a, wd), valTerm(w.tc, b, wd)
				vals = append(vals, termVal(w.tc.Ite(c, ta, tb)))
			}
			if !ok {
				continue
			}
			for i := range jb.phis {
				fr.regs[jb.phis[i].dst] = vals[i]
			}
			fr.prev = m.fromThen
			fr.blk = m.join
			fr.pc = 0
			return true
		}
	}
	// condition chains
	cond := c
	cur := -1
	var shared, other int
	var negate bool
	var lastMid int
	for _, m0 := range ms {
		if m0.kind != 1 {
			continue
		}
		m := m0
		negate, shared = m.negate, m.shared
		for n := 0; n < 24; n++ {
			if !w.pureBlock(fr, m.mid) {
				break
			}
			mb := &fr.fn.blocks[m.mid]
			iff := &mb.ins[len(mb.ins)-1]
			d := w.get(fr, &iff.op[0])
			dt := valTerm(w.tc, d, 0)
			// m.tb is the successor index of mid leading to shared
			toShared := dt
			if m.tb == 1 {
				toShared = w.tc.Not(dt)
			}
			if n == 0 {
				// cond so far is "go to shared directly"
				if !negate {
					cond = w.tc.Not(c)
				}
			}
			cond = w.tc.Or(cond, toShared)
			cur = 1
			other = m.other
			lastMid = m.mid
			// continue the chain?
			var nx *merge
			if iff.aux != nil {
				for _, m2 := range iff.aux.([]*merge) {
					if m2.kind == 1 && m2.shared == shared && m2.mid == other {
						nx = m2
						break
					}
				}
			}
			if nx == nil {
				break
			}
			m = nx
		}
		if cur > 0 {
			break
		}
	}
	if cur < 0 {
		return false
	}
	to := other
	if w.branch(cond) {
		to = shared
	}
	fr.blk = lastMid
	w.jump(fr, to)
	return true
}

func (w *Worker) call(fv Value, args []Value, kind int, dst int32) {
	f, ok := fv.p.(*Func)
	if !ok || f == nil {
		if fv.p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		panic(unsupported(fmt.Sprintf("call of %T", fv.p)))
	}
	if f.bltn != nil {
		v := w.builtin(f.bltn, args)
		w.finishInline(v, kind, dst)
		return
	}
	w.callFn(f.fn, args, f.bind, kind, dst)
}

func (w *Worker) finishInline(v Value, kind int, dst int32) {
	if kind == retNormal {
		fr := w.top()
		if dst >= 0 {
			fr.regs[dst] = v
		}
		fr.pc++
	}
}

func (w *Worker) callFn(fn *ssa.Function, args, bind []Value, kind int, dst int32) {
	if fn.Synthetic == "package initializer" {
		w.finishInline(Value{}, kind, dst) // run on demand (ensureInit)
		return
	}
	c := w.P.Func(fn)
	if c.intr != nil {
		v, tail := c.intr(w, &callCtx{fn: c, args: args, bind: bind})
		if tail != nil {
			w.callFn(tail.fn, tail.args, tail.bind, kind, dst)
			return
		}
		w.finishInline(v, kind, dst)
		return
	}
	if c.model != nil {
		w.callFn(c.model, args, nil, kind, dst)
		return
	}
	if c.pre != nil {
		if v, ok := c.pre(w, args); ok {
			w.finishInline(v, kind, dst)
			return
		}
	}
	if c.blocks == nil {
		panic(unsupported("call of external function " + c.name))
	}
	if c.pure != nil {
		if v, ok := w.pureCall(c, args); ok {
			w.finishInline(v, kind, dst)
			return
		}
	}
	w.pushFrame(c, args, bind, kind, dst)
}

// pureCall evaluates all ways through a function without effects at once, if its arguments depend
// on a single byte: the result is a table over that byte then.
func (w *Worker) pureCall(c *cfunc, args []Value) (Value, bool) {
	v := int32(-1)
	for _, a := range args {
		t, ok := a.p.(*Term)
		if !ok {
			if a.p != nil {
				return Value{}, false
			}
			continue
		}
		for _, x := range t.vs {
			if v >= 0 && v != x || w.tc.vars[x].w != 8 {
				return Value{}, false
			}
			v = x
		}
	}
	if v < 0 {
		return Value{}, false
	}
	tc := w.tc
	fr := &Frame{fn: c, regs: make([]Value, c.nregs)}
	for i, q := range c.params {
		fr.regs[q] = args[i]
	}
	guard := make([]*Term, len(c.blocks))
	type edge struct{ from, to int }
	edges := map[edge]*Term{}
	link := func(from, to int, g *Term) {
		e := edge{from, to}
		if old := edges[e]; old != nil {
			g = tc.Or(old, g)
		}
		edges[e] = g
		if guard[to] == nil {
			guard[to] = g
		} else {
			guard[to] = tc.Or(guard[to], g)
		}
	}
	guard[0] = tc.T
	var res *Term
	rt := c.fn.Signature.Results().At(0).Type()
	wd, _, _ := scalarWidth(rt)
	for _, b := range c.pure {
		g := guard[b]
		if g == nil || g == tc.F {
			continue
		}
		cb := &c.blocks[b]
		vals := make([]Value, len(cb.phis))
		for i := range cb.phis {
			ph := &cb.phis[i]
			pw, _, _ := scalarWidth(ph.t)
			var t *Term
			for k, p := range cb.preds {
				e := edges[edge{p, b}]
				if e == nil {
					continue
				}
				x := valTerm(tc, w.get(fr, &ph.ops[k]), pw)
				if t == nil {
					t = x
				} else {
					t = tc.Ite(e, x, t)
				}
			}
			vals[i] = termVal(t)
		}
		for i := range cb.phis {
			fr.regs[cb.phis[i].dst] = vals[i]
		}
		last := len(cb.ins) - 1
		for i := range cb.ins[:last] {
			if _, ok := cb.ins[i].in.(*ssa.DebugRef); ok {
				continue
			}
			if !w.pureIns(fr, &cb.ins[i]) {
				return Value{}, false
			}
		}
		ci := &cb.ins[last]
		switch ci.in.(type) {
		case *ssa.Return:
			x := valTerm(tc, w.get(fr, &ci.op[0]), wd)
			if res == nil {
				res = x
			} else {
				res = tc.Ite(g, x, res)
			}
		case *ssa.Jump:
			link(b, cb.succs[0], g)
		case *ssa.If:
			q := valTerm(tc, w.get(fr, &ci.op[0]), 0)
			switch w.domDecide(q) {
			case 1:
				q = tc.T
			case -1:
				q = tc.F
			}
			link(b, cb.succs[0], tc.And(g, q))
			link(b, cb.succs[1], tc.And(g, tc.Not(q)))
		default:
			return Value{}, false
		}
	}
	if res == nil {
		return Value{}, false
	}
	return termVal(res), true
}

func (w *Worker) invoke(cc *ssa.CallCommon, recv Value, args []Value, kind int, dst int32) {
	if recv.p == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	i, ok := recv.p.(*Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("invoke on %T", recv.p)))
	}
	fn := w.P.Method(i.t, cc.Method)
	if fn == nil {
		panic(unsupported(fmt.Sprintf("no method %s on %s", cc.Method.Name(), i.t)))
	}
	a := make([]Value, 0, len(args)+1)
	a = append(a, i.v)
	a = append(a, args...)
	w.callFn(fn, a, nil, kind, dst)
}

// ---- memory -----------------------------------------------------------------------------

func (w *Worker) nilDeref() {
	w.rtPanic("invalid memory address or nil pointer dereference")
}

func (w *Worker) load(ptr Value) Value {
	switch p := ptr.p.(type) {
	case *Value:
		if p.p == nil {
			return *p
		}
		return copyVal(*p)
	case *Elem:
		v := p.arr.e[p.i]
		if v.p == nil {
			return v
		}
		return copyVal(v)
	case *SymElem:
		return w.loadSym(p)
	case nil:
		w.nilDeref()
	}
	panic(unsupported(fmt.Sprintf("load through %T", ptr.p)))
}

func (w *Worker) storeTo(ptr, v Value) {
	switch p := ptr.p.(type) {
	case *Value:
		w.store(p, v)
		return
	case *Elem:
		w.store(&p.arr.e[p.i], v)
		return
	case *SymElem:
		i := int(w.concretize(p.idx))
		c := &p.arr.e[p.off+i]
		for _, f := range p.path {
			c = &c.p.(*Struct).f[f]
		}
		w.store(c, v)
		return
	case nil:
		w.nilDeref()
	}
	panic(unsupported(fmt.Sprintf("store through %T", ptr.p)))
}

func (w *Worker) fieldAddr(ptr Value, f int) Value {
	switch p := ptr.p.(type) {
	case *Value:
		s, ok := p.p.(*Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field address in %T", p.p)))
		}
		return Value{p: &s.f[f]}
	case *Elem:
		s, ok := p.arr.e[p.i].p.(*Struct)
		if !ok {
			panic(unsupported("field address in non-struct element"))
		}
		return Value{p: &s.f[f]}
	case *SymElem:
		q := *p
		q.path = append(append([]int(nil), p.path...), f)
		return Value{p: &q}
	case nil:
		w.nilDeref()
	}
	panic(unsupported(fmt.Sprintf("field address through %T", ptr.p)))
}

// loadSym reads through a pointer with a symbolic index.
func (w *Worker) loadSym(p *SymElem) Value {
	cells := make([]Value, p.n)
	for i := 0; i < p.n; i++ {
		v := p.arr.e[p.off+i]
		for _, f := range p.path {
			v = v.p.(*Struct).f[f]
		}
		cells[i] = v
	}
	return w.selectVal(cells, p.idx)
}

// selectVal returns cells[idx] for a symbolic in-range idx.
func (w *Worker) selectVal(cells []Value, idx *Term) Value {
	// restrict to indices that are possible
	n := len(cells)
	if n == 1 {
		return copyVal(cells[0])
	}
	scalar := true
	var wd uint8
	for _, c := range cells {
		if c.p != nil {
			t, ok := c.p.(*Term)
			if !ok {
				scalar = false
				break
			}
			wd = t.w
		}
	}
	_ = wd
	if scalar {
		return w.selectScalar(cells, idx)
	}
	// group identical values and fork over the groups
	type group struct {
		v    Value
		cond *Term
	}
	var gs []group
	for i, c := range cells {
		k := w.tc.Eq(idx, w.tc.Const(idx.w, uint64(i)))
		if k.op == OConst && k.val == 0 {
			continue
		}
		found := false
		for j := range gs {
			if sameVal(gs[j].v, c) {
				gs[j].cond = w.tc.Or(gs[j].cond, k)
				found = true
				break
			}
		}
		if !found {
			gs = append(gs, group{c, k})
		}
	}
	for i := range gs {
		if i == len(gs)-1 || w.branch(gs[i].cond) {
			return copyVal(gs[i].v)
		}
	}
	panic("selectVal")
}

func sameVal(a, b Value) bool {
	if a.n == b.n && a.p == b.p {
		return true
	}
	switch x := a.p.(type) {
	case *Str:
		y := strOf(b)
		if b.p == nil {
			return false
		}
		return x.b == nil && y.b == nil && x.s == y.s && !x.opaque && !y.opaque
	case *Struct:
		y, ok := b.p.(*Struct)
		if !ok {
			return false
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *Array:
		y, ok := b.p.(*Array)
		if !ok || len(y.e) != len(x.e) {
			return false
		}
		for i := range x.e {
			if !sameVal(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// selectScalar builds a run-length encoded ite over the table. The result width is that of
// the widest element; callers convert through valTerm with the static width.
func (w *Worker) selectScalar(cells []Value, idx *Term) Value {
	return Value{p: &lazySel{cells, idx}}
}

// lazySel is resolved to a term of the right width by unop/index (which know the type).
type lazySel struct {
	cells []Value
	idx   *Term
}

func (w *Worker) resolveSel(v Value, wd uint8) Value {
	l, ok := v.p.(*lazySel)
	if !ok {
		return v
	}
	c := w.tc
	type run struct {
		lo, hi int
		t      *Term
	}
	var runs []run
	for i, x := range l.cells {
		t := valTerm(c, x, wd)
		if n := len(runs); n > 0 && runs[n-1].t == t {
			runs[n-1].hi = i
			continue
		}
		runs = append(runs, run{i, i, t})
	}
	// affine table (value = index + k)?
	if len(runs) > 4 && wd >= 8 {
		aff := true
		k := runs[0].t
		for i, r := range runs {
			if !r.t.isC() || r.lo != r.hi || !k.isC() || r.t.val != (k.val+uint64(i))&mask(wd) {
				aff = false
				break
			}
		}
		if aff {
			return termVal(c.Add(c.Extend(l.idx, wd, false), k))
		}
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if a == b {
			return runs[a].t
		}
		m := (a + b + 1) / 2
		return c.Ite(c.Ult(l.idx, c.Const(l.idx.w, uint64(runs[m].lo))), build(a, m-1), build(m, b))
	}
	return termVal(build(0, len(runs)-1))
}

func (w *Worker) idxTerm(v Value, t types.Type) (*Term, int64, bool) {
	wd, signed, _ := scalarWidth(t)
	if v.p == nil {
		if signed {
			return nil, sext(v.n, wd), true
		}
		if v.n > math.MaxInt64 {
			return nil, math.MaxInt64, true
		}
		return nil, int64(v.n), true
	}
	return w.tc.Extend(valTerm(w.tc, v, wd), 64, signed), 0, false
}

func (w *Worker) boundsPanic(i any, n int) {
	w.rtPanic(fmt.Sprintf("index out of range [%v] with length %d", i, n))
}

// checkIndex returns a concrete index, or a symbolic one known to be in range.
func (w *Worker) checkIndex(v Value, t types.Type, n int) (int, *Term) {
	sym, i, conc := w.idxTerm(v, t)
	if conc {
		if i < 0 || i >= int64(n) {
			w.boundsPanic(i, n)
		}
		return int(i), nil
	}
	if !w.branch(w.tc.Ult(sym, w.tc.Const(64, uint64(n)))) {
		w.boundsPanic("symbolic", n)
	}
	if n == 1 {
		return 0, nil
	}
	return 0, sym
}

func (w *Worker) indexAddr(in *ssa.IndexAddr, x, iv Value) Value {
	switch in.X.Type().Underlying().(type) {
	case *types.Slice:
		if x.p == nil {
			w.checkIndex(iv, in.Index.Type(), 0)
		}
		s := x.p.(*Slice)
		i, sym := w.checkIndex(iv, in.Index.Type(), s.len)
		if sym != nil {
			if anySymbolic(s.arr.e[s.off : s.off+s.len]) {
				// a lookup in symbolic data: one path per index
				return Value{p: &Elem{s.arr, s.off + int(w.concretize(sym))}}
			}
			return Value{p: &SymElem{arr: s.arr, off: s.off, n: s.len, idx: sym}}
		}
		return Value{p: &Elem{s.arr, s.off + i}}
	case *types.Pointer:
		var arr *Array
		switch p := x.p.(type) {
		case nil:
			w.nilDeref()
		case *Value:
			arr, _ = p.p.(*Array)
		case *Elem:
			arr, _ = p.arr.e[p.i].p.(*Array)
		case *SymElem:
			// array inside a symbolically indexed aggregate
			i, sym := w.checkIndex(iv, in.Index.Type(), int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
			if sym != nil {
				i = int(w.concretize(sym))
			}
			cells := make([]Value, p.n)
			for k := 0; k < p.n; k++ {
				v := p.arr.e[p.off+k]
				for _, f := range p.path {
					v = v.p.(*Struct).f[f]
				}
				cells[k] = v.p.(*Array).e[i]
			}
			return Value{p: &SymElem{arr: &Array{cells}, off: 0, n: p.n, idx: p.idx}}
		}
		if arr == nil {
			panic(unsupported(fmt.Sprintf("index address through %T", x.p)))
		}
		i, sym := w.checkIndex(iv, in.Index.Type(), len(arr.e))
		if sym != nil {
			return Value{p: &SymElem{arr: arr, off: 0, n: len(arr.e), idx: sym}}
		}
		return Value{p: &Elem{arr, i}}
	}
	panic(unsupported("index address of " + in.X.Type().String()))
}

func anySymbolic(cells []Value) bool {
	for i := range cells {
		if t, ok := cells[i].p.(*Term); ok && t.op != OConst {
			return true
		}
	}
	return false
}

func (w *Worker) index(in *ssa.Index, x, iv Value) Value {
	if isString(in.X.Type()) {
		s := strOf(x)
		i, sym := w.checkIndex(iv, in.Index.Type(), s.len())
		if sym == nil {
			return termVal(s.at(w.tc, i))
		}
		cells := make([]Value, s.len())
		for k := range cells {
			cells[k] = termVal(s.at(w.tc, k))
		}
		if anySymbolic(cells) {
			return cells[int(w.concretize(sym))]
		}
		return w.resolveSel(w.selectScalar(cells, sym), 8)
	}
	a, ok := x.p.(*Array)
	if !ok {
		panic(unsupported(fmt.Sprintf("index of %T", x.p)))
	}
	i, sym := w.checkIndex(iv, in.Index.Type(), len(a.e))
	if sym == nil {
		return a.e[i]
	}
	return w.fixSel(w.selectVal(a.e, sym), in.Type())
}

func (w *Worker) fixSel(v Value, t types.Type) Value {
	if _, ok := v.p.(*lazySel); ok {
		wd, _, ok := scalarWidth(t)
		if !ok {
			// non-scalar types whose elements happen to be nil/zero everywhere
			l := v.p.(*lazySel)
			for _, c := range l.cells {
				if c.n != l.cells[0].n || c.p != l.cells[0].p {
					// floats or mixed nil pointers: concretise
					i := w.concretize(l.idx)
					return l.cells[i]
				}
			}
			return l.cells[0]
		}
		return w.resolveSel(v, wd)
	}
	return v
}

func (w *Worker) makeSlice(in *ssa.MakeSlice, ln, cp Value) Value {
	lw, ls, _ := scalarWidth(in.Len.Type())
	cw, cs, _ := scalarWidth(in.Cap.Type())
	// guard symbolic lengths: negative or huge values panic / exhaust memory
	const huge = 1 << 27
	check := func(v Value, wd uint8, signed bool, what string) int {
		if v.p != nil {
			t := w.tc.Extend(valTerm(w.tc, v, wd), 64, signed)
			if w.branch(w.tc.Slt(t, w.tc.Const(64, 0))) {
				w.rtPanic("makeslice: " + what + " out of range")
			}
			if w.branch(w.tc.Ult(w.tc.Const(64, huge), t)) {
				panic(pathEnd{"violation", "allocation of more than 128 MiB elements requested by input"})
			}
		}
		n := w.concInt(v, wd, signed)
		if n < 0 {
			w.rtPanic("makeslice: " + what + " out of range")
		}
		if n > huge {
			panic(pathEnd{"violation", "allocation of more than 128 MiB elements requested by input"})
		}
		return int(n)
	}
	n := check(ln, lw, ls, "len")
	c := check(cp, cw, cs, "cap")
	if c < n {
		w.rtPanic("makeslice: cap out of range")
	}
	elem := in.Type().Underlying().(*types.Slice).Elem()
	return w.newSlice(elem, n, c)
}

func (w *Worker) newSlice(elem types.Type, n, c int) Value {
	e := make([]Value, c)
	if isAgg(elem) {
		for i := range e {
			e[i] = zero(elem)
		}
	}
	return Value{p: &Slice{arr: &Array{e}, len: n, cap: c}}
}

// sliceBound resolves an optional slice bound.
func (w *Worker) sliceBound(v Value, t types.Type, def int) (*Term, int64) {
	if t == nil {
		return nil, int64(def)
	}
	sym, i, conc := w.idxTerm(v, t)
	if conc {
		return nil, i
	}
	return sym, 0
}

func (w *Worker) sliceOp(in *ssa.Slice, x Value, ci *cinstr, fr *Frame) Value {
	ty := func(v ssa.Value) types.Type {
		if v == nil {
			return nil
		}
		return v.Type()
	}
	lo, hi, mx := w.get(fr, &ci.op[1]), w.get(fr, &ci.op[2]), w.get(fr, &ci.op[3])
	var length, capacity int
	isStr := isString(in.X.Type())
	var arr *Array
	off := 0
	if isStr {
		length = strOf(x).len()
		capacity = length
	} else {
		switch in.X.Type().Underlying().(type) {
		case *types.Slice:
			if x.p != nil {
				s := x.p.(*Slice)
				arr, off, length, capacity = s.arr, s.off, s.len, s.cap
			}
		case *types.Pointer:
			switch p := x.p.(type) {
			case nil:
				w.nilDeref()
			case *Value:
				arr = p.p.(*Array)
			case *Elem:
				arr = p.arr.e[p.i].p.(*Array)
			case *SymElem:
				i := int(w.concretize(p.idx))
				c := &p.arr.e[p.off+i]
				for _, f := range p.path {
					c = &c.p.(*Struct).f[f]
				}
				arr = c.p.(*Array)
			default:
				panic(unsupported("slice of array pointer"))
			}
			length, capacity = len(arr.e), len(arr.e)
		}
	}
	c := w.tc
	ml, mv := w.sliceBound(mx, ty(in.Max), capacity)
	if ml != nil {
		mv = int64(w.concretize(ml))
	}
	if mv < 0 || mv > int64(capacity) {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mv, capacity))
	}
	hl, hv := w.sliceBound(hi, ty(in.High), length)
	if hl != nil {
		if !w.branch(c.Ule(hl, c.Const(64, uint64(mv)))) {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [:symbolic] with capacity %d", mv))
		}
		hv = int64(w.concretize(hl))
	}
	if hv < 0 || hv > mv {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hv, mv))
	}
	ll, lv := w.sliceBound(lo, ty(in.Low), 0)
	if ll != nil {
		if !w.branch(c.Ule(ll, c.Const(64, uint64(hv)))) {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [symbolic:%d]", hv))
		}
		lv = int64(w.concretize(ll))
	}
	if lv < 0 || lv > hv {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lv, hv))
	}
	if isStr {
		return strOf(x).sub(int(lv), int(hv))
	}
	if arr == nil {
		return Value{} // nil slice
	}
	return Value{p: &Slice{arr: arr, off: off + int(lv), len: int(hv - lv), cap: int(mv - lv)}}
}

// ---- maps -------------------------------------------------------------------------------

func (w *Worker) mapFind(m *Map, kt types.Type, k Value) *mapEntry {
	var sb strings.Builder
	conc := keyString(k, kt, &sb)
	if conc {
		if i, ok := m.idx[sb.String()]; ok {
			if e := m.ent[i]; !e.dead {
				return e
			}
		}
		if m.symKey == 0 {
			return nil
		}
	}
	for _, e := range m.ent {
		if e.dead {
			continue
		}
		if w.branch(w.equal(e.key, k, kt)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(m *Map, kt types.Type, k, v Value) {
	if e := w.mapFind(m, kt, k); e != nil {
		w.store(&e.val, v)
		return
	}
	e := &mapEntry{key: k, val: copyVal(v)}
	m.ent = append(m.ent, e)
	m.n++
	var sb strings.Builder
	if keyString(k, kt, &sb) {
		ks := sb.String()
		old, had := m.idx[ks]
		m.idx[ks] = len(m.ent) - 1
		w.onUndo(func() {
			m.ent = m.ent[:len(m.ent)-1]
			m.n--
			if had {
				m.idx[ks] = old
			} else {
				delete(m.idx, ks)
			}
		})
	} else {
		m.symKey++
		w.onUndo(func() {
			m.ent = m.ent[:len(m.ent)-1]
			m.n--
			m.symKey--
		})
	}
}

func (w *Worker) mapDelete(m *Map, kt types.Type, k Value) {
	if e := w.mapFind(m, kt, k); e != nil {
		e.dead = true
		m.n--
		w.onUndo(func() { e.dead = false; m.n++ })
	}
}

// iterMap returns a view of m in iteration order (nondeterministic when requested).
func (w *Worker) iterMap(m *Map) *Map {
	var live []*mapEntry
	for _, e := range m.ent {
		if !e.dead {
			live = append(live, e)
		}
	}
	if w.mapOrder && len(live) > 1 && len(live) <= 4 && w.inRepoFrame() {
		for i := 0; i < len(live)-1; i++ {
			k := w.choose(len(live) - i)
			live[i], live[i+k] = live[i+k], live[i]
		}
	}
	return &Map{ent: live}
}

func (w *Worker) inRepoFrame() bool { return w.top().fn.inRepo }

func (w *Worker) lookup(in *ssa.Lookup, x, k Value) Value {
	if isString(in.X.Type()) {
		s := strOf(x)
		i, sym := w.checkIndex(k, in.Index.Type(), s.len())
		if sym == nil {
			return termVal(s.at(w.tc, i))
		}
		cells := make([]Value, s.len())
		for j := range cells {
			cells[j] = termVal(s.at(w.tc, j))
		}
		return w.resolveSel(w.selectScalar(cells, sym), 8)
	}
	mt := in.X.Type().Underlying().(*types.Map)
	var v Value
	ok := false
	if x.p != nil {
		if e := w.mapFind(x.p.(*Map), mt.Key(), k); e != nil {
			v, ok = copyVal(e.val), true
		}
	}
	if !ok {
		v = zero(mt.Elem())
	}
	if in.CommaOk {
		return Value{p: &Tuple{[]Value{v, mkBool(ok)}}}
	}
	return v
}

func (w *Worker) next(in *ssa.Next, it *Iter) Value {
	if in.IsString {
		s := it.str
		i := int(it.pos.n)
		if i >= s.len() {
			return Value{p: &Tuple{[]Value{mkBool(false), {}, {}}}}
		}
		r, n := w.decodeRune(s, i)
		w.setCell(&it.pos, mkInt(i+n))
		return Value{p: &Tuple{[]Value{mkBool(true), mkInt(i), termVal(r)}}}
	}
	if it.m != nil {
		for i := int(it.pos.n); i < len(it.m.ent); i++ {
			e := it.m.ent[i]
			if e.dead {
				continue
			}
			w.setCell(&it.pos, mkInt(i+1))
			return Value{p: &Tuple{[]Value{mkBool(true), e.key, copyVal(e.val)}}}
		}
	}
	tt := in.Type().(*types.Tuple)
	zk, zv := Value{}, Value{}
	if tt.At(1).Type() != types.Typ[types.Invalid] {
		zk = zero(tt.At(1).Type())
	}
	if tt.At(2).Type() != types.Typ[types.Invalid] {
		zv = zero(tt.At(2).Type())
	}
	return Value{p: &Tuple{[]Value{mkBool(false), zk, zv}}}
}

// decodeRune decodes one UTF-8 sequence at position i (32-bit rune term, size).
func (w *Worker) decodeRune(s *Str, i int) (*Term, int) {
	c := w.tc
	n := s.len() - i
	b0 := s.at(c, i)
	k32 := func(v uint64) *Term { return c.Const(32, v) }
	bad := k32(0xFFFD)
	rng := func(b *Term, lo, hi uint64) *Term {
		return c.And(c.Ule(c.Const(8, lo), b), c.Ule(b, c.Const(8, hi)))
	}
	if w.branch(c.Ult(b0, c.Const(8, 0x80))) {
		return c.Zext(b0, 32), 1
	}
	part := func(b *Term, m uint64, sh uint64) *Term {
		return c.Bin(OShl, c.Bin(OBand, c.Zext(b, 32), k32(m)), k32(sh))
	}
	or := func(a ...*Term) *Term {
		r := a[0]
		for _, x := range a[1:] {
			r = c.Bin(OBor, r, x)
		}
		return r
	}
	if w.branch(c.Not(rng(b0, 0xC2, 0xF4))) {
		return bad, 1
	}
	if n < 2 {
		return bad, 1
	}
	b1 := s.at(c, i+1)
	if w.branch(rng(b0, 0xC2, 0xDF)) {
		if !w.branch(rng(b1, 0x80, 0xBF)) {
			return bad, 1
		}
		return or(part(b0, 0x1F, 6), part(b1, 0x3F, 0)), 2
	}
	if w.branch(rng(b0, 0xE0, 0xEF)) {
		ok := c.And(rng(b1, 0x80, 0xBF), c.And(
			c.Or(c.Not(c.Eq(b0, c.Const(8, 0xE0))), c.Ule(c.Const(8, 0xA0), b1)),
			c.Or(c.Not(c.Eq(b0, c.Const(8, 0xED))), c.Ule(b1, c.Const(8, 0x9F)))))
		if !w.branch(ok) || n < 3 {
			return bad, 1
		}
		b2 := s.at(c, i+2)
		if !w.branch(rng(b2, 0x80, 0xBF)) {
			return bad, 1
		}
		return or(part(b0, 0x0F, 12), part(b1, 0x3F, 6), part(b2, 0x3F, 0)), 3
	}
	ok := c.And(rng(b1, 0x80, 0xBF), c.And(
		c.Or(c.Not(c.Eq(b0, c.Const(8, 0xF0))), c.Ule(c.Const(8, 0x90), b1)),
		c.Or(c.Not(c.Eq(b0, c.Const(8, 0xF4))), c.Ule(b1, c.Const(8, 0x8F)))))
	if !w.branch(ok) || n < 4 {
		return bad, 1
	}
	b2, b3 := s.at(c, i+2), s.at(c, i+3)
	if !w.branch(c.And(rng(b2, 0x80, 0xBF), rng(b3, 0x80, 0xBF))) {
		return bad, 1
	}
	return or(part(b0, 0x07, 18), part(b1, 0x3F, 12), part(b2, 0x3F, 6), part(b3, 0x3F, 0)), 4
}

// encodeRune returns the UTF-8 encoding of a 32-bit rune term.
func (w *Worker) encodeRune(r *Term) []*Term {
	c := w.tc
	if r.isC() {
		var o []*Term
		for _, b := range []byte(string(rune(int32(r.val)))) {
			o = append(o, c.bytec[b])
		}
		return o
	}
	k := func(v uint64) *Term { return c.Const(32, v) }
	low := func(t *Term) *Term { return c.Trunc(t, 8) }
	part := func(sh, m, o uint64) *Term {
		return low(c.Bin(OBor, c.Bin(OBand, c.Bin(OLshr, r, k(sh)), k(m)), k(o)))
	}
	if w.branch(c.Ult(r, k(0x80))) {
		return []*Term{low(r)}
	}
	if w.branch(c.Ult(r, k(0x800))) {
		return []*Term{part(6, 0x1F, 0xC0), part(0, 0x3F, 0x80)}
	}
	bad := c.Or(c.And(c.Ule(k(0xD800), r), c.Ule(r, k(0xDFFF))), c.Ult(k(0x10FFFF), r))
	if w.branch(bad) {
		return []*Term{c.bytec[0xEF], c.bytec[0xBF], c.bytec[0xBD]}
	}
	if w.branch(c.Ult(r, k(0x10000))) {
		return []*Term{part(12, 0x0F, 0xE0), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
	}
	return []*Term{part(18, 0x07, 0xF0), part(12, 0x3F, 0x80), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
}

// ---- channels ---------------------------------------------------------------------------

// full says whether nothing can be sent to a channel: a buffered one holds what it can, of an
// unbuffered one nobody waits to receive.
func (w *Worker) full(c *Chan) bool {
	if c.cap > 0 || len(c.q) > 0 {
		return len(c.q) >= c.cap
	}
	for _, g := range w.gors {
		if g.wait == c {
			return false
		}
	}
	return true
}

// park lets another goroutine run since the current one cannot go on. Goroutines run until they
// cannot go on, in turn: one schedule of many.
func (w *Worker) park(g gor, what string) {
	w.stall++
	if w.stall > len(w.gors)+1 {
		panic(pathEnd{"violation", "deadlock: " + what})
	}
	g.frames, g.main = w.frames, !w.curGo
	w.gors = append(append([]gor(nil), w.gors...), g)
	w.nextGo()
}

func (w *Worker) nextGo() {
	g := w.gors[0]
	w.gors = append([]gor(nil), w.gors[1:]...)
	w.frames, w.curGo = g.frames, !g.main
}

func (w *Worker) chanSend(ch, v Value) bool {
	if ch.p == nil {
		panic(pathEnd{"violation", "deadlock: send on nil channel"})
	}
	c := ch.p.(*Chan)
	if c.closed {
		w.rtPanic("send on closed channel")
	}
	if w.full(c) {
		return false
	}
	old := c.q
	c.q = append(append([]Value(nil), c.q...), v)
	w.onUndo(func() { c.q = old })
	return true
}

func (w *Worker) chanRecv(ch Value, elem types.Type) (Value, bool, bool) {
	if ch.p == nil {
		return Value{}, false, false
	}
	c := ch.p.(*Chan)
	if len(c.q) > 0 {
		old := c.q
		v := c.q[0]
		c.q = c.q[1:]
		w.onUndo(func() { c.q = old })
		return v, true, true
	}
	if c.closed {
		return zero(elem), false, true
	}
	return Value{}, false, false
}

func (w *Worker) doSelect(fr *Frame, ci *cinstr, in *ssa.Select) {
	// result tuple: index, recvOk, recv values...
	var ready []int
	for i, s := range in.States {
		ch := w.get(fr, &ci.op[2*i])
		if ch.p == nil {
			continue
		}
		c := ch.p.(*Chan)
		if s.Dir == types.RecvOnly {
			if len(c.q) > 0 || c.closed {
				ready = append(ready, i)
			}
			for _, g := range w.gors {
				if g.send == c && len(c.q) == 0 {
					panic(unsupported("select on a channel another goroutine sends to"))
				}
			}
		} else if !w.full(c) || c.closed {
			ready = append(ready, i)
		}
	}
	res := []Value{{}, {}}
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			res = append(res, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	if len(ready) == 0 {
		if in.Blocking {
			if len(w.gors) > 0 {
				panic(unsupported("select that waits for another goroutine"))
			}
			panic(pathEnd{"violation", "deadlock: blocking select"})
		}
		res[0] = Value{n: ^uint64(0)}
		fr.regs[ci.dst] = Value{p: &Tuple{res}}
		return
	}
	k := ready[w.choose(len(ready))]
	res[0] = mkInt(k)
	s := in.States[k]
	if s.Dir == types.RecvOnly {
		v, ok, _ := w.chanRecv(w.get(fr, &ci.op[2*k]), s.Chan.Type().Underlying().(*types.Chan).Elem())
		res[1] = mkBool(ok)
		j := 2
		for i := 0; i < k; i++ {
			if in.States[i].Dir == types.RecvOnly {
				j++
			}
		}
		res[j] = v
	} else {
		w.chanSend(w.get(fr, &ci.op[2*k]), w.get(fr, &ci.op[2*k+1]))
	}
	fr.regs[ci.dst] = Value{p: &Tuple{res}}
}

// okUninit lists globals of packages without executed initialisers whose zero value is harmless.
var okUninit = map[string]bool{
	"reflect.dummy": true,
}
