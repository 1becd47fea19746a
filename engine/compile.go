package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type opKind uint8

const (
	kReg opKind = iota
	kConst
	kGlobal
)

type operand struct {
	k opKind
	i int32
	v Value
}

type cinstr struct {
	in  ssa.Instruction
	dst int32
	op  []operand
	typ types.Type // result type or relevant type (canonical)
	aux any
}

type cphi struct {
	dst int32
	ops []operand
	t   types.Type
}

type cblock struct {
	idx   int
	phis  []cphi
	ins   []cinstr
	succs []int
	// predIdx[p] = index of predecessor block p among the phi edges (first match)
	preds []int
}

type cfunc struct {
	fn     *ssa.Function
	name   string
	nregs  int32
	params []int32
	free   []int32
	blocks []cblock
	intr   Intrinsic
	model  *ssa.Function
	recov  int
	pre    func(w *Worker, args []Value) (Value, bool) // may answer a call
	post   func(w *Worker, args []Value, res Value)    // sees the result of a call
	inRepo bool
	pure   []int // block order of a loop-free function without effects, see pureCall
}

// Program is shared by all workers.
type Program struct {
	prog    *ssa.Program
	mu      sync.RWMutex
	funcs   map[*ssa.Function]*cfunc
	buildMu sync.Mutex
	globals map[*ssa.Global]int32
	gl      []*ssa.Global

	tmu   sync.Mutex
	canon typeutil.Map
	fast  sync.Map // types.Type -> types.Type

	mmu     sync.RWMutex
	methods map[methKey]*ssa.Function

	models map[string]*ssa.Function
	asrt   sync.Map
	repo   string // import path prefix of the code under test

	runtimeErr types.Type // runtime.errorString
	rtypePtr   types.Type // *reflect.rtype
}

type methKey struct {
	t    types.Type
	name string
}

func NewProgram(p *ssa.Program) *Program {
	pr := &Program{prog: p, funcs: map[*ssa.Function]*cfunc{}, globals: map[*ssa.Global]int32{}, methods: map[methKey]*ssa.Function{}, models: map[string]*ssa.Function{}}
	pr.canon.SetHasher(typeutil.MakeHasher())
	return pr
}

// Canon returns the canonical representative of a type (so identity is pointer equality).
func (p *Program) Canon(t types.Type) types.Type {
	t = types.Unalias(t)
	if r, ok := p.fast.Load(t); ok {
		return r.(types.Type)
	}
	p.tmu.Lock()
	defer p.tmu.Unlock()
	var r types.Type
	if x := p.canon.At(t); x != nil {
		r = x.(types.Type)
	} else {
		r = t
		p.canon.Set(t, t)
	}
	p.fast.Store(t, r)
	return r
}

func (p *Program) Method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	p.mmu.RLock()
	f, ok := p.methods[k]
	p.mmu.RUnlock()
	if ok {
		return f
	}
	p.buildMu.Lock()
	f = p.prog.LookupMethod(t, m.Pkg(), m.Name())
	p.buildMu.Unlock()
	p.mmu.Lock()
	p.methods[k] = f
	p.mmu.Unlock()
	return f
}

func (p *Program) Func(f *ssa.Function) *cfunc {
	p.mu.RLock()
	c, ok := p.funcs[f]
	p.mu.RUnlock()
	if ok {
		return c
	}
	c = p.compile(f)
	p.mu.Lock()
	if d, ok := p.funcs[f]; ok {
		c = d
	} else {
		p.funcs[f] = c
	}
	p.mu.Unlock()
	return c
}

func (p *Program) globalIdx(g *ssa.Global) int32 {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := int32(len(p.gl))
	p.gl = append(p.gl, g)
	p.globals[g] = i
	return i
}

// funcName is the full name used for intrinsics and models; generic instances use their origin's name.
func funcName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (p *Program) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(unsupported("const of type parameter"))
	}
	if _, _, ok := scalarWidth(t); ok {
		w, _, _ := scalarWidth(t)
		if c.Value.Kind() == constant.Bool {
			return mkBool(constant.BoolVal(c.Value))
		}
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return Value{n: uint64(i) & mask(w)}
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return Value{n: u & mask(w)}
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return mkStrC(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStrC(string(rune(i)))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(c.Value)
		if b := t.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	}
	if _, ok := t.Underlying().(*types.Basic); ok { // complex
		return Value{p: "complex"}
	}
	return zero(t)
}

func (p *Program) compile(f *ssa.Function) *cfunc {
	c := &cfunc{fn: f, name: funcName(f), recov: -1}
	if f.Pkg != nil {
		c.inRepo = strings.HasPrefix(f.Pkg.Pkg.Path(), p.repo)
	}
	if in, ok := intrinsics[c.name]; ok {
		c.intr = in
		return c
	}
	switch c.name {
	case "time.dateToAbsDays":
		c.post = (*Worker).noteCivil
	case "(time.absDays).date":
		c.pre = (*Worker).civilDate
	}
	if m, ok := p.models[c.name]; ok {
		c.model = m
		return c
	}
	p.buildMu.Lock()
	if f.Blocks == nil {
		if f.Pkg != nil {
			f.Pkg.Build()
		} else if o := f.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	p.buildMu.Unlock()
	if f.Blocks == nil {
		return c
	}
	c.pure = pureOrder(f)
	regs := map[ssa.Value]int32{}
	alloc := func(v ssa.Value) int32 {
		i := c.nregs
		c.nregs++
		regs[v] = i
		return i
	}
	for _, q := range f.Params {
		c.params = append(c.params, alloc(q))
	}
	for _, q := range f.FreeVars {
		c.free = append(c.free, alloc(q))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	mkop := func(v ssa.Value) operand {
		switch v := v.(type) {
		case *ssa.Const:
			return operand{k: kConst, v: p.constVal(v)}
		case *ssa.Global:
			return operand{k: kGlobal, i: p.globalIdx(v)}
		case *ssa.Function:
			return operand{k: kConst, v: Value{p: &Func{fn: v}}}
		case *ssa.Builtin:
			return operand{k: kConst, v: Value{p: &Func{bltn: v}}}
		case nil:
			return operand{k: kConst}
		}
		i, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %s in %s", v.Name(), f))
		}
		return operand{k: kReg, i: i}
	}
	c.blocks = make([]cblock, len(f.Blocks))
	for bi, b := range f.Blocks {
		cb := &c.blocks[bi]
		cb.idx = bi
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				cp := cphi{dst: regs[ph], t: ph.Type()}
				for _, e := range ph.Edges {
					cp.ops = append(cp.ops, mkop(e))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
				ci.typ = v.Type()
			}
			var ops []ssa.Value
			switch in := in.(type) {
			case *ssa.Call:
				ops = callOps(&in.Call)
			case *ssa.Defer:
				ops = callOps(&in.Call)
			case *ssa.Go:
				ops = callOps(&in.Call)
			case *ssa.BinOp:
				ops = []ssa.Value{in.X, in.Y}
			case *ssa.UnOp:
				ops = []ssa.Value{in.X}
			case *ssa.MakeClosure:
				ops = append([]ssa.Value{in.Fn}, in.Bindings...)
			case *ssa.MakeInterface:
				ops = []ssa.Value{in.X}
				ci.typ = p.Canon(in.X.Type())
			case *ssa.TypeAssert:
				ops = []ssa.Value{in.X}
				ci.typ = p.Canon(in.AssertedType)
			case *ssa.Slice:
				ops = []ssa.Value{in.X, in.Low, in.High, in.Max}
			case *ssa.Return:
				ops = in.Results
			case *ssa.Select:
				for _, s := range in.States {
					ops = append(ops, s.Chan, s.Send)
				}
			default:
				var rands []*ssa.Value
				for _, o := range in.Operands(rands) {
					ops = append(ops, *o)
				}
			}
			for _, o := range ops {
				ci.op = append(ci.op, mkop(o))
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	if f.Recover != nil {
		c.recov = f.Recover.Index
	}
	p.findMerges(c)
	return c
}

func callOps(cc *ssa.CallCommon) []ssa.Value {
	return append([]ssa.Value{cc.Value}, cc.Args...)
}

// ---- if-merging -------------------------------------------------------------------------

// merge describes a side-effect-free region following a conditional that can be evaluated
// on both sides at once.
type merge struct {
	// kind 1: condition chain: the block `mid` is pure and ends in an If sharing target with us.
	// kind 2: diamond/triangle joining at block join.
	kind     int
	mid      int  // pure block evaluated speculatively (kind 1), or -1
	negate   bool // kind 1: the speculated block is our else-successor (c || d), else (c && d)
	shared   int  // kind 1: common target
	other    int  // kind 1: the other target of mid
	tb, eb   int  // kind 2: pure blocks on the then / else side (-1: direct edge)
	join     int
	fromThen int // predecessor block index used for phi selection
	fromElse int
}

func pureInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			if _, ok := in.Y.(*ssa.Const); !ok {
				return false
			}
			return !isFloat(in.X.Type())
		}
		if _, _, ok := scalarWidth(in.X.Type()); ok {
			return true
		}
		return false
	case *ssa.UnOp:
		return in.Op != token.MUL && in.Op != token.ARROW && !isFloat(in.X.Type())
	case *ssa.Convert:
		_, _, ok1 := scalarWidth(in.X.Type())
		_, _, ok2 := scalarWidth(in.Type())
		return ok1 && ok2
	case *ssa.ChangeType, *ssa.Extract, *ssa.Field:
		return true
	case *ssa.DebugRef:
		return true
	}
	return false
}

// pureOrder is the topological order of the blocks of a function of scalars that has neither
// loops, calls, memory accesses nor ways to fail, nil for all others.
func pureOrder(f *ssa.Function) []int {
	if len(f.Blocks) < 2 || len(f.Blocks) > 64 || len(f.FreeVars) > 0 || f.Signature.Results().Len() != 1 {
		return nil
	}
	scalar := func(t types.Type) bool {
		_, _, ok := scalarWidth(t)
		return ok
	}
	if !scalar(f.Signature.Results().At(0).Type()) {
		return nil
	}
	for _, q := range f.Params {
		if !scalar(q.Type()) {
			return nil
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
			case *ssa.Phi:
				if !scalar(in.Type()) {
					return nil
				}
			case *ssa.BinOp:
				if in.Op == token.QUO || in.Op == token.REM || !pureInstr(in) {
					return nil
				}
			default:
				if !pureInstr(in) {
					return nil
				}
			}
		}
	}
	state := make([]int8, len(f.Blocks))
	var order []int
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		state[b.Index] = 1
		for _, s := range b.Succs {
			if state[s.Index] == 1 || state[s.Index] == 0 && !visit(s) {
				return false
			}
		}
		state[b.Index] = 2
		order = append(order, b.Index)
		return true
	}
	if !visit(f.Blocks[0]) {
		return nil
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	return order
}

func (p *Program) findMerges(c *cfunc) {
	f := c.fn
	pure := make([]bool, len(f.Blocks))
	for i, b := range f.Blocks {
		ok := len(b.Preds) == 1 && len(b.Instrs) <= 12
		for j, in := range b.Instrs {
			if j == len(b.Instrs)-1 {
				break
			}
			if !pureInstr(in) {
				ok = false
				break
			}
		}
		pure[i] = ok
	}
	jumpTo := func(b int) int {
		bb := f.Blocks[b]
		if _, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.Jump); ok {
			return bb.Succs[0].Index
		}
		return -1
	}
	for i, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok {
			continue
		}
		t, e := b.Succs[0].Index, b.Succs[1].Index
		if t == e {
			continue
		}
		cb := &c.blocks[i]
		ci := &cb.ins[len(cb.ins)-1]
		scalarPhis := func(j int) bool {
			for _, ph := range c.blocks[j].phis {
				if _, _, ok := scalarWidth(ph.t); !ok {
					return false
				}
			}
			return true
		}
		var ms []*merge
		// diamonds and triangles
		tj, ej := -1, -1
		if pure[t] {
			tj = jumpTo(t)
		}
		if pure[e] {
			ej = jumpTo(e)
		}
		switch {
		case tj >= 0 && tj == ej && scalarPhis(tj):
			ms = append(ms, &merge{kind: 2, tb: t, eb: e, join: tj, fromThen: t, fromElse: e})
		case tj >= 0 && tj == e && scalarPhis(e):
			ms = append(ms, &merge{kind: 2, tb: t, eb: -1, join: e, fromThen: t, fromElse: i})
		case ej >= 0 && ej == t && scalarPhis(t):
			ms = append(ms, &merge{kind: 2, tb: -1, eb: e, join: t, fromThen: i, fromElse: e})
		}
		// chains
		isIf := func(k int) (*ssa.BasicBlock, bool) {
			bb := f.Blocks[k]
			_, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.If)
			return bb, ok
		}
		samePhi := func(target, p1, p2 int) bool {
			tb := f.Blocks[target]
			i1, i2 := -1, -1
			for k, pr := range tb.Preds {
				if pr.Index == p1 {
					i1 = k
				}
				if pr.Index == p2 {
					i2 = k
				}
			}
			for _, in := range tb.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				a, b := ph.Edges[i1], ph.Edges[i2]
				if a == b {
					continue
				}
				ca, ok1 := a.(*ssa.Const)
				cb, ok2 := b.(*ssa.Const)
				if ok1 && ok2 && ca.Value != nil && cb.Value != nil && constant.Compare(ca.Value, token.EQL, cb.Value) {
					continue
				}
				return false
			}
			return true
		}
		if pure[e] {
			if bb, ok := isIf(e); ok {
				for k := 0; k < 2; k++ {
					if bb.Succs[k].Index == t && bb.Succs[1-k].Index != t && samePhi(t, i, e) {
						ms = append(ms, &merge{kind: 1, mid: e, negate: true, shared: t, other: bb.Succs[1-k].Index, tb: k})
					}
				}
			}
		}
		if pure[t] {
			if bb, ok := isIf(t); ok {
				for k := 0; k < 2; k++ {
					if bb.Succs[k].Index == e && bb.Succs[1-k].Index != e && samePhi(e, i, t) {
						ms = append(ms, &merge{kind: 1, mid: t, negate: false, shared: e, other: bb.Succs[1-k].Index, tb: k})
					}
				}
			}
		}
		if len(ms) > 0 {
			ci.aux = ms
		}
	}
}
