package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Task is one harness function with concrete parameters.
type Task struct {
	Prop    string
	Harness string // registered name
	Func    *ssa.Function
	Params  []int
	Step    int64

	mu         sync.Mutex
	Paths      int64 // completed
	Infeasible int64 // ended by an assumption
	Incomplete map[string]int64
	Covers     map[string]int64
	Samples    []Sample
	Viol       []*Candidate
	violN      int64
	Blind      []Sample
	nblind     int64
	Asserts    map[string]int64
	started    time.Time
	dur        time.Duration
	open       int64 // queued or running items
	nsample    int64
}

func (t *Task) Name() string { return fmt.Sprintf("%s%v", t.Harness, t.Params) }

// Sample is a concretised path, used to validate the encoding against the real code.
type Sample struct {
	Harness string   `json:"harness"`
	Params  []int    `json:"params"`
	Inputs  []uint64 `json:"inputs"`
	Obs     []string `json:"obs"`
	PC      int      `json:"-"`
	desc    string
}

// Candidate is a violation found symbolically; it is reported only after native replay.
type Candidate struct {
	Task   *Task
	What   string
	Where  string
	Inputs []uint64
	Desc   string
	Kind   string // violation or limit
}

type item struct {
	t      *Task
	prefix []Decision
}

// Explorer coordinates the workers.
type Explorer struct {
	P        *Program
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []item
	active   int
	idle     int32
	stop     int32
	deadline time.Time
	confirm  func(*Task, Sample) bool
	settle   time.Duration
	settled  bool

	confirming int64

	nw      int
	workers []*Worker
	z3ms    int
	maxViol int
	sampleN int
	auditN  int64
	verbose bool

	assertMu sync.Mutex
	asserts  map[string]int64
	unkAsrt  map[string]int64
	dropped  int64
	nowSec   int64
	funcs    map[*cfunc]int64
	dbg      bool
}

func (x *Explorer) noteAssert(label string) {
	x.assertMu.Lock()
	x.asserts[label]++
	x.assertMu.Unlock()
}

func (x *Explorer) noteUnknownAssert(w *Worker, label string) {
	x.assertMu.Lock()
	x.unkAsrt[label]++
	x.assertMu.Unlock()
}

func (x *Explorer) maybeDonate(w *Worker) {
	if atomic.LoadInt32(&x.idle) == 0 || len(w.stack) < 2 || w.task == nil {
		return
	}
	x.mu.Lock()
	if len(x.queue) < int(atomic.LoadInt32(&x.idle)) {
		s := w.stack[0]
		w.stack = w.stack[1:]
		p := append([]Decision(nil), w.dec[:s.decLen]...)
		p = append(p, s.forced...)
		atomic.AddInt64(&w.task.open, 1)
		x.queue = append(x.queue, item{w.task, p})
		x.cond.Signal()
	}
	x.mu.Unlock()
}

func (x *Explorer) next() (item, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.active--
	atomic.AddInt32(&x.idle, 1)
	defer atomic.AddInt32(&x.idle, -1)
	for {
		if atomic.LoadInt32(&x.stop) != 0 {
			x.dropped += int64(len(x.queue))
			x.queue = nil
			x.cond.Broadcast()
			return item{}, false
		}
		if n := len(x.queue); n > 0 {
			it := x.queue[0]
			x.queue = x.queue[1:]
			x.active++
			return it, true
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return item{}, false
		}
		x.cond.Wait()
	}
}

func (x *Explorer) Run(tasks []*Task) {
	x.cond = sync.NewCond(&x.mu)
	for _, t := range tasks {
		t.open = 1
		x.queue = append(x.queue, item{t: t})
	}
	x.active = x.nw
	var wg sync.WaitGroup
	for i := 0; i < x.nw; i++ {
		w := x.newWorker(i)
		x.workers = append(x.workers, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				it, ok := x.next()
				if !ok {
					break
				}
				w.runItem(it)
				if atomic.AddInt64(&it.t.open, -1) == 0 {
					it.t.dur = time.Since(it.t.started)
				}
			}
			w.sol.Close()
		}()
	}
	done := make(chan bool)
	go func() {
		tk := time.NewTicker(200 * time.Millisecond)
		defer tk.Stop()
		n := 0
		for {
			select {
			case <-done:
				return
			case <-tk.C:
				x.mu.Lock()
				late := time.Now().After(x.deadline)
				x.mu.Unlock()
				if late {
					atomic.StoreInt32(&x.stop, 1)
					x.mu.Lock()
					x.cond.Broadcast()
					x.mu.Unlock()
				}
				n++
				if x.verbose && n%25 == 0 {
					var p, f int64
					for _, w := range x.workers {
						p += atomic.LoadInt64(&w.paths)
						f += atomic.LoadInt64(&w.forks)
					}
					x.mu.Lock()
					fmt.Fprintf(os.Stderr, "[%ds] paths=%d forks=%d queue=%d active=%d\n", n/5, p, f, len(x.queue), x.active)
					x.mu.Unlock()
				}
			}
		}
	}()
	wg.Wait()
	close(done)
	for _, w := range x.workers {
		for f, n := range w.entered {
			x.funcs[f] += n
		}
	}
}

func (x *Explorer) newWorker(id int) *Worker {
	tc := NewTermCtx()
	w := &Worker{id: id, P: x.P, tc: tc, sol: NewSolver(tc, x.z3ms), X: x, entered: map[*cfunc]int64{}, nowSec: x.nowSec}
	w.initState = map[*ssa.Package]int{}
	w.initFail = map[*ssa.Package]string{}
	if x.dbg {
		w.dbgSites = map[string]int64{}
	}
	return w
}

// ensureInit runs the initialiser of a package on first touch of one of its globals.
func (w *Worker) ensureInit(p *ssa.Package) {
	if p == nil || w.initState[p] != 0 {
		return
	}
	w.initState[p] = 1
	path := p.Pkg.Path()
	if deniedInit(path) {
		w.initFail[p] = "package initialiser not executed"
		w.initState[p] = 2
		return
	}
	init := p.Func("init")
	if init == nil {
		w.initState[p] = 2
		return
	}
	// save the state of the interrupted instruction
	sf, su := w.frames, w.undo
	siu, sip, sid, sin, sio, sic := w.instrUndo, w.instrPC, w.instrDec, w.instrIn, w.instrObs, w.instrCov
	steps, ms := w.steps, w.maxStep
	wasInit := w.initing
	w.initing = true
	w.undo = nil
	w.frames = nil
	w.maxStep = 1 << 60
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if w.X.verbose {
					fmt.Fprintf(os.Stderr, "init of %s failed: %s at %s\n", path, msg, w.where())
				}
				w.initFail[p] = "package initialiser failed: " + msg
			}
		}()
		c := w.P.Func(init)
		w.pushFrame(c, nil, nil, retRoot, -1)
		w.loop(0)
	}()
	w.frames, w.undo = sf, su
	w.instrUndo, w.instrPC, w.instrDec, w.instrIn, w.instrObs, w.instrCov = siu, sip, sid, sin, sio, sic
	w.steps, w.maxStep = steps, ms
	w.initing = wasInit
	w.initState[p] = 2
}

var deniedPrefixes = []string{"runtime", "syscall", "os", "net", "crypto", "internal/", "vendor/", "log", "testing", "reflect", "plugin", "compress", "mime", "embed", "path/filepath", "io/fs", "os/", "text/template", "html", "encoding/json", "encoding/gob", "encoding/xml", "google", "github.com/spf13", "golang.org/x/sys", "context", "hash/maphash", "math/rand", "unique", "iter", "weak"}

func deniedInit(path string) bool {
	for _, d := range deniedPrefixes {
		if path == d || strings.HasPrefix(path, strings.TrimSuffix(d, "/")+"/") {
			// cheap, pure initialisers that are worth running
			switch path {
			case "internal/bytealg", "crypto/internal/boring/sig", "io/fs", "internal/oserror", "encoding/json", "crypto/cipher", "crypto/des", "crypto/internal/fips140/subtle", "net/http", "net/url", "net/textproto", "net/http/internal/ascii", "vendor/golang.org/x/net/idna", "vendor/golang.org/x/net/http/httpguts", "crypto/rsa", "crypto/sha1", "crypto":
				return false
			}
			return true
		}
	}
	return false
}

// ---- running ----------------------------------------------------------------------------

func (w *Worker) resetPath() {
	w.rollback(0)
	w.frames = nil
	w.gors, w.curGo, w.stall = nil, false, 0
	w.pc = w.pc[:0]
	w.dec = w.dec[:0]
	w.forced, w.fpos = nil, 0
	w.stack = nil
	w.inputs = w.inputs[:0]
	w.obs = w.obs[:0]
	w.covers = w.covers[:0]
	w.steps = 0
	w.nvar = 0
	w.mapOrder = false
	w.unwinding = false
	w.instrUndo, w.instrPC, w.instrDec, w.instrIn, w.instrObs, w.instrCov = 0, 0, 0, 0, 0, 0
}

func (w *Worker) runItem(it item) {
	w.task = it.t
	it.t.mu.Lock()
	if it.t.started.IsZero() {
		it.t.started = time.Now()
	}
	it.t.mu.Unlock()
	w.resetPath()
	w.maxStep = it.t.Step
	if it.prefix != nil {
		w.forced, w.fpos = it.prefix, 0
		w.modelOK = false
	} else {
		w.modelOK = true
	}
	// repo packages are initialised eagerly, in dependency order
	w.initRepo(it.t.Func.Pkg, map[*types.Package]bool{})
	c := w.P.Func(it.t.Func)
	args := make([]Value, len(it.t.Func.Params))
	if len(args) == 1 { // func(p []int)
		e := make([]Value, len(it.t.Params))
		for i, p := range it.t.Params {
			e[i] = mkInt(p)
		}
		args[0] = mkSlice(e)
	}
	first := true
	for {
		if atomic.LoadInt32(&w.X.stop) != 0 {
			w.noteIncomplete("time budget exhausted")
			if n := len(w.stack); n > 0 {
				atomic.AddInt64(&w.X.dropped, int64(n))
			}
			w.stack = nil
			return
		}
		end := w.runPath(func() {
			if first {
				w.pushFrame(c, args, nil, retRoot, -1)
			}
		})
		first = false
		w.endPath(end)
		if len(w.stack) == 0 {
			return
		}
		s := w.stack[len(w.stack)-1]
		w.stack = w.stack[:len(w.stack)-1]
		w.restore(s)
	}
}

func (w *Worker) initRepo(p *ssa.Package, seen map[*types.Package]bool) {
	if seen[p.Pkg] {
		return
	}
	seen[p.Pkg] = true
	for _, im := range p.Pkg.Imports() {
		if strings.HasPrefix(im.Path(), w.P.repo) {
			if ip := w.P.prog.Package(im); ip != nil {
				w.initRepo(ip, seen)
			}
		}
	}
	w.ensureInit(p)
}

func (w *Worker) restore(s *Snapshot) {
	w.rollback(s.undo)
	w.frames = s.frames
	w.gors, w.curGo, w.stall = s.gors, s.curGo, s.stall
	w.pc = w.pc[:s.pcLen]
	w.dec = w.dec[:s.decLen]
	w.forced, w.fpos = s.forced, 0
	w.inputs = w.inputs[:s.inLen]
	w.obs = w.obs[:s.obsLen]
	w.covers = w.covers[:s.ncover]
	w.steps = s.steps
	w.modelOK = s.modelOK
	w.unwinding = false
	if s.modelOK {
		w.setModel(s.model)
	}
}

func (w *Worker) runPath(start func()) (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				end = r
			case unsupported:
				end = pathEnd{"unsupported", string(r) + " @ " + w.where()}
			default:
				if w.X.verbose {
					fmt.Fprintf(os.Stderr, "engine error: %v\n%s\n", r, debug.Stack())
				}
				end = pathEnd{"unsupported", fmt.Sprintf("engine error: %v @ %s", r, w.where())}
			}
		}
	}()
	start()
	for len(w.frames) > 0 {
		w.loopProtected(0)
		if len(w.frames) == 0 && w.curGo {
			w.nextGo()
		}
	}
	return pathEnd{"done", ""}
}

func (w *Worker) noteIncomplete(why string) {
	t := w.task
	t.mu.Lock()
	t.Incomplete[why]++
	t.mu.Unlock()
}

// finishModel makes the current model satisfy the path condition.
func (w *Worker) finishModel() bool {
	if w.fpos < len(w.forced) {
		return false
	}
	if w.modelOK {
		return true
	}
	r, m := w.solveAll(nil)
	if r != SatYes {
		return false
	}
	w.setModel(m)
	w.modelOK = true
	return true
}

func (w *Worker) concreteInputs() ([]uint64, string) {
	var r []uint64
	var sb strings.Builder
	for i, in := range w.inputs {
		v := in.v
		if in.t != nil {
			v = w.tc.Eval(in.t) + uint64(in.add)
		}
		r = append(r, v)
		if i < 60 {
			n := in.name
			if k := strings.IndexByte(n, '#'); k >= 0 {
				n = n[:k]
			}
			if in.kind == "byte" {
				if v >= 32 && v < 127 {
					fmt.Fprintf(&sb, "%s=%q ", n, rune(v))
				} else {
					fmt.Fprintf(&sb, "%s=0x%02x ", n, v)
				}
			} else {
				fmt.Fprintf(&sb, "%s=%d ", n, int64(v))
			}
		}
	}
	return r, strings.TrimSpace(sb.String())
}

func (w *Worker) concreteObs() []string {
	var r []string
	for _, o := range w.obs {
		if isString(o.typ) {
			s := strOf(o.v)
			if s.opaque {
				r = append(r, o.label+"=?")
				continue
			}
			b := make([]byte, s.len())
			for i := range b {
				b[i] = byte(w.tc.Eval(s.at(w.tc, i)))
			}
			r = append(r, fmt.Sprintf("%s=%x", o.label, b))
			continue
		}
		n := o.v.n
		if o.v.p != nil {
			n = w.tc.Eval(valTerm(w.tc, o.v, 64))
		}
		r = append(r, fmt.Sprintf("%s=%d", o.label, int64(n)))
	}
	return r
}

func (w *Worker) endPath(end pathEnd) {
	t := w.task
	atomic.AddInt64(&w.paths, 1)
	switch end.why {
	case "budget":
		w.noteIncomplete("time budget exhausted")
		return
	case "assume":
		t.mu.Lock()
		t.Infeasible++
		t.mu.Unlock()
		return
	case "unsupported":
		w.noteIncomplete(end.what)
		w.blindSamples()
		return
	case "limit":
		if w.finishModel() {
			w.addCandidate(end, "limit")
		}
		w.noteIncomplete("step limit @ " + w.whereRepo())
		return
	case "violation":
		if w.finishModel() {
			w.addCandidate(end, "violation")
		} else {
			w.noteIncomplete("violating path without a model: " + end.what)
		}
		return
	}
	t.mu.Lock()
	t.Paths++
	n := t.Paths
	for _, c := range w.covers {
		t.Covers[c]++
	}
	// sample: the first paths, then sparsely (deterministic in the path's decisions)
	take := len(t.Samples) < w.X.sampleN
	if !take {
		h := fnv.New64a()
		for _, d := range w.dec {
			h.Write([]byte{d.kind, byte(d.c), byte(d.v)})
		}
		take = h.Sum64()%uint64(n) < 1
	}
	t.mu.Unlock()
	if take && w.finishModel() {
		if os.Getenv("VDBG") != "" {
			for _, c := range w.pc {
				fmt.Fprintf(os.Stderr, "PC %s = %d\n", c.String(), w.tc.Eval(c))
			}
			fmt.Fprintln(os.Stderr, "--")
		}
		in, desc := w.concreteInputs()
		s := Sample{Harness: t.Harness, Params: t.Params, Inputs: in, Obs: w.concreteObs(), desc: desc, PC: len(w.pc)}
		t.mu.Lock()
		if len(t.Samples) < w.X.sampleN {
			t.Samples = append(t.Samples, s)
		} else if w.X.sampleN > 0 {
			t.Samples[int(n)%w.X.sampleN] = s
		}
		t.mu.Unlock()
	}
}

// blindSamples keeps inputs for a path the encoding cannot follow to its end: they satisfy the path condition so far and are
// run on the real code. They can only find violations; the path stays counted as incomplete.
func (w *Worker) blindSamples() {
	t := w.task
	t.mu.Lock()
	full := t.nblind >= 60
	t.nblind++
	t.mu.Unlock()
	if full || !w.finishModel() {
		return
	}
	saved := append([]uint64(nil), w.tc.model...)
	rnd := rand.New(rand.NewSource(int64(len(w.pc))*7919 + 1))
	for k := 0; k < 6; k++ {
		in, desc := w.concreteInputs()
		t.mu.Lock()
		t.Blind = append(t.Blind, Sample{Harness: t.Harness, Params: t.Params, Inputs: in, desc: desc})
		t.mu.Unlock()
		// vary the inputs one by one within the path condition
		for _, i := range w.inputs {
			if i.t == nil || i.t.op != OVar || i.kind != "byte" || len(w.pc)*len(w.inputs) > 40000 {
				continue
			}
			old := w.tc.model[i.t.val]
			for try := 0; try < 24; try++ {
				v := rnd.Uint64()
				switch {
				case try < 16:
					v = uint64("0123456789abcXYZ"[rnd.Intn(16)])
				default:
					v &= 255
				}
				w.tc.model[i.t.val] = v
				w.tc.bumpGen()
				ok := true
				for j := len(w.pc) - 1; j >= 0 && ok; j-- {
					ok = w.tc.Eval(w.pc[j]) != 0
				}
				if ok {
					break
				}
				w.tc.model[i.t.val] = old
			}
		}
		w.tc.bumpGen()
	}
	w.setModel(saved)
}

// confirmOne replays a candidate while the exploration goes on; once the real code has confirmed a violation that is not a
// known finding the rest of the exploration is cut short: the verdict is settled.
func (x *Explorer) confirmOne(t *Task, s Sample) {
	if atomic.AddInt64(&x.confirming, 1) > 40 || !x.confirm(t, s) {
		return
	}
	x.mu.Lock()
	if d := time.Now().Add(x.settle); d.Before(x.deadline) && !x.settled {
		x.deadline, x.settled = d, true
	}
	x.mu.Unlock()
}

func (w *Worker) whereRepo() string {
	for i := len(w.frames) - 1; i >= 0; i-- {
		if w.frames[i].fn.inRepo {
			return w.frames[i].fn.name
		}
	}
	return "?"
}

func (w *Worker) addCandidate(end pathEnd, kind string) {
	t := w.task
	where := w.where()
	key := end.what
	t.mu.Lock()
	defer t.mu.Unlock()
	t.violN++
	n := 0
	for _, c := range t.Viol {
		if c.What == key {
			n++
		}
	}
	if n >= w.X.maxViol {
		return
	}
	in, desc := w.concreteInputs()
	t.Viol = append(t.Viol, &Candidate{Task: t, What: end.what, Where: where, Inputs: in, Desc: desc, Kind: kind})
	if w.X.confirm != nil && kind == "violation" {
		go w.X.confirmOne(t, Sample{Harness: t.Harness, Params: t.Params, Inputs: in})
	}
}

func topCounts(m map[string]int64, n int) []string {
	type kv struct {
		k string
		v int64
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v || l[i].v == l[j].v && l[i].k < l[j].k })
	var r []string
	for i, e := range l {
		if i >= n {
			break
		}
		r = append(r, fmt.Sprintf("%d x %s", e.v, e.k))
	}
	return r
}
