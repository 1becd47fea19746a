package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	fn   *cfunc
	args []Value
	bind []Value
}

type tailCall struct {
	fn   *ssa.Function
	args []Value
	bind []Value
}

// Intrinsic replaces a function. It must not have effects before its last fork.
type Intrinsic func(w *Worker, c *callCtx) (Value, *tailCall)

var intrinsics map[string]Intrinsic

const ndPath = "github.com/mitch000001/go-hbci/zzverif/nd"
const modelPath = "github.com/mitch000001/go-hbci/zzverif/model"

func tup(v ...Value) Value { return Value{p: &Tuple{v}} }

func (w *Worker) argStr(v Value) string {
	s, ok := strOf(v).concrete()
	if !ok {
		panic(unsupported("symbolic string where a concrete one is needed"))
	}
	return s
}

func (w *Worker) bytesOf(v Value) []*Term {
	if v.p == nil {
		return nil
	}
	s := v.p.(*Slice)
	r := make([]*Term, s.len)
	for i := range r {
		r[i] = valTerm(w.tc, s.arr.e[s.off+i], 8)
	}
	return r
}

func (w *Worker) indexByteTerms(b []*Term, c *Term) Value {
	tc := w.tc
	r := tc.Const(64, ^uint64(0))
	for i := len(b) - 1; i >= 0; i-- {
		r = tc.Ite(tc.Eq(b[i], c), tc.Const(64, uint64(i)), r)
	}
	return termVal(r)
}

func (w *Worker) lastIndexByteTerms(b []*Term, c *Term) Value {
	tc := w.tc
	r := tc.Const(64, ^uint64(0))
	for i := 0; i < len(b); i++ {
		r = tc.Ite(tc.Eq(b[i], c), tc.Const(64, uint64(i)), r)
	}
	return termVal(r)
}

func (w *Worker) indexTerms(b, sub []*Term) Value {
	tc := w.tc
	r := tc.Const(64, ^uint64(0))
	for i := len(b) - len(sub); i >= 0; i-- {
		m := tc.T
		for j := range sub {
			m = tc.And(m, tc.Eq(b[i+j], sub[j]))
		}
		r = tc.Ite(m, tc.Const(64, uint64(i)), r)
	}
	return termVal(r)
}

func (w *Worker) countTerms(b []*Term, c *Term) Value {
	tc := w.tc
	n := 0
	var conds []*Term
	for _, x := range b {
		e := tc.Eq(x, c)
		if e == tc.T {
			n++
		} else if e != tc.F {
			conds = append(conds, e)
		}
	}
	r := tc.Const(64, uint64(n))
	for _, e := range conds {
		r = tc.Add(r, tc.Ite(e, tc.Const(64, 1), tc.Const(64, 0)))
	}
	return termVal(r)
}

func (w *Worker) compareTerms(a, b []*Term) Value {
	x, y := &Str{b: a}, &Str{b: b}
	if a == nil {
		x = emptyStr
	}
	if b == nil {
		y = emptyStr
	}
	tc := w.tc
	lt := w.strLess(x, y)
	eq := w.strEq(x, y)
	return termVal(tc.Ite(eq, tc.Const(64, 0), tc.Ite(lt, tc.Const(64, ^uint64(0)), tc.Const(64, 1))))
}

func (w *Worker) eqTerms(a, b []*Term) *Term {
	if len(a) != len(b) {
		return w.tc.F
	}
	r := w.tc.T
	for i := range a {
		r = w.tc.And(r, w.tc.Eq(a[i], b[i]))
	}
	return r
}

func mkSlice(e []Value) Value {
	return Value{p: &Slice{arr: &Array{e}, len: len(e), cap: len(e)}}
}

func noop(w *Worker, c *callCtx) (Value, *tailCall) {
	res := c.fn.fn.Signature.Results()
	switch res.Len() {
	case 0:
		return Value{}, nil
	case 1:
		return zero(res.At(0).Type()), nil
	}
	return zero(res), nil
}

func iv(f func(w *Worker, a []Value) Value) Intrinsic {
	return func(w *Worker, c *callCtx) (Value, *tailCall) { return f(w, c.args), nil }
}

func (w *Worker) byteArg(v Value) *Term { return valTerm(w.tc, v, 8) }

func strTerms(w *Worker, v Value) []*Term { return strOf(v).terms(w.tc) }

func init() {
	intrinsics = map[string]Intrinsic{
		// --- byte search primitives ---
		"internal/bytealg.IndexByte":           iv(func(w *Worker, a []Value) Value { return w.indexByteTerms(w.bytesOf(a[0]), w.byteArg(a[1])) }),
		"internal/bytealg.IndexByteString":     iv(func(w *Worker, a []Value) Value { return w.indexByteTerms(strTerms(w, a[0]), w.byteArg(a[1])) }),
		"internal/bytealg.LastIndexByte":       iv(func(w *Worker, a []Value) Value { return w.lastIndexByteTerms(w.bytesOf(a[0]), w.byteArg(a[1])) }),
		"internal/bytealg.LastIndexByteString": iv(func(w *Worker, a []Value) Value { return w.lastIndexByteTerms(strTerms(w, a[0]), w.byteArg(a[1])) }),
		"internal/bytealg.Count":               iv(func(w *Worker, a []Value) Value { return w.countTerms(w.bytesOf(a[0]), w.byteArg(a[1])) }),
		"internal/bytealg.CountString":         iv(func(w *Worker, a []Value) Value { return w.countTerms(strTerms(w, a[0]), w.byteArg(a[1])) }),
		"internal/bytealg.Equal":               iv(func(w *Worker, a []Value) Value { return termVal(w.eqTerms(w.bytesOf(a[0]), w.bytesOf(a[1]))) }),
		"bytes.Equal":                          iv(func(w *Worker, a []Value) Value { return termVal(w.eqTerms(w.bytesOf(a[0]), w.bytesOf(a[1]))) }),
		"bytes.Compare":                        iv(func(w *Worker, a []Value) Value { return w.compareTerms(w.bytesOf(a[0]), w.bytesOf(a[1])) }),
		"internal/bytealg.Compare":             iv(func(w *Worker, a []Value) Value { return w.compareTerms(w.bytesOf(a[0]), w.bytesOf(a[1])) }),
		"internal/bytealg.CompareString":       iv(func(w *Worker, a []Value) Value { return w.compareTerms(strTerms(w, a[0]), strTerms(w, a[1])) }),
		"strings.Compare":                      iv(func(w *Worker, a []Value) Value { return w.compareTerms(strTerms(w, a[0]), strTerms(w, a[1])) }),
		"cmp.Compare": func(w *Worker, c *callCtx) (Value, *tailCall) {
			t := c.fn.fn.Signature.Params().At(0).Type()
			if isString(t) {
				return w.compareTerms(strTerms(w, c.args[0]), strTerms(w, c.args[1])), nil
			}
			lt := w.condVal(w.binop(token.LSS, t, t, c.args[0], c.args[1]))
			if lt {
				return Value{n: ^uint64(0)}, nil
			}
			if w.condVal(w.binop(token.LSS, t, t, c.args[1], c.args[0])) {
				return Value{n: 1}, nil
			}
			return Value{}, nil
		},
		"strings.Index":   iv(func(w *Worker, a []Value) Value { return w.indexTerms(strTerms(w, a[0]), strTerms(w, a[1])) }),
		"bytes.Index":     iv(func(w *Worker, a []Value) Value { return w.indexTerms(w.bytesOf(a[0]), w.bytesOf(a[1])) }),
		"bytes.IndexByte": iv(func(w *Worker, a []Value) Value { return w.indexByteTerms(w.bytesOf(a[0]), w.byteArg(a[1])) }),
		"strings.IndexByte": iv(func(w *Worker, a []Value) Value {
			return w.indexByteTerms(strTerms(w, a[0]), w.byteArg(a[1]))
		}),
		"strings.IndexRune": func(w *Worker, c *callCtx) (Value, *tailCall) {
			// concrete haystack, symbolic rune: an ite over the positions of its runes
			s, r := strOf(c.args[0]), c.args[1]
			hs, conc := s.concrete()
			tc := w.tc
			rt := valTerm(tc, r, 32)
			if conc && r.p != nil {
				res := tc.Const(64, ^uint64(0))
				type rp struct {
					i int
					r rune
				}
				var rs []rp
				for i, x := range hs {
					if x == 0xFFFD {
						panic(unsupported("IndexRune with U+FFFD"))
					}
					rs = append(rs, rp{i, x})
				}
				for i := len(rs) - 1; i >= 0; i-- {
					res = tc.Ite(tc.Eq(rt, tc.Const(32, uint64(rs[i].r))), tc.Const(64, uint64(rs[i].i)), res)
				}
				return termVal(res), nil
			}
			if conc && r.p == nil {
				return mkInt(strings.IndexRune(hs, rune(int32(r.n)))), nil
			}
			if r.p == nil && r.n < 0x80 {
				return w.indexByteTerms(s.terms(tc), tc.Const(8, r.n)), nil
			}
			if w.branch(tc.Ult(rt, tc.Const(32, 0x80))) {
				return w.indexByteTerms(s.terms(tc), tc.Trunc(rt, 8)), nil
			}
			b := w.encodeRune(rt)
			return w.indexTerms(s.terms(tc), b), nil
		},
		"internal/bytealg.MakeNoZero": iv(func(w *Worker, a []Value) Value {
			n := int(w.concInt(a[0], 64, true))
			return mkSlice(make([]Value, n))
		}),
		"internal/stringslite.Clone": iv(func(w *Worker, a []Value) Value { return a[0] }),
		"strings.Clone":              iv(func(w *Worker, a []Value) Value { return a[0] }),
		"bytes.isSeparator":          nil,

		// --- strings.Builder ---
		"(*strings.Builder).copyCheck": noop,
		"internal/abi.NoEscape":        iv(func(w *Worker, a []Value) Value { return a[0] }),
		"internal/abi.Escape":          iv(func(w *Worker, a []Value) Value { return a[0] }),

		// --- sync and runtime ---
		"(*sync.Mutex).Lock":                        noop,
		"(*sync.Mutex).Unlock":                      noop,
		"(*sync.Mutex).TryLock":                     iv(func(w *Worker, a []Value) Value { return mkBool(true) }),
		"(*sync.RWMutex).Lock":                      noop,
		"(*sync.RWMutex).Unlock":                    noop,
		"(*sync.RWMutex).RLock":                     noop,
		"(*sync.RWMutex).RUnlock":                   noop,
		"runtime.Callers":                           noop,
		"runtime.Caller":                            noop,
		"runtime.GC":                                noop,
		"runtime.KeepAlive":                         noop,
		"runtime.SetFinalizer":                      noop,
		"internal/godebug.New":                      iv(func(w *Worker, a []Value) Value { return Value{p: "godebug"} }),
		"(*internal/godebug.Setting).Value":         noop,
		"(*internal/godebug.Setting).IncNonDefault": noop,
		"(*internal/godebug.Setting).Name":          noop,
		"internal/race.Acquire":                     noop,
		"time.now":                                  nil,
		"time.Now":                                  timeNow,
		"time.runtimeNano":                          iv(func(w *Worker, a []Value) Value { return mkInt(1) }),
		"time.initLocal":                            noop,
		"time.Since":                                nil,
		"log.Printf":                                noop,
		"log.Println":                               noop,
		"log.Print":                                 noop,
		"(*log.Logger).Printf":                      noop,
		"(*log.Logger).Println":                     noop,
		"(*log.Logger).Print":                       noop,
		"(*log.Logger).Output":                      noop,

		"math.Float64bits":     iv(func(w *Worker, a []Value) Value { fl(a[0]); return a[0] }),
		"math.Float64frombits": iv(func(w *Worker, a []Value) Value { symNo(a[0]); return a[0] }),
		"math.Float32bits": iv(func(w *Worker, a []Value) Value {
			return Value{n: uint64(math.Float32bits(float32(fl(a[0]))))}
		}),
		"math.Float32frombits": iv(func(w *Worker, a []Value) Value {
			symNo(a[0])
			return mkFl(float64(math.Float32frombits(uint32(a[0].n))))
		}),
		"math.Abs": iv(func(w *Worker, a []Value) Value {
			if d, ok := a[0].p.(*Dec); ok {
				return Value{p: &Dec{m: d.m, neg: w.tc.F, k: d.k}}
			}
			return mkFl(math.Abs(fl(a[0])))
		}),
		"math.IsNaN": iv(func(w *Worker, a []Value) Value {
			if _, ok := a[0].p.(*Dec); ok {
				return mkBool(false)
			}
			return mkBool(math.IsNaN(fl(a[0])))
		}),
		"math.IsInf": iv(func(w *Worker, a []Value) Value {
			if _, ok := a[0].p.(*Dec); ok {
				return mkBool(false)
			}
			return mkBool(math.IsInf(fl(a[0]), int(int64(a[1].n))))
		}),
		"math.Signbit": iv(func(w *Worker, a []Value) Value {
			if d, ok := a[0].p.(*Dec); ok {
				return termVal(d.neg)
			}
			return mkBool(math.Signbit(fl(a[0])))
		}),
		"math.Floor": flIntr(math.Floor),
		"math.Ceil":  flIntr(math.Ceil),
		"math.Trunc": flIntr(math.Trunc),
		"math.Round": flIntr(math.Round),
		"math.Sqrt":  flIntr(math.Sqrt),
		"math.Log":   flIntr(math.Log),
		"math.Log2":  flIntr(math.Log2),
		"math.Log10": flIntr(math.Log10),
		"math.Exp":   flIntr(math.Exp),
		"math.Pow10": iv(func(w *Worker, a []Value) Value { return mkFl(math.Pow10(int(int64(a[0].n)))) }),
		"math.Pow":   iv(func(w *Worker, a []Value) Value { return mkFl(math.Pow(fl(a[0]), fl(a[1]))) }),

		"strconv.FormatInt":   formatInt,
		"strconv.Itoa":        formatInt,
		"strconv.FormatUint":  formatInt,
		"strconv.AppendInt":   nil,
		"strconv.FormatFloat": formatFloat,
		"strconv.Quote": iv(func(w *Worker, a []Value) Value {
			s := strOf(a[0])
			if s.opaque || s.b != nil {
				return Value{p: &Str{opaque: true}}
			}
			return mkStrC(strconv.Quote(s.s))
		}),

		// --- nondeterminism API ---
		ndPath + ".Byte": func(w *Worker, c *callCtx) (Value, *tailCall) {
			t := w.newVar(w.argStr(c.args[0]), 8)
			w.inputs = append(w.inputs, InputRec{kind: "byte", name: t.name, t: t})
			return termVal(t), nil
		},
		ndPath + ".Bool": func(w *Worker, c *callCtx) (Value, *tailCall) {
			t := w.newVar(w.argStr(c.args[0]), 8)
			w.assumeVar(t, w.tc.Ult(t, w.tc.Const(8, 2)))
			w.inputs = append(w.inputs, InputRec{kind: "bool", name: t.name, t: t})
			return termVal(w.tc.Eq(t, w.tc.Const(8, 1))), nil
		},
		ndPath + ".Int": func(w *Worker, c *callCtx) (Value, *tailCall) {
			lo, hi := int64(c.args[1].n), int64(c.args[2].n)
			symNo(c.args[1])
			symNo(c.args[2])
			n := w.argStr(c.args[0])
			if lo == hi {
				w.inputs = append(w.inputs, InputRec{kind: "int", name: n, v: uint64(lo)})
				return mkInt(int(lo)), nil
			}
			if uint64(hi-lo) < 256 {
				t := w.newVar(n, 8)
				if hi-lo < 255 {
					w.assumeVar(t, w.tc.Ule(t, w.tc.Const(8, uint64(hi-lo))))
				}
				w.inputs = append(w.inputs, InputRec{kind: "int", name: t.name, t: t, add: lo})
				return termVal(w.tc.Add(w.tc.Zext(t, 64), w.tc.Const(64, uint64(lo)))), nil
			}
			t := w.newVar(n, 64)
			r := w.tc.Add(t, w.tc.Const(64, uint64(lo)))
			if uint64(hi-lo) != math.MaxUint64 {
				w.assumeVar(t, w.tc.Ule(t, w.tc.Const(64, uint64(hi-lo))))
			}
			w.inputs = append(w.inputs, InputRec{kind: "int", name: t.name, t: t, add: lo})
			return termVal(r), nil
		},
		ndPath + ".Choice": func(w *Worker, c *callCtx) (Value, *tailCall) {
			symNo(c.args[1])
			k := w.choose(int(c.args[1].n))
			w.inputs = append(w.inputs, InputRec{kind: "choice", name: w.argStr(c.args[0]), v: uint64(k)})
			return mkInt(k), nil
		},
		ndPath + ".Assume": func(w *Worker, c *callCtx) (Value, *tailCall) {
			if !w.condVal(c.args[0]) {
				panic(pathEnd{"assume", ""})
			}
			return Value{}, nil
		},
		ndPath + ".Assert": func(w *Worker, c *callCtx) (Value, *tailCall) {
			w.doAssert(c.args[0], w.argStr(c.args[1]))
			return Value{}, nil
		},
		ndPath + ".Cover": func(w *Worker, c *callCtx) (Value, *tailCall) {
			w.covers = append(w.covers, w.argStr(c.args[0]))
			return Value{}, nil
		},
		ndPath + ".ObserveS": func(w *Worker, c *callCtx) (Value, *tailCall) {
			w.obs = append(w.obs, ObsRec{w.argStr(c.args[0]), c.args[1], types.Typ[types.String]})
			return Value{}, nil
		},
		ndPath + ".ObserveI": func(w *Worker, c *callCtx) (Value, *tailCall) {
			w.obs = append(w.obs, ObsRec{w.argStr(c.args[0]), c.args[1], types.Typ[types.Int]})
			return Value{}, nil
		},
		ndPath + ".MapOrder": func(w *Worker, c *callCtx) (Value, *tailCall) {
			old := w.mapOrder
			w.mapOrder = c.args[0].n != 0
			w.onUndo(func() { w.mapOrder = old })
			return Value{}, nil
		},
		ndPath + ".Symbolic": iv(func(w *Worker, a []Value) Value { return mkBool(true) }),
		// Or and And combine conditions without forking.
		ndPath + ".Or": iv(func(w *Worker, a []Value) Value {
			return termVal(w.tc.Or(valTerm(w.tc, a[0], 0), valTerm(w.tc, a[1], 0)))
		}),
		ndPath + ".And": iv(func(w *Worker, a []Value) Value {
			return termVal(w.tc.And(valTerm(w.tc, a[0], 0), valTerm(w.tc, a[1], 0)))
		}),
		ndPath + ".Implies": iv(func(w *Worker, a []Value) Value {
			return termVal(w.tc.Or(w.tc.Not(valTerm(w.tc, a[0], 0)), valTerm(w.tc, a[1], 0)))
		}),
		ndPath + ".IfInt": iv(func(w *Worker, a []Value) Value {
			return termVal(w.tc.Ite(valTerm(w.tc, a[0], 0), valTerm(w.tc, a[1], 64), valTerm(w.tc, a[2], 64)))
		}),
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
	addAtomics()
	addReflect()
	addModelHelpers()
	addBig()
}

func symNo(v Value) {
	if v.p != nil {
		panic(unsupported("symbolic value where a concrete one is needed"))
	}
}

func flIntr(f func(float64) float64) Intrinsic {
	return iv(func(w *Worker, a []Value) Value { return mkFl(f(fl(a[0]))) })
}

// assumeVar constrains a fresh variable; the model is adjusted to keep satisfying the path condition.
func (w *Worker) assumeVar(v *Term, cond *Term) {
	// fresh variables have model value 0 unless reused from an earlier path
	if w.modelOK {
		w.tc.bumpGen()
		if w.tc.Eval(cond) == 0 {
			w.tc.model[v.val] = 0
			w.tc.bumpGen()
			if w.tc.Eval(cond) == 0 {
				panic("assumeVar")
			}
		}
	}
	w.addPC(cond)
}

func (w *Worker) doAssert(cv Value, label string) {
	c := valTerm(w.tc, cv, 0)
	w.X.noteAssert(label)
	if c.op == OConst {
		w.sol.stats.AssertConst++
		if c.val == 0 {
			panic(pathEnd{"violation", "assert: " + label})
		}
		return
	}
	if _, replay := w.peekForced(); replay || w.initing {
		if !w.branch(c) {
			panic(pathEnd{"violation", "assert: " + label})
		}
		return
	}
	w.afterForced()
	// the verdict is the solver's: is there an input on this path violating the assertion?
	// (a conjunction holds if every conjunct does)
	holds := true
	for _, part := range conjuncts(c, nil) {
		w.sol.stats.AssertQ++
		r, _, _ := w.sol.Check(slicePC(w.pc, w.tc.Not(part)))
		if r == SatYes {
			holds = false
			break
		}
		if r == Unknown {
			w.X.noteUnknownAssert(w, label)
		}
	}
	if holds {
		w.dec = append(w.dec, Decision{0, 1 | 2, 0})
		return
	}
	if !w.branch(c) {
		panic(pathEnd{"violation", "assert: " + label})
	}
}

func conjuncts(c *Term, out []*Term) []*Term {
	if c.op == OAnd {
		return conjuncts(c.b, conjuncts(c.a, out))
	}
	return append(out, c)
}

func (w *Worker) peekForced() (Decision, bool) {
	if w.fpos < len(w.forced) {
		return w.forced[w.fpos], true
	}
	return Decision{}, false
}

func timeNow(w *Worker, c *callCtx) (Value, *tailCall) {
	// time.Time{wall, ext, loc}: seconds since year 1, no monotonic reading, UTC
	const unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400)
	return Value{p: &Struct{[]Value{{}, {n: uint64(w.nowSec + unixToInternal)}, {}}}}, nil
}

// decimalDigits returns the decimal digits (as 8-bit terms 0..9, most significant first, no
// leading zeros except for 0 itself) of a non-negative 64-bit term.
func (w *Worker) decimalDigits(t *Term) []*Term {
	c := w.tc
	if t.isC() {
		var r []*Term
		for _, ch := range strconv.FormatUint(t.val, 10) {
			r = append(r, c.Const(8, uint64(ch-'0')))
		}
		return r
	}
	// Horner form over known digits?
	if ds := w.hornerDigits(t); ds != nil {
		for len(ds) > 1 {
			if w.branch(c.Eq(ds[0], c.Const(8, 0))) {
				ds = ds[1:]
				continue
			}
			break
		}
		return ds
	}
	// fork on the number of digits
	n := 20
	for k := 1; k < 20; k++ {
		if w.branch(c.Ult(t, c.Const(64, pow10u(k)))) {
			n = k
			break
		}
	}
	if n > 18 {
		panic(unsupported("decimal digits of a very large symbolic integer"))
	}
	r := make([]*Term, n)
	if len(t.vs) == 1 && c.vars[t.vs[0]].w <= 8 {
		for i := 0; i < n; i++ {
			d := c.Bin(OUrem, c.Bin(OUdiv, t, c.Const(64, pow10u(n-1-i))), c.Const(64, 10))
			r[i] = c.Trunc(d, 8)
		}
		return r
	}
	if n == 1 {
		return []*Term{c.Trunc(t, 8)}
	}
	sum := c.Const(64, 0)
	for i := 0; i < n; i++ {
		v := w.newVar("digit", 8)
		if w.modelOK {
			w.tc.model[v.val] = c.Eval(t) / pow10u(n-1-i) % 10
			w.tc.bumpGen()
		}
		w.addPC(c.Ult(v, c.Const(8, 10)))
		r[i] = v
		sum = c.Add(sum, c.Bin(OMul, c.Zext(v, 64), c.Const(64, pow10u(n-1-i))))
	}
	if w.modelOK {
		w.tc.bumpGen()
	}
	w.addPC(c.Eq(t, sum))
	return r
}

func pow10u(k int) uint64 {
	r := uint64(1)
	for i := 0; i < k; i++ {
		r *= 10
	}
	return r
}

func (w *Worker) digitsToStr(neg bool, ds []*Term) []*Term {
	c := w.tc
	var r []*Term
	if neg {
		r = append(r, c.Const(8, '-'))
	}
	for _, d := range ds {
		r = append(r, c.Add(d, c.Const(8, '0')))
	}
	return r
}

func formatInt(w *Worker, cc *callCtx) (Value, *tailCall) {
	v := cc.args[0]
	base := 10
	if len(cc.args) > 1 {
		symNo(cc.args[1])
		base = int(cc.args[1].n)
	}
	unsigned := cc.fn.name == "strconv.FormatUint"
	if v.p == nil {
		if unsigned {
			return mkStrC(strconv.FormatUint(v.n, base)), nil
		}
		return mkStrC(strconv.FormatInt(int64(v.n), base)), nil
	}
	c := w.tc
	t := valTerm(c, v, 64)
	if base == 16 {
		n := 16
		for k := 1; k < 16; k++ {
			if w.branch(c.Ult(t, c.Const(64, 1<<(4*k)))) {
				n = k
				break
			}
		}
		var out []*Term
		for i := n - 1; i >= 0; i-- {
			d := c.Trunc(c.Bin(OBand, c.Bin(OLshr, t, c.Const(64, uint64(4*i))), c.Const(64, 15)), 8)
			out = append(out, c.Add(d, c.Ite(c.Ult(d, c.Const(8, 10)), c.Const(8, '0'), c.Const(8, 'a'-10))))
		}
		return mkStrT(out), nil
	}
	if base != 10 {
		panic(unsupported("FormatInt base"))
	}
	neg := false
	if !unsigned && !nonNeg(t) {
		neg = w.branch(c.Slt(t, c.Const(64, 0)))
		if neg {
			t = c.Neg(t)
		}
	}
	return mkStrT(w.digitsToStr(neg, w.decimalDigits(t))), nil
}

func formatFloat(w *Worker, cc *callCtx) (Value, *tailCall) {
	d, ok := cc.args[0].p.(*Dec)
	f, prec := byte(cc.args[1].n), int(int64(cc.args[2].n))
	symNo(cc.args[1])
	symNo(cc.args[2])
	if !ok {
		return mkStrC(strconv.FormatFloat(fl(cc.args[0]), f, prec, int(cc.args[3].n))), nil
	}
	if f != 'f' || cc.args[3].n != 64 {
		panic(unsupported("FormatFloat of a symbolic float with format " + string(f)))
	}
	c := w.tc
	neg := w.branch(d.neg)
	if prec >= 0 && prec < d.k {
		// rounding: only exact truncations are modelled
		panic(unsupported("FormatFloat rounding a symbolic float"))
	}
	ds := w.decimalDigits(d.m)
	for len(ds) < d.k+1 {
		ds = append([]*Term{c.Const(8, 0)}, ds...)
	}
	ip, fp := ds[:len(ds)-d.k], ds[len(ds)-d.k:]
	fp = append([]*Term(nil), fp...)
	if prec < 0 {
		for len(fp) > 0 && w.branch(c.Eq(fp[len(fp)-1], c.Const(8, 0))) {
			fp = fp[:len(fp)-1]
		}
	} else {
		for len(fp) < prec {
			fp = append(fp, c.Const(8, 0))
		}
	}
	out := w.digitsToStr(neg, ip)
	if len(fp) > 0 {
		out = append(out, c.Const(8, '.'))
		out = append(out, w.digitsToStr(false, fp)...)
	}
	return mkStrT(out), nil
}

// ---- sync/atomic ------------------------------------------------------------------------

func addAtomics() {
	load := iv(func(w *Worker, a []Value) Value { return w.load(a[0]) })
	store := iv(func(w *Worker, a []Value) Value { w.storeTo(a[0], a[1]); return Value{} })
	swap := iv(func(w *Worker, a []Value) Value { o := w.load(a[0]); w.storeTo(a[0], a[1]); return o })
	for _, p := range []string{"sync/atomic", "internal/runtime/atomic"} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			wd := uint8(64)
			if strings.HasSuffix(t, "32") {
				wd = 32
			}
			intrinsics[p+".Load"+t] = load
			intrinsics[p+".Store"+t] = store
			intrinsics[p+".Swap"+t] = swap
			intrinsics[p+".Add"+t] = iv(func(w *Worker, a []Value) Value {
				o := w.load(a[0])
				n := termVal(w.tc.Add(valTerm(w.tc, o, wd), valTerm(w.tc, a[1], wd)))
				w.storeTo(a[0], n)
				return n
			})
			intrinsics[p+".CompareAndSwap"+t] = iv(func(w *Worker, a []Value) Value {
				o := w.load(a[0])
				if samePtr(o, a[1]) {
					w.storeTo(a[0], a[2])
					return mkBool(true)
				}
				return mkBool(false)
			})
		}
	}
	intrinsics["(*sync/atomic.Value).Load"] = iv(func(w *Worker, a []Value) Value {
		return w.load(w.fieldAddr(a[0], 0))
	})
	intrinsics["(*sync/atomic.Value).Store"] = iv(func(w *Worker, a []Value) Value {
		w.storeTo(w.fieldAddr(a[0], 0), a[1])
		return Value{}
	})
	intrinsics["(*sync/atomic.Pointer).Load"] = iv(func(w *Worker, a []Value) Value { return w.load(w.fieldAddr(a[0], 2)) })
	intrinsics["(*sync/atomic.Pointer).Store"] = iv(func(w *Worker, a []Value) Value {
		w.storeTo(w.fieldAddr(a[0], 2), a[1])
		return Value{}
	})
	// sync.Pool: always empty
	intrinsics["(*sync.Pool).Get"] = func(w *Worker, c *callCtx) (Value, *tailCall) {
		s := c.args[0].p
		var st *Struct
		switch p := s.(type) {
		case *Value:
			st = p.p.(*Struct)
		default:
			panic(unsupported("sync.Pool"))
		}
		f, ok := st.f[len(st.f)-1].p.(*Func)
		if !ok || f == nil {
			return Value{}, nil
		}
		return Value{}, &tailCall{fn: f.fn, bind: f.bind}
	}
	intrinsics["(*sync.Pool).Put"] = noop
}

// ---- reflect ----------------------------------------------------------------------------

func (w *Worker) rtIface(t types.Type) Value {
	return Value{p: &Iface{t: w.P.rtypePtr, v: Value{p: &RT{w.P.Canon(t)}}}}
}

func rvOf(v Value) *RV {
	r, ok := v.p.(*RV)
	if !ok {
		return &RV{}
	}
	return r
}

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (w *Worker) rvGet(r *RV) Value {
	if r.addr.p != nil {
		return w.load(r.addr)
	}
	return r.v
}

func isNilVal(v Value) bool { return v.p == nil }

func addReflect() {
	intrinsics["reflect.ValueOf"] = iv(func(w *Worker, a []Value) Value {
		if a[0].p == nil {
			return Value{p: &RV{}}
		}
		i := a[0].p.(*Iface)
		return Value{p: &RV{t: i.t, v: i.v}}
	})
	intrinsics["reflect.TypeOf"] = iv(func(w *Worker, a []Value) Value {
		if a[0].p == nil {
			return Value{}
		}
		return w.rtIface(a[0].p.(*Iface).t)
	})
	intrinsics["reflect.New"] = iv(func(w *Worker, a []Value) Value {
		t := a[0].p.(*Iface).v.p.(*RT).t
		c := zero(t)
		return Value{p: &RV{t: w.P.Canon(types.NewPointer(t)), v: Value{p: &c}}}
	})
	intrinsics["reflect.Zero"] = iv(func(w *Worker, a []Value) Value {
		t := a[0].p.(*Iface).v.p.(*RT).t
		return Value{p: &RV{t: t, v: zero(t)}}
	})
	intrinsics["reflect.Indirect"] = iv(func(w *Worker, a []Value) Value {
		r := rvOf(a[0])
		if p, ok := r.t.Underlying().(*types.Pointer); ok {
			return Value{p: &RV{t: w.P.Canon(p.Elem()), addr: w.rvGet(r)}}
		}
		return a[0]
	})
	m := func(name string, f func(w *Worker, r *RV, a []Value) Value) {
		intrinsics["(reflect.Value)."+name] = iv(func(w *Worker, a []Value) Value { return f(w, rvOf(a[0]), a[1:]) })
	}
	m("IsValid", func(w *Worker, r *RV, a []Value) Value { return mkBool(r.t != nil) })
	m("IsNil", func(w *Worker, r *RV, a []Value) Value {
		if r.t == nil {
			panic(targetPanic{Value{p: &Iface{t: w.P.runtimeErr, v: mkStrC("reflect: call of reflect.Value.IsNil on zero Value")}}})
		}
		switch kindOf(r.t) {
		case 18, 19, 20, 21, 22, 23, 26:
			return mkBool(isNilVal(w.rvGet(r)))
		}
		panic(targetPanic{Value{p: &Iface{t: w.P.runtimeErr, v: mkStrC("reflect: call of reflect.Value.IsNil on " + r.t.String() + " Value")}}})
	})
	m("Kind", func(w *Worker, r *RV, a []Value) Value {
		if r.t == nil {
			return Value{}
		}
		return mkInt(kindOf(r.t))
	})
	m("Type", func(w *Worker, r *RV, a []Value) Value { return w.rtIface(r.t) })
	m("Interface", func(w *Worker, r *RV, a []Value) Value {
		v := w.rvGet(r)
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return v
		}
		return Value{p: &Iface{t: r.t, v: v}}
	})
	m("CanInterface", func(w *Worker, r *RV, a []Value) Value { return mkBool(true) })
	m("CanSet", func(w *Worker, r *RV, a []Value) Value { return mkBool(r.addr.p != nil) })
	m("CanAddr", func(w *Worker, r *RV, a []Value) Value { return mkBool(r.addr.p != nil) })
	m("Elem", func(w *Worker, r *RV, a []Value) Value {
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			v := w.rvGet(r)
			if v.p == nil {
				return Value{p: &RV{}}
			}
			return Value{p: &RV{t: w.P.Canon(u.Elem()), addr: v}}
		case *types.Interface:
			v := w.rvGet(r)
			if v.p == nil {
				return Value{p: &RV{}}
			}
			i := v.p.(*Iface)
			return Value{p: &RV{t: i.t, v: i.v}}
		}
		panic(unsupported("reflect Elem of " + r.t.String()))
	})
	m("Addr", func(w *Worker, r *RV, a []Value) Value {
		return Value{p: &RV{t: w.P.Canon(types.NewPointer(r.t)), v: r.addr}}
	})
	m("Set", func(w *Worker, r *RV, a []Value) Value {
		s := rvOf(a[0])
		v := w.rvGet(s)
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			if _, ok := s.t.Underlying().(*types.Interface); !ok {
				v = Value{p: &Iface{t: s.t, v: v}}
			}
		}
		w.storeTo(r.addr, v)
		return Value{}
	})
	m("NumField", func(w *Worker, r *RV, a []Value) Value {
		return mkInt(r.t.Underlying().(*types.Struct).NumFields())
	})
	m("Field", func(w *Worker, r *RV, a []Value) Value {
		st := r.t.Underlying().(*types.Struct)
		i := int(a[0].n)
		ft := w.P.Canon(st.Field(i).Type())
		if r.addr.p != nil {
			return Value{p: &RV{t: ft, addr: w.fieldAddr(r.addr, i)}}
		}
		return Value{p: &RV{t: ft, v: r.v.p.(*Struct).f[i]}}
	})
	m("Len", func(w *Worker, r *RV, a []Value) Value { return mkInt(w.lenOf(w.rvGet(r), r.t)) })
	m("Index", func(w *Worker, r *RV, a []Value) Value {
		i := int(w.concInt(a[0], 64, true))
		v := w.rvGet(r)
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := v.p.(*Slice)
			if i < 0 || i >= s.len {
				w.rtPanic("reflect: slice index out of range")
			}
			return Value{p: &RV{t: w.P.Canon(u.Elem()), addr: Value{p: &Elem{s.arr, s.off + i}}}}
		case *types.Array:
			return Value{p: &RV{t: w.P.Canon(u.Elem()), v: v.p.(*Array).e[i]}}
		}
		panic(unsupported("reflect Index"))
	})
	m("String", func(w *Worker, r *RV, a []Value) Value {
		if r.t == nil {
			return mkStrC("<invalid Value>")
		}
		if isString(r.t) {
			return w.rvGet(r)
		}
		return mkStrC("<" + types.TypeString(r.t, pkgName) + " Value>")
	})
	num := func(w *Worker, r *RV, a []Value) Value {
		wd, s, ok := scalarWidth(r.t)
		v := w.rvGet(r)
		if !ok {
			return v
		}
		if v.p == nil {
			if s {
				return Value{n: uint64(sext(v.n, wd))}
			}
			return v
		}
		return termVal(w.tc.Extend(valTerm(w.tc, v, wd), 64, s))
	}
	m("Int", num)
	m("Uint", num)
	m("Float", func(w *Worker, r *RV, a []Value) Value { return w.rvGet(r) })
	m("Bool", func(w *Worker, r *RV, a []Value) Value { return w.rvGet(r) })
	m("IsZero", func(w *Worker, r *RV, a []Value) Value {
		return termVal(w.equal(w.rvGet(r), zero(r.t), r.t))
	})
	t := func(name string, f func(w *Worker, t types.Type, a []Value) Value) {
		intrinsics["(*reflect.rtype)."+name] = iv(func(w *Worker, a []Value) Value {
			return f(w, a[0].p.(*RT).t, a[1:])
		})
	}
	t("Elem", func(w *Worker, t types.Type, a []Value) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return w.rtIface(u.Elem())
		case *types.Slice:
			return w.rtIface(u.Elem())
		case *types.Array:
			return w.rtIface(u.Elem())
		case *types.Map:
			return w.rtIface(u.Elem())
		}
		w.rtPanic("reflect: Elem of invalid type " + t.String())
		return Value{}
	})
	t("Kind", func(w *Worker, t types.Type, a []Value) Value { return mkInt(kindOf(t)) })
	t("String", func(w *Worker, t types.Type, a []Value) Value { return mkStrC(types.TypeString(t, pkgName)) })
	t("Name", func(w *Worker, t types.Type, a []Value) Value {
		switch n := types.Unalias(t).(type) {
		case *types.Named:
			return mkStrC(n.Obj().Name())
		case *types.Basic:
			return mkStrC(n.Name())
		}
		return Value{}
	})
	t("Comparable", func(w *Worker, t types.Type, a []Value) Value { return mkBool(types.Comparable(t)) })
	intrinsics["reflect.DeepEqual"] = iv(func(w *Worker, a []Value) Value {
		if a[0].p == nil || a[1].p == nil {
			return mkBool(a[0].p == nil && a[1].p == nil)
		}
		x, y := a[0].p.(*Iface), a[1].p.(*Iface)
		if x.t != y.t {
			return mkBool(false)
		}
		return termVal(w.deepEqual(x.v, y.v, x.t, 0))
	})
	intrinsics["internal/reflectlite.TypeOf"] = intrinsics["reflect.TypeOf"]
	intrinsics["internal/reflectlite.ValueOf"] = intrinsics["reflect.ValueOf"]
	intrinsics["(internal/reflectlite.Value).Len"] = intrinsics["(reflect.Value).Len"]
}

func pkgName(p *types.Package) string { return p.Name() }

func (w *Worker) deepEqual(x, y Value, t types.Type, d int) *Term {
	c := w.tc
	if d > 40 {
		panic(unsupported("DeepEqual depth"))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if (x.p == nil) != (y.p == nil) {
			return c.F
		}
		if x.p == nil {
			return c.T
		}
		a, b := x.p.(*Slice), y.p.(*Slice)
		if a.len != b.len {
			return c.F
		}
		r := c.T
		for i := 0; i < a.len; i++ {
			r = c.And(r, w.deepEqual(a.arr.e[a.off+i], b.arr.e[b.off+i], u.Elem(), d+1))
		}
		return r
	case *types.Array:
		a, b := x.p.(*Array), y.p.(*Array)
		r := c.T
		for i := range a.e {
			r = c.And(r, w.deepEqual(a.e[i], b.e[i], u.Elem(), d+1))
		}
		return r
	case *types.Struct:
		a, b := x.p.(*Struct), y.p.(*Struct)
		r := c.T
		for i := range a.f {
			r = c.And(r, w.deepEqual(a.f[i], b.f[i], u.Field(i).Type(), d+1))
		}
		return r
	case *types.Pointer:
		if x.p == nil || y.p == nil {
			return c.Bool(x.p == nil && y.p == nil)
		}
		if samePtr(x, y) {
			return c.T
		}
		// as in Go, a pair that is being compared further up counts as equal
		if w.deepSeen == nil {
			w.deepSeen = map[[2]any]bool{}
		}
		k := [2]any{x.p, y.p}
		if w.deepSeen[k] {
			return c.T
		}
		w.deepSeen[k] = true
		defer delete(w.deepSeen, k)
		return w.deepEqual(w.load(x), w.load(y), u.Elem(), d+1)
	case *types.Interface:
		if x.p == nil || y.p == nil {
			return c.Bool(x.p == nil && y.p == nil)
		}
		a, b := x.p.(*Iface), y.p.(*Iface)
		if a.t != b.t {
			return c.F
		}
		return w.deepEqual(a.v, b.v, a.t, d+1)
	case *types.Map:
		if (x.p == nil) != (y.p == nil) {
			return c.F
		}
		if x.p == nil {
			return c.T
		}
		a, b := x.p.(*Map), y.p.(*Map)
		if a.n != b.n {
			return c.F
		}
		r := c.T
		for _, e := range a.ent {
			if e.dead {
				continue
			}
			f := w.mapFind(b, u.Key(), e.key)
			if f == nil {
				return c.F
			}
			r = c.And(r, w.deepEqual(e.val, f.val, u.Elem(), d+1))
		}
		return r
	case *types.Signature:
		return c.Bool(x.p == nil && y.p == nil)
	}
	return w.equal(x, y, t)
}

// ---- helpers for the Go-source models ----------------------------------------------------

// isSymbolic reports whether a value contains a symbolic scalar (one pointer level deep).
func (w *Worker) isSymbolic(v Value, d int) bool {
	if d > 6 {
		return false
	}
	switch p := v.p.(type) {
	case *Term, *Dec:
		return true
	case *Str:
		return p.b != nil || p.opaque
	case *Iface:
		return w.isSymbolic(p.v, d+1)
	case *Slice:
		for i := 0; i < p.len; i++ {
			if w.isSymbolic(p.arr.e[p.off+i], d+1) {
				return true
			}
		}
	case *Struct:
		for _, f := range p.f {
			if w.isSymbolic(f, d+1) {
				return true
			}
		}
	case *Array:
		for _, f := range p.e {
			if w.isSymbolic(f, d+1) {
				return true
			}
		}
	case *Value:
		return w.isSymbolic(*p, d+1)
	case *Elem:
		return w.isSymbolic(p.arr.e[p.i], d+1)
	}
	return false
}

func addModelHelpers() {
	h := func(name string, f func(w *Worker, a []Value) Value) { intrinsics[modelPath+"."+name] = iv(f) }
	h("opaque", func(w *Worker, a []Value) Value { return Value{p: &Str{opaque: true}} })
	h("anySym", func(w *Worker, a []Value) Value { return mkBool(w.isSymbolic(a[0], 0)) })
	h("isOpaque", func(w *Worker, a []Value) Value { return mkBool(strOf(a[0]).opaque) })
	h("rkind", func(w *Worker, a []Value) Value {
		if a[0].p == nil {
			return Value{}
		}
		return mkInt(kindOf(a[0].p.(*Iface).t))
	})
	h("rtype", func(w *Worker, a []Value) Value {
		if a[0].p == nil {
			return mkStrC("<nil>")
		}
		return mkStrC(types.TypeString(a[0].p.(*Iface).t, pkgName))
	})
	h("rint", func(w *Worker, a []Value) Value {
		i := a[0].p.(*Iface)
		wd, s, _ := scalarWidth(i.t)
		if i.v.p == nil {
			if s {
				return Value{n: uint64(sext(i.v.n, wd))}
			}
			return i.v
		}
		return termVal(w.tc.Extend(valTerm(w.tc, i.v, wd), 64, s))
	})
	h("rbool", func(w *Worker, a []Value) Value { return a[0].p.(*Iface).v })
	h("rfloat", func(w *Worker, a []Value) Value { return a[0].p.(*Iface).v })
	h("rstr", func(w *Worker, a []Value) Value { return a[0].p.(*Iface).v })
	h("rnil", func(w *Worker, a []Value) Value { return mkBool(a[0].p == nil || a[0].p.(*Iface).v.p == nil) })
	h("rlen", func(w *Worker, a []Value) Value {
		i := a[0].p.(*Iface)
		if s, ok := i.t.Underlying().(*types.Struct); ok {
			return mkInt(s.NumFields())
		}
		return mkInt(w.lenOf(i.v, i.t))
	})
	wrap := func(w *Worker, v Value, t types.Type) Value {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return v
		}
		return Value{p: &Iface{t: w.P.Canon(t), v: v}}
	}
	h("rindex", func(w *Worker, a []Value) Value {
		i := a[0].p.(*Iface)
		k := int(a[1].n)
		switch u := i.t.Underlying().(type) {
		case *types.Slice:
			s := i.v.p.(*Slice)
			return wrap(w, copyVal(s.arr.e[s.off+k]), u.Elem())
		case *types.Array:
			return wrap(w, i.v.p.(*Array).e[k], u.Elem())
		case *types.Struct:
			st, ok := i.v.p.(*Struct)
			if !ok {
				panic(unsupported("formatting of an opaque struct"))
			}
			return wrap(w, st.f[k], u.Field(k).Type())
		}
		panic(unsupported("rindex"))
	})
	h("rfield", func(w *Worker, a []Value) Value {
		return mkStrC(a[0].p.(*Iface).t.Underlying().(*types.Struct).Field(int(a[1].n)).Name())
	})
	h("relem", func(w *Worker, a []Value) Value {
		i := a[0].p.(*Iface)
		pt := i.t.Underlying().(*types.Pointer)
		return wrap(w, w.load(i.v), pt.Elem())
	})
	h("relemKind", func(w *Worker, a []Value) Value {
		i := a[0].p.(*Iface)
		switch u := i.t.Underlying().(type) {
		case *types.Pointer:
			return mkInt(kindOf(u.Elem()))
		case *types.Slice:
			return mkInt(kindOf(u.Elem()))
		case *types.Array:
			return mkInt(kindOf(u.Elem()))
		}
		return Value{}
	})
	h("mkDec", func(w *Worker, a []Value) Value {
		neg, m, k := valTerm(w.tc, a[0], 0), valTerm(w.tc, a[1], 64), int(a[2].n)
		symNo(a[2])
		if m.isC() && neg.isC() {
			s := strconv.FormatUint(m.val, 10)
			f, _ := strconv.ParseFloat(s+"e-"+strconv.Itoa(k), 64)
			if neg.val != 0 {
				f = -f
			}
			return mkFl(f)
		}
		return Value{p: &Dec{m: m, neg: neg, k: k}}
	})
	h("nativeParseFloat", func(w *Worker, a []Value) Value {
		f, err := strconv.ParseFloat(w.argStr(a[0]), int(a[1].n))
		if err != nil {
			return tup(mkFl(f), mkBool(false), mkBool(err.(*strconv.NumError).Err == strconv.ErrRange))
		}
		return tup(mkFl(f), mkBool(true), mkBool(false))
	})
	h("nativeFormatFloat", func(w *Worker, a []Value) Value {
		// (verb byte, f float64, prec int) as fmt does
		f := fl(a[1])
		p := int(int64(a[2].n))
		return mkStrC(fmt.Sprintf("%."+strconv.Itoa(p)+string(rune(a[0].n)), f))
	})
	h("nativeFloatV", func(w *Worker, a []Value) Value {
		if _, ok := a[0].p.(*Dec); ok {
			return Value{p: &Str{opaque: true}}
		}
		return mkStrC(fmt.Sprintf("%v", fl(a[0])))
	})
	h("panicUnsupported", func(w *Worker, a []Value) Value { panic(unsupported(w.argStr(a[0]))) })
	h("rswap", func(w *Worker, a []Value) Value {
		s := a[0].p.(*Iface).v.p.(*Slice)
		i, j := int(a[1].n), int(a[2].n)
		x, y := copyVal(s.arr.e[s.off+i]), copyVal(s.arr.e[s.off+j])
		w.store(&s.arr.e[s.off+i], y)
		w.store(&s.arr.e[s.off+j], x)
		return Value{}
	})
	h("floatSym", func(w *Worker, a []Value) Value { _, ok := a[0].p.(*Dec); return mkBool(ok) })
}

// ---- math/big for decimal strings modulo small constants ---------------------------------

// BigV models the contents of a big.Int as decimal digits (most significant first) or a
// concrete integer.
type BigV struct {
	c   *big.Int
	ds  []*Term // 8-bit terms 0..9
	neg bool
	t   *Term // 64-bit signed term
}

func (w *Worker) bigGet(v Value) *BigV {
	p := v.p
	if p == nil {
		w.nilDeref()
	}
	cell, ok := p.(*Value)
	if !ok {
		panic(unsupported("big.Int address"))
	}
	switch x := cell.p.(type) {
	case *BigV:
		return x
	case *Struct:
		// the zero value, or an integer built by interpreted code: only zero is expected
		if x.f[1].p == nil {
			return &BigV{c: new(big.Int)}
		}
	}
	panic(unsupported("big.Int contents"))
}

func (w *Worker) bigSet(v Value, b *BigV) {
	cell, ok := v.p.(*Value)
	if !ok {
		panic(unsupported("big.Int address"))
	}
	w.setCell(cell, Value{p: b})
}

func (w *Worker) bigTerm(b *BigV) *Term {
	if b.t != nil {
		return b.t
	}
	if b.c != nil && b.c.IsInt64() {
		return w.tc.Const(64, uint64(b.c.Int64()))
	}
	if len(b.ds) > 0 && len(b.ds) <= 18 {
		c := w.tc
		r := c.Const(64, 0)
		for _, d := range b.ds {
			r = c.Add(c.Bin(OMul, r, c.Const(64, 10)), c.Zext(d, 64))
		}
		if b.neg {
			r = c.Neg(r)
		}
		return r
	}
	panic(unsupported("big.Int arithmetic on a large symbolic number"))
}

func addBig() {
	newBig := func(b *BigV) Value { v := Value{p: b}; return Value{p: &v} }
	intrinsics["math/big.NewInt"] = iv(func(w *Worker, a []Value) Value {
		if a[0].p == nil {
			return newBig(&BigV{c: big.NewInt(int64(a[0].n))})
		}
		return newBig(&BigV{t: valTerm(w.tc, a[0], 64)})
	})
	m := func(name string, f func(w *Worker, a []Value) Value) { intrinsics["(*math/big.Int)."+name] = iv(f) }
	m("SetString", func(w *Worker, a []Value) Value {
		symNo(a[2])
		base := int(a[2].n)
		s := strOf(a[1])
		if str, ok := s.concrete(); ok {
			z, good := new(big.Int).SetString(str, base)
			if !good {
				return tup(Value{}, mkBool(false))
			}
			w.bigSet(a[0], &BigV{c: z})
			return tup(a[0], mkBool(true))
		}
		if base != 10 {
			panic(unsupported("big.Int.SetString base"))
		}
		c := w.tc
		ts := s.terms(c)
		neg := false
		if w.branch(c.Eq(ts[0], c.Const(8, '-'))) {
			neg = true
			ts = ts[1:]
		} else if w.branch(c.Eq(ts[0], c.Const(8, '+'))) {
			ts = ts[1:]
		}
		if len(ts) == 0 {
			return tup(Value{}, mkBool(false))
		}
		ds := make([]*Term, len(ts))
		for i, t := range ts {
			d := c.Bin(OSub, t, c.Const(8, '0'))
			if !w.branch(c.Ult(d, c.Const(8, 10))) {
				return tup(Value{}, mkBool(false))
			}
			ds[i] = d
		}
		w.bigSet(a[0], &BigV{ds: ds, neg: neg})
		return tup(a[0], mkBool(true))
	})
	modf := func(w *Worker, a []Value, rem bool) Value {
		x, y := w.bigGet(a[1]), w.bigGet(a[2])
		if y.c == nil {
			panic(unsupported("big.Int.Mod by a symbolic number"))
		}
		if y.c.Sign() == 0 {
			w.rtPanic("division by zero")
		}
		if x.c != nil {
			w.bigSet(a[0], &BigV{c: new(big.Int).Mod(x.c, y.c)})
			return a[0]
		}
		if !y.c.IsInt64() || y.c.Int64() > 1000 || y.c.Int64() < 1 || x.neg && rem {
			panic(unsupported("big.Int.Mod by a large number"))
		}
		c := w.tc
		k := uint64(y.c.Int64())
		if x.t != nil {
			if !nonNeg(x.t) {
				panic(unsupported("big.Int.Mod of a possibly negative number"))
			}
			w.bigSet(a[0], &BigV{t: c.Bin(OUrem, x.t, c.Const(64, k))})
			return a[0]
		}
		// Horner modulo k in 16 bits; each intermediate remainder is a fresh variable defined
		// by r' + q*k = 10*r + d, r' < k.
		r := c.Const(16, 0)
		for _, d := range x.ds {
			r = c.Bin(OUrem, c.Add(c.Bin(OMul, r, c.Const(16, 10)), c.Zext(d, 16)), c.Const(16, k))
		}
		if x.neg { // the least non-negative remainder
			r = c.Bin(OUrem, c.Bin(OSub, c.Const(16, k), r), c.Const(16, k))
		}
		w.bigSet(a[0], &BigV{t: c.Zext(r, 64)})
		return a[0]
	}
	m("Mod", func(w *Worker, a []Value) Value { return modf(w, a, false) })
	m("Rem", func(w *Worker, a []Value) Value { return modf(w, a, true) })
	arith := func(f func(z, x, y *big.Int) *big.Int, op Op) func(w *Worker, a []Value) Value {
		return func(w *Worker, a []Value) Value {
			x, y := w.bigGet(a[1]), w.bigGet(a[2])
			if x.c != nil && y.c != nil {
				w.bigSet(a[0], &BigV{c: f(new(big.Int), x.c, y.c)})
				return a[0]
			}
			tx, ty := w.bigTerm(x), w.bigTerm(y)
			// guard against wrap-around of the 64-bit encoding
			lim := w.tc.Const(64, 1<<31)
			in := func(t *Term) *Term {
				return w.tc.And(w.tc.Slt(w.tc.Neg(lim), t), w.tc.Slt(t, lim))
			}
			if !w.branch(w.tc.And(in(tx), in(ty))) {
				panic(unsupported("big.Int arithmetic on large symbolic numbers"))
			}
			w.bigSet(a[0], &BigV{t: w.tc.Bin(op, tx, ty)})
			return a[0]
		}
	}
	m("Sub", arith((*big.Int).Sub, OSub))
	m("Add", arith((*big.Int).Add, OAdd))
	m("Mul", arith((*big.Int).Mul, OMul))
	m("Int64", func(w *Worker, a []Value) Value {
		b := w.bigGet(a[0])
		if b.c != nil {
			return Value{n: uint64(b.c.Int64())}
		}
		return termVal(w.bigTerm(b))
	})
	m("Uint64", func(w *Worker, a []Value) Value {
		b := w.bigGet(a[0])
		if b.c != nil {
			return Value{n: b.c.Uint64()}
		}
		return termVal(w.bigTerm(b))
	})
	m("IsInt64", func(w *Worker, a []Value) Value {
		b := w.bigGet(a[0])
		if b.c != nil {
			return mkBool(b.c.IsInt64())
		}
		w.bigTerm(b)
		return mkBool(true)
	})
	m("Cmp", func(w *Worker, a []Value) Value {
		x, y := w.bigGet(a[0]), w.bigGet(a[1])
		if x.c != nil && y.c != nil {
			return mkInt(x.c.Cmp(y.c))
		}
		tx, ty := w.bigTerm(x), w.bigTerm(y)
		c := w.tc
		return termVal(c.Ite(c.Eq(tx, ty), c.Const(64, 0), c.Ite(c.Slt(tx, ty), c.Const(64, ^uint64(0)), c.Const(64, 1))))
	})
	m("Sign", func(w *Worker, a []Value) Value {
		x := w.bigGet(a[0])
		if x.c != nil {
			return mkInt(x.c.Sign())
		}
		tx := w.bigTerm(x)
		c := w.tc
		return termVal(c.Ite(c.Eq(tx, c.Const(64, 0)), c.Const(64, 0), c.Ite(c.Slt(tx, c.Const(64, 0)), c.Const(64, ^uint64(0)), c.Const(64, 1))))
	})
	m("SetInt64", func(w *Worker, a []Value) Value {
		if a[1].p == nil {
			w.bigSet(a[0], &BigV{c: big.NewInt(int64(a[1].n))})
		} else {
			w.bigSet(a[0], &BigV{t: valTerm(w.tc, a[1], 64)})
		}
		return a[0]
	})
	m("Set", func(w *Worker, a []Value) Value { w.bigSet(a[0], w.bigGet(a[1])); return a[0] })
	str := func(w *Worker, a []Value) Value {
		b := w.bigGet(a[0])
		if b.c != nil {
			return mkStrC(b.c.String())
		}
		if b.ds != nil {
			panic(unsupported("big.Int.String of a large symbolic number"))
		}
		c := w.tc
		t := b.t
		neg := false
		if !nonNeg(t) {
			if neg = w.branch(c.Slt(t, c.Const(64, 0))); neg {
				t = c.Neg(t)
			}
		}
		return mkStrT(w.digitsToStr(neg, w.decimalDigits(t)))
	}
	m("String", str)
	m("Text", str)
}
