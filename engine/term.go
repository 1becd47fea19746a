package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Op is a term operator. Width 0 terms are boolean, others are bit-vectors.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd
	OOr
	OEq // any sort -> bool
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OExtract // val = lo, w = result width
	OZext
	OSext
)

var opSMT = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv",
	OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl",
	OLshr: "bvlshr", OAshr: "bvashr",
}

// Term is a hash-consed SMT term.
type Term struct {
	op      Op
	w       uint8
	id      uint32
	size    uint32
	val     uint64
	a, b, c *Term
	vs      []int32 // sorted variable indices
	name    string

	gen    uint32
	ev     uint64
	tab    []uint64   // value table over the 256 values of the only variable (width<=8)
	tt     *[4]uint64 // for booleans: truth table
	z3def  uint32     // z3 session in which the term has been defined
	notT   *Term
	asmSat bool
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
}

// TermCtx is a hash-consing context (one per worker).
type TermCtx struct {
	tab     map[termKey]*Term
	next    uint32
	vars    []*Term
	gen     uint32
	model   []uint64
	T, F    *Term
	bytec   [256]*Term
	varName map[string]*Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, varName: map[string]*Term{}}
	c.next = 1
	c.gen = 1
	c.F = c.mk(OConst, 0, 0, nil, nil, nil)
	c.T = c.mk(OConst, 0, 1, nil, nil, nil)
	for i := range c.bytec {
		c.bytec[i] = c.mk(OConst, 8, uint64(i), nil, nil, nil)
	}
	return c
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mergeVars(x, y []int32) []int32 {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	if len(x) == len(y) {
		same := true
		for i := range x {
			if x[i] != y[i] {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	r := make([]int32, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i] < y[j]:
			r = append(r, x[i])
			i++
		case x[i] > y[j]:
			r = append(r, y[j])
			j++
		default:
			r = append(r, x[i])
			i++
			j++
		}
	}
	r = append(r, x[i:]...)
	r = append(r, y[j:]...)
	if len(r) == len(x) {
		return x
	}
	if len(r) == len(y) {
		return y
	}
	return r
}

func (c *TermCtx) mk(op Op, w uint8, val uint64, a, b, d *Term) *Term {
	k := termKey{op, w, val, tid(a), tid(b), tid(d)}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: d, id: c.next, size: 1}
	c.next++
	for _, x := range []*Term{a, b, d} {
		if x != nil {
			t.vs = mergeVars(t.vs, x.vs)
			t.size += x.size
			if t.size > 1<<30 {
				t.size = 1 << 30
			}
		}
	}
	c.tab[k] = t
	return t
}

// Var returns the variable with the given name, creating it on first use.
func (c *TermCtx) Var(name string, w uint8) *Term {
	if t, ok := c.varName[name]; ok {
		if t.w != w {
			// the same input of another harness, of another size
			return c.Var(name+"~"+strconv.Itoa(int(w)), w)
		}
		return t
	}
	idx := int32(len(c.vars))
	t := &Term{op: OVar, w: w, val: uint64(idx), id: c.next, size: 1, name: name}
	c.next++
	t.vs = []int32{idx}
	c.vars = append(c.vars, t)
	c.model = append(c.model, 0)
	c.varName[name] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return c.T
		}
		return c.F
	}
	v &= mask(w)
	if w == 8 {
		return c.bytec[v]
	}
	return c.mk(OConst, w, v, nil, nil, nil)
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (t *Term) isC() bool { return t.op == OConst }

func (c *TermCtx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	if a.notT != nil {
		return a.notT
	}
	var r *Term
	switch a.op {
	case OUlt:
		r = c.Ule(a.b, a.a)
	case OUle:
		r = c.Ult(a.b, a.a)
	case OSlt:
		r = c.Sle(a.b, a.a)
	case OSle:
		r = c.Slt(a.b, a.a)
	default:
		r = c.mk(ONot, 0, 0, a, nil, nil)
	}
	a.notT = r
	return r
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 0 {
			return c.F
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return c.F
		}
		return a
	}
	if a == b {
		return a
	}
	if a == c.Not(b) {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, 0, a, b, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.val != 0 {
			return c.T
		}
		return b
	}
	if b.op == OConst {
		if b.val != 0 {
			return c.T
		}
		return a
	}
	if a == b {
		return a
	}
	if a == c.Not(b) {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, 0, a, b, nil)
}

func (c *TermCtx) Ite(k, a, b *Term) *Term {
	if k.op == OConst {
		if k.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if k.op == ONot {
		return c.Ite(k.a, b, a)
	}
	if a.w == 0 {
		if a.isC() && b.isC() {
			if a.val != 0 {
				return k
			}
			return c.Not(k)
		}
		if a.isC() {
			if a.val != 0 {
				return c.Or(k, b)
			}
			return c.And(c.Not(k), b)
		}
		if b.isC() {
			if b.val != 0 {
				return c.Or(c.Not(k), a)
			}
			return c.And(k, a)
		}
	}
	if a.op == OIte && a.a == k {
		a = a.b
	}
	if b.op == OIte && b.a == k {
		b = b.c
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, 0, k, a, b)
}

// iteLeavesConst reports whether t is a (small) ite tree with constant leaves.
func iteLeavesConst(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if t.op == OConst {
		return true
	}
	if t.op == OIte {
		return iteLeavesConst(t.b, budget) && iteLeavesConst(t.c, budget)
	}
	return false
}

func (c *TermCtx) mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return c.Ite(t.a, c.mapIte(t.b, f), c.mapIte(t.c, f))
	}
	return f(t)
}

func (c *TermCtx) smallIte(t *Term) bool {
	if t.op != OIte {
		return false
	}
	n := 48
	return iteLeavesConst(t, &n)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isC() && b.isC() {
		return c.F
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.val != 0 {
				return a
			}
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.F
		}
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		switch a.op {
		case OZext:
			if b.val > mask(a.a.w) {
				return c.F
			}
			return c.Eq(a.a, c.Const(a.a.w, b.val))
		case OSext:
			lo := c.Const(a.a.w, b.val)
			if uint64(sext(lo.val, lo.w))&mask(a.w) != b.val {
				return c.F
			}
			return c.Eq(a.a, lo)
		case OAdd:
			if a.b.isC() {
				return c.Eq(a.a, c.Const(a.w, b.val-a.b.val))
			}
		case OBxor:
			if a.b.isC() {
				return c.Eq(a.a, c.Const(a.w, b.val^a.b.val))
			}
		case OIte:
			if c.smallIte(a) {
				return c.mapIte(a, func(l *Term) *Term { return c.Bool(l.val == b.val) })
			}
			if a.b.isC() {
				if a.b.val != b.val {
					return c.And(c.Not(a.a), c.Eq(a.c, b))
				}
				return c.Or(a.a, c.Eq(a.c, b))
			}
			if a.c.isC() {
				if a.c.val != b.val {
					return c.And(a.a, c.Eq(a.b, b))
				}
				return c.Or(c.Not(a.a), c.Eq(a.b, b))
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && a.b.isC() && b.b.isC() {
			return c.Eq(a.a, c.Add(b.a, c.Const(b.w, b.b.val-a.b.val)))
		}
		if a.op == OAdd && a.a == b && a.b.isC() {
			return c.F
		}
		if b.op == OAdd && b.a == a && b.b.isC() {
			return c.F
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(OEq, 0, 0, a, b, nil)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isC() && b.isC() {
		return c.Bool(a.val < b.val)
	}
	if b.isC() {
		if b.val == 0 {
			return c.F
		}
		if b.val == 1 {
			return c.Eq(a, c.Const(a.w, 0))
		}
		if a.op == OZext {
			if b.val > mask(a.a.w) {
				return c.T
			}
			return c.Ult(a.a, c.Const(a.a.w, b.val))
		}
		if c.smallIte(a) {
			return c.mapIte(a, func(l *Term) *Term { return c.Bool(l.val < b.val) })
		}
	}
	if a.isC() {
		if a.val == mask(a.w) {
			return c.F
		}
		if b.op == OZext {
			if a.val >= mask(b.a.w) {
				return c.F
			}
			return c.Ult(c.Const(b.a.w, a.val), b.a)
		}
		if c.smallIte(b) {
			return c.mapIte(b, func(l *Term) *Term { return c.Bool(a.val < l.val) })
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.mk(OUlt, 0, 0, a, b, nil)
}

func (c *TermCtx) Ule(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isC() && b.isC() {
		return c.Bool(a.val <= b.val)
	}
	if b.isC() {
		if b.val == mask(b.w) {
			return c.T
		}
		return c.Ult(a, c.Const(b.w, b.val+1))
	}
	if a.isC() {
		if a.val == 0 {
			return c.T
		}
		return c.Ult(c.Const(a.w, a.val-1), b)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ule(a.a, b.a)
	}
	return c.mk(OUle, 0, 0, a, b, nil)
}

// nonNeg reports whether the sign bit of t is certainly clear.
func nonNeg(t *Term) bool {
	switch t.op {
	case OZext:
		return true
	case OConst:
		return t.val>>(t.w-1) == 0
	case OIte:
		return nonNeg(t.b) && nonNeg(t.c)
	case OUrem:
		return t.b.isC() && t.b.val>>(t.w-1) == 0 && t.b.val != 0
	case OUdiv:
		return t.b.isC() && t.b.val > 1
	case OLshr:
		return t.b.isC() && t.b.val > 0
	case OBand:
		return nonNeg(t.a) || nonNeg(t.b)
	case OAdd, OMul, OSub:
		_, ok := ubound(t)
		return ok
	}
	return false
}

// ubound returns an upper bound for t below the sign bit, if one is syntactically evident
// (and the computation of t involves no wrap-around).
func ubound(t *Term) (uint64, bool) {
	lim := mask(t.w) >> 1
	switch t.op {
	case OConst:
		return t.val, t.val <= lim
	case OZext:
		if u, ok := ubound(t.a); ok {
			return u, true
		}
		return mask(t.a.w), true
	case OIte:
		x, ok1 := ubound(t.b)
		y, ok2 := ubound(t.c)
		if ok1 && ok2 {
			return max(x, y), true
		}
	case OAdd:
		x, ok1 := ubound(t.a)
		y, ok2 := ubound(t.b)
		if ok1 && ok2 && x+y <= lim && x+y >= x {
			return x + y, true
		}
	case OMul:
		x, ok1 := ubound(t.a)
		y, ok2 := ubound(t.b)
		if ok1 && ok2 {
			hi, lo := bits.Mul64(x, y)
			if hi == 0 && lo <= lim {
				return lo, true
			}
		}
	case OUrem:
		if t.b.isC() && t.b.val != 0 && t.b.val-1 <= lim {
			return t.b.val - 1, true
		}
	case OUdiv:
		if t.b.isC() && t.b.val > 1 {
			if x, ok := ubound(t.a); ok {
				return x / t.b.val, true
			}
			return mask(t.w) / t.b.val, true
		}
	case OBand:
		if x, ok := ubound(t.a); ok {
			return x, true
		}
		if x, ok := ubound(t.b); ok {
			return x, true
		}
	case OLshr:
		if t.b.isC() && t.b.val > 0 && t.b.val < uint64(t.w) {
			return mask(t.w) >> t.b.val, true
		}
	}
	return 0, false
}

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isC() && b.isC() {
		return c.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	an, bn := nonNeg(a), nonNeg(b)
	if an && bn {
		return c.Ult(a, b)
	}
	if an && b.isC() { // b negative
		return c.F
	}
	if bn && a.isC() { // a negative
		return c.T
	}
	if b.isC() && c.smallIte(a) {
		return c.mapIte(a, func(l *Term) *Term { return c.Bool(sext(l.val, l.w) < sext(b.val, b.w)) })
	}
	if a.isC() && c.smallIte(b) {
		return c.mapIte(b, func(l *Term) *Term { return c.Bool(sext(a.val, a.w) < sext(l.val, l.w)) })
	}
	return c.mk(OSlt, 0, 0, a, b, nil)
}

func (c *TermCtx) Sle(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isC() && b.isC() {
		return c.Bool(sext(a.val, a.w) <= sext(b.val, b.w))
	}
	an, bn := nonNeg(a), nonNeg(b)
	if an && bn {
		return c.Ule(a, b)
	}
	if an && b.isC() {
		return c.F
	}
	if bn && a.isC() {
		return c.T
	}
	if b.isC() {
		if b.val == mask(b.w)>>1 {
			return c.T
		}
		return c.Slt(a, c.Const(b.w, b.val+1))
	}
	if a.isC() {
		if a.val == 1<<(a.w-1) {
			return c.T
		}
		return c.Slt(c.Const(a.w, a.val-1), b)
	}
	return c.mk(OSle, 0, 0, a, b, nil)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSrem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("evalBin")
}

// Bin builds a bit-vector binary operation.
func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isC() && b.isC() {
		return c.Const(w, evalBin(op, w, a.val, b.val))
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if a.isC() {
			a, b = b, a
		}
	}
	if b.isC() {
		switch op {
		case OAdd, OBor, OBxor, OShl, OLshr, OAshr, OSub:
			if b.val == 0 {
				return a
			}
		}
		switch op {
		case OSub:
			return c.Bin(OAdd, a, c.Const(w, -b.val))
		case OAdd:
			if a.op == OAdd && a.b.isC() {
				return c.Bin(OAdd, a.a, c.Const(w, a.b.val+b.val))
			}
		case OMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if a.op == OMul && a.b.isC() {
				return c.Bin(OMul, a.a, c.Const(w, a.b.val*b.val))
			}
		case OBand:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZext && b.val&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		case OBor:
			if b.val == mask(w) {
				return b
			}
		case OUdiv, OSdiv:
			if b.val == 1 {
				return a
			}
			if op == OSdiv && nonNeg(a) && nonNeg(b) && b.val != 0 {
				return c.Bin(OUdiv, a, b)
			}
		case OUrem, OSrem:
			if op == OSrem && nonNeg(a) && nonNeg(b) && b.val != 0 {
				return c.Bin(OUrem, a, b)
			}
			if op == OUrem && b.val != 0 {
				if u, ok := ubound(a); ok && u < b.val {
					return a
				}
			}
		case OShl:
			if b.val >= uint64(w) {
				return c.Const(w, 0)
			}
		case OLshr:
			if b.val >= uint64(w) {
				return c.Const(w, 0)
			}
		}
		if c.smallIte(a) {
			return c.mapIte(a, func(l *Term) *Term { return c.Const(w, evalBin(op, w, l.val, b.val)) })
		}
	}
	if a == b {
		switch op {
		case OSub, OBxor:
			return c.Const(w, 0)
		case OBand, OBor:
			return a
		}
	}
	if op == OSub && a.op == OAdd && a.a == b && a.b.isC() {
		return a.b
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if !b.isC() && a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(op, w, 0, a, b, nil)
}

func (c *TermCtx) Add(a, b *Term) *Term { return c.Bin(OAdd, a, b) }

func (c *TermCtx) Neg(a *Term) *Term {
	if a.isC() {
		return c.Const(a.w, -a.val)
	}
	if a.op == ONeg {
		return a.a
	}
	return c.mk(ONeg, a.w, 0, a, nil, nil)
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.isC() {
		return c.Const(a.w, ^a.val)
	}
	if a.op == OBnot {
		return a.a
	}
	return c.mk(OBnot, a.w, 0, a, nil, nil)
}

func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return c.Const(w, a.val)
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	if c.smallIte(a) {
		return c.mapIte(a, func(l *Term) *Term { return c.Const(w, l.val) })
	}
	return c.mk(OZext, w, 0, a, nil, nil)
}

func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return c.Const(w, uint64(sext(a.val, a.w)))
	}
	if nonNeg(a) {
		return c.Zext(a, w)
	}
	if a.op == OSext {
		return c.Sext(a.a, w)
	}
	if c.smallIte(a) {
		return c.mapIte(a, func(l *Term) *Term { return c.Const(w, uint64(sext(l.val, l.w))) })
	}
	return c.mk(OSext, w, 0, a, nil, nil)
}

// Trunc keeps the low w bits.
func (c *TermCtx) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return c.Const(w, a.val)
	}
	switch a.op {
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.op == OZext {
			return c.Zext(a.a, w)
		}
		return c.Sext(a.a, w)
	case OExtract:
		if a.val == 0 {
			return c.Trunc(a.a, w)
		}
	case OIte:
		if c.smallIte(a) {
			return c.mapIte(a, func(l *Term) *Term { return c.Const(w, l.val) })
		}
		return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
	case OAdd, OSub, OBand, OBor, OBxor, OMul:
		return c.Bin(a.op, c.Trunc(a.a, w), c.Trunc(a.b, w))
	}
	return c.mk(OExtract, w, 0, a, nil, nil)
}

// Extend changes the width of a (source signedness decides the extension).
func (c *TermCtx) Extend(a *Term, w uint8, signed bool) *Term {
	if a.w >= w {
		return c.Trunc(a, w)
	}
	if signed {
		return c.Sext(a, w)
	}
	return c.Zext(a, w)
}

// apply evaluates the operator of t on concrete operand values.
func (t *Term) apply(x, y, z uint64) uint64 {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		return x ^ 1
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sext(x, t.a.w) < sext(y, t.a.w))
	case OSle:
		return b2u(sext(x, t.a.w) <= sext(y, t.a.w))
	case OIte:
		if x != 0 {
			return y
		}
		return z
	case OBnot:
		return ^x & mask(t.w)
	case ONeg:
		return -x & mask(t.w)
	case OExtract:
		return (x >> t.val) & mask(t.w)
	case OZext:
		return x
	case OSext:
		return uint64(sext(x, t.a.w)) & mask(t.w)
	}
	return evalBin(t.op, t.w, x, y)
}

// Eval evaluates t under the context's current model.
func (c *TermCtx) Eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return c.model[t.val]
	}
	if t.gen == c.gen {
		return t.ev
	}
	var x, y, z uint64
	if t.op == OIte {
		if c.Eval(t.a) != 0 {
			x = c.Eval(t.b)
		} else {
			x = c.Eval(t.c)
		}
		t.gen, t.ev = c.gen, x
		return x
	}
	x = c.Eval(t.a)
	if t.b != nil {
		y = c.Eval(t.b)
	}
	r := t.apply(x, y, z)
	t.gen, t.ev = c.gen, r
	return r
}

func (c *TermCtx) bumpGen() {
	c.gen++
}

// table returns the value table of a term over one variable of width <= 8.
func (c *TermCtx) table(t *Term) []uint64 {
	if t.tab != nil {
		return t.tab
	}
	r := make([]uint64, 256)
	switch t.op {
	case OConst:
		for i := range r {
			r[i] = t.val
		}
		return r // not cached: constants are shared
	case OVar:
		for i := range r {
			r[i] = uint64(i)
		}
	default:
		xa := c.table(t.a)
		var xb, xc []uint64
		if t.b != nil {
			xb = c.table(t.b)
		}
		if t.c != nil {
			xc = c.table(t.c)
		}
		for i := range r {
			var y, z uint64
			if xb != nil {
				y = xb[i]
			}
			if xc != nil {
				z = xc[i]
			}
			r[i] = t.apply(xa[i], y, z)
		}
	}
	t.tab = r
	return r
}

// truth returns the truth table of a boolean term over one 8-bit variable, or nil.
func (c *TermCtx) truth(t *Term) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	if t.w != 0 || len(t.vs) != 1 || c.vars[t.vs[0]].w > 8 {
		return nil
	}
	tb := c.table(t)
	var r [4]uint64
	n := 256
	if w := c.vars[t.vs[0]].w; w < 8 {
		n = 1 << w
		if w == 0 {
			n = 2
		}
	}
	for i := 0; i < n; i++ {
		if tb[i] != 0 {
			r[i>>6] |= 1 << (i & 63)
		}
	}
	t.tt = &r
	t.tab = nil
	return t.tt
}

func (t *Term) sort() string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.val)
	}
	return fmt.Sprintf("t%d", t.id)
}

// body prints the definition of t in terms of references to its operands.
func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, t.a.ref())
	case OZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	default:
		sb.WriteString("(" + opSMT[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" " + x.ref())
			}
		}
		sb.WriteString(")")
	}
	return sb.String()
}

// String renders a term for humans (evidence samples), truncated.
func (t *Term) String() string {
	return t.str(6)
}

func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return t.ref()
		}
		return fmt.Sprintf("%d", t.val)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	var parts []string
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			parts = append(parts, x.str(d-1))
		}
	}
	n := opSMT[t.op]
	if n == "" {
		n = map[Op]string{OExtract: "trunc", OZext: "zext", OSext: "sext"}[t.op]
	}
	return "(" + n + " " + strings.Join(parts, " ") + ")"
}
