package main

import (
	"go/token"
	"math/big"
	"sort"
	"time"
)

// Linear forms over byte variables. A 64-bit term is viewed as an integer combination of atoms
// whose ranges follow from the byte domains of the path. Where the ranges exclude overflow, the
// form decides comparisons and divides by constants exactly; everything else is left to the solver.

type lin struct {
	atoms []*Term // 64-bit terms
	coef  []*big.Int
	c0    *big.Int
}

// civil is a day number known to be that of a valid date; civilBase is that of 0000-01-01.
type civil struct {
	y, m, d *Term
}

// yearDays is the number of days before the year y, counted from 0000-01-01.
func yearDays(y int64) uint64 {
	n := y * 365
	if y > 0 {
		n += (y-1)/4 - (y-1)/100 + (y-1)/400 + 1
	}
	return uint64(n)
}

var (
	bigZero   = new(big.Int)
	big63     = new(big.Int).Lsh(big.NewInt(1), 63)
	big64     = new(big.Int).Lsh(big.NewInt(1), 64)
	maxAbsDay = new(big.Int).SetUint64(1 << 47)
)

func (l *lin) add(t *Term, k *big.Int) {
	for i, a := range l.atoms {
		if a == t {
			l.coef[i] = new(big.Int).Add(l.coef[i], k)
			return
		}
	}
	l.atoms = append(l.atoms, t)
	l.coef = append(l.coef, k)
}

// atomRange bounds t as an unsigned (and, where it has 64 bits, signed non-negative) number.
func (w *Worker) atomRange(t *Term) (lo, hi uint64, ok bool) {
	if cv, is := w.civil[t]; is {
		lo, hi = 0, 1<<47
		if l, ok := w.linOf(cv.y, 48); ok && w.civilBase != 0 {
			if ylo, yhi := w.linRange(l); ylo.Sign() >= 0 && yhi.IsInt64() && yhi.Int64() <= 9999 {
				lo, hi = w.civilBase+yearDays(ylo.Int64()), w.civilBase+yearDays(yhi.Int64()+1)-1
			}
		}
		return lo, hi, true
	}
	if len(t.vs) == 1 && w.tc.vars[t.vs[0]].w == 8 {
		w.ensureDom()
		tb := w.tc.table(t)
		d := &w.dom[t.vs[0]]
		first := true
		for i := 0; i < 256; i++ {
			if d[i>>6]>>(i&63)&1 == 0 {
				continue
			}
			v := tb[i]
			if v >= 1<<62 {
				return 0, 0, false
			}
			if first {
				lo, hi, first = v, v, false
			}
			lo, hi = min(lo, v), max(hi, v)
		}
		return lo, hi, !first
	}
	if t.op == OIte && t.w == 64 {
		for i, x := range []*Term{t.b, t.c} {
			l, ok := w.linOf(x, 48)
			if !ok {
				return 0, 0, false
			}
			a, b := w.linRange(l)
			if a.Sign() < 0 || b.BitLen() > 62 {
				return 0, 0, false
			}
			if i == 0 {
				lo, hi = a.Uint64(), b.Uint64()
			} else {
				lo, hi = min(lo, a.Uint64()), max(hi, b.Uint64())
			}
		}
		return lo, hi, true
	}
	if u, ok := ubound(t); ok && u < 1<<62 {
		return 0, u, true
	}
	return 0, 0, false
}

func (w *Worker) linOf(t *Term, budget int) (*lin, bool) {
	l := &lin{c0: new(big.Int)}
	n := budget
	ok := w.linAdd(l, t, big.NewInt(1), &n)
	if ok {
		j := 0
		for i := range l.atoms {
			if l.coef[i].Sign() != 0 {
				l.atoms[j], l.coef[j] = l.atoms[i], l.coef[i]
				j++
			}
		}
		l.atoms, l.coef = l.atoms[:j], l.coef[:j]
	}
	return l, ok
}

func (w *Worker) linAdd(l *lin, t *Term, k *big.Int, n *int) bool {
	*n--
	if *n < 0 {
		return false
	}
	if _, is := w.civil[t]; is {
		l.add(t, k)
		return true
	}
	switch t.op {
	case OConst:
		v := new(big.Int).SetInt64(int64(t.val))
		l.c0.Add(l.c0, v.Mul(v, k))
		return true
	case OAdd:
		return w.linAdd(l, t.a, k, n) && w.linAdd(l, t.b, k, n)
	case OSub:
		return w.linAdd(l, t.a, k, n) && w.linAdd(l, t.b, new(big.Int).Neg(k), n)
	case OMul:
		if t.b.isC() {
			return w.linAdd(l, t.a, new(big.Int).Mul(k, big.NewInt(int64(t.b.val))), n)
		}
	case OZext:
		// zext(x+c) of a byte without wrap-around is zext(x)+c
		if x := t.a; x.w == 8 && x.op == OAdd && x.b.isC() {
			z := w.tc.Zext(x.a, 64)
			lo, hi, ok := w.atomRange(z)
			c := sext(x.b.val, 8)
			if ok && int64(lo)+c >= 0 && int64(hi)+c <= 255 {
				l.c0.Add(l.c0, new(big.Int).Mul(k, big.NewInt(c)))
				return w.linAdd(l, z, k, n)
			}
		}
	}
	if t.w != 64 {
		return false
	}
	if _, _, ok := w.atomRange(t); !ok {
		return false
	}
	l.add(t, k)
	return true
}

// fact bounds a linear form of at least two atoms on the current path.
type fact struct {
	atoms  []*Term
	coef   []*big.Int
	lo, hi *big.Int
}

// noteFact takes the bounds of a linear form from a path condition.
func (w *Worker) noteFact(t *Term) {
	op, neg := t.op, false
	if op == ONot {
		t, neg = t.a, true
		op = t.op
	}
	switch op {
	case OUlt, OUle, OSlt, OSle:
	case OEq:
		if neg {
			return
		}
	default:
		return
	}
	if t.a == nil || t.b == nil || t.a.w != 64 {
		return
	}
	la, ok := w.linOf(t.a, 48)
	if !ok {
		return
	}
	lb, ok := w.linOf(t.b, 48)
	if !ok || len(la.atoms)+len(lb.atoms) < 2 {
		return
	}
	for _, l := range []*lin{la, lb} {
		lo, hi := w.linRange(l)
		if op == OSlt || op == OSle {
			if lo.CmpAbs(big63) >= 0 || hi.CmpAbs(big63) >= 0 {
				return
			}
		} else if lo.Sign() < 0 || hi.Cmp(big64) >= 0 {
			return
		}
	}
	d := &lin{c0: new(big.Int).Sub(lb.c0, la.c0)}
	for i, a := range lb.atoms {
		d.add(a, lb.coef[i])
	}
	for i, a := range la.atoms {
		d.add(a, new(big.Int).Neg(la.coef[i]))
	}
	f := fact{}
	g := new(big.Int)
	for i, a := range d.atoms {
		if d.coef[i].Sign() != 0 {
			f.atoms, f.coef = append(f.atoms, a), append(f.coef, d.coef[i])
			g.GCD(nil, nil, g, new(big.Int).Abs(d.coef[i]))
		}
	}
	if len(f.atoms) < 2 {
		return
	}
	// d = Σ + c0, and d is 0, at least 0 or 1, or at most 0 or -1
	bound := new(big.Int).Neg(d.c0)
	strict := op == OUlt || op == OSlt
	switch {
	case op == OEq:
		f.lo, f.hi = bound, bound
	case !neg && strict:
		f.lo = bound.Add(bound, big.NewInt(1))
	case !neg:
		f.lo = bound
	case strict:
		f.hi = bound
	default:
		f.hi = bound.Sub(bound, big.NewInt(1))
	}
	// primitive form with a positive first coefficient
	first := 0
	for i := range f.atoms {
		if f.atoms[i].id < f.atoms[first].id {
			first = i
		}
	}
	if f.coef[first].Sign() < 0 {
		g.Neg(g)
	}
	for i := range f.coef {
		f.coef[i] = new(big.Int).Quo(f.coef[i], g)
	}
	abs := new(big.Int).Abs(g)
	if g.Sign() < 0 {
		f.lo, f.hi = f.hi, f.lo
		if f.lo != nil {
			f.lo = new(big.Int).Neg(f.lo)
		}
		if f.hi != nil {
			f.hi = new(big.Int).Neg(f.hi)
		}
	}
	if f.lo != nil { // ceiling
		f.lo = new(big.Int).Neg(new(big.Int).Div(new(big.Int).Neg(f.lo), abs))
	}
	if f.hi != nil {
		f.hi = new(big.Int).Div(f.hi, abs)
	}
	n := len(w.facts)
	for i := n - 1; i >= 0; i-- {
		if e := &w.facts[i]; len(e.atoms) == len(f.atoms) && factOf(e, f.atoms, f.coef) != nil {
			if f.lo == nil || e.lo != nil && e.lo.Cmp(f.lo) > 0 {
				f.lo = e.lo
			}
			if f.hi == nil || e.hi != nil && e.hi.Cmp(f.hi) < 0 {
				f.hi = e.hi
			}
			break
		}
	}
	w.facts = append(w.facts, f)
	w.onUndo(func() { w.facts = w.facts[:n] })
}

// factOf is the factor k for which the form contains k times that of the fact, or nil.
func factOf(f *fact, atoms []*Term, coef []*big.Int) *big.Int {
	var k *big.Int
	for i, a := range f.atoms {
		found := false
		for j, b := range atoms {
			if a != b || coef[j].Sign() == 0 {
				continue
			}
			q, r := new(big.Int).QuoRem(coef[j], f.coef[i], new(big.Int))
			if r.Sign() != 0 || k != nil && k.Cmp(q) != 0 {
				return nil
			}
			k, found = q, true
			break
		}
		if !found {
			return nil
		}
	}
	return k
}

// factOn restricts a fact to the atoms of the form: the others are bounded by their ranges.
func (w *Worker) factOn(f *fact, l *lin) *fact {
	g := &fact{lo: f.lo, hi: f.hi}
	other := &lin{c0: new(big.Int)}
	for i, a := range f.atoms {
		found := false
		for j, b := range l.atoms {
			if a == b && l.coef[j].Sign() != 0 {
				found = true
				break
			}
		}
		if found {
			g.atoms, g.coef = append(g.atoms, a), append(g.coef, f.coef[i])
		} else {
			other.atoms, other.coef = append(other.atoms, a), append(other.coef, f.coef[i])
		}
	}
	if len(other.atoms) == 0 {
		return f
	}
	if len(g.atoms) < 2 {
		return nil
	}
	lo, hi := w.plainRange(other)
	if g.lo != nil {
		g.lo = new(big.Int).Sub(g.lo, hi)
	}
	if g.hi != nil {
		g.hi = new(big.Int).Sub(g.hi, lo)
	}
	return g
}

// bounds of the form as an integer
func (w *Worker) linRange(l *lin) (lo, hi *big.Int) {
	lo, hi = w.plainRange(l)
	if len(w.facts) == 0 || len(l.atoms) < 2 {
		return lo, hi
	}
	rest := &lin{atoms: l.atoms, coef: append([]*big.Int{}, l.coef...), c0: new(big.Int).Set(l.c0)}
	sumLo, sumHi := new(big.Int), new(big.Int)
	used := false
	for i := len(w.facts) - 1; i >= 0; i-- {
		f := w.factOn(&w.facts[i], rest)
		if f == nil {
			continue
		}
		k := factOf(f, rest.atoms, rest.coef)
		if k == nil {
			continue
		}
		flo, fhi := w.plainRange(&lin{atoms: f.atoms, coef: f.coef, c0: new(big.Int)})
		if f.lo != nil && f.lo.Cmp(flo) > 0 {
			flo = f.lo
		}
		if f.hi != nil && f.hi.Cmp(fhi) < 0 {
			fhi = f.hi
		}
		p, q := new(big.Int).Mul(k, flo), new(big.Int).Mul(k, fhi)
		if p.Cmp(q) > 0 {
			p, q = q, p
		}
		sumLo.Add(sumLo, p)
		sumHi.Add(sumHi, q)
		for j, a := range rest.atoms {
			for _, b := range f.atoms {
				if a == b {
					rest.coef[j] = bigZero
				}
			}
		}
		used = true
	}
	if used {
		rlo, rhi := w.plainRange(rest)
		if sumLo.Add(sumLo, rlo).Cmp(lo) > 0 {
			lo = sumLo
		}
		if sumHi.Add(sumHi, rhi).Cmp(hi) < 0 {
			hi = sumHi
		}
	}
	return lo, hi
}

func (w *Worker) plainRange(l *lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.c0), new(big.Int).Set(l.c0)
	for i, a := range l.atoms {
		x, y, _ := w.atomRange(a)
		p := new(big.Int).Mul(l.coef[i], new(big.Int).SetUint64(x))
		q := new(big.Int).Mul(l.coef[i], new(big.Int).SetUint64(y))
		if p.Cmp(q) > 0 {
			p, q = q, p
		}
		lo.Add(lo, p)
		hi.Add(hi, q)
	}
	return lo, hi
}

// linTerm builds the form again, in Horner form if possible.
func (w *Worker) linTerm(l *lin) *Term {
	c := w.tc
	idx := make([]int, len(l.atoms))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return l.coef[idx[a]].Cmp(l.coef[idx[b]]) > 0 })
	kc := func(k *big.Int) *Term {
		return c.Const(64, new(big.Int).And(k, new(big.Int).Sub(big64, big.NewInt(1))).Uint64())
	}
	horner := len(idx) > 0
	for i := range idx {
		k := l.coef[idx[i]]
		if k.Sign() <= 0 || i > 0 && new(big.Int).Mod(l.coef[idx[i-1]], k).Sign() != 0 {
			horner = false
		}
	}
	r := c.Const(64, 0)
	if horner {
		for i := range idx {
			if i > 0 {
				r = c.Bin(OMul, r, kc(new(big.Int).Div(l.coef[idx[i-1]], l.coef[idx[i]])))
			}
			r = c.Add(r, l.atoms[idx[i]])
		}
		r = c.Bin(OMul, r, kc(l.coef[idx[len(idx)-1]]))
	} else {
		for _, i := range idx {
			r = c.Add(r, c.Bin(OMul, l.atoms[i], kc(l.coef[i])))
		}
	}
	return c.Add(r, kc(l.c0))
}

// linDiv divides t by the constant m, if its linear form splits into a multiple of m and a rest
// within 0..m-1.
func (w *Worker) linDiv(t *Term, m uint64, signed bool) (q, r *Term) {
	if t.w != 64 || m == 0 || m >= 1<<62 {
		return nil, nil
	}
	switch t.op {
	case OAdd, OMul, OSub, OZext:
	default:
		if _, is := w.civil[t]; !is {
			return nil, nil
		}
	}
	l, ok := w.linOf(t, 64)
	if !ok || len(l.atoms) == 0 {
		return nil, nil
	}
	lim := big64
	if signed {
		lim = big63
	}
	lo, hi := w.linRange(l)
	if lo.Sign() < 0 || hi.Cmp(lim) >= 0 {
		return nil, nil
	}
	bm := new(big.Int).SetUint64(m)
	lq, lr := &lin{}, &lin{}
	for i, a := range l.atoms {
		d, e := new(big.Int).DivMod(l.coef[i], bm, new(big.Int))
		if d.Sign() != 0 {
			lq.atoms, lq.coef = append(lq.atoms, a), append(lq.coef, d)
		}
		if e.Sign() != 0 {
			lr.atoms, lr.coef = append(lr.atoms, a), append(lr.coef, e)
		}
	}
	lq.c0, lr.c0 = new(big.Int).DivMod(l.c0, bm, new(big.Int))
	// the range of the rest may lie in any window of size m
	lo, hi = w.linRange(lr)
	shift := new(big.Int).Div(lo, bm)
	lq.c0.Add(lq.c0, shift)
	shift.Mul(shift, bm)
	lr.c0.Sub(lr.c0, shift)
	hi.Sub(hi, shift)
	if hi.Cmp(bm) >= 0 {
		return nil, nil
	}
	return w.linTerm(lq), w.linTerm(lr)
}

// linCmp decides a comparison of 64-bit terms by their ranges: 1 true, -1 false, 0 unknown.
func (w *Worker) linCmp(op token.Token, a, b *Term, signed bool) int {
	if a.w != 64 || a.isC() && b.isC() {
		return 0
	}
	la, ok := w.linOf(a, 48)
	if !ok {
		return 0
	}
	lb, ok := w.linOf(b, 48)
	if !ok {
		return 0
	}
	for _, l := range []*lin{la, lb} {
		lo, hi := w.linRange(l)
		if signed {
			if lo.CmpAbs(big63) >= 0 || hi.CmpAbs(big63) >= 0 {
				return 0
			}
		} else if lo.Sign() < 0 || hi.Cmp(big64) >= 0 {
			return 0
		}
	}
	d := &lin{c0: new(big.Int).Sub(la.c0, lb.c0)}
	for i, t := range la.atoms {
		d.add(t, la.coef[i])
	}
	for i, t := range lb.atoms {
		d.add(t, new(big.Int).Neg(lb.coef[i]))
	}
	lo, hi := w.linRange(d)
	tri := func(yes, no bool) int {
		switch {
		case yes:
			return 1
		case no:
			return -1
		}
		return 0
	}
	switch op {
	case token.EQL:
		return tri(lo.Sign() == 0 && hi.Sign() == 0, lo.Sign() > 0 || hi.Sign() < 0)
	case token.NEQ:
		return tri(lo.Sign() > 0 || hi.Sign() < 0, lo.Sign() == 0 && hi.Sign() == 0)
	case token.LSS:
		return tri(hi.Sign() < 0, lo.Sign() >= 0)
	case token.LEQ:
		return tri(hi.Sign() <= 0, lo.Sign() > 0)
	case token.GTR:
		return tri(lo.Sign() > 0, hi.Sign() <= 0)
	case token.GEQ:
		return tri(lo.Sign() >= 0, hi.Sign() < 0)
	}
	return 0
}

// hornerDigits views t as a number whose decimal digits are known terms (most significant first).
func (w *Worker) hornerDigits(t *Term) []*Term {
	c := w.tc
	l, ok := w.linOf(t, 64)
	if !ok || len(l.atoms) == 0 || len(l.atoms) > 18 {
		return nil
	}
	var ds [19]*Term
	top := -1
	c0 := new(big.Int).Set(l.c0)
	for i, a := range l.atoms {
		p := -1
		for k := 0; k < 18; k++ {
			if l.coef[i].IsUint64() && l.coef[i].Uint64() == pow10u(k) {
				p = k
			}
		}
		lo, hi, _ := w.atomRange(a)
		if p < 0 || ds[p] != nil || hi-lo > 9 || a.op != OZext || a.a.w != 8 {
			return nil
		}
		base := lo
		switch {
		case hi <= 9:
			base = 0
		case lo >= '0' && hi <= '9':
			base = '0'
		}
		c0.Add(c0, new(big.Int).Mul(l.coef[i], new(big.Int).SetUint64(base)))
		ds[p] = c.Add(a.a, c.Const(8, -base))
		top = max(top, p)
	}
	if !c0.IsUint64() || c0.Uint64() >= pow10u(18) {
		return nil
	}
	for k, v := 0, c0.Uint64(); v != 0; k, v = k+1, v/10 {
		if v%10 != 0 {
			if ds[k] != nil {
				return nil
			}
			ds[k] = c.Const(8, v%10)
			top = max(top, k)
		}
	}
	var r []*Term
	for k := top; k >= 0; k-- {
		d := ds[k]
		if d == nil {
			d = c.Const(8, 0)
		}
		r = append(r, d)
	}
	return r
}

// ---- civil dates ------------------------------------------------------------------------

// noteCivil records that days is the day number of the date y-m-d if that is certainly a valid date
// of the years 0 to 9999: then the date of the day number is that date again, as the conversion of
// valid dates is injective.
func (w *Worker) noteCivil(args []Value, res Value) {
	days, ok := res.p.(*Term)
	if !ok && res.p == nil && args[0].p == nil && args[1].p == nil && args[2].p == nil {
		w.calibrate(uint64(args[0].n), uint64(args[1].n), uint64(args[2].n), uint64(res.n))
		return
	}
	if !ok || days.w != 64 {
		return
	}
	if _, ok := w.civil[days]; ok {
		return
	}
	c := w.tc
	y, m, d := valTerm(c, args[0], 64), valTerm(c, args[1], 64), valTerm(c, args[2], 64)
	k := func(v uint64) *Term { return c.Const(64, v) }
	le := func(a, b *Term) *Term {
		switch w.linCmp(token.LEQ, a, b, false) {
		case 1:
			return c.T
		case -1:
			return c.F
		}
		return c.Ule(a, b)
	}
	rem := func(m uint64) *Term {
		_, r := w.linDiv(y, m, false)
		if r == nil {
			r = c.Bin(OUrem, y, k(m))
		}
		return c.Eq(r, k(0))
	}
	valid := func(t *Term) bool {
		r, _ := w.feasible(c.Not(t))
		return r == Unsat
	}
	if !valid(le(y, k(9999))) || !valid(c.And(le(k(1), m), le(m, k(12)))) || !valid(le(k(1), d)) {
		return
	}
	// up to 28 every day is one of the month; beyond, the month and the year decide
	for _, q := range []*Term{
		le(d, k(31)),
		c.Or(le(d, k(30)), c.Not(c.Or(c.Or(c.Eq(m, k(4)), c.Eq(m, k(6))), c.Or(c.Eq(m, k(9)), c.Eq(m, k(11)))))),
		c.Or(le(d, k(29)), c.Not(c.Eq(m, k(2)))),
	} {
		if !valid(q) {
			return
		}
	}
	if q := c.Or(le(d, k(28)), c.Not(c.Eq(m, k(2)))); !valid(q) {
		leap := c.And(rem(4), c.Or(c.Not(rem(100)), rem(400)))
		if !valid(c.Or(q, leap)) {
			return
		}
	}
	if w.civil == nil {
		w.civil = map[*Term]civil{}
	}
	if w.civilBase == 0 {
		if r, model := w.feasible(le(k(1), d)); r == SatYes && model != nil {
			old := append([]uint64{}, w.tc.model...)
			w.setModel(model)
			w.calibrate(c.Eval(y), c.Eval(m), c.Eval(d), c.Eval(days))
			w.setModel(old)
		}
	}
	w.civil[days] = civil{y, m, d}
	w.onUndo(func() { delete(w.civil, days) })
}

// calibrate finds the day number of 0000-01-01 from that of any one date, as the conversion counts
// days. It must be the one of the documented epoch of package time (1 March of year
// -292277022400); otherwise day numbers stay uninterpreted.
func (w *Worker) calibrate(y, m, d, days uint64) {
	const known = 106751990354238 - 366
	if w.civilBase != 0 || y > 9999 || m < 1 || m > 12 || d < 1 || d > 31 {
		return
	}
	t := time.Date(int(y), time.Month(m), int(d), 0, 0, 0, 0, time.UTC)
	if t.Day() != int(d) {
		return
	}
	base := days - uint64(t.YearDay()-1) - yearDays(int64(y))
	if base == known {
		w.civilBase = base
	}
}

func (w *Worker) civilDate(args []Value) (Value, bool) {
	if t, ok := args[0].p.(*Term); ok {
		if r, ok := w.civil[t]; ok {
			return Value{p: &Tuple{[]Value{termVal(r.y), termVal(r.m), termVal(r.d)}}}, true
		}
	}
	return Value{}, false
}

// civilCmp turns a comparison of day numbers into one of dates, nil if it is none. Day numbers
// order like dates.
func (w *Worker) civilCmp(op token.Token, a, b *Term, signed bool) *Term {
	if len(w.civil) == 0 {
		return nil
	}
	la, ok := w.linOf(a, 48)
	if !ok {
		return nil
	}
	lb, ok := w.linOf(b, 48)
	if !ok {
		return nil
	}
	for _, l := range []*lin{la, lb} {
		lo, hi := w.linRange(l)
		if signed && (lo.CmpAbs(big63) >= 0 || hi.CmpAbs(big63) >= 0) || !signed && (lo.Sign() < 0 || hi.Cmp(big64) >= 0) {
			return nil
		}
	}
	d := &lin{c0: new(big.Int).Sub(la.c0, lb.c0)}
	for i, t := range la.atoms {
		d.add(t, la.coef[i])
	}
	for i, t := range lb.atoms {
		d.add(t, new(big.Int).Neg(lb.coef[i]))
	}
	var at []*Term
	var co []*big.Int
	for i, t := range d.atoms {
		if d.coef[i].Sign() == 0 {
			continue
		}
		if _, is := w.civil[t]; !is || w.civilBase == 0 {
			return nil
		}
		at, co = append(at, t), append(co, d.coef[i])
	}
	c := w.tc
	var x, y civil
	switch len(at) {
	case 1:
		x = w.civil[at[0]]
		// k*days + c0 op 0
		if co[0].Sign() < 0 {
			co[0], d.c0 = new(big.Int).Neg(co[0]), new(big.Int).Neg(d.c0)
			op = flip(op)
		}
		n, r := new(big.Int).DivMod(new(big.Int).Neg(d.c0), co[0], new(big.Int))
		if r.Sign() != 0 {
			switch op {
			case token.EQL:
				return c.F
			case token.NEQ:
				return c.T
			case token.LSS: // days < n+1
				op = token.LEQ
			case token.GEQ:
				op = token.GTR
			}
		}
		n.Sub(n, new(big.Int).SetUint64(w.civilBase))
		if !n.IsInt64() || n.Int64() < 0 || n.Int64() >= int64(yearDays(10000)) {
			return nil
		}
		t := time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, int(n.Int64()))
		y = civil{y: c.Const(64, uint64(t.Year())), m: c.Const(64, uint64(t.Month())), d: c.Const(64, uint64(t.Day()))}
	case 2:
		if d.c0.Sign() != 0 || new(big.Int).Add(co[0], co[1]).Sign() != 0 {
			return nil
		}
		x, y = w.civil[at[0]], w.civil[at[1]]
		if co[0].Sign() < 0 {
			x, y = y, x
		}
	default:
		return nil
	}
	rel := func(op token.Token, a, b *Term) *Term {
		if k := w.linCmp(op, a, b, false); k > 0 {
			return c.T
		} else if k < 0 {
			return c.F
		}
		if op == token.EQL {
			return c.Eq(a, b)
		}
		return c.Ult(a, b)
	}
	eq := c.And(rel(token.EQL, x.y, y.y), c.And(rel(token.EQL, x.m, y.m), rel(token.EQL, x.d, y.d)))
	lt := func(x, y civil) *Term {
		return c.Or(rel(token.LSS, x.y, y.y), c.And(rel(token.EQL, x.y, y.y),
			c.Or(rel(token.LSS, x.m, y.m), c.And(rel(token.EQL, x.m, y.m), rel(token.LSS, x.d, y.d)))))
	}
	switch op {
	case token.EQL:
		return eq
	case token.NEQ:
		return c.Not(eq)
	case token.LSS:
		return lt(x, y)
	case token.GTR:
		return lt(y, x)
	case token.LEQ:
		return c.Not(lt(y, x))
	case token.GEQ:
		return c.Not(lt(x, y))
	}
	return nil
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// linWidth is 16 or 32 if t is certainly a number of that many bits, else 0.
func (w *Worker) linWidth(t *Term) uint8 {
	if t.w != 64 {
		return 0
	}
	l, ok := w.linOf(t, 64)
	if !ok || len(l.atoms) == 0 {
		return 0
	}
	lo, hi := w.linRange(l)
	switch {
	case lo.Sign() < 0 || !hi.IsUint64():
	case hi.Uint64() < 1<<16:
		return 16
	case hi.Uint64() < 1<<32:
		return 32
	}
	return 0
}
