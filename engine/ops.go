package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	c := w.tc
	if op == token.EQL || op == token.NEQ {
		if wd, signed, ok := scalarWidth(xt); ok && wd == 64 && !isFloat(xt) && (x.p != nil || y.p != nil) {
			if k := w.linCmp(op, valTerm(c, x, 64), valTerm(c, y, 64), signed); k != 0 {
				return mkBool(k > 0)
			}
			if t := w.civilCmp(op, valTerm(c, x, 64), valTerm(c, y, 64), signed); t != nil {
				return termVal(t)
			}
		}
		t := w.equalT(x, y, xt, yt)
		if op == token.NEQ {
			t = c.Not(t)
		}
		return termVal(t)
	}
	if isString(xt) {
		return w.strBinop(op, strOf(x), strOf(y))
	}
	if isFloat(xt) {
		return w.floatBinop(op, xt, x, y)
	}
	wd, signed, ok := scalarWidth(xt)
	if !ok {
		panic(unsupported(fmt.Sprintf("binary %s on %s", op, xt)))
	}
	if x.p == nil && y.p == nil {
		return w.concBinop(op, wd, signed, x.n, y.n, yt)
	}
	if x.p != nil {
		if _, ok := x.p.(*Term); !ok {
			panic(unsupported(fmt.Sprintf("binary %s on %T", op, x.p)))
		}
	}
	switch op {
	case token.SHL, token.SHR:
		yw, ys, _ := scalarWidth(yt)
		a := valTerm(c, x, wd)
		b := valTerm(c, y, yw)
		if ys && !nonNeg(b) {
			if w.branch(c.Slt(b, c.Const(yw, 0))) {
				w.rtPanic("negative shift amount")
			}
		}
		over := c.F
		if yw > wd {
			over = c.Ule(c.Const(yw, uint64(wd)), b)
			b = c.Trunc(b, wd)
		} else {
			b = c.Zext(b, wd)
		}
		if op == token.SHL {
			return termVal(c.Ite(over, c.Const(wd, 0), c.Bin(OShl, a, b)))
		}
		if signed {
			return termVal(c.Ite(over, c.Bin(OAshr, a, c.Const(wd, uint64(wd)-1)), c.Bin(OAshr, a, b)))
		}
		return termVal(c.Ite(over, c.Const(wd, 0), c.Bin(OLshr, a, b)))
	}
	a, b := valTerm(c, x, wd), valTerm(c, y, wd)
	if wd == 0 {
		switch op {
		case token.AND:
			return termVal(c.And(a, b))
		case token.OR:
			return termVal(c.Or(a, b))
		}
		panic(unsupported("boolean " + op.String()))
	}
	switch op {
	case token.ADD:
		return termVal(c.Bin(OAdd, a, b))
	case token.SUB:
		return termVal(c.Bin(OSub, a, b))
	case token.MUL:
		return termVal(c.Bin(OMul, a, b))
	case token.QUO, token.REM:
		if !b.isC() {
			if w.branch(c.Eq(b, c.Const(wd, 0))) {
				w.rtPanic("integer divide by zero")
			}
		} else if b.val == 0 {
			w.rtPanic("integer divide by zero")
		}
		if b.isC() && int64(b.val) > 0 {
			if q, r := w.linDiv(a, b.val, signed); q != nil {
				if op == token.QUO {
					return termVal(q)
				}
				return termVal(r)
			}
			if k := w.linWidth(a); k != 0 && b.val < 1<<k {
				o := OUdiv
				if op == token.REM {
					o = OUrem
				}
				return termVal(c.Zext(c.Bin(o, c.Trunc(a, k), c.Const(k, b.val)), 64))
			}
		}
		o := OUdiv
		switch {
		case op == token.QUO && signed:
			o = OSdiv
		case op == token.REM && signed:
			o = OSrem
		case op == token.REM:
			o = OUrem
		}
		return termVal(c.Bin(o, a, b))
	case token.AND:
		return termVal(c.Bin(OBand, a, b))
	case token.OR:
		return termVal(c.Bin(OBor, a, b))
	case token.XOR:
		return termVal(c.Bin(OBxor, a, b))
	case token.AND_NOT:
		return termVal(c.Bin(OBand, a, c.BNot(b)))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if wd == 64 {
			if k := w.linCmp(op, a, b, signed); k != 0 {
				return mkBool(k > 0)
			}
			if t := w.civilCmp(op, a, b, signed); t != nil {
				return termVal(t)
			}
		}
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
		}
		strict := op == token.LSS || op == token.GTR
		switch {
		case signed && strict:
			return termVal(c.Slt(a, b))
		case signed:
			return termVal(c.Sle(a, b))
		case strict:
			return termVal(c.Ult(a, b))
		}
		return termVal(c.Ule(a, b))
	}
	panic(unsupported("binary " + op.String()))
}

func (w *Worker) concBinop(op token.Token, wd uint8, signed bool, x, y uint64, yt types.Type) Value {
	m := mask(wd)
	if wd == 0 {
		m = 1
	}
	switch op {
	case token.ADD:
		return Value{n: (x + y) & m}
	case token.SUB:
		return Value{n: (x - y) & m}
	case token.MUL:
		return Value{n: (x * y) & m}
	case token.QUO:
		if y == 0 {
			w.rtPanic("integer divide by zero")
		}
		if signed {
			return Value{n: evalBin(OSdiv, wd, x, y)}
		}
		return Value{n: x / y}
	case token.REM:
		if y == 0 {
			w.rtPanic("integer divide by zero")
		}
		if signed {
			return Value{n: evalBin(OSrem, wd, x, y)}
		}
		return Value{n: x % y}
	case token.AND:
		return Value{n: x & y}
	case token.OR:
		return Value{n: x | y}
	case token.XOR:
		return Value{n: x ^ y}
	case token.AND_NOT:
		return Value{n: x &^ y}
	case token.SHL, token.SHR:
		yw, ys, _ := scalarWidth(yt)
		if ys && sext(y, yw) < 0 {
			w.rtPanic("negative shift amount")
		}
		if op == token.SHL {
			return Value{n: evalBin(OShl, wd, x, y)}
		}
		if signed {
			return Value{n: evalBin(OAshr, wd, x, y)}
		}
		return Value{n: evalBin(OLshr, wd, x, y)}
	}
	if signed {
		a, b := sext(x, wd), sext(y, wd)
		switch op {
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
	}
	switch op {
	case token.LSS:
		return mkBool(x < y)
	case token.LEQ:
		return mkBool(x <= y)
	case token.GTR:
		return mkBool(x > y)
	case token.GEQ:
		return mkBool(x >= y)
	}
	panic(unsupported("binary " + op.String()))
}

func (w *Worker) strConcat(x, y *Str) Value {
	if x.opaque || y.opaque {
		return Value{p: &Str{opaque: true}}
	}
	if x.b == nil && y.b == nil {
		return mkStrC(x.s + y.s)
	}
	a, b := x.terms(w.tc), y.terms(w.tc)
	r := make([]*Term, 0, len(a)+len(b))
	return mkStrT(append(append(r, a...), b...))
}

func (w *Worker) strBinop(op token.Token, x, y *Str) Value {
	if op == token.ADD {
		return w.strConcat(x, y)
	}
	c := w.tc
	if x.b == nil && y.b == nil && !x.opaque && !y.opaque {
		switch op {
		case token.LSS:
			return mkBool(x.s < y.s)
		case token.LEQ:
			return mkBool(x.s <= y.s)
		case token.GTR:
			return mkBool(x.s > y.s)
		case token.GEQ:
			return mkBool(x.s >= y.s)
		}
	}
	switch op {
	case token.LSS:
		return termVal(w.strLess(x, y))
	case token.GTR:
		return termVal(w.strLess(y, x))
	case token.LEQ:
		return termVal(c.Not(w.strLess(y, x)))
	case token.GEQ:
		return termVal(c.Not(w.strLess(x, y)))
	}
	panic(unsupported("string " + op.String()))
}

func (w *Worker) strLess(x, y *Str) *Term {
	c := w.tc
	a, b := x.terms(c), y.terms(c)
	n := min(len(a), len(b))
	r := c.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = c.Or(c.Ult(a[i], b[i]), c.And(c.Eq(a[i], b[i]), r))
	}
	return r
}

func (w *Worker) strEq(x, y *Str) *Term {
	c := w.tc
	if x == y {
		return c.T
	}
	if x.len() != y.len() {
		return c.F
	}
	if x.b == nil && y.b == nil {
		return c.Bool(x.s == y.s)
	}
	r := c.T
	for i := 0; i < x.len(); i++ {
		r = c.And(r, c.Eq(x.at(c, i), y.at(c, i)))
		if r == c.F {
			break
		}
	}
	return r
}

func (w *Worker) equalT(x, y Value, xt, yt types.Type) *Term {
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi != yi {
		if xi {
			y = Value{p: &Iface{t: w.P.Canon(yt), v: y}}
		} else {
			x = Value{p: &Iface{t: w.P.Canon(xt), v: x}}
			xt = yt
		}
	}
	return w.equal(x, y, xt)
}

func (w *Worker) equal(x, y Value, t types.Type) *Term {
	c := w.tc
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return w.strEq(strOf(x), strOf(y))
		}
		if u.Info()&types.IsFloat != 0 {
			return w.floatEq(x, y)
		}
		if x.p == nil && y.p == nil {
			return c.Bool(x.n == y.n)
		}
		if wd, _, ok := scalarWidth(t); ok {
			_, xt := x.p.(*Term)
			_, yt := y.p.(*Term)
			if (x.p == nil || xt) && (y.p == nil || yt) {
				return c.Eq(valTerm(c, x, wd), valTerm(c, y, wd))
			}
		}
		return c.Bool(samePtr(x, y))
	case *types.Interface:
		if x.p == nil || y.p == nil {
			return c.Bool(x.p == nil && y.p == nil)
		}
		a, ok1 := x.p.(*Iface)
		b, ok2 := y.p.(*Iface)
		if !ok1 || !ok2 {
			panic(unsupported("comparison of opaque interface"))
		}
		if a.t != b.t {
			return c.F
		}
		if ra, ok := a.v.p.(*RT); ok {
			if rb, ok := b.v.p.(*RT); ok {
				return c.Bool(ra.t == rb.t)
			}
		}
		if !types.Comparable(a.t) {
			w.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return w.equal(a.v, b.v, a.t)
	case *types.Struct:
		a, ok1 := x.p.(*Struct)
		b, ok2 := y.p.(*Struct)
		if !ok1 || !ok2 {
			panic(unsupported("comparison of opaque struct"))
		}
		r := c.T
		for i := range a.f {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = c.And(r, w.equal(a.f[i], b.f[i], u.Field(i).Type()))
		}
		return r
	case *types.Array:
		a, b := x.p.(*Array), y.p.(*Array)
		r := c.T
		for i := range a.e {
			r = c.And(r, w.equal(a.e[i], b.e[i], u.Elem()))
		}
		return r
	case *types.Slice, *types.Map, *types.Signature:
		// only comparison with nil is legal
		return c.Bool(x.p == nil && y.p == nil)
	}
	return c.Bool(samePtr(x, y))
}

func samePtr(x, y Value) bool {
	if a, ok := x.p.(*Elem); ok {
		b, ok := y.p.(*Elem)
		return ok && a.arr == b.arr && a.i == b.i
	}
	return x.p == y.p && x.n == y.n
}

// ---- floats -----------------------------------------------------------------------------

var pow10 = [...]uint64{1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000, 10000000000000, 100000000000000, 1000000000000000}

// decOf views a value as a symbolic decimal, if possible.
func (w *Worker) decOf(v Value) (*Dec, bool) {
	if d, ok := v.p.(*Dec); ok {
		return d, true
	}
	if v.p != nil {
		return nil, false
	}
	f := math.Float64frombits(v.n)
	neg := math.Signbit(f)
	a := math.Abs(f)
	for k := 0; k <= 6; k++ {
		s := strconv.FormatFloat(a, 'f', k, 64)
		if g, err := strconv.ParseFloat(s, 64); err == nil && g == a {
			m := uint64(0)
			for _, ch := range s {
				if ch != '.' {
					m = m*10 + uint64(ch-'0')
				}
				if m >= pow10[15] {
					return nil, false
				}
			}
			return &Dec{m: w.tc.Const(64, m), neg: w.tc.Bool(neg), k: k}, true
		}
	}
	return nil, false
}

// digitsOf views m as a sequence of known digits, if it is one.
func (w *Worker) digitsOf(m *Term) []*Term {
	if m.isC() {
		return w.decimalDigits(m)
	}
	return w.hornerDigits(m)
}

func (w *Worker) decScale(d *Dec, k int) *Dec {
	if d.k == k {
		return d
	}
	return &Dec{m: w.tc.Bin(OMul, d.m, w.tc.Const(64, pow10[k-d.k])), neg: d.neg, k: k}
}

func (w *Worker) floatEq(x, y Value) *Term {
	if x.p == nil && y.p == nil {
		return w.tc.Bool(fl(x) == fl(y))
	}
	a, ok1 := w.decOf(x)
	b, ok2 := w.decOf(y)
	if !ok1 || !ok2 {
		panic(unsupported("symbolic floating-point comparison"))
	}
	k := max(a.k, b.k)
	a, b = w.decScale(a, k), w.decScale(b, k)
	c := w.tc
	if x, y := w.digitsOf(a.m), w.digitsOf(b.m); x != nil && y != nil {
		// both are known digit by digit
		for len(x) < len(y) {
			x = append([]*Term{c.Const(8, 0)}, x...)
		}
		for len(y) < len(x) {
			y = append([]*Term{c.Const(8, 0)}, y...)
		}
		eq, zero := c.T, c.T
		for i := range x {
			eq = c.And(eq, c.Eq(x[i], y[i]))
			zero = c.And(zero, c.Eq(x[i], c.Const(8, 0)))
		}
		return c.And(eq, c.Or(c.Eq(a.neg, b.neg), zero))
	}
	return c.And(c.Eq(a.m, b.m), c.Or(c.Eq(a.neg, b.neg), c.Eq(a.m, c.Const(64, 0))))
}

func (w *Worker) floatBinop(op token.Token, t types.Type, x, y Value) Value {
	c := w.tc
	if x.p != nil || y.p != nil {
		a, ok1 := w.decOf(x)
		b, ok2 := w.decOf(y)
		if ok1 && ok2 {
			switch op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				k := max(a.k, b.k)
				a, b = w.decScale(a, k), w.decScale(b, k)
				sa := c.Ite(a.neg, c.Neg(a.m), a.m)
				sb := c.Ite(b.neg, c.Neg(b.m), b.m)
				switch op {
				case token.LSS:
					return termVal(c.Slt(sa, sb))
				case token.GTR:
					return termVal(c.Slt(sb, sa))
				case token.LEQ:
					return termVal(c.Sle(sa, sb))
				}
				return termVal(c.Sle(sb, sa))
			case token.MUL:
				// exact multiplication by 1 and -1 only
				for i := 0; i < 2; i++ {
					if y.p == nil {
						switch fl(y) {
						case 1:
							return x
						case -1:
							return Value{p: &Dec{m: a.m, neg: c.Not(a.neg), k: a.k}}
						}
					}
					x, y, a, b = y, x, b, a
				}
			case token.SUB:
				if x.p == nil && fl(x) == 0 && !math.Signbit(fl(x)) {
					// 0 - y: -y except that the result for y == 0 is +0
					return Value{p: &Dec{m: b.m, neg: c.And(c.Not(b.neg), c.Not(c.Eq(b.m, c.Const(64, 0)))), k: b.k}}
				}
			}
		}
		panic(unsupported("symbolic floating-point " + op.String()))
	}
	a, b := fl(x), fl(y)
	r := 0.0
	switch op {
	case token.ADD:
		r = a + b
	case token.SUB:
		r = a - b
	case token.MUL:
		r = a * b
	case token.QUO:
		r = a / b
	case token.LSS:
		return mkBool(a < b)
	case token.LEQ:
		return mkBool(a <= b)
	case token.GTR:
		return mkBool(a > b)
	case token.GEQ:
		return mkBool(a >= b)
	default:
		panic(unsupported("float " + op.String()))
	}
	if t.Underlying().(*types.Basic).Kind() == types.Float32 {
		r = float64(float32(r))
	}
	return mkFl(r)
}

func (w *Worker) unop(in *ssa.UnOp, x Value) Value {
	c := w.tc
	switch in.Op {
	case token.MUL:
		v := w.load(x)
		if _, ok := v.p.(*lazySel); ok {
			v = w.fixSel(v, in.Type())
		}
		return v
	case token.NOT:
		if x.p == nil {
			return Value{n: x.n ^ 1}
		}
		return termVal(c.Not(x.p.(*Term)))
	case token.SUB:
		if isFloat(in.Type()) {
			if d, ok := x.p.(*Dec); ok {
				return Value{p: &Dec{m: d.m, neg: c.Not(d.neg), k: d.k}}
			}
			return mkFl(-fl(x))
		}
		wd, _, _ := scalarWidth(in.Type())
		if x.p == nil {
			return Value{n: -x.n & mask(wd)}
		}
		return termVal(c.Neg(valTerm(c, x, wd)))
	case token.XOR:
		wd, _, _ := scalarWidth(in.Type())
		if x.p == nil {
			return Value{n: ^x.n & mask(wd)}
		}
		return termVal(c.BNot(valTerm(c, x, wd)))
	case token.ARROW:
		elem := in.X.Type().Underlying().(*types.Chan).Elem()
		v, ok, ready := w.chanRecv(x, elem)
		if !ready {
			panic(pathEnd{"violation", "deadlock: receive from empty channel"})
		}
		if in.CommaOk {
			return Value{p: &Tuple{[]Value{v, mkBool(ok)}}}
		}
		return v
	}
	panic(unsupported("unary " + in.Op.String()))
}

func (w *Worker) convert(from, to types.Type, x Value) Value {
	c := w.tc
	fw, fs, fok := scalarWidth(from)
	tw, _, tok := scalarWidth(to)
	if fok && tok {
		if x.p == nil {
			n := x.n
			if tw > fw && fs {
				n = uint64(sext(n, fw))
			}
			return Value{n: n & mask(tw)}
		}
		if t, ok := x.p.(*Term); ok {
			return termVal(c.Extend(t, tw, fs))
		}
		return x // pointer-ish uintptr
	}
	if isString(to) {
		switch u := from.Underlying().(type) {
		case *types.Slice:
			if x.p == nil {
				return Value{}
			}
			s := x.p.(*Slice)
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return bytesToStr(c, s.arr, s.off, s.len)
			}
			var out []*Term
			for i := 0; i < s.len; i++ {
				out = append(out, w.encodeRune(valTerm(c, s.arr.e[s.off+i], 32))...)
			}
			return mkStrT(out)
		}
		if fok {
			if x.p == nil {
				return mkStrC(string(rune(sext(x.n, fw))))
			}
			t := valTerm(c, x, fw)
			if fw < 32 {
				t = c.Extend(t, 32, fs)
			} else if fw > 32 {
				if w.branch(c.Ult(c.Const(fw, 0x10FFFF), t)) {
					return mkStrC("�")
				}
				t = c.Trunc(t, 32)
			}
			return mkStrT(w.encodeRune(t))
		}
		if isString(from) {
			return x
		}
	}
	if isString(from) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			s := strOf(x)
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				a := strToArray(c, s)
				return Value{p: &Slice{arr: a, len: len(a.e), cap: len(a.e)}}
			}
			a := &Array{}
			for i := 0; i < s.len(); {
				r, n := w.decodeRune(s, i)
				a.e = append(a.e, termVal(r))
				i += n
			}
			return Value{p: &Slice{arr: a, len: len(a.e), cap: len(a.e)}}
		}
	}
	if isFloat(from) && isFloat(to) {
		if x.p == nil && to.Underlying().(*types.Basic).Kind() == types.Float32 {
			return mkFl(float64(float32(fl(x))))
		}
		return x
	}
	if fok && isFloat(to) {
		if x.p != nil {
			t := valTerm(c, x, fw)
			t64 := c.Extend(t, 64, fs)
			if fs {
				neg := c.Slt(t64, c.Const(64, 0))
				mag := c.Ite(neg, c.Neg(t64), t64)
				if !w.branch(c.Ult(mag, c.Const(64, pow10[15]))) {
					panic(unsupported("conversion of a large symbolic integer to float"))
				}
				return Value{p: &Dec{m: mag, neg: neg, k: 0}}
			}
			if !w.branch(c.Ult(t64, c.Const(64, pow10[15]))) {
				panic(unsupported("conversion of a large symbolic integer to float"))
			}
			return Value{p: &Dec{m: t64, neg: c.F, k: 0}}
		}
		var f float64
		if fs {
			f = float64(sext(x.n, fw))
		} else {
			f = float64(x.n)
		}
		if to.Underlying().(*types.Basic).Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return mkFl(f)
	}
	if isFloat(from) && tok {
		if d, ok := x.p.(*Dec); ok {
			m := c.Bin(OUdiv, d.m, c.Const(64, pow10[d.k]))
			return termVal(c.Trunc(c.Ite(d.neg, c.Neg(m), m), tw))
		}
		_, ts, _ := scalarWidth(to)
		f := fl(x)
		if ts {
			return Value{n: uint64(int64(f)) & mask(tw)}
		}
		return Value{n: uint64(f) & mask(tw)}
	}
	// pointer <-> unsafe.Pointer and identical underlying types
	return x
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, target types.Type, x Value) Value {
	ok := false
	var v Value
	_, isI := target.Underlying().(*types.Interface)
	if x.p != nil {
		i, isIf := x.p.(*Iface)
		if !isIf {
			panic(unsupported("type assertion on opaque interface"))
		}
		if isI {
			ok = w.implements(i.t, target)
			v = x
		} else {
			ok = i.t == target
			v = i.v
		}
	}
	if in.CommaOk {
		if !ok {
			v = zero(target)
		}
		return Value{p: &Tuple{[]Value{v, mkBool(ok)}}}
	}
	if !ok {
		dyn := "nil"
		if x.p != nil {
			dyn = x.p.(*Iface).t.String()
		}
		w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, target))
	}
	return v
}

type implKey struct{ t, i types.Type }

func (w *Worker) implements(t, iface types.Type) bool {
	k := implKey{t, iface}
	if r, ok := w.P.asrt.Load(k); ok {
		return r.(bool)
	}
	w.P.tmu.Lock()
	r := types.Implements(t, iface.Underlying().(*types.Interface))
	w.P.tmu.Unlock()
	w.P.asrt.Store(k, r)
	return r
}

// ---- builtins ---------------------------------------------------------------------------

func (w *Worker) builtin(b *ssa.Builtin, args []Value) Value {
	sig := b.Type().(*types.Signature)
	switch b.Name() {
	case "len":
		return mkInt(w.lenOf(args[0], sig.Params().At(0).Type()))
	case "cap":
		switch p := args[0].p.(type) {
		case *Slice:
			return mkInt(p.cap)
		case *Chan:
			return mkInt(p.cap)
		case *Array:
			return mkInt(len(p.e))
		case *Value:
			return mkInt(len(p.p.(*Array).e))
		}
		return mkInt(0)
	case "append":
		return w.appendBuiltin(args[0], args[1], sig)
	case "copy":
		d, _ := args[0].p.(*Slice)
		var n int
		if d == nil {
			return mkInt(0)
		}
		if isString(sig.Params().At(1).Type()) {
			s := strOf(args[1])
			n = min(d.len, s.len())
			for i := 0; i < n; i++ {
				w.setCell(&d.arr.e[d.off+i], termVal(s.at(w.tc, i)))
			}
			return mkInt(n)
		}
		s, _ := args[1].p.(*Slice)
		if s == nil {
			return mkInt(0)
		}
		n = min(d.len, s.len)
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(s.arr.e[s.off+i])
		}
		for i := range tmp {
			w.store(&d.arr.e[d.off+i], tmp[i])
		}
		return mkInt(n)
	case "delete":
		if args[0].p != nil {
			w.mapDelete(args[0].p.(*Map), sig.Params().At(0).Type().Underlying().(*types.Map).Key(), args[1])
		}
		return Value{}
	case "clear":
		switch p := args[0].p.(type) {
		case *Map:
			for _, e := range p.ent {
				if !e.dead {
					e := e
					e.dead = true
					p.n--
					w.onUndo(func() { e.dead = false; p.n++ })
				}
			}
		case *Slice:
			el := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < p.len; i++ {
				w.store(&p.arr.e[p.off+i], zero(el))
			}
		}
		return Value{}
	case "close":
		ch, _ := args[0].p.(*Chan)
		if ch == nil {
			w.rtPanic("close of nil channel")
		}
		if ch.closed {
			w.rtPanic("close of closed channel")
		}
		ch.closed = true
		w.stall = 0
		w.onUndo(func() { ch.closed = false })
		return Value{}
	case "print", "println":
		return Value{}
	case "recover":
		fr := w.top()
		if fr.retKind == retPanic && len(w.frames) >= 2 {
			own := w.frames[len(w.frames)-2]
			if own.panicking && !own.recovered {
				own.recovered = true
				return own.panicVal
			}
		}
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			w.nilDeref()
		}
		return args[0]
	case "min", "max":
		r := args[0]
		t := sig.Params().At(0).Type()
		for _, a := range args[1:] {
			less := w.binop(token.LSS, t, t, a, r)
			if b.Name() == "max" {
				less = w.binop(token.GTR, t, t, a, r)
			}
			wd, _, ok := scalarWidth(t)
			if ok && less.p != nil {
				r = termVal(w.tc.Ite(less.p.(*Term), valTerm(w.tc, a, wd), valTerm(w.tc, r, wd)))
				continue
			}
			if w.condVal(less) {
				r = a
			}
		}
		return r
	case "String": // unsafe.String
		n := int(w.concInt(args[1], 64, true))
		switch p := args[0].p.(type) {
		case nil:
			return Value{}
		case *Elem:
			return bytesToStr(w.tc, p.arr, p.i, n)
		}
		panic(unsupported("unsafe.String"))
	case "StringData":
		s := strOf(args[0])
		if s.len() == 0 {
			return Value{}
		}
		return Value{p: &Elem{strToArray(w.tc, s), 0}}
	case "SliceData":
		if s, ok := args[0].p.(*Slice); ok {
			if s.off < len(s.arr.e) {
				return Value{p: &Elem{s.arr, s.off}}
			}
			return Value{p: &Elem{s.arr, s.off}}
		}
		return Value{}
	case "Slice":
		n := int(w.concInt(args[1], 64, true))
		switch p := args[0].p.(type) {
		case nil:
			return Value{}
		case *Elem:
			return Value{p: &Slice{arr: p.arr, off: p.i, len: n, cap: n}}
		}
		panic(unsupported("unsafe.Slice"))
	}
	panic(unsupported("builtin " + b.Name()))
}

func (w *Worker) lenOf(v Value, t types.Type) int {
	if isString(t) {
		return strOf(v).len()
	}
	switch p := v.p.(type) {
	case nil:
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return int(pt.Elem().Underlying().(*types.Array).Len())
		}
		return 0
	case *Slice:
		return p.len
	case *Map:
		return p.n
	case *Chan:
		return len(p.q)
	case *Array:
		return len(p.e)
	case *Value:
		return len(p.p.(*Array).e)
	}
	panic(unsupported(fmt.Sprintf("len of %T", v.p)))
}

func (w *Worker) appendBuiltin(a, b Value, sig *types.Signature) Value {
	var src []Value
	if isString(sig.Params().At(1).Type()) {
		s := strOf(b)
		n := s.len()
		src = make([]Value, n)
		for i := range src {
			src[i] = termVal(s.at(w.tc, i))
		}
	} else if b.p != nil {
		s := b.p.(*Slice)
		src = make([]Value, s.len)
		for i := range src {
			src[i] = copyVal(s.arr.e[s.off+i])
		}
	}
	d, _ := a.p.(*Slice)
	if len(src) == 0 {
		return a
	}
	if d == nil {
		d = &Slice{arr: &Array{}}
	}
	n := d.len + len(src)
	if n <= d.cap {
		for i, v := range src {
			w.store(&d.arr.e[d.off+d.len+i], v)
		}
		return Value{p: &Slice{arr: d.arr, off: d.off, len: n, cap: d.cap}}
	}
	// growth rule of the Go runtime
	nc := d.cap
	if n > 2*nc {
		nc = n
	} else if nc < 256 {
		nc = 2 * nc
	} else {
		for nc < n {
			nc += (nc + 3*256) / 4
		}
	}
	nc = roundCap(nc, sig.Params().At(0).Type().Underlying().(*types.Slice).Elem())
	e := make([]Value, nc)
	for i := 0; i < d.len; i++ {
		e[i] = copyVal(d.arr.e[d.off+i])
	}
	copy(e[d.len:], src)
	el := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
	if isAgg(el) {
		for i := n; i < nc; i++ {
			e[i] = zero(el)
		}
	}
	return Value{p: &Slice{arr: &Array{e}, len: n, cap: nc}}
}

var sizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// roundCap applies the size classes of the Go allocator to a capacity.
func roundCap(n int, el types.Type) int {
	sz := sizes.Sizeof(el)
	if sz == 0 {
		return n
	}
	want := int64(n) * sz
	for _, c := range sizeClasses {
		if c >= want {
			return int(c / sz)
		}
	}
	return int((want + 8191) / 8192 * 8192 / sz)
}
