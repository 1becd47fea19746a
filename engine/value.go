package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsupported string

// Value is a machine value. Scalars: n when concrete (p==nil), otherwise p is a *Term.
// References are held in p.
type Value struct {
	n uint64
	p any
}

type Struct struct{ f []Value }
type Array struct{ e []Value }
type Slice struct {
	arr           *Array
	off, len, cap int
}

// Elem is a pointer to an array element.
type Elem struct {
	arr *Array
	i   int
}

// SymElem is a pointer to an element at a symbolic index.
type SymElem struct {
	arr  *Array
	off  int
	n    int
	idx  *Term
	path []int
}

type Str struct {
	s      string
	b      []*Term
	opaque bool
}
type Iface struct {
	t types.Type
	v Value
}
type Func struct {
	fn   *ssa.Function
	bind []Value
	bltn *ssa.Builtin
}
type Chan struct {
	cap    int
	q      []Value
	closed bool
}
type Tuple struct{ v []Value }

type mapEntry struct {
	key  Value
	val  Value
	dead bool
}
type Map struct {
	ent    []*mapEntry
	idx    map[string]int
	n      int
	symKey int
}

type Iter struct {
	str *Str
	m   *Map
	pos Value
}

// RV models reflect.Value, RT a reflect type.
type RV struct {
	t    types.Type
	v    Value
	addr Value // pointer, if addressable
}
type RT struct{ t types.Type }

// Dec is a symbolic float: the nearest double to neg? -m/10^k : m/10^k, m < 10^15.
type Dec struct {
	m   *Term // 64-bit, unsigned
	neg *Term // bool
	k   int
}

// Big models a math/big.Int.
var emptyStr = &Str{}

func mkBool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}
func mkInt(i int) Value { return Value{n: uint64(i)} }

func mkStrC(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: &Str{s: s}}
}

func strOf(v Value) *Str {
	if v.p == nil {
		return emptyStr
	}
	return v.p.(*Str)
}

func (s *Str) len() int {
	if s.opaque {
		panic(unsupported("inspection of an unmodelled formatted string"))
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s *Str) at(c *TermCtx, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return c.bytec[s.s[i]]
}

func (s *Str) concrete() (string, bool) {
	if s.opaque {
		panic(unsupported("inspection of an unmodelled formatted string"))
	}
	return s.s, s.b == nil
}

func (s *Str) terms(c *TermCtx) []*Term {
	if s.opaque {
		panic(unsupported("inspection of an unmodelled formatted string"))
	}
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = c.bytec[s.s[i]]
	}
	return r
}

func mkStrT(b []*Term) Value {
	if len(b) == 0 {
		return Value{}
	}
	for _, t := range b {
		if t.op != OConst {
			return Value{p: &Str{b: b}}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.val)
	}
	return Value{p: &Str{s: string(r)}}
}

func (s *Str) sub(lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	if s.b == nil {
		return Value{p: &Str{s: s.s[lo:hi]}}
	}
	return mkStrT(s.b[lo:hi])
}

func termVal(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.val}
	}
	return Value{p: t}
}

// bytesToStr reads n bytes from arr starting at off.
func bytesToStr(c *TermCtx, arr *Array, off, n int) Value {
	if n == 0 {
		return Value{}
	}
	conc := true
	for _, v := range arr.e[off : off+n] {
		if v.p != nil {
			conc = false
			break
		}
	}
	if conc {
		r := make([]byte, n)
		for i := range r {
			r[i] = byte(arr.e[off+i].n)
		}
		return Value{p: &Str{s: string(r)}}
	}
	b := make([]*Term, n)
	for i := range b {
		b[i] = valTerm(c, arr.e[off+i], 8)
	}
	return Value{p: &Str{b: b}}
}

func valTerm(c *TermCtx, v Value, w uint8) *Term {
	if v.p == nil {
		return c.Const(w, v.n)
	}
	t, ok := v.p.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("scalar expected, got %T", v.p)))
	}
	return t
}

func strToArray(c *TermCtx, s *Str) *Array {
	n := s.len()
	a := &Array{e: make([]Value, n)}
	if s.b != nil {
		for i, t := range s.b {
			a.e[i] = termVal(t)
		}
	} else {
		for i := 0; i < n; i++ {
			a.e[i] = Value{n: uint64(s.s[i])}
		}
	}
	return a
}

func copyVal(v Value) Value {
	switch p := v.p.(type) {
	case *Struct:
		f := make([]Value, len(p.f))
		for i, x := range p.f {
			if x.p != nil {
				x = copyVal(x)
			}
			f[i] = x
		}
		return Value{p: &Struct{f}}
	case *Array:
		e := make([]Value, len(p.e))
		for i, x := range p.e {
			if x.p != nil {
				x = copyVal(x)
			}
			e[i] = x
		}
		return Value{p: &Array{e}}
	}
	return v
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = zero(u.Field(i).Type())
		}
		return Value{p: &Struct{f}}
	case *types.Array:
		e := make([]Value, u.Len())
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Tuple:
			for i := range e {
				e[i] = zero(u.Elem())
			}
		}
		return Value{p: &Array{e}}
	case *types.Tuple:
		v := make([]Value, u.Len())
		for i := range v {
			v[i] = zero(u.At(i).Type())
		}
		return Value{p: &Tuple{v}}
	}
	return Value{}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// width of an integer or boolean type; 0 for bool; ok=false otherwise.
func scalarWidth(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func fl(v Value) float64 {
	if v.p != nil {
		panic(unsupported("symbolic floating-point arithmetic"))
	}
	return math.Float64frombits(v.n)
}
func mkFl(f float64) Value { return Value{n: math.Float64bits(f)} }

// keyString gives a canonical string for a concrete comparable value.
func keyString(v Value, t types.Type, sb *strings.Builder) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s := strOf(v)
			if s.opaque || s.b != nil {
				return false
			}
			fmt.Fprintf(sb, "s%d:%s", len(s.s), s.s)
			return true
		}
		if v.p != nil {
			if _, ok := v.p.(*Term); ok {
				return false
			}
		}
		fmt.Fprintf(sb, "n%x|%p", v.n, v.p)
		return true
	case *types.Struct:
		s := v.p.(*Struct)
		for i := range s.f {
			if !keyString(s.f[i], u.Field(i).Type(), sb) {
				return false
			}
			sb.WriteByte(',')
		}
		return true
	case *types.Array:
		a := v.p.(*Array)
		for i := range a.e {
			if !keyString(a.e[i], u.Elem(), sb) {
				return false
			}
			sb.WriteByte(',')
		}
		return true
	case *types.Interface:
		if v.p == nil {
			sb.WriteString("nil")
			return true
		}
		i := v.p.(*Iface)
		fmt.Fprintf(sb, "i%p:", i.t)
		return keyString(i.v, i.t, sb)
	default:
		if e, ok := v.p.(*Elem); ok {
			fmt.Fprintf(sb, "e%p[%d]", e.arr, e.i)
			return true
		}
		fmt.Fprintf(sb, "p%p", v.p)
		return true
	}
}

// showConcrete is used in diagnostics only.
func showConcrete(v Value) string {
	switch p := v.p.(type) {
	case nil:
		return fmt.Sprint(v.n)
	case *Str:
		if p.b == nil {
			return fmt.Sprintf("%q", p.s)
		}
		return "<symbolic string>"
	case *Iface:
		return fmt.Sprintf("%s(%s)", p.t, showConcrete(p.v))
	case *Term:
		return p.String()
	case *Struct:
		var sb strings.Builder
		for i, f := range p.f {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(showConcrete(f))
		}
		return "{" + sb.String() + "}"
	}
	return fmt.Sprintf("%T", v.p)
}
