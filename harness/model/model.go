// Package model holds Go-source models of a few standard library functions. The symbolic
// executor runs them in place of the originals (which rely on reflection, assembly or
// floating-point arithmetic); everything else in the standard library is executed from its
// own source.
package model

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"hash"
	"io"
	"log"
	"math"
	"reflect"
	"strconv"
	"sync"
	"time"
	"unicode/utf8"

	"golang.org/x/text/transform"
)

// ---- intercepted helpers (the bodies are used natively only) ----

func opaque() string         { return "" }
func anySym(a any) bool      { return false }
func isOpaque(s string) bool { return false }
func rkind(v any) int {
	if v == nil {
		return 0
	}
	return int(reflect.ValueOf(v).Kind())
}
func rtype(v any) string { return fmt.Sprintf("%T", v) }
func rint(v any) int64 {
	r := reflect.ValueOf(v)
	if r.CanInt() {
		return r.Int()
	}
	return int64(r.Uint())
}
func rbool(v any) bool     { return reflect.ValueOf(v).Bool() }
func rfloat(v any) float64 { return reflect.ValueOf(v).Float() }
func rstr(v any) string    { return reflect.ValueOf(v).String() }
func rnil(v any) bool      { return v == nil || reflect.ValueOf(v).IsNil() }
func rlen(v any) int {
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Struct {
		return r.NumField()
	}
	return r.Len()
}
func rindex(v any, i int) any {
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Struct {
		return r.Field(i).Interface()
	}
	return r.Index(i).Interface()
}
func rfield(v any, i int) string { return reflect.TypeOf(v).Field(i).Name }
func relem(v any) any            { return reflect.ValueOf(v).Elem().Interface() }
func relemKind(v any) int        { return int(reflect.TypeOf(v).Elem().Kind()) }
func mkDec(neg bool, m uint64, k int) float64 {
	f, _ := strconv.ParseFloat(strconv.FormatUint(m, 10)+"e-"+strconv.Itoa(k), 64)
	if neg {
		f = -f
	}
	return f
}
func nativeParseFloat(s string, bits int) (f float64, ok, rng bool) {
	f, err := strconv.ParseFloat(s, bits)
	return f, err == nil, errors.Is(err, strconv.ErrRange)
}
func nativeFormatFloat(verb byte, f float64, prec int) string {
	return fmt.Sprintf("%."+strconv.Itoa(prec)+string(rune(verb)), f)
}
func nativeFloatV(f float64) string { return fmt.Sprintf("%v", f) }
func floatSym(f float64) bool       { return false }

// ---- strconv.ParseFloat ----

// ParseFloat models strconv.ParseFloat for decimal numbers of at most 15 significant digits
// (where the nearest double identifies the decimal) and for concrete strings.
func ParseFloat(s string, bitSize int) (float64, error) {
	if !anySym(s) {
		f, ok, rng := nativeParseFloat(s, bitSize)
		if ok {
			return f, nil
		}
		if rng {
			return f, &strconv.NumError{Func: "ParseFloat", Num: s, Err: strconv.ErrRange}
		}
		return f, &strconv.NumError{Func: "ParseFloat", Num: s, Err: strconv.ErrSyntax}
	}
	bad := func() (float64, error) {
		return 0, &strconv.NumError{Func: "ParseFloat", Num: s, Err: strconv.ErrSyntax}
	}
	i := 0
	neg := false
	if len(s) == 0 {
		return bad()
	}
	if s[0] == '-' {
		neg = true
		i = 1
	} else if s[0] == '+' {
		i = 1
	}
	var m uint64
	k := 0
	digits := 0
	sawDot := false
	sawDigit := false
	for ; i < len(s); i++ {
		c := s[i]
		if '0' <= c && c <= '9' {
			sawDigit = true
			if digits > 0 || c != '0' || true {
				digits++
			}
			if digits > 15 {
				unsupportedFloat()
			}
			m = m*10 + uint64(c-'0')
			if sawDot {
				k++
			}
			continue
		}
		if c == '.' {
			if sawDot {
				return bad()
			}
			sawDot = true
			continue
		}
		break
	}
	if i == len(s) {
		if !sawDigit {
			return bad()
		}
		return mkDec(neg, m, k), nil
	}
	c := s[i] | 0x20
	if !sawDigit {
		if sawDot {
			return bad()
		}
		// inf, infinity, nan
		for _, w := range []string{"inf", "infinity", "nan"} {
			rest := s[i:]
			if len(rest) == len(w) {
				eq := true
				for j := 0; j < len(w); j++ {
					if rest[j] != w[j] && rest[j] != w[j]-32 {
						eq = false
						break
					}
				}
				if eq {
					if w == "nan" && i > 0 {
						return bad()
					}
					unsupportedFloat()
				}
			}
		}
		return bad()
	}
	if c == 'e' {
		j := i + 1
		if j < len(s) && (s[j] == '+' || s[j] == '-') {
			j++
		}
		if j == len(s) {
			return bad()
		}
		for ; j < len(s); j++ {
			if s[j] < '0' || s[j] > '9' {
				if s[j] == '_' {
					return bad()
				}
				return bad()
			}
		}
		unsupportedFloat()
	}
	if c == 'x' && len(s) > 3 && m == 0 {
		unsupportedFloat()
	}
	return bad()
}

func unsupportedFloat() { panicUnsupported("floating-point literal outside the decimal model") }

// panicUnsupported aborts the path as not encoded.
func panicUnsupported(why string) {}

// ---- fmt ----

type stringer interface{ String() string }

const hexl = "0123456789abcdef"
const hexu = "0123456789ABCDEF"

func hexStr(s string, tab string) string {
	b := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s); i++ {
		b = append(b, tab[s[i]>>4], tab[s[i]&15])
	}
	return string(b)
}

func repeat(c byte, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return string(b)
}

func pad(s string, width int, minus, zero bool) string {
	if isOpaque(s) {
		return s
	}
	n := utf8.RuneCountInString(s)
	if n >= width {
		return s
	}
	if minus {
		return s + repeat(' ', width-n)
	}
	if zero {
		if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
			return s[:1] + repeat('0', width-n) + s[1:]
		}
		return repeat('0', width-n) + s
	}
	return repeat(' ', width-n) + s
}

func isInt(k int) bool { return k >= 2 && k <= 12 }

func fmtInt(v any, base int) string {
	k := rkind(v)
	if k >= 7 {
		return strconv.FormatUint(uint64(rint(v)), base)
	}
	return strconv.FormatInt(rint(v), base)
}

func fmtErr(v any, verb byte) (string, bool) {
	switch x := v.(type) {
	case error:
		if k := rkind(v); (k == 22) && rnil(v) {
			return "<nil>", true
		}
		return x.Error(), true
	case stringer:
		if k := rkind(v); (k == 22) && rnil(v) {
			return "<nil>", true
		}
		return x.String(), true
	}
	return "", false
}

func value(v any, plus, sharp bool, depth int) string {
	if v == nil {
		return "<nil>"
	}
	if !sharp {
		if s, ok := fmtErr(v, 'v'); ok {
			return s
		}
	}
	if sharp {
		return opaque()
	}
	k := rkind(v)
	switch {
	case k == 1:
		if rbool(v) {
			return "true"
		}
		return "false"
	case isInt(k):
		return fmtInt(v, 10)
	case k == 13 || k == 14:
		f := rfloat(v)
		if floatSym(f) {
			return opaque()
		}
		return nativeFloatV(f)
	case k == 24:
		return rstr(v)
	case k == 23 || k == 17:
		if k == 23 && relemKind(v) == 8 || true {
			r := "["
			for i := 0; i < rlen(v); i++ {
				if i > 0 {
					r += " "
				}
				r += value(rindex(v, i), plus, sharp, depth+1)
			}
			return r + "]"
		}
	case k == 25:
		r := "{"
		for i := 0; i < rlen(v); i++ {
			if i > 0 {
				r += " "
			}
			if plus {
				r += rfield(v, i) + ":"
			}
			r += value(rindex(v, i), plus, sharp, depth+1)
		}
		return r + "}"
	case k == 22:
		if rnil(v) {
			return "<nil>"
		}
		if depth == 0 {
			if e := relemKind(v); e == 25 || e == 23 || e == 17 {
				return "&" + value(relem(v), plus, sharp, depth+1)
			}
		}
		return opaque()
	}
	return opaque()
}

func bytesLike(v any) (string, bool) {
	switch x := v.(type) {
	case []byte:
		return string(x), true
	}
	k := rkind(v)
	if k == 23 && relemKind(v) == 8 {
		b := make([]byte, rlen(v))
		for i := range b {
			b[i] = byte(rint(rindex(v, i)))
		}
		return string(b), true
	}
	return "", false
}

func one(v any, verb byte, plus, sharp, minus, zero bool, width, prec int) string {
	var s string
	switch verb {
	case 'T':
		return pad(rtype(v), width, minus, false)
	case 'p':
		return opaque()
	case 'v':
		s = value(v, plus, sharp, 0)
		return pad(s, width, minus, zero && isInt(rkind(v)))
	case 'w':
		return value(v, plus, sharp, 0)
	}
	if v == nil {
		return "%!" + string(rune(verb)) + "(<nil>)"
	}
	k := rkind(v)
	switch verb {
	case 'd':
		if isInt(k) {
			s = fmtInt(v, 10)
			if plus && s[0] != '-' {
				s = "+" + s
			}
			if prec >= 0 {
				s = pad(s, prec, false, true)
			}
			return pad(s, width, minus, zero)
		}
		if k == 23 || k == 17 {
			r := "["
			for i := 0; i < rlen(v); i++ {
				if i > 0 {
					r += " "
				}
				r += one(rindex(v, i), 'd', plus, sharp, minus, zero, width, prec)
			}
			return r + "]"
		}
		return opaque()
	case 's', 'q', 'x', 'X':
		str, ok := fmtErr(v, verb)
		if !ok {
			if str, ok = bytesLike(v); !ok {
				if k == 24 {
					str, ok = rstr(v), true
				}
			}
		}
		if ok {
			if isOpaque(str) {
				return str
			}
			if prec >= 0 && verb != 'x' && verb != 'X' {
				n := 0
				for i := range str {
					n++
					if n > prec {
						str = str[:i]
						break
					}
				}
			}
			switch verb {
			case 'q':
				str = strconv.Quote(str)
			case 'x':
				str = hexStr(str, hexl)
			case 'X':
				str = hexStr(str, hexu)
			}
			return pad(str, width, minus, zero)
		}
		if isInt(k) && (verb == 'x' || verb == 'X') {
			s = fmtInt(v, 16)
			if verb == 'X' {
				b := []byte(s)
				for i := range b {
					if 'a' <= b[i] && b[i] <= 'f' {
						b[i] -= 32
					}
				}
				s = string(b)
			}
			return pad(s, width, minus, zero)
		}
		if verb == 's' && (k == 23 || k == 17) {
			r := "["
			for i := 0; i < rlen(v); i++ {
				if i > 0 {
					r += " "
				}
				r += one(rindex(v, i), 's', plus, sharp, minus, zero, width, prec)
			}
			return r + "]"
		}
		if verb == 's' && isInt(k) {
			return "%!s(" + rtype(v) + "=" + fmtInt(v, 10) + ")"
		}
		if verb == 's' && (k == 25 || k == 22) {
			return opaque()
		}
		return opaque()
	case 'c':
		if isInt(k) {
			return pad(string(rune(rint(v))), width, minus, zero)
		}
	case 't':
		if k == 1 {
			if rbool(v) {
				return pad("true", width, minus, false)
			}
			return pad("false", width, minus, false)
		}
	case 'f', 'F', 'e', 'g', 'G', 'E':
		if k == 13 || k == 14 {
			f := rfloat(v)
			if prec < 0 && (verb == 'f' || verb == 'F' || verb == 'e' || verb == 'E') {
				prec = 6
			}
			if floatSym(f) {
				if verb != 'f' && verb != 'F' {
					return opaque()
				}
				s = strconv.FormatFloat(f, 'f', prec, 64)
			} else if prec < 0 {
				s = strconv.FormatFloat(f, verb, -1, 64)
			} else {
				s = nativeFormatFloat(verb, f, prec)
			}
			if plus && s[0] != '-' {
				s = "+" + s
			}
			return pad(s, width, minus, zero)
		}
	case 'b', 'o', 'U':
		return opaque()
	}
	return opaque()
}

// Sprintf models fmt.Sprintf.
func Sprintf(format string, a ...any) string {
	r := ""
	n := 0
	i := 0
	start := 0
	for i < len(format) {
		if format[i] != '%' {
			i++
			continue
		}
		r += format[start:i]
		i++
		plus, sharp, minus, zero := false, false, false, false
		width, prec := 0, -1
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '+':
				plus = true
			case '#':
				sharp = true
			case '-':
				minus = true
				zero = false
			case '0':
				zero = !minus
			case ' ':
			default:
				break flags
			}
		}
		if i < len(format) && format[i] == '*' {
			i++
			if n < len(a) {
				width = int(rint(a[n]))
				n++
				if width < 0 {
					minus, zero = true, false
					width = -width
				}
			}
		} else {
			for i < len(format) && '0' <= format[i] && format[i] <= '9' {
				width = width*10 + int(format[i]-'0')
				i++
			}
		}
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			if i < len(format) && format[i] == '*' {
				i++
				if n < len(a) {
					prec = int(rint(a[n]))
					n++
				}
			} else {
				for i < len(format) && '0' <= format[i] && format[i] <= '9' {
					prec = prec*10 + int(format[i]-'0')
					i++
				}
			}
		}
		if i >= len(format) {
			r += "%!(NOVERB)"
			start = i
			break
		}
		verb := format[i]
		i++
		start = i
		if verb == '%' {
			r += "%"
			continue
		}
		if n >= len(a) {
			r += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		r += one(a[n], verb, plus, sharp, minus, zero, width, prec)
		n++
	}
	r += format[start:]
	if n < len(a) {
		r += "%!(EXTRA "
		for k := n; k < len(a); k++ {
			if k > n {
				r += ", "
			}
			if a[k] == nil {
				r += "<nil>"
			} else {
				r += rtype(a[k]) + "=" + one(a[k], 'v', false, false, false, false, 0, -1)
			}
		}
		r += ")"
	}
	return r
}

// Sprint models fmt.Sprint.
func Sprint(a ...any) string {
	r := ""
	prev := true
	for i, v := range a {
		isS := rkind(v) == 24
		if i > 0 && !isS && !prev {
			r += " "
		}
		r += one(v, 'v', false, false, false, false, 0, -1)
		prev = isS
	}
	return r
}

// Sprintln models fmt.Sprintln.
func Sprintln(a ...any) string {
	r := ""
	for i, v := range a {
		if i > 0 {
			r += " "
		}
		r += one(v, 'v', false, false, false, false, 0, -1)
	}
	return r + "\n"
}

type fmtError struct{ s string }

func (e *fmtError) Error() string { return e.s }

type wrapError struct {
	s   string
	err error
}

func (e *wrapError) Error() string { return e.s }
func (e *wrapError) Unwrap() error { return e.err }

// Errorf models fmt.Errorf. Messages with symbolic parts are left opaque: no property depends
// on their text.
func Errorf(format string, a ...any) error {
	if isOpaque(format) && len(a) == 0 {
		return &fmtError{opaque()}
	}
	var wrapped error
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			i++
			if format[i] == '%' {
				continue
			}
			for i+1 < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] >= '0' && format[i] <= '9' || format[i] == '.') {
				i++
			}
			if format[i] == 'w' && n < len(a) {
				if e, ok := a[n].(error); ok && wrapped == nil {
					wrapped = e
				}
			}
			n++
		}
	}
	var s string
	if anySym(a) {
		s = opaque()
	} else {
		s = Sprintf(format, a...)
	}
	if wrapped != nil {
		return &wrapError{s, wrapped}
	}
	return &fmtError{s}
}

// Fprintf and friends.
func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	return w.Write([]byte(Sprintf(format, a...)))
}
func Fprint(w io.Writer, a ...any) (int, error)   { return w.Write([]byte(Sprint(a...))) }
func Fprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(Sprintln(a...))) }
func Printf(format string, a ...any) (int, error) { return 0, nil }
func Print(a ...any) (int, error)                 { return 0, nil }
func Println(a ...any) (int, error)               { return 0, nil }

// Slice models sort.Slice (insertion sort; not stable in general, but any result consistent
// with less is a legal result of sort.Slice only for strict orders, so ties keep their order).
func Slice(x any, less func(i, j int) bool) { sliceSort(x, less) }

func sliceSort(x any, less func(i, j int) bool) {
	n := rlen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			rswap(x, j, j-1)
		}
	}
}

func rswap(x any, i, j int) { reflect.Swapper(x)(i, j) }

// ---- golang.org/x/text/encoding/charmap ----

// The structures of the package, field by field: the executor addresses fields by index.
type utf8Enc struct {
	len  uint8
	data [3]byte
}
type charMap struct {
	name          string
	mib           uint16
	asciiSuperset bool
	low           uint8
	replacement   byte
	decode        [256]utf8Enc
	encode        [256]uint32
}
type charmapCoder struct {
	nop     struct{}
	charmap *charMap
}

var errRepertoire = errors.New("encoding: rune not supported by encoding.")

// CharmapDecode models charmapDecoder.Transform: the table of ISO 8859-1 is the identity, the
// tables of other character sets are looked up.
func CharmapDecode(m charmapCoder, dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
	latin1 := m.charmap.name == "ISO 8859-1"
	for i, c := range src {
		if m.charmap.asciiSuperset && c < utf8.RuneSelf {
			if nDst >= len(dst) {
				return nDst, nSrc, transform.ErrShortDst
			}
			dst[nDst] = c
			nDst++
			nSrc = i + 1
			continue
		}
		if latin1 {
			if nDst+2 > len(dst) {
				return nDst, nSrc, transform.ErrShortDst
			}
			dst[nDst] = 0xc0 | c>>6
			dst[nDst+1] = 0x80 | c&0x3f
			nDst += 2
			nSrc = i + 1
			continue
		}
		d := &m.charmap.decode[c]
		n := int(d.len)
		if nDst+n > len(dst) {
			return nDst, nSrc, transform.ErrShortDst
		}
		for j := 0; j < n; j++ {
			dst[nDst] = d.data[j]
			nDst++
		}
		nSrc = i + 1
	}
	return nDst, nSrc, nil
}

// CharmapEncode models charmapEncoder.Transform likewise.
func CharmapEncode(m charmapCoder, dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
	latin1 := m.charmap.name == "ISO 8859-1"
	for nSrc < len(src) {
		if nDst >= len(dst) {
			return nDst, nSrc, transform.ErrShortDst
		}
		c := src[nSrc]
		r, size := rune(c), 1
		if c < utf8.RuneSelf {
			if m.charmap.asciiSuperset {
				nSrc++
				dst[nDst] = c
				nDst++
				continue
			}
		} else if nSrc+1 < len(src) && (c == 0xc2 || c == 0xc3) && src[nSrc+1]&0xc0 == 0x80 {
			r, size = rune(c&3)<<6|rune(src[nSrc+1]&0x3f), 2
		} else {
			r, size = utf8.DecodeRune(src[nSrc:])
			if size == 1 {
				if !atEOF && !utf8.FullRune(src[nSrc:]) {
					return nDst, nSrc, transform.ErrShortSrc
				}
				return nDst, nSrc, errRepertoire
			}
		}
		if latin1 {
			if r > 0xff {
				return nDst, nSrc, errRepertoire
			}
			dst[nDst] = byte(r)
			nDst++
			nSrc += size
			continue
		}
		for low, high := int(m.charmap.low), 0x100; ; {
			if low >= high {
				return nDst, nSrc, errRepertoire
			}
			mid := (low + high) / 2
			got := m.charmap.encode[mid]
			gotRune := rune(got & (1<<24 - 1))
			if gotRune < r {
				low = mid + 1
			} else if gotRune > r {
				high = mid
			} else {
				dst[nDst] = byte(got >> 24)
				nDst++
				break
			}
		}
		nSrc += size
	}
	return nDst, nSrc, nil
}

// ---- strings.Replacer ----

// stringsReplacer is strings.Replacer, field by field.
type stringsReplacer struct {
	once   sync.Once
	r      any
	oldnew []string
}

// Replace models (*strings.Replacer).Replace: at every position the first old string in
// argument order that matches is replaced.
func Replace(r *stringsReplacer, s string) string {
	if out, ok := replaceBytes(r, s); ok {
		return out
	}
	var out []byte
next:
	for i := 0; i < len(s); {
		for k := 0; k+1 < len(r.oldnew); k += 2 {
			old := r.oldnew[k]
			if old == "" {
				panic("model: Replacer with an empty old string")
			}
			if len(s)-i >= len(old) && s[i:i+len(old)] == old {
				out = append(out, r.oldnew[k+1]...)
				i += len(old)
				continue next
			}
		}
		out = append(out, s[i])
		i++
	}
	return string(out)
}

// replaceBytes is Replace for single bytes replaced by strings of one length, by tables.
func replaceBytes(r *stringsReplacer, s string) (string, bool) {
	if len(r.oldnew) < 16 {
		return "", false
	}
	n := len(r.oldnew[1])
	var is [256]byte
	tables := make([][256]byte, n)
	for k := 0; k+1 < len(r.oldnew); k += 2 {
		if len(r.oldnew[k]) != 1 || len(r.oldnew[k+1]) != n {
			return "", false
		}
		c := r.oldnew[k][0]
		if is[c] == 1 {
			continue
		}
		is[c] = 1
		for j := range tables {
			tables[j][c] = r.oldnew[k+1][j]
		}
	}
	var out []byte
	for i := 0; i < len(s); i++ {
		if is[s[i]] == 0 {
			out = append(out, s[i])
			continue
		}
		for j := range tables {
			out = append(out, tables[j][s[i]])
		}
	}
	return string(out), true
}

// WriteString models (*strings.Replacer).WriteString.
func WriteString(r *stringsReplacer, w io.Writer, s string) (int, error) {
	return io.WriteString(w, Replace(r, s))
}

// ---- hash/crc32, IEEE polynomial, without tables ----

func crcUpdate(crc uint32, p []byte) uint32 {
	crc = ^crc
	for _, b := range p {
		crc ^= uint32(b)
		for i := 0; i < 8; i++ {
			crc = crc>>1 ^ 0xedb88320&-(crc&1)
		}
	}
	return ^crc
}

type crcDigest struct{ crc uint32 }

func (d *crcDigest) Size() int      { return 4 }
func (d *crcDigest) BlockSize() int { return 1 }
func (d *crcDigest) Reset()         { d.crc = 0 }
func (d *crcDigest) Sum32() uint32  { return d.crc }
func (d *crcDigest) Write(p []byte) (int, error) {
	d.crc = crcUpdate(d.crc, p)
	return len(p), nil
}
func (d *crcDigest) Sum(in []byte) []byte {
	s := d.crc
	return append(in, byte(s>>24), byte(s>>16), byte(s>>8), byte(s))
}

// NewIEEE replaces crc32.NewIEEE, ChecksumIEEE crc32.ChecksumIEEE.
func NewIEEE() hash.Hash32         { return &crcDigest{} }
func ChecksumIEEE(p []byte) uint32 { return crcUpdate(0, p) }

// ---- time ----

func TimeYear(t time.Time) int         { y, _, _ := t.Date(); return y }
func TimeMonth(t time.Time) time.Month { _, m, _ := t.Date(); return m }
func TimeDay(t time.Time) int          { _, _, d := t.Date(); return d }

// ---- encoding/json ----

// JSONMarshal models json.Marshal for strings of printable ASCII without characters that are escaped.
func JSONMarshal(v any) ([]byte, error) {
	s, ok := v.(string)
	if !ok {
		panicUnsupported("json.Marshal of a value other than a string")
	}
	for i := 0; i < len(s); i++ {
		if c := s[i]; c < ' ' || c > '~' || c == '"' || c == '\\' || c == '<' || c == '>' || c == '&' {
			panicUnsupported("json.Marshal of a string with escaped characters")
		}
	}
	return []byte("\"" + s + "\""), nil
}

// ---- log: nothing is checked about what is logged ----

func LogPrintf(l *log.Logger, format string, a ...any) {}
func LogPrintln(l *log.Logger, a ...any)               {}
func Printlogf(format string, a ...any)                {}
func Printlogln(a ...any)                              {}

// ---- encoding/base64 streams ----
//
// The text Base64 stands for is kept as it is, behind a mark for the alphabet. As with the
// original, up to two bytes are held back until Close, decoding something else is an error,
// and the decoder fails or ends as the underlying reader does.

func base64Mark(enc *base64.Encoding) byte {
	switch enc {
	case base64.StdEncoding:
		return 'S'
	case base64.URLEncoding:
		return 'U'
	case base64.RawStdEncoding:
		return 'T'
	case base64.RawURLEncoding:
		return 'V'
	}
	return 'X'
}

type base64Writer struct {
	w       io.Writer
	mark    byte
	started bool
	rest    []byte
	err     error
}

func (b *base64Writer) flush(n int) {
	if n == 0 || b.err != nil {
		return
	}
	if !b.started {
		b.started = true
		if _, b.err = b.w.Write([]byte{b.mark}); b.err != nil {
			return
		}
	}
	_, b.err = b.w.Write(b.rest[:n])
	b.rest = append([]byte(nil), b.rest[n:]...)
}

func (b *base64Writer) Write(p []byte) (int, error) {
	if b.err != nil {
		return 0, b.err
	}
	b.rest = append(b.rest, p...)
	b.flush(len(b.rest) - len(b.rest)%3)
	if b.err != nil {
		return 0, b.err
	}
	return len(p), nil
}

func (b *base64Writer) Close() error {
	b.flush(len(b.rest))
	return b.err
}

func Base64Encoder(enc *base64.Encoding, w io.Writer) io.WriteCloser {
	return &base64Writer{w: w, mark: base64Mark(enc)}
}

type base64Reader struct {
	r    io.Reader
	mark byte
	read bool
	data *bytes.Reader
	err  error
}

func (b *base64Reader) Read(p []byte) (int, error) {
	if !b.read {
		b.read = true
		all, err := io.ReadAll(b.r)
		if err == nil && len(all) > 0 {
			if all[0] != b.mark {
				err = base64.CorruptInputError(0)
				all = nil
			} else {
				all = all[1:]
			}
		}
		b.data, b.err = bytes.NewReader(all), err
	}
	n, err := b.data.Read(p)
	if err == io.EOF && b.err != nil {
		err = b.err
	}
	return n, err
}

func Base64Decoder(enc *base64.Encoding, r io.Reader) io.Reader {
	return &base64Reader{r: r, mark: base64Mark(enc)}
}

func Base64EncodeToString(enc *base64.Encoding, src []byte) string {
	if len(src) == 0 {
		return ""
	}
	return string(append([]byte{base64Mark(enc)}, src...))
}

func Base64DecodeString(enc *base64.Encoding, s string) ([]byte, error) {
	if len(s) == 0 {
		return []byte{}, nil
	}
	if s[0] != base64Mark(enc) {
		return []byte{}, base64.CorruptInputError(0)
	}
	return []byte(s[1:]), nil
}

func Base64EncodedLen(enc *base64.Encoding, n int) int {
	if n == 0 {
		return 0
	}
	return n + 1
}

func Base64DecodedLen(enc *base64.Encoding, n int) int { return n }

func Base64Encode(enc *base64.Encoding, dst, src []byte) {
	if len(src) > 0 {
		_ = dst[len(src)]
		dst[0] = base64Mark(enc)
		copy(dst[1:], src)
	}
}

func Base64Decode(enc *base64.Encoding, dst, src []byte) (int, error) {
	if len(src) == 0 {
		return 0, nil
	}
	if src[0] != base64Mark(enc) {
		return 0, base64.CorruptInputError(0)
	}
	return copy(dst, src[1:]), nil
}

func Base64AppendEncode(enc *base64.Encoding, dst, src []byte) []byte {
	return append(dst, Base64EncodeToString(enc, src)...)
}

func Base64AppendDecode(enc *base64.Encoding, dst, src []byte) ([]byte, error) {
	b, err := Base64DecodeString(enc, string(src))
	return append(dst, b...), err
}

// Join models strings.Join.
func Join(elems []string, sep string) string {
	for _, e := range elems {
		if isOpaque(e) {
			return opaque()
		}
	}
	n := 0
	for i, e := range elems {
		if i > 0 {
			n += len(sep)
		}
		n += len(e)
	}
	b := make([]byte, 0, n)
	for i, e := range elems {
		if i > 0 {
			b = append(b, sep...)
		}
		b = append(b, e...)
	}
	return string(b)
}

// Max models math.Max, assembly on most machines.
func Max(x, y float64) float64 {
	if x != x || y != y {
		return x + y
	}
	if x == 0 && y == 0 {
		if math.Signbit(x) {
			return y
		}
		return x
	}
	if x > y {
		return x
	}
	return y
}

// Min models math.Min, assembly on most machines.
func Min(x, y float64) float64 {
	if x != x || y != y {
		return x + y
	}
	if x == 0 && y == 0 {
		if math.Signbit(x) {
			return x
		}
		return y
	}
	if x < y {
		return x
	}
	return y
}
