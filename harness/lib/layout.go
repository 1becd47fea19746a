package lib

import (
	"strings"

	"github.com/mitch000001/go-hbci/zzverif/nd"
)

// Render makes the wire form of one segment from a template: elements joined by '+', parts by
// ':'; a part "$c" is replaced by subst(c). Empty parts at the end of a group and empty elements
// at the end are left out. A NUL in the result stands for any digit (written '.' in the template).
func Render(template string, subst func(c byte) []byte) []byte {
	var elems [][]byte
	for _, e := range strings.Split(template, "+") {
		var parts [][]byte
		for _, p := range strings.Split(e, ":") {
			if len(p) == 2 && p[0] == '$' {
				parts = append(parts, subst(p[1]))
			} else {
				parts = append(parts, []byte(strings.Replace(p, ".", "\x00", -1)))
			}
		}
		elems = append(elems, Join(parts, ':'))
	}
	return append(Join(elems, '+'), '\'')
}

// Matches compares wire with a rendered template.
func Matches(wire, want []byte) bool {
	if len(want) != len(wire) {
		return false
	}
	ok := true
	for k := range want {
		ok = nd.And(ok, nd.Or(want[k] == wire[k], nd.And(want[k] == 0, nd.And(wire[k] >= '0', wire[k] <= '9'))))
	}
	return ok
}

// Join joins parts, leaving out empty ones at the end.
func Join(parts [][]byte, sep byte) []byte {
	n := len(parts)
	for n > 0 && len(parts[n-1]) == 0 {
		n--
	}
	var out []byte
	for i := 0; i < n; i++ {
		if i > 0 {
			out = append(out, sep)
		}
		out = append(out, parts[i]...)
	}
	return out
}

// Dec writes n with at least width digits.
func Dec(n, width int) string {
	s := ""
	for n > 0 || len(s) < width {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}
