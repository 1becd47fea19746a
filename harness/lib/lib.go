// Package lib holds helpers shared by the harnesses.
package lib

import (
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

// Eq states that two byte slices are equal without forking.
func Eq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = nd.And(r, a[i] == b[i])
	}
	return r
}

// EqS is Eq on strings.
func EqS(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := 0; i < len(a); i++ {
		r = nd.And(r, a[i] == b[i])
	}
	return r
}
