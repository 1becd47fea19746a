// Package nd is the nondeterminism API of the verification harnesses. The symbolic executor
// intercepts its functions; natively they replay a recorded input vector, so that the same
// harness confirms a counterexample against the real code.
package nd

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"
)

// H describes one harness: a function taking the bound parameters of one task.
type H struct {
	Name     string // Go name of the harness function
	F        func(p []int)
	Quick    [][]int  // parameter vectors of the quick tier
	Thorough [][]int  // additional parameter vectors of the thorough tier
	Covers   []string // labels that must be reached by some path (vacuity guard)
	Bound    string   // the bound in words
	Steps    int64    // instruction limit per path (0: default)
}

// AssertFail, AssumeFail and Diverged end a native run.
type AssertFail struct{ Label string }
type AssumeFail struct{}
type Diverged struct{}

var (
	inputs []uint64
	pos    int
	obs    []string
)

func take() uint64 {
	if pos >= len(inputs) {
		panic(Diverged{})
	}
	v := inputs[pos]
	pos++
	return v
}

// Byte returns an arbitrary byte.
func Byte(name string) byte { return byte(take()) }

// Bool returns an arbitrary boolean.
func Bool(name string) bool { return take() != 0 }

// Int returns an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int { return int(take()) }

// Choice returns one of 0..n-1; every alternative is explored separately.
func Choice(name string, n int) int {
	if n <= 1 {
		take()
		return 0
	}
	return int(take())
}

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return b
}

// String returns a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Assume restricts the inputs.
func Assume(ok bool) {
	if !ok {
		panic(AssumeFail{})
	}
}

// Assert states the property.
func Assert(ok bool, label string) {
	if !ok {
		panic(AssertFail{label})
	}
}

// Cover marks a point that must be reachable.
func Cover(label string) {}

// ObserveS and ObserveI record values compared between the encoding and the native run.
func ObserveS(label, s string) { obs = append(obs, fmt.Sprintf("%s=%x", label, s)) }
func ObserveI(label string, i int) {
	obs = append(obs, fmt.Sprintf("%s=%d", label, i))
}

// MapOrder makes the iteration order of small maps in the code under test arbitrary.
func MapOrder(on bool) {}

// Symbolic reports whether the harness is being executed symbolically.
func Symbolic() bool { return false }

// Or, And, Implies and IfInt combine conditions without forking paths.
func Or(a, b bool) bool      { return a || b }
func And(a, b bool) bool     { return a && b }
func Implies(a, b bool) bool { return !a || b }
func IfInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case AssertFail, AssumeFail, Diverged:
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Run is one native execution request and Result its outcome.
type Run struct {
	Harness string   `json:"harness"`
	Params  []int    `json:"params"`
	Inputs  []uint64 `json:"inputs"`
	Obs     []string `json:"obs,omitempty"`
}
type Result struct {
	Outcome string   `json:"outcome"`
	Obs     []string `json:"obs"`
	Unused  int      `json:"unused"`
}

func runOne(h H, r Run) (res Result) {
	inputs, pos, obs = r.Inputs, 0, nil
	defer func() {
		res.Obs = obs
		res.Unused = len(inputs) - pos
		if p := recover(); p != nil {
			switch x := p.(type) {
			case AssertFail:
				res.Outcome = "assert: " + x.Label
			case AssumeFail:
				res.Outcome = "assume"
			case Diverged:
				res.Outcome = "diverged"
			default:
				res.Outcome = "panic: " + strings.ToValidUTF8(fmt.Sprint(p), "?")
			}
		}
	}()
	h.F(r.Params)
	res.Outcome = "done"
	return
}

// Main is the entry point of the native replay program.
func Main(hs []H) {
	if len(os.Args) > 1 && os.Args[1] == "-list" {
		type l struct {
			Name     string
			Quick    [][]int
			Thorough [][]int
			Covers   []string
			Bound    string
			Steps    int64
		}
		var out []l
		for _, h := range hs {
			out = append(out, l{h.Name, h.Quick, h.Thorough, h.Covers, h.Bound, h.Steps})
		}
		json.NewEncoder(os.Stdout).Encode(out)
		return
	}
	var runs []Run
	if err := json.NewDecoder(os.Stdin).Decode(&runs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	real := os.Stdout
	os.Stdout = os.Stderr
	enc := json.NewEncoder(real)
	for _, r := range runs {
		var h *H
		for i := range hs {
			if hs[i].Name == r.Harness {
				h = &hs[i]
			}
		}
		if h == nil {
			enc.Encode(Result{Outcome: "unknown harness"})
			continue
		}
		ch := make(chan Result, 1)
		go func() { ch <- runOne(*h, r) }()
		select {
		case res := <-ch:
			enc.Encode(res)
		case <-time.After(10 * time.Second):
			enc.Encode(Result{Outcome: "hang"})
			os.Exit(4)
		}
	}
}
