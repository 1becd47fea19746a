// Package p01: scanning raw HBCI bytes into tokens.
package p01

import (
	"github.com/mitch000001/go-hbci/token"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

// scan runs the lexer over in and states the contract on the way.
func scan(in []byte) {
	l := token.NewLexer("", in)
	pos := 0
	for n := 0; l.HasNext(); n++ {
		nd.Assert(n <= len(in)+1, "the scanner terminates")
		t := l.Next()
		nd.ObserveI("type", int(t.Type()))
		typ, size, ok := lib.Reference(in, pos)
		if t.Type() == token.ERROR {
			nd.Assert(!l.HasNext(), "nothing follows an error")
			nd.Assert(!ok || lib.MalformedFloat(in, pos), "only malformed input is rejected")
			nd.Cover("error")
			return
		}
		nd.Assert(ok, "malformed input is rejected")
		v := t.Value()
		nd.Assert(t.Pos() == pos, "tokens are contiguous")
		nd.Assert(t.Type() == typ, "the token has the type its syntax gives")
		nd.Assert(len(v) == size, "the token ends at the next unescaped delimiter")
		nd.Assert(lib.Eq(v, in[pos:pos+size]), "token values are the bytes of the input")
		pos += len(v)
		if typ == token.EOF {
			nd.Assert(!l.HasNext(), "nothing follows the end of input")
			nd.Cover("eof")
			return
		}
		if typ == token.BINARY_DATA {
			nd.Cover("binary")
		}
		if typ == token.FLOAT {
			nd.Cover("float")
		}
		if typ == token.TEXT {
			nd.Cover("text")
		}
	}
	nd.Assert(false, "the scan ends with EOF or an error")
}

// Tokens: every input of p0 bytes.
func Tokens(p []int) {
	scan(nd.Bytes("in", p[0]))
}

// Binary: a binary header with p0 arbitrary digits in front of p1 arbitrary bytes, inside a
// larger message.
func Binary(p []int) {
	in := []byte("A+@")
	size := 0
	for i := 0; i < p[0]; i++ {
		d := nd.Byte("digit")
		nd.Assume(lib.Digit(d))
		size = size*10 + int(d-'0')
		in = append(in, d)
	}
	nd.Assume(size >= p[1]-3)
	in = append(in, '@')
	in = append(in, nd.Bytes("data", p[1])...)
	in = append(in, "'B'"...)
	scan(in)
}

// HugeBinary: binary lengths around the limits of the machine's integers.
func HugeBinary(p []int) {
	prefixes := []string{"214748364", "429496729", "92233720368547758", "922337203685477580", "1844674407370955161", "99999999999999999999999"}
	in := []byte("A+@" + prefixes[p[0]])
	for i := 0; i < p[1]; i++ {
		d := nd.Byte("digit")
		nd.Assume(lib.Digit(d))
		in = append(in, d)
	}
	in = append(in, "@ab'"...)
	scan(in)
}

// Data: one data element of p0 arbitrary bytes between delimiters.
func Data(p []int) {
	in := []byte("HNHBK:1:3+")
	in = append(in, nd.Bytes("in", p[0])...)
	in = append(in, "+x'"...)
	scan(in)
}

// Long: p = filler, its length, arbitrary bytes before, between and behind two runs of it, inside a message.
func Long(p []int) {
	fill := []string{"a", "7", "?+", "x\r\n", "\xfc", "7,", "a:", "b+"}[p[0]]
	run := func() (b []byte) {
		for len(b) < p[1] {
			b = append(b, fill...)
		}
		return
	}
	in := []byte("HNHBK:1:3+")
	in = append(in, nd.Bytes("before", p[2])...)
	in = append(in, run()...)
	in = append(in, nd.Bytes("between", p[3])...)
	in = append(in, run()...)
	in = append(in, nd.Bytes("behind", p[4])...)
	in = append(in, "+y'"...)
	scan(in)
}

// long: every filler in several lengths.
func long(lens []int, windows ...[]int) (out [][]int) {
	for f := 0; f < 8; f++ {
		for _, l := range lens {
			for _, w := range windows {
				out = append(out, append([]int{f, l}, w...))
			}
		}
	}
	return
}

var Harnesses = []nd.H{
	{Name: "Long", F: Long, Quick: long([]int{12, 70}, []int{1, 1, 1}, []int{0, 2, 0}), Thorough: long([]int{12, 300}, []int{2, 1, 0}, []int{0, 3, 0}, []int{0, 1, 2}), Covers: []string{"eof", "error", "text"}, Bound: "an element of two runs of 70 (thorough 300) bytes of 8 kinds with 3 arbitrary bytes around them"},
	{Name: "Tokens", F: Tokens, Quick: [][]int{{0}, {1}, {2}, {3}, {4}, {5}, {6}}, Thorough: [][]int{{7}}, Covers: []string{"eof", "error", "binary", "float", "text"}, Bound: "every input of p0 bytes"},
	{Name: "Binary", F: Binary, Quick: [][]int{{1, 9}, {2, 6}, {2, 12}, {2, 30}, {3, 2}}, Thorough: [][]int{{2, 60}, {3, 8}, {3, 120}}, Covers: []string{"eof", "error", "binary"}, Bound: "binary length of p0 arbitrary digits, at least p1-3; p1 arbitrary bytes behind it"},
	{Name: "HugeBinary", F: HugeBinary, Quick: [][]int{{0, 1}, {1, 1}, {2, 2}, {3, 1}, {4, 1}, {5, 1}}, Covers: []string{"error"}, Bound: "binary length with a fixed prefix near 2^31, 2^32, 2^63 or 2^64 and p1 arbitrary digits"},
	{Name: "Data", F: Data, Quick: [][]int{{3}, {4}, {5}}, Thorough: [][]int{{6}}, Covers: []string{"eof", "error", "text"}, Bound: "a data element of p0 arbitrary bytes in a segment"},
}
