// Package p02: scanning S.W.I.F.T. datasets into tokens and cutting them into messages.
package p02

import (
	"github.com/mitch000001/go-hbci/swift"
	"github.com/mitch000001/go-hbci/token"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

func digit(b byte) bool { return '0' <= b && b <= '9' }
func upper(b byte) bool { return 'A' <= b && b <= 'Z' }

// boundary: a line break at i that ends a value, according to the S.W.I.F.T. syntax: the next
// line starts a tag (":" and a digit) or is the lone "-" that ends the message.
func boundary(in []byte, i int) bool {
	if i+1 >= len(in) || in[i] != '\r' || in[i+1] != '\n' {
		return false
	}
	rest := in[i+2:]
	if len(rest) == 1 {
		return rest[0] == '-'
	}
	if len(rest) == 0 {
		return false
	}
	if rest[0] == '-' {
		return rest[1] == ':' || (len(rest) > 2 && rest[1] == '\r' && rest[2] == '\n')
	}
	return len(rest) > 2 && rest[0] == ':' && digit(rest[1])
}

// valueType is the S.W.I.F.T. character class of a non-empty value.
func valueType(v []byte) token.Type {
	letters, digits, commas, other := 0, 0, 0, false
	commaAt := 0
	for i, b := range v {
		switch {
		case upper(b):
			letters++
		case digit(b):
			digits++
		case b == ',':
			if commas == 0 {
				commaAt = i
			}
			commas++
		default:
			other = true
		}
	}
	switch {
	case other:
		return token.SWIFT_ALPHANUMERIC
	case commas == 1 && commaAt > 0 && letters == 0:
		return token.SWIFT_DECIMAL
	case commas > 0:
		return token.SWIFT_ALPHANUMERIC
	case letters == 0:
		return token.SWIFT_NUMERIC
	case digits == 0:
		return token.SWIFT_ALPHA
	}
	return token.SWIFT_CHARACTER
}

type tok struct {
	typ token.Type
	val []byte
}

// compare checks that the lexer yields exactly want.
func compare(in []byte, want []tok) {
	l := token.NewSwiftLexer("", in)
	pos := 0
	for _, w := range want {
		nd.Assert(l.HasNext(), "a well-formed dataset is scanned to its end")
		t := l.Next()
		nd.ObserveI("type", int(t.Type()))
		nd.Assert(t.Type() != token.ERROR, "a well-formed dataset is not rejected")
		nd.Assert(t.Type() == w.typ, "the token has the type its syntax gives")
		v := t.Value()
		nd.Assert(len(v) == len(w.val), "the value ends at the next tag or message boundary")
		nd.Assert(lib.Eq(v, w.val), "values are passed on byte by byte")
		nd.Assert(t.Pos() == pos, "tokens are contiguous")
		pos += len(v)
	}
	nd.Assert(!l.HasNext(), "nothing follows the end of the dataset")
}

var crlf = []byte("\r\n")

// dataset assembles messages of tags with arbitrary values. lens holds one value length per
// tag, -1 ending a message.
func dataset(lens []int) (in []byte, want []tok, messages [][]byte) {
	tags := []string{":20:", ":28C:", ":60F:", ":86:"}
	type span struct{ from, to int }
	var spans []span
	first, k, start := true, 0, 0
	for _, n := range lens {
		if n < 0 {
			in = append(in, "\r\n-"...)
			want = append(want, tok{token.SWIFT_MESSAGE_SEPARATOR, []byte("\r\n-")})
			messages = append(messages, in[start:len(in):len(in)])
			start = len(in)
			continue
		}
		typ := token.Type(token.SWIFT_TAG_SEPARATOR)
		if first {
			typ = token.SWIFT_DATASET_START
			first = false
		}
		tag := tags[k%len(tags)]
		k++
		in = append(append(in, crlf...), tag...)
		want = append(want, tok{typ, crlf}, tok{token.SWIFT_TAG, []byte(tag)})
		v := lib.Bytes("value", n)
		n = len(v)
		spans = append(spans, span{len(in), len(in) + n})
		in = append(in, v...)
		if n > 0 {
			nd.Assume(v[0] != '\r')
			want = append(want, tok{0, v})
		}
	}
	for _, s := range spans {
		for i := s.from; i < s.to; i++ {
			nd.Assume(!boundary(in, i))
		}
	}
	for i := range want {
		if want[i].typ == 0 {
			want[i].typ = valueType(want[i].val)
		}
	}
	want = append(want, tok{token.EOF, nil})
	return in, want, messages
}

// Dataset: tags with arbitrary values are scanned back exactly.
func Dataset(p []int) {
	in, want, _ := dataset(p)
	compare(in, want)
	nd.Cover("scanned")
}

// Messages: the extractor cuts a dataset at its message ends and nowhere else.
func Messages(p []int) {
	in, _, messages := dataset(p)
	got, err := swift.NewMessageExtractor(in).Extract()
	nd.Assert(err == nil, "a well-formed dataset is not rejected")
	nd.Assert(len(got) == len(messages), "every message is extracted")
	for i := range messages {
		nd.Assert(lib.Eq(got[i], messages[i]), "messages are passed on byte by byte")
	}
	nd.Cover("extracted")
}

// raw scans any bytes: the scan ends with EOF or an error, and what it yields is the input.
func raw(in []byte) {
	l := token.NewSwiftLexer("", in)
	pos := 0
	for n := 0; l.HasNext(); n++ {
		nd.Assert(n <= len(in)+2, "the scanner terminates")
		t := l.Next()
		nd.ObserveI("type", int(t.Type()))
		if t.Type() == token.ERROR {
			nd.Assert(!l.HasNext(), "nothing follows an error")
			nd.Cover("error")
			return
		}
		v := t.Value()
		nd.Assert(t.Pos() == pos, "tokens are contiguous")
		nd.Assert(pos+len(v) <= len(in), "tokens stay within the input")
		nd.Assert(lib.Eq(v, in[pos:pos+len(v)]), "token values are the bytes of the input")
		pos += len(v)
		if t.Type() == token.EOF {
			nd.Assert(pos == len(in), "the whole input is scanned")
			nd.Assert(!l.HasNext(), "nothing follows the end of input")
			nd.Cover("eof")
			return
		}
	}
	nd.Assert(false, "the scan ends with EOF or an error")
}

// Raw: p0 arbitrary bytes on their own; RawTag: behind a tag; RawSep: behind a message.
func Raw(p []int)    { raw(nd.Bytes("in", p[0])) }
func RawTag(p []int) { raw(append([]byte("\r\n:20:"), nd.Bytes("in", p[0])...)) }
func RawSep(p []int) { raw(append([]byte("\r\n:20:A\r\n-"), nd.Bytes("in", p[0])...)) }

// Start: a dataset that does not begin with a line break and a tag is rejected.
func Start(p []int) {
	in := nd.Bytes("in", p[0])
	nd.Assume(!(in[0] == '\r' && in[1] == '\n'))
	l := token.NewSwiftLexer("", in)
	nd.Assert(l.Next().Type() == token.ERROR, "a dataset starts with a line break")
	_, err := swift.NewMessageExtractor(in).Extract()
	nd.Assert(err != nil, "the extractor reports the syntax error")
	nd.Cover("rejected")
}

// Truncated: a dataset cut off inside its last value is an error, not a shorter message.
func Truncated(p []int) {
	in := append([]byte("\r\n:20:"), nd.Bytes("in", p[0])...)
	for i := 6; i < len(in); i++ {
		nd.Assume(!boundary(in, i))
	}
	nd.Assume(p[0] == 0 || in[6] != '\r')
	nd.Assume(p[0] > 0)
	_, err := swift.NewMessageExtractor(in).Extract()
	nd.Assert(err != nil, "a truncated dataset is reported")
	nd.Cover("truncated")
}

// The same with long and many pieces.
func Long(p []int)         { Dataset(p) }
func LongMessages(p []int) { Messages(p) }

// long: a tag whose value has n arbitrary bytes between two runs of every filler.
func long(n int, runs ...int) (out [][]int) {
	for _, r := range runs {
		for k := 0; k < 12; k++ {
			out = append(out, []int{10000*r + 100*k + n, -1})
		}
	}
	return
}

var many = [][]int{{10000, 10100, 20000, 10000, 10900, 11000, 10000, 10100, 1, 10000, 10000, -1},
	{10000, -1, 10000, -1, 10000, -1, 1, -1, 10000, -1, 10900, -1, 10000, -1, 10000, -1, 11000, -1, 2, -1, 10000, -1}}

var Harnesses = []nd.H{
	{Name: "Long", F: Long, Covers: []string{"scanned"},
		Quick: append(long(2, 9, 70), many...), Thorough: append(long(3, 30), long(1, 400)...), Bound: "values of two runs of 70 (thorough 400) bytes of 12 kinds with 3 arbitrary bytes between them; 11 tags; 11 messages"},
	{Name: "LongMessages", F: LongMessages, Covers: []string{"extracted"},
		Quick: append(long(1, 9, 70), many...), Thorough: append(long(2, 30), long(1, 400)...), Bound: "values of two runs of 70 (thorough 400) bytes of 12 kinds with 2 arbitrary bytes between them; 11 tags; 11 messages"},
	{Name: "Dataset", F: Dataset, Covers: []string{"scanned"},
		Quick:    [][]int{{0, -1}, {1, -1}, {2, -1}, {3, -1}, {4, -1}, {5, -1}, {6, -1}, {2, 2, -1}, {3, 2, -1}, {1, -1, 2, -1}, {0, 1, 0, -1, 0, -1}},
		Thorough: [][]int{{7, -1}, {3, 3, -1}, {2, 2, 2, -1}, {3, -1, 3, -1}},
		Bound:    "datasets of up to 2 messages and 3 tags, values of up to 6 (thorough 7) arbitrary bytes"},
	{Name: "Messages", F: Messages, Covers: []string{"extracted"},
		Quick:    [][]int{{3, -1}, {2, -1, 2, -1}, {1, 1, -1, 1, 1, -1}, {0, -1, 1, -1, 0, -1}},
		Thorough: [][]int{{5, -1}, {3, -1, 3, -1}},
		Bound:    "datasets of up to 3 messages with values of up to 3 (thorough 5) arbitrary bytes"},
	{Name: "Raw", F: Raw, Covers: []string{"error"},
		Quick: [][]int{{0}, {1}, {2}, {4}, {6}, {8}, {9}}, Thorough: [][]int{{10}, {11}}, Bound: "all inputs of up to 9 (thorough 11) bytes"},
	{Name: "RawTag", F: RawTag, Covers: []string{"error", "eof"},
		Quick: [][]int{{0}, {1}, {2}, {3}, {4}, {5}}, Thorough: [][]int{{6}, {7}}, Bound: "all continuations of a tag of up to 5 (thorough 7) bytes"},
	{Name: "RawSep", F: RawSep, Covers: []string{"error", "eof"},
		Quick: [][]int{{0}, {1}, {2}, {3}, {4}, {5}}, Thorough: [][]int{{6}, {7}}, Bound: "all continuations of a message of up to 5 (thorough 7) bytes"},
	{Name: "Start", F: Start, Covers: []string{"rejected"},
		Quick: [][]int{{2}, {4}, {6}}, Thorough: [][]int{{9}}, Bound: "inputs of up to 6 (thorough 9) bytes"},
	{Name: "Truncated", F: Truncated, Covers: []string{"truncated"},
		Quick: [][]int{{1}, {2}, {3}, {4}}, Thorough: [][]int{{5}, {6}}, Bound: "last values of up to 4 (thorough 6) bytes"},
}
