// Package p03: cutting messages into segments, segments into elements and groups into their
// parts.
package p03

import (
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

func same(got, want [][]byte, what string) {
	nd.Assert(len(got) == len(want), what+": number")
	for i := range want {
		nd.Assert(lib.Eq(got[i], want[i]), what+": bytes")
	}
}

// backed returns a copy of in at the front of a larger array, to notice stray writes.
func backed(in []byte) []byte {
	b := make([]byte, len(in)+8)
	for i := range b {
		b[i] = 0x5a
	}
	copy(b, in)
	return b[:len(in)]
}

func untouched(b, in []byte) {
	nd.Assert(lib.Eq(b, in), "the input is left as it was")
	for _, x := range b[len(b) : len(b)+8] {
		nd.Assert(x == 0x5a, "the memory behind the input is left as it was")
	}
}

// Segments: a message is cut at segment ends.
func Segments(p []int) {
	in, pieces := lib.Build(p)
	var want [][]byte
	start, pos := 0, 0
	for _, pc := range pieces {
		pos += len(pc.Val) + 1
		if pc.Delim == '\'' {
			want = append(want, in[start:pos])
			start = pos
		}
	}
	b := backed(in)
	e := message.NewSegmentExtractor(b)
	got, err := e.Extract()
	nd.Assert(err == nil, "a well-formed message is accepted")
	same(got, want, "segments")
	same(e.Segments(), want, "cached segments")
	again, err := e.Extract()
	nd.Assert(err == nil, "a second extraction succeeds")
	same(again, want, "segments of a second extraction")
	same(e.Segments(), want, "cached segments after a second extraction")
	untouched(b, in)
	nd.Cover("segments")
}

// Elements: a segment is cut at '+'; a final empty element counts as absent.
func Elements(p []int) {
	in, pieces := lib.Build(p)
	var want [][]byte
	var cur []byte
	for _, pc := range pieces {
		cur = append(cur, pc.Val...)
		switch pc.Delim {
		case ':':
			cur = append(cur, ':')
		case '+':
			want = append(want, cur)
			cur = nil
		case '\'':
			if len(cur) > 0 {
				want = append(want, cur)
			}
			cur = nil
		}
	}
	b := backed(in)
	got, err := segment.ExtractElements(b)
	if len(want) == 0 {
		// no segment: it has no element; whether that is an error is not said here
		nd.Assert(len(got) == 0, "a segment without elements has none")
		return
	}
	nd.Assert(err == nil, "a well-formed segment is accepted")
	same(got, want, "elements")
	untouched(b, in)
	nd.Cover("elements")
}

// Group: an element group is cut at every delimiter, with or without one at its end.
func Group(p []int) {
	in, pieces := lib.Build(p)
	var want [][]byte
	for _, pc := range pieces {
		want = append(want, pc.Val)
	}
	b := backed(in)
	got, err := element.ExtractElements(b)
	nd.Assert(err == nil, "a well-formed group is accepted")
	same(got, want, "parts")
	untouched(b, in)
	nd.Cover("parts")
}

// Malformed: what is not HBCI syntax is an error at every level.
func Malformed(p []int) {
	in := nd.Bytes("in", p[0])
	bad := false
	for pos := 0; pos < len(in); {
		_, n, ok := lib.Reference(in, pos)
		if !ok {
			bad = true
			break
		}
		pos += n
	}
	if bad {
		_, err := message.NewSegmentExtractor(in).Extract()
		nd.Assert(err != nil, "a malformed message is reported")
		_, err = segment.ExtractElements(in)
		nd.Assert(err != nil, "a malformed segment is reported")
		nd.Cover("malformed")
	} else if len(in) > 0 && in[len(in)-1] != '\'' {
		_, err := message.NewSegmentExtractor(in).Extract()
		nd.Assert(err != nil, "a message that ends within a segment is reported")
		nd.Cover("cut off")
	}
	// a group may go without a delimiter at its end
	closed := append(append([]byte{}, in...), '\'')
	bad = false
	for pos := 0; pos < len(closed); {
		_, n, ok := lib.Reference(closed, pos)
		if !ok {
			bad = true
			break
		}
		pos += n
	}
	_, err := element.ExtractElements(in)
	if bad {
		nd.Assert(err != nil, "a malformed group is reported")
		nd.Cover("malformed group")
	}
}

// Find: segments are found by their exact ID, in order of appearance.
func Find(p []int) {
	var in []byte
	var want [][]byte
	var ids []string
	for i, n := range p {
		id := make([]byte, n)
		for k := range id {
			id[k] = nd.Byte("id")
			nd.Assume('A' <= id[k] && id[k] <= 'Z')
		}
		start := len(in)
		in = append(append(in, id...), ":1:2+"...)
		in = append(in, byte('0'+i))
		in = append(in, '\'')
		want = append(want, in[start:len(in):len(in)])
		ids = append(ids, string(id))
	}
	// the segments may have moved while in grew
	pos := 0
	for i := range want {
		want[i] = in[pos : pos+len(want[i])]
		pos += len(want[i])
	}
	q := ids[len(ids)-1]
	e := message.NewSegmentExtractor(in)
	_, err := e.Extract()
	nd.Assert(err == nil, "a well-formed message is accepted")
	var hits [][]byte
	for i := range ids {
		if ids[i] == q {
			hits = append(hits, want[i])
		}
	}
	same(e.FindSegments(q), hits, "segments found by ID")
	nd.Assert(lib.Eq(e.FindSegment(q), hits[0]), "the first segment with the ID is found")
	none := q + "Q"
	absent := true
	for i := range ids {
		if ids[i] == none {
			absent = false
		}
	}
	if absent {
		nd.Assert(e.FindSegment(none) == nil, "no segment is found for an ID that does not occur")
		nd.Assert(len(e.FindSegments(none)) == 0, "no segments are found for an ID that does not occur")
	}
	if len(q) > 1 {
		half := q[:len(q)-1]
		absent = true
		for i := range ids {
			if ids[i] == half {
				absent = false
			}
		}
		if absent {
			nd.Assert(e.FindSegment(half) == nil, "an ID is not matched by its beginning")
			nd.Assert(len(e.FindSegments(half)) == 0, "IDs are not matched by their beginning")
			nd.Cover("prefix")
		}
	}
	nd.Cover("found")
}

const (
	c = lib.Colon
	p = lib.Plus
	e = lib.End
	o = lib.Open
)

// The same with long and many pieces.
func LongSegments(p []int) { Segments(p) }
func LongElements(p []int) { Elements(p) }
func LongGroup(p []int)    { Group(p) }

// long: n arbitrary bytes between two runs of every filler, followed by a short piece.
func long(n int, delim int, runs ...int) (out [][]int) {
	for _, r := range runs {
		for k := 0; k < 12; k++ {
			out = append(out, []int{10000*r + 100*k + n, delim, 10100, e})
		}
	}
	return
}

// many: more pieces than fit into what is reserved for them at first.
func many(delim, last int) []int {
	out := []int{}
	for i := 0; i < 12; i++ {
		out = append(out, []int{10000, 1, 10200, 10100}[i%4], delim)
		if i%4 == 1 && i > 4 {
			out[len(out)-2] = 10600
		}
	}
	return append(out, 0, delim, 2, last)
}

var Harnesses = []nd.H{
	{Name: "LongSegments", F: LongSegments, Covers: []string{"segments"},
		Quick: append(append(long(2, p, 9), long(1, e, 70)...), many(e, e), many(p, e), many(c, e)), Thorough: append(long(3, e, 30), long(1, p, 400)...),
		Bound: "elements of two runs of 70 (thorough 400) bytes of 12 kinds with up to 3 arbitrary bytes between them; 14 segments"},
	{Name: "LongElements", F: LongElements, Covers: []string{"elements"},
		Quick: append(append(long(2, p, 9), long(1, c, 70)...), many(p, e), many(c, e)), Thorough: append(long(3, p, 30), long(1, p, 400)...),
		Bound: "elements of two runs of 70 (thorough 400) bytes of 12 kinds with up to 3 arbitrary bytes between them; 14 elements"},
	{Name: "LongGroup", F: LongGroup, Covers: []string{"parts"},
		Quick: append(append(long(2, c, 9), long(1, c, 70)...), many(c, e), many(c, o), many(p, o)), Thorough: append(long(3, c, 30), long(1, c, 400)...),
		Bound: "parts of two runs of 70 (thorough 400) bytes of 12 kinds with up to 3 arbitrary bytes between them; 14 parts"},
	{Name: "Segments", F: Segments, Covers: []string{"segments"},
		Quick:    [][]int{{0, e}, {3, e}, {4, e}, {2, p, 2, e}, {1, c, 1, p, 1, e, 1, p, 1, e}, {2, e, 2, e}, {4, e, 1, e}, {1, e, 0, e, 1, e}},
		Thorough: [][]int{{5, e}, {6, e}, {3, e, 3, e}, {2, p, 2, e, 2, e}, {5, p, 1, e, 1, e}},
		Bound:    "messages of up to 3 segments, 5 elements and 5 (thorough 8) element bytes"},
	{Name: "Elements", F: Elements, Covers: []string{"elements"},
		Quick:    [][]int{{0, e}, {3, e}, {4, e}, {2, p, 2, e}, {1, c, 1, p, 1, p, 1, e}, {2, p, 0, p, 2, e}, {4, p, 1, e}, {1, p, 0, e}, {1, p, 0, p, 0, e}},
		Thorough: [][]int{{5, e}, {6, e}, {3, p, 3, e}, {2, c, 2, p, 2, e}, {5, p, 2, e}},
		Bound:    "segments of up to 4 elements and 5 (thorough 7) element bytes"},
	{Name: "Group", F: Group, Covers: []string{"parts"},
		Quick:    [][]int{{0, o}, {3, o}, {4, o}, {2, c, 2, o}, {1, c, 0, o}, {2, c, 2, p}, {2, c, 2, e}, {1, c, 1, p, 1, c, 1, o}, {1, c, 0, p, 0, c, 1, o}, {4, c, 1, o}, {4, c, 1, p}, {1, p, 1, p}, {1, p, 1, e}, {1, c, 0, c, 0, e}},
		Thorough: [][]int{{5, o}, {6, o}, {3, c, 3, o}, {2, c, 2, p, 2, o}, {5, c, 2, e}},
		Bound:    "groups of up to 4 parts and 5 (thorough 7) bytes"},
	{Name: "Malformed", F: Malformed, Covers: []string{"malformed", "malformed group", "cut off"},
		Quick: [][]int{{1}, {2}, {3}, {4}, {5}}, Thorough: [][]int{{6}}, Bound: "inputs of up to 5 (thorough 6) bytes"},
	{Name: "Find", F: Find, Covers: []string{"found", "prefix"},
		Quick: [][]int{{2, 1}, {1, 1}, {2, 2}, {3, 2, 2}, {2, 3}, {2, 1, 2}}, Thorough: [][]int{{3, 3, 3}, {4, 3, 3, 4}}, Bound: "messages of up to 3 (thorough 4) segments with IDs of up to 3 (thorough 4) letters"},
}
