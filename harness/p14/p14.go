// Package p14: a message of the bank gives back everything it contains.
package p14

import (
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

const (
	unknown = iota // an ID nobody knows
	other          // a known ID in a version nobody knows
	balance
	account
	params // parameters of a known job in an unknown version: a supported segment
	pin    // parameters of the PIN/TAN procedure
	tan
	answer // HIRMS
	kinds
)

var ids = []string{"HIABC", "HISAL", "HISAL", "HIUPD", "HISALS", "HIPINS", "HITANS", "HIRMS"}
var versions = []string{"1", "4", "5", "4", "17", "1", "6", "2"}
var known = []bool{false, false, true, true, false, true, true, true}

// body writes the elements of a segment of the kind around an escaped text.
func body(kind int, wire, class string) string {
	switch kind {
	case balance:
		return "acc::280:1234+" + wire + "+EUR+C:12,5:EUR:20200102"
	case account:
		return "acc::280:1234+user+EUR+" + wire
	case pin:
		return "1+1+0+5:6:6:" + wire + ":b:HKSAL:J"
	case tan:
		return "1+1+1+J:N:0:910:2:a:b:13:" + wire + ":6:1:d:3:J:2:N:0:0:N:N:00:0:N:1"
	case answer:
		return class + "920:2,1:" + wire + ":910+0020::done"
	}
	return wire + "+" + wire
}

func text(k int, s segment.Segment) string {
	switch k {
	case balance:
		return s.(segment.AccountBalanceResponse).AccountBalance().ProductName
	case account:
		return s.(segment.AccountInformation).Account().Name1
	case pin:
		return s.(*segment.PinTanBankParameterV1).PinTanSpecificParams.UserIDText.Val()
	case tan:
		return s.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements()[0].(*element.Tan2StepSubmissionProcessParameterV6).TwoStepProcessName.Val()
	}
	return s.(*segment.SegmentAcknowledgement).Acknowledgements()[0].Text
}

type piece struct {
	kind  int
	pos   int
	raw   []byte
	text  string
	ref   int
	known bool
	class byte
}

// Content: a message of an acknowledgement and p[0] other segments, the one of
// number p[1] with an arbitrary text of p[2] characters. With p[3] only two segments from that
// number on are of an arbitrary kind.
func Content(p []int) {
	var raw []byte
	raw = append(raw, "HIRMG:2:2+0010::all+3060::some'"...)
	var pieces []piece
	for k := 0; k < p[0]; k++ {
		c := piece{pos: k + 3, ref: k + 1}
		if len(p) > 3 && (k < p[3] || k > p[3]+1) {
			c.kind = k % kinds
		} else {
			c.kind = nd.Choice("kind", kinds)
		}
		var iso []byte
		if c.kind == answer {
			c.class = nd.Byte("class")
			if len(p) > 3 && c.kind == k%kinds {
				c.class = '3'
			}
			nd.Assume(nd.Or(c.class == '0', nd.Or(c.class == '3', c.class == '9')))
		}
		if k == p[1] {
			c.text, iso = lib.Text("text", p[2])
			// texts like "00,1" are rejected by design of the lexer
			nd.Assume(!lib.MalformedFloat(append(append([]byte{}, iso...), '+'), 0))
		} else {
			c.text = "t" + lib.Dec(k, 2)
			iso = []byte(c.text)
		}
		c.raw = []byte(ids[c.kind] + ":" + lib.Dec(c.pos, 1) + ":" + versions[c.kind] + ":" + lib.Dec(c.ref, 1) + "+")
		c.raw = append(c.raw, body(c.kind, string(lib.Escaped(iso)), string([]byte{c.class}))...)
		c.raw = append(c.raw, '\'')
		c.known = known[c.kind]
		raw = append(raw, c.raw...)
		pieces = append(pieces, c)
	}
	before := append([]byte{}, raw...)
	h := &segment.MessageHeaderSegment{}
	about, reference := 0, domain.MessageReference{DialogID: "mine", MessageNumber: 3}
	if p[0] < 2 && p[2] == 0 {
		about = nd.Choice("about", 3)
		if about == 1 { // the bank has not given the dialog a name yet
			reference.DialogID = ""
		}
		if about == 2 {
			reference = domain.MessageReference{}
		}
	}
	err := h.UnmarshalHBCI([]byte("HNHBK:1:3+000000000123+300+dialog+4" + []string{"+mine:3", "+:3", ""}[about] + "'"))
	nd.Assert(err == nil, "the header is read")
	m, err := message.NewDecryptedMessage(h, nil, raw)
	nd.Assert(err == nil, "a well-formed message is read")
	nd.Cover("read")
	nd.Assert(lib.Eq(raw, before), "reading leaves the message as it is")
	nd.Assert(m.MessageHeader() == h, "the message has its header")

	// the acknowledgements: those of the message, then those of the segments
	acks := m.Acknowledgements()
	var texts []string
	var refs []int
	var codes []int
	for _, c := range pieces {
		if c.kind == answer {
			texts = append(texts, c.text)
			refs = append(refs, c.ref)
			codes = append(codes, int(c.class-'0')*1000+920)
		}
	}
	nd.Assert(len(acks) == 2+2*len(texts), "every acknowledgement is there once")
	for k, want := range []string{"all", "some"} {
		a := acks[k]
		nd.Assert(a.IsMessageAcknowledgement() && !a.IsSegmentAcknowledgement() && a.Code == []int{10, 3060}[k] && a.Text == want, "the acknowledgements of the message come first")
		nd.Assert(a.ReferencingMessage == reference, "an acknowledgement names the message it is about")
	}
	for k, want := range texts {
		a := acks[3+2*k]
		nd.Assert(a.IsSegmentAcknowledgement() && a.Code == 20 && a.Text == "done" && a.ReferenceDataElement == "" && len(a.Params) == 0 && a.ReferencingSegmentNumber == refs[k], "every acknowledgement of a segment is there")
		a = acks[2+2*k]
		nd.Assert(a.IsSegmentAcknowledgement() && !a.IsMessageAcknowledgement() && a.Code == codes[k] && a.ReferenceDataElement == "2,1" && len(a.Params) == 1 && a.Params[0] == "910", "the acknowledgements of segments follow in order")
		nd.Assert(lib.EqS(a.Text, want), "an acknowledgement has its text")
		for _, a := range acks[2+2*k : 4+2*k] {
			nd.Assert(a.ReferencingMessage == reference, "an acknowledgement names the message it is about")
		}
		nd.Assert(a.ReferencingSegmentNumber == refs[k], "an acknowledgement names the segment it is about")
	}

	// the segments
	for _, id := range []string{"HIABC", "HISAL", "HIUPD", "HISALS", "HIPINS", "HITANS", "HIRMS", "HIKAZ", "HIRM", ""} {
		var all [][]byte
		var read []piece
		pos := -1
		for _, c := range pieces {
			if ids[c.kind] != id {
				continue
			}
			all = append(all, c.raw)
			if pos < 0 {
				pos = c.pos
			}
			if c.known {
				read = append(read, c)
			}
		}
		got := m.FindMarshaledSegments(id)
		nd.Assert(len(got) == len(all), "every segment is found as it was sent")
		for k := range all {
			nd.Assert(lib.Eq(got[k], all[k]), "every segment is found as it was sent")
		}
		one := m.FindMarshaledSegment(id)
		if len(all) == 0 {
			nd.Assert(one == nil, "a segment that is not there is not found")
		} else {
			nd.Assert(lib.Eq(one, all[0]), "the first segment is found as it was sent")
		}
		nd.Assert(m.SegmentPosition(id) == pos, "the position of the first segment is found")
		segs := m.FindSegments(id)
		nd.Assert(len(segs) == len(read), "every known segment is found, and no other")
		for k, c := range read {
			nd.Assert(lib.EqS(text(c.kind, segs[k]), c.text), "the segments are found in order with their contents")
			h := segs[k].Header()
			nd.Assert(h.ID.Val() == id && h.Position.Val() == c.pos && h.ReferencingSegment() == c.ref, "a segment has its header")
		}
		first := m.FindSegment(id)
		if len(read) == 0 {
			nd.Assert(first == nil, "an unknown segment is not found")
		} else {
			nd.Assert(first == segs[0], "the first known segment is found")
		}
	}

	// the parameter segments name what the bank supports
	supported := m.SupportedSegments()
	n := 0
	for _, c := range pieces {
		if c.kind == params || c.kind == pin || c.kind == tan {
			nd.Assert(n < len(supported), "every parameter segment is listed")
			nd.Assert(supported[n].ID == ids[c.kind] && lib.Dec(supported[n].Version, 1) == versions[c.kind], "every parameter segment is listed in order")
			n++
		}
	}
	nd.Assert(n == len(supported), "only parameter segments are listed")
}

// Twice: unmarshaling a message again does not change what is found.
func Twice(p []int) {
	var raw []byte
	n := 0
	for k := 0; k < p[0]; k++ {
		kind := nd.Choice("kind", kinds)
		raw = append(raw, ids[kind]+":"+lib.Dec(k+2, 1)+":"+versions[kind]+":1+"+body(kind, "t", "3")+"'"...)
		if known[kind] {
			n++
		}
	}
	u := message.NewUnmarshaler(raw)
	for k := 0; k < 2; k++ {
		nd.Assert(u.Unmarshal() == nil, "a well-formed message is read")
		sum := 0
		for _, id := range []string{"HISAL", "HIUPD", "HIPINS", "HITANS", "HIRMS"} {
			sum += len(u.SegmentsByID(id))
		}
		nd.Assert(sum == n && len(u.MarshaledSegments()) == p[0], "a segment is found once however often the message is read")
	}
	nd.Cover("read")
}

// Code: the class of an acknowledgement follows from its code.
func Code(p []int) {
	d := nd.Bytes("digit", 4)
	code := 0
	for _, c := range d {
		nd.Assume(lib.Digit(c))
		code = code*10 + int(c-'0')
	}
	wire := []byte([]string{"HIRMG:2:2+", "HIRMS:3:2:4+"}[p[0]])
	wire = append(wire, d...)
	wire = append(wire, "::text'"...)
	header := segment.NewMessageHeaderSegment(1, 300, "dialog", 1)
	m, err := message.NewDecryptedMessage(header, nil, wire)
	nd.Assert(err == nil && len(m.Acknowledgements()) == 1, "an acknowledgement is read")
	a := m.Acknowledgements()[0]
	nd.Assert(a.Code == code, "an acknowledgement has its code")
	nd.Assert(a.IsError() == (d[0] == '9'), "errors are the codes from 9000 on")
	nd.Assert(a.IsWarning() == (d[0] == '3'), "warnings are the codes from 3000 to 3999")
	nd.Assert(a.IsSuccess() == (d[0] == '0' && code != 0), "successes are the codes below 1000")
	nd.Cover("class")
}

// One: of a message of p[0] segments single ones are read.
func One(p []int) {
	var raw []byte
	var pieces []piece
	for k := 0; k < p[0]; k++ {
		c := piece{kind: nd.Choice("kind", kinds), text: "t" + lib.Dec(k, 1)}
		raw = append(raw, ids[c.kind]+":"+lib.Dec(k+2, 1)+":"+versions[c.kind]+":3+"+body(c.kind, c.text, "0")+"'"...)
		pieces = append(pieces, c)
	}
	u := message.NewUnmarshaler(raw)
	if nd.Bool("before") {
		nd.Assert(u.Unmarshal() == nil, "a well-formed message is read")
	}
	for kind := 0; kind < kinds; kind++ {
		v := lib.Num([]byte(versions[kind]))
		nd.Assert(u.CanUnmarshal(ids[kind], v) == known[kind], "known segments can be read")
		seg, err := u.UnmarshalSegment(ids[kind], v)
		want := ""
		for _, c := range pieces {
			if c.kind == kind && want == "" && known[kind] {
				want = c.text
			}
		}
		if want == "" {
			nd.Assert(err != nil, "what is unknown or not in the message is not found in it")
			continue
		}
		nd.Assert(err == nil, "a segment of the message is found by its ID and version")
		nd.Assert(text(kind, seg) == want, "the first segment of the ID and version is read")
	}
	nd.Cover("read")
}

var Harnesses = []nd.H{
	{Name: "Content", F: Content, Covers: []string{"read"},
		Quick:    [][]int{{0, 0, 0}, {1, 0, 0}, {1, 0, 1}, {1, 0, 2}, {2, 0, 1}, {2, 1, 1}, {3, 3, 0}, {14, 12, 1, 12}, {14, 3, 1, 9}, {25, 25, 0, 10}, {1, 0, 600000}, {1, 0, 600401}, {2, 1, 90801}},
		Thorough: [][]int{{1, 0, 3}, {2, 0, 2}, {2, 1, 2}, {3, 0, 1}, {3, 2, 1}, {4, 4, 0}},
		Bound:    "messages of an acknowledgement and up to 4 segments of 8 kinds, known and unknown, in any order, with one text of up to 3 ISO-8859-1 characters arbitrary; up to 25 segments, two of them arbitrary; texts of up to 120 characters; answers to messages of a dialog with or without a name and to none"},
	{Name: "Twice", F: Twice, Covers: []string{"read"},
		Quick: [][]int{{1}, {2}}, Thorough: [][]int{{3}},
		Bound: "messages of up to 3 segments of 8 kinds"},
	{Name: "Code", F: Code, Covers: []string{"class"},
		Quick: [][]int{{0}, {1}}, Thorough: [][]int{{0}, {1}},
		Bound: "every code of four digits"},
	{Name: "One", F: One, Covers: []string{"read"},
		Quick: [][]int{{0}, {1}, {2}}, Thorough: [][]int{{3}},
		Bound: "messages of up to 2 (thorough 3) segments of 8 kinds, among them two versions of the same"},
}
