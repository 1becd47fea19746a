// Package p07: outgoing messages are framed, numbered, signed and wrapped correctly.
package p07

import (
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

func version(i int) (segment.HBCIVersion, string) {
	if i == 0 {
		return segment.HBCI220, "220"
	}
	return segment.FINTS300, "300"
}

// digits makes a number written with n digits.
func digits(name string, n int) (int, []byte) {
	v := 0
	var d []byte
	for i := 0; i < n; i++ {
		c := nd.Byte(name)
		nd.Assume(c >= '0' && c <= '9' && !(i == 0 && c == '0'))
		d = append(d, c)
		v = v*10 + int(c-'0')
	}
	return v, d
}

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// frame puts header and end around body. The header carries the size of the whole message.
func frame(ver string, dialogID, num, body []byte, last int) []byte {
	end := cat([]byte("HNHBS:"+lib.Dec(last, 1)+":1+"), num, []byte("'"))
	rest := cat([]byte("+"+ver+"+"), lib.Escaped(dialogID), []byte("+"), num, []byte("'"), body, end)
	head := "HNHBK:1:3+"
	return cat([]byte(head+lib.Dec(len(head)+12+len(rest), 12)), rest)
}

// body makes the segments of a message: n a segment with a text of n characters, -1 an absent one.
func body(lens []int, first int) (segs []segment.ClientSegment, wire []byte, next int) {
	pos := first
	for k, n := range lens {
		if n < 0 {
			switch k % 3 {
			case 0:
				segs = append(segs, (*segment.DialogEndSegment)(nil))
			case 1:
				segs = append(segs, (*segment.IdentificationSegment)(nil))
			default:
				segs = append(segs, (*segment.TanRequestSegment)(nil))
			}
			continue
		}
		t, iso := lib.Text("text", n)
		switch k % 2 {
		case 0:
			segs = append(segs, segment.NewDialogEndSegment(t))
			wire = cat(wire, lib.Render("HKEND:"+lib.Dec(pos, 1)+":1+$0", func(byte) []byte { return lib.Escaped(iso) }))
		default:
			segs = append(segs, segment.NewTanProcess4RequestSegmentV6(t))
			wire = cat(wire, lib.Render("HKTAN:"+lib.Dec(pos, 1)+":6+4+$0", func(byte) []byte { return lib.Escaped(iso) }))
		}
		pos++
	}
	return segs, wire, pos
}

// Plain: p = version, length of the dialog ID, digits of the message number, segments...
func Plain(p []int) {
	v, ver := version(p[0])
	id, isoID := lib.Text("dialog", p[1])
	num, dnum := digits("number", p[2])
	segs, wire, next := body(p[3:], 2)
	m := message.NewBasicMessage(message.NewHBCIMessage(v, segs...))
	m.Header = segment.NewMessageHeaderSegment(-1, v.Version(), id, num)
	m.End = segment.NewMessageEndSegment(-1, num)
	m.SetSegmentPositions()
	got, err := m.MarshalHBCI()
	nd.Assert(err == nil, "every message can be written")
	want := frame(ver, isoID, dnum, wire, next)
	nd.Assert(lib.Eq(got, want), "the message is header, segments and end, numbered in order, with its size and number")
	again, err := m.MarshalHBCI()
	nd.Assert(err == nil && lib.Eq(again, want), "writing a message twice gives the same bytes")
	nd.Cover("written")
	num2, dnum2 := digits("new number", 1)
	m.SetMessageNumber(num2)
	got, err = m.MarshalHBCI()
	nd.Assert(err == nil && lib.Eq(got, frame(ver, isoID, dnum2, wire, next)), "a new message number is in header and end of the message")
	nd.Cover("renumbered")
	nd.Assert(m.FindSegment("HKXXX") == nil && len(m.FindSegments("HKXXX")) == 0, "no segment is found that is not in the message")
	ends := 0
	found := m.FindMarshaledSegments("HKEND")
	var rest []byte // of the segments not yet compared
	rest = append(rest, wire...)
	for k, n := range p[3:] {
		if n >= 0 && k%2 == 0 {
			ends++
		}
	}
	nd.Assert(len(found) == ends && len(m.FindMarshaledSegments("HKXXX")) == 0 && m.FindMarshaledSegment("HKXXX") == nil, "the segments of the message are found by their ID")
	for k, b := range found {
		if k == 0 {
			nd.Assert(lib.Eq(m.FindMarshaledSegment("HKEND"), b), "the first segment with an ID is found")
		}
		// the other kind of segment may stand in between
		at := indexOf(rest, "HKEND")
		nd.Assert(at >= 0 && at+len(b) <= len(rest) && lib.Eq(rest[at:at+len(b)], b), "a segment is found as it is sent")
		rest = rest[at+len(b):]
	}
	nd.Assert((m.FindSegment("HKEND") != nil) == (ends > 0) && len(m.FindSegments("HKEND")) == ends, "the segments of the message are found by their ID")
}

// indexOf is where s begins in b, which has no such bytes before it but concrete ones.
func indexOf(b []byte, s string) int {
	for i := 0; i+len(s) <= len(b); i++ {
		if lib.EqS(string(b[i:i+len(s)]), s) {
			return i
		}
	}
	return -1
}

// signer records what is signed.
type signer struct {
	message.SignatureProvider
	signed []byte
}

func (s *signer) Sign(m []byte) ([]byte, error) {
	s.signed = append([]byte(nil), m...)
	return s.SignatureProvider.Sign(m)
}

const hex = "0123456789abcdef"

// text is an arbitrary text of n characters, or a fixed one for n < 0.
func text(name string, n int) (string, []byte) {
	if n < 0 {
		return name, []byte(name)
	}
	return lib.Text(name, n)
}

// Secured: p = version, texts: client system ID, user ID, PIN, dialog ID, body segments...
func Secured(p []int) {
	v, ver := version(p[0])
	sys, isoSys := text("system", p[1])
	user, isoUser := text("user", p[2])
	pin, isoPin := text("pin", p[3])
	nd.Assume(pin != "")
	id, isoID := text("dialog", p[4])
	fn := "999"
	prof := "1"
	if nd.Choice("security function", 2) == 1 {
		fn, prof = "902", "2"
	}
	bank := domain.BankID{CountryCode: 280, ID: "10090000"}
	sp := &signer{SignatureProvider: message.NewPinTanSignatureProvider(domain.NewPinKey(pin, domain.NewPinTanKeyName(bank, user, domain.KeyTypeSigning)), "old")}
	cp := message.NewPinTanCryptoProvider(domain.NewPinKey(pin, domain.NewPinTanKeyName(bank, user, domain.KeyTypeEncryption)), "old")
	sp.SetClientSystemID(sys)
	cp.SetClientSystemID(sys)
	sp.SetSecurityFunction(fn)
	cp.SetSecurityFunction(fn)
	segs, wire, next := body(p[5:], 3)
	m := message.NewBasicMessage(message.NewHBCIMessage(v, segs...))
	m.Header = segment.NewMessageHeaderSegment(-1, v.Version(), id, 7)
	m.End = segment.NewMessageEndSegment(-1, 7)
	signed, err := m.Sign(sp)
	nd.Assert(err == nil, "every message can be signed")
	clear, err := signed.MarshalHBCI()
	nd.Assert(err == nil, "every signed message can be written")
	enc, err := signed.Encrypt(cp)
	nd.Assert(err == nil, "every signed message can be encrypted")
	got, err := enc.MarshalHBCI()
	nd.Assert(err == nil, "every encrypted message can be written")

	subst := func(c byte) []byte {
		switch c {
		case 's':
			return lib.Escaped(isoSys)
		case 'u':
			return lib.Escaped(isoUser)
		case 'p':
			return lib.Escaped(isoPin)
		}
		return []byte("\x01\x01\x01\x01\x01\x01\x01\x01") // 8 hex digits of the control reference
	}
	var head, tail, crypt []byte
	if v.Version() == 300 {
		head = lib.Render("HNSHK:2:4+PIN:"+prof+"+"+fn+"+$r+1+1+1::$s+0+1:........:......+1:999:1+6:10:16+280:10090000:$u:S:0:0", subst)
		tail = lib.Render("HNSHA:"+lib.Dec(next, 1)+":2+$r++$p", subst)
		crypt = lib.Render("HNVSK:998:3+PIN:"+prof+"+998+1+1::$s+1:........:......+2:2:13:@8@\x00\x00\x00\x00\x00\x00\x00\x00:5:1+280:10090000:$u:V:0:0+0", subst)
	} else {
		head = lib.Render("HNSHK:2:3+"+fn+"+$r+1+1+1::$s+0+1:........:......+1:999:1+6:10:16+280:10090000:$u:S:0:0", subst)
		tail = lib.Render("HNSHA:"+lib.Dec(next, 1)+":1+$r++$p", subst)
		crypt = lib.Render("HNVSK:998:2+998+1+1::$s+1:........:......+2:2:13:@8@\x00\x00\x00\x00\x00\x00\x00\x00:5:1+280:10090000:$u:V:0:0+0", subst)
	}
	inner := cat(head, wire, tail)
	lead := cat(crypt, []byte("HNVSD:999:1+@"+lib.Dec(len(inner), 1)+"@"))
	want := frame(ver, isoID, []byte("7"), cat(lead, inner, []byte("'")), next+1)
	nd.Assert(len(got) == len(want), "the encrypted message has the size of its parts")
	// the control reference is the same in signature header and end
	at := len(got) - len("HNHBS:9:1+7'") - 1 - len(inner)
	if next+1 >= 10 {
		at--
	}
	refHead := at + len("HNSHK:2:3+999+")
	if v.Version() == 300 {
		refHead = at + len("HNSHK:2:4+PIN:1+999+")
	}
	refTail := at + len(head) + len(wire) + len("HNSHA:3:1+")
	if next >= 10 {
		refTail++
	}
	ref := got[refHead : refHead+8]
	for _, c := range ref {
		nd.Assert(nd.Or(nd.And(c >= '0', c <= '9'), nd.And(c >= 'a', c <= 'f')), "the control reference is a checksum in hexadecimal")
	}
	nd.Assert(lib.Eq(ref, got[refTail:refTail+8]), "signature header and end carry the same control reference")
	copy(want[refHead:], ref)
	copy(want[refTail:], ref)
	nd.Assert(lib.Matches(got, want), "the message wraps exactly the signed segments between header and end")
	nd.Assert(lib.Eq(clear, frame(ver, isoID, []byte("7"), got[at:at+len(inner)], next+1)), "a signed message is written with the same segments and its own size")
	nd.Assert(lib.Eq(sp.signed, got[at:at+len(head)+len(wire)]), "what is signed is the signature header and the segments as they are sent")
	nd.Cover("secured")
	plain, err := cp.Decrypt(enc.EncryptedData.Data.Val())
	nd.Assert(err == nil && lib.Eq(plain, got[at:at+len(inner)]), "decrypting gives back what was encrypted")
}

// NoPin: without a PIN nothing is sent.
func NoPin(p []int) {
	v, _ := version(p[0])
	bank := domain.BankID{CountryCode: 280, ID: "10090000"}
	cp := message.NewPinTanCryptoProvider(domain.NewPinKey("", domain.NewPinTanKeyName(bank, "user", domain.KeyTypeEncryption)), "0")
	segs, _, _ := body(p[1:], 2)
	m := message.NewBasicMessage(message.NewHBCIMessage(v, segs...))
	m.Header = segment.NewMessageHeaderSegment(-1, v.Version(), "0", 1)
	m.End = segment.NewMessageEndSegment(-1, 1)
	_, err := m.Encrypt(cp)
	nd.Assert(err != nil, "nothing is encrypted without a PIN")
	nd.Cover("refused")
}

var Harnesses = []nd.H{
	{Name: "Plain", F: Plain, Covers: []string{"written", "renumbered"},
		Quick:    [][]int{{0, 1, 1}, {0, 1, 1, 2}, {1, 2, 2, -1, 1}, {1, 1, 1, 0, 1, -1}, {0, 1, 1, 1, -1, -1, 1}, {1, 2, 1, -1}, {1, 1, 4, 1}, {1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1}},
		Thorough: [][]int{{0, 2, 2, 2, 1}, {1, 2, 2, 1, 2, 1}, {1, 3, 3, 3}},
		Bound:    "messages of up to 9 segments with texts of up to 3 characters, dialog IDs of up to 3 characters and message numbers of up to 4 digits"},
	{Name: "Secured", F: Secured, Covers: []string{"secured"},
		Quick:    [][]int{{0, 2, -1, -1, -1, 0}, {1, 2, -1, -1, -1, 0}, {0, -1, 2, -1, 0}, {1, -1, 2, -1, -1, 1}, {0, -1, -1, 2, -1, 0, 1}, {1, -1, -1, 2, -1, 0, 1}, {0, -1, -1, -1, -1, 1, -1, 1}, {1, -1, -1, 1, -1, -1, 1, -1, 1}, {1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1}, {1, -1, -1, -1, 2, 2}},
		Thorough: [][]int{{1, 1, 1, 1, 1, 1}, {0, 1, 1, 2, 0, 2}, {1, 3, 0, 1, 1}, {1, 0, 3, 1, 1}},
		Bound:    "signed and encrypted messages of up to 8 segments; client system ID, user ID and PIN of up to 3 characters"},
	{Name: "NoPin", F: NoPin, Covers: []string{"refused"}, Quick: [][]int{{0, 1}, {1, 1, -1}}, Bound: "messages of 2 segments"},
}
