// Package p13: whatever a bank sends is decoded or rejected, never a crash.
package p13

import (
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

func bin(s string) string { return "@" + lib.Dec(len(s), 1) + "@" + s }

const statement = "\r\n:20:STARTUMS\r\n:25:10010010/12345\r\n:28C:1/1\r\n:60F:C200101EUR10,5\r\n" +
	":61:2001020102D4,25NMSCNONREF//BANK\r\n:86:166?00Text?20zweck?30BIC?31IBAN?32NAME\r\n:62F:C200102EUR6,25\r\n-\r\n"

const amounts = "+Giro+EUR+C:12,5:EUR:20200102:030405+D:3,25:EUR:20200103+1,:EUR+2,:EUR+3,:EUR+20200104+060708+20200105"
const holder = "+user+1+EUR+name+second+prod+Z:5,5:EUR:7+HKSAL:1:T:5,5:EUR+HKKAZ:1+ext"

// wires: every segment a bank may send, by its widest form.
var wires = []string{
	"HISAL:5:5:3+acc:sub:280:1234" + amounts,
	"HISAL:5:6:3+acc:sub:280:1234" + amounts,
	"HISAL:5:7:3+iban:bic:acc:sub:280:1234" + amounts,
	"HISAL:5:8:3+iban:bic:acc:sub:280:1234" + amounts + "+4,:EUR",
	"HIUPD:5:4:3+acc:sub:280:1234+user+EUR+name+second+prod+Z:5,5:EUR:7+HKSAL:1:T:5,5:EUR+HKKAZ:1",
	"HIUPD:5:5:3+acc:sub:280:1234" + holder,
	"HIUPD:5:6:3+acc:sub:280:1234+iban" + holder,
	"HIUPD:5:7:3+acc:sub:280:1234+iban" + holder,
	"HIUPA:4:2:3+user+3+1",
	"HIUPA:4:3:3+user+3+1+name+ext",
	"HIUPA:4:4:3+user+3+1+name+ext",
	"HIBPA:4:2:3+12+280:1234+bank+3+1:2+220:300+9999",
	"HIBPA:4:3:3+12+280:1234+bank+3+1:2+220:300+12+10+300",
	"HISYN:5:3:6+id+7+9",
	"HISYN:5:4:6+id+7+9",
	"HIKIM:6:2:3+subject+body",
	"HIKOM:6:3:3+280:1234+3+2:addr:add:MIM:1",
	"HNHBK:1:3+000000000123+300+dialog+4+other:3",
	"HNHBS:7:1+5",
	"HNVSD:999:1+" + bin("HIRMG:2:2+0010::ok'"),
	"HNVSK:998:2+998+1+1::id+1:20200102:030405+2:2:13:" + bin("keykey") + ":5:1+280:1234:user:S:3:5+0",
	"HNVSK:998:3+PIN:2+998+1+1::id+1:20200102:030405+2:2:13:" + bin("keykey") + ":5:1+280:1234:user:S:3:5+0",
	"HNSHK:2:3+999+ref+1+1+1::id+7+1:20200102:030405+1:999:1+6:10:16+280:1234:user:S:3:5",
	"HNSHK:2:4+PIN:1+912+ref+1+1+1::id+7+1:20200102:030405+1:999:1+6:10:16+280:1234:user:S:3:5",
	"HNSHA:7:1+ref+" + bin("sig") + "+pin:tan",
	"HNSHA:7:2+ref+" + bin("sig") + "+pin:tan",
	"HIPRO:5:3:3+dialog:2+6+20200102+030405+3020:ref:text:one",
	"HIPRO:5:4:3+dialog:2+6+20200102+030405+3020:ref:text:one",
	"HITAN:5:6:4+4+" + bin("hash") + "+ref+text+" + bin("chall") + "+20200102:030405+medium",
	"HIPINS:5:1:3+1+1+0+5:6:6:user:cust:HKSAL:J:HKKAZ:N",
	"DIPINS:5:1:3+1+1+HKSAL:J:HKKAZ:N",
	"HITANS:5:6:4+1+1+1+J:N:0:910:2:a:b:13:c:6:1:d:3:J:2:N:0:0:N:N:00:0:N:1",
	"HIKPV:5:1:3+0",
	"HISHV:5:2:3+J+RDH:1:3",
	"HIRMG:2:2+0010::ok+3920:2,1:text:910:911",
	"HIRMS:3:2:4+0010::ok+3920:2,1:text:910:911",
	"HIKIF:5:1:3+acc:sub:280:1234+1+a+b+c+EUR+20200102+1,5+2,5+3,5+9,:EUR+r0:r1:280:r2+1+2+d+e:x+y",
	"HIKAZ:5:5:3+" + bin(statement) + "+" + bin(statement),
	"HIKAZ:5:6:3+" + bin(statement) + "+" + bin(statement),
	"HIKAZ:5:7:3+" + bin(statement) + "+" + bin(statement),
}

// fields returns the bounds of the fields of the wire and whether a field
// starts a new element.
func fields(w string) (from, to []int, first []bool) {
	start, begins := 0, true
	for k := 0; k <= len(w); k++ {
		if k < len(w) && w[k] == '@' {
			n := 0
			for k++; w[k] != '@'; k++ {
				n = n*10 + int(w[k]-'0')
			}
			k += n
			continue
		}
		if k == len(w) || w[k] == '+' || w[k] == ':' {
			from, to, first = append(from, start), append(to, k), append(first, begins)
			begins = k < len(w) && w[k] == '+'
			start = k + 1
		}
	}
	return
}

// header reads ID and version of a wire
func header(w string) segment.VersionedSegment {
	from, to, _ := fields(w)
	v := 0
	for _, c := range w[from[2]:to[2]] {
		v = v*10 + int(c-'0')
	}
	return segment.VersionedSegment{ID: w[:to[0]], Version: v}
}

// damaged replaces one field of a wire with arbitrary bytes and drops what
// comes behind it: nothing (0), the rest of its element (1), everything (2).
func damaged(kind, n int) []byte {
	w := wires[kind]
	from, to, first := fields(w)
	f := nd.Choice("field", len(from))
	end := to[f]
	switch nd.Choice("cut", 3) {
	case 1:
		for g := f + 1; g < len(from) && !first[g]; g++ {
			end = to[g]
		}
	case 2:
		end = len(w)
	}
	out := append([]byte{}, w[:from[f]]...)
	out = append(out, nd.Bytes("field", n)...)
	out = append(out, w[end:]...)
	return append(out, '\'')
}

// read asks a segment for everything it has.
func read(s interface{}) {
	if b, ok := s.(segment.AccountBalanceResponse); ok {
		b.AccountBalance()
	}
	if b, ok := s.(interface {
		SepaAccountBalance() domain.SepaAccountBalance
	}); ok {
		b.SepaAccountBalance()
	}
	if b, ok := s.(segment.AccountInformation); ok {
		b.Account()
	}
	if b, ok := s.(segment.CommonUserParameterData); ok {
		b.UserParameterData()
	}
	if b, ok := s.(segment.CommonBankParameter); ok {
		b.BankParameterData()
	}
	if b, ok := s.(segment.SynchronisationResponse); ok {
		b.ClientSystemID()
	}
	if b, ok := s.(segment.PinTanBusinessTransactionParams); ok {
		b.PinTanBusinessTransactions()
	}
	if b, ok := s.(interface {
		Acknowledgements() []domain.Acknowledgement
	}); ok {
		b.Acknowledgements()
	}
	if b, ok := s.(segment.StatusProtocolResponse); ok {
		b.Status()
	}
	if b, ok := s.(segment.AccountTransactionResponse); ok {
		b.BookedSwiftTransactions()
	}
	if b, ok := s.(*segment.BankAnnouncementSegment); ok {
		b.Subject.Val()
		b.Body.Val()
	}
	if b, ok := s.(*segment.EncryptedDataSegment); ok {
		b.Data.Val()
	}
	if b, ok := s.(*segment.MessageHeaderSegment); ok {
		b.ReferencingMessage()
		b.DialogID.Val()
		b.HBCIVersion.Val()
		b.Number.Val()
	}
	if b, ok := s.(*segment.TanBankParameterV6); ok {
		if p := b.Tan2StepSubmissionParameter; p != nil && p.ProcessParameters != nil {
			for _, e := range p.ProcessParameters.GroupDataElements() {
				e.(*element.Tan2StepSubmissionProcessParameterV6).SecurityFunction.Val()
			}
		}
	}
}

// Segment: one field of a segment is arbitrary.
func Segment(p []int) {
	kind := p[0]
	wire := damaged(kind, p[1])
	u, err := segment.KnownSegments.UnmarshalerForSegment(header(wires[kind]))
	if err != nil { // not meant to be looked up by its ID
		nd.Cover("unknown")
		return
	}
	if err := u.UnmarshalHBCI(wire); err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Cover("read")
	read(u)
}

// Message: a message is an arbitrary piece between two fixed ones.
func Message(p []int) {
	frames := []string{"", "HIRMG:2:2+0010::ok'HI", "HIRMS:3:2:4+0010::ok'", "HNHBK:1:3+"}
	tails := []string{"", "+0010::ok'", "'", ":3:1+x'"}
	raw := []byte(frames[p[0]])
	raw = append(raw, nd.Bytes("raw", p[2])...)
	raw = append(raw, tails[p[1]]...)
	header := segment.NewMessageHeaderSegment(1, 300, "dialog", 1)
	m, err := message.NewDecryptedMessage(header, nil, raw)
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Cover("read")
	m.Acknowledgements()
	m.SupportedSegments()
	m.SegmentPosition("HIRMG")
	m.FindSegment("HIRMG")
	m.FindSegments("HIRMS")
	m.FindMarshaledSegment("HIRMG")
	m.FindMarshaledSegments("HIRMG")
	m.FindMarshaledSegment("")
	m.SegmentPosition("'")
	m.SegmentPosition("")
}

// Header: the header of a message is damaged.
func Header(p []int) {
	from, to, _ := fields(wires[17])
	f := nd.Choice("field", len(from))
	wire := append([]byte(wires[17][:from[f]]), nd.Bytes("field", p[0])...)
	if nd.Choice("cut", 2) == 0 {
		wire = append(wire, wires[17][to[f]:]...)
	}
	wire = append(wire, '\'')
	h := &segment.MessageHeaderSegment{}
	if h.UnmarshalHBCI(wire) != nil {
		nd.Cover("rejected")
		return
	}
	m, err := message.NewDecryptedMessage(h, nil, []byte("HIRMG:2:2+0010::ok'"))
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Cover("read")
	m.Acknowledgements()
}

// versioned decodes a segment without being told its version.
func versioned(k int) segment.Unmarshaler {
	switch k {
	case 0:
		return &segment.AccountBalanceResponseSegment{}
	case 1:
		return &segment.AccountInformationSegment{}
	case 2:
		return &segment.AccountTransactionResponseSegment{}
	case 3:
		return &segment.CommonBankParameterSegment{}
	case 4:
		return &segment.CommonUserParameterDataSegment{}
	case 5:
		return &segment.EncryptionHeaderSegment{}
	case 6:
		return &segment.PinTanBankParameterSegment{}
	case 7:
		return &segment.SignatureEndSegment{}
	case 8:
		return &segment.SignatureHeaderSegment{}
	case 9:
		return &segment.StatusProtocolResponseSegment{}
	case 10:
		return &segment.SynchronisationResponseSegment{}
	case 11:
		return &segment.TanBankParameterSegment{}
	}
	return &segment.TanResponseSegment{}
}

// Version: a segment of any version with an arbitrary beginning.
func Version(p []int) {
	wire := append([]byte([]string{"", "HIABC:5:"}[p[1]]), nd.Bytes("raw", p[2])...)
	wire = append(wire, []string{"", "'", "+1+2'"}[nd.Choice("tail", 3)]...)
	if versioned(p[0]).UnmarshalHBCI(wire) != nil {
		nd.Cover("rejected")
	}
}

func cross(dims ...[]int) (out [][]int) {
	out = [][]int{nil}
	for _, d := range dims {
		var next [][]int
		for _, o := range out {
			for _, v := range d {
				next = append(next, append(append([]int{}, o...), v))
			}
		}
		out = next
	}
	return
}

func upto(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return
}

var Harnesses = []nd.H{
	{Name: "Segment", F: Segment, Covers: []string{"read", "rejected"},
		Quick: cross(upto(len(wires)), []int{0, 1, 2}), Thorough: cross(upto(len(wires)), []int{3}),
		Bound: "each of the 40 bank segments with any one of its fields replaced by up to 3 arbitrary bytes and the rest behind it kept, cut to the end of its element, or cut off"},
	{Name: "Message", F: Message, Covers: []string{"read", "rejected"},
		Quick: cross(upto(4), upto(4), []int{0, 1, 2, 3}), Thorough: cross(upto(4), upto(4), []int{4, 5}),
		Bound: "up to 5 arbitrary bytes alone or between the beginnings and ends of segments"},
	{Name: "Version", F: Version, Covers: []string{"rejected"},
		Quick: cross(upto(13), upto(2), upto(3)), Thorough: cross(upto(13), upto(2), []int{3}),
		Bound: "the 13 kinds of segments with more than one version, their beginning up to 3 arbitrary bytes"},
	{Name: "Header", F: Header, Covers: []string{"read", "rejected"},
		Quick: [][]int{{0}, {1}, {2}}, Thorough: [][]int{{3}},
		Bound: "a message header with any one field replaced by up to 3 arbitrary bytes"},
}
