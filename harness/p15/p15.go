// Package p15: the dialogs with the bank follow the protocol.
package p15

import (
	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

// what the bank does with a request
const (
	accept = iota
	refuse
	lost
	nonsense
	reactions
)

// kinds of requests
const (
	syncReq = iota
	initReq
	jobReq
	endReq
)

type bank struct {
	v         segment.HBCIVersion
	react     func(kind int) int
	dialogs   int
	syncs     int
	open      bool   // the client knows of an open dialog
	id        []byte // its ID as written
	number    int    // of the last message
	anonymous bool
	csid      []byte // the client system ID as written
	dialogID  func(n int) []byte
	systemID  func(n int) []byte
	failed    bool // a message but the end of the dialog was not accepted
	endFailed bool
	requests  int
}

func (b *bank) do(req *transport.Request) (*transport.Response, error) {
	nd.Assert(req.URL == "https://bank", "messages go to the bank")
	raw := lib.Decode(req.Body)
	r := lib.ReadRequest(raw)
	nd.Assert(r != nil, "messages are well-formed")
	nd.Assert(r.Version == b.v.Version(), "messages have the version of the dialog")
	nd.Assert(r.Number == r.EndNumber, "header and end have the same number")
	nd.Assert(r.Encrypted == !b.anonymous, "messages are encrypted unless they are anonymous")
	b.requests++
	kind := jobReq
	switch {
	case r.Has("HKSYN"):
		kind = syncReq
	case r.Has("HKIDN"):
		kind = initReq
	case r.Has("HKEND"):
		kind = endReq
	}
	if kind == syncReq || kind == initReq {
		nd.Assert(!b.open, "no dialog begins before the last one ended")
		nd.Assert(lib.EqS(string(r.Dialog), "0"), "a dialog begins without dialog ID")
		nd.Assert(r.Number == 1, "the messages of a dialog are numbered from 1")
	} else {
		nd.Assert(b.open, "a dialog begins with its initialisation")
		nd.Assert(lib.Eq(r.Dialog, b.id), "the messages of a dialog have the ID the bank gave it")
		nd.Assert(r.Number == b.number+1, "the messages of a dialog are numbered without gaps")
	}
	if kind == endReq {
		nd.Assert(lib.Eq(r.Element("HKEND", 1), b.id), "the end names the dialog")
	}
	b.number = r.Number
	csid := b.csid
	if kind == syncReq || b.anonymous {
		csid = []byte("0")
	}
	if kind == syncReq || kind == initReq {
		nd.Assert(r.Has("HKVVB"), "a dialog begins with identification and preparation")
		nd.Assert(lib.Eq(r.Element("HKIDN", 3), csid), "the identification has the client system ID")
		user := "user"
		if b.anonymous {
			user = "9999999999"
		}
		nd.Assert(string(r.Element("HKIDN", 1)) == "280:10090000" && string(r.Element("HKIDN", 2)) == user, "the identification names bank and user")
	}
	if !b.anonymous {
		sig, crypt := 5, 3
		if b.v.Version() == 300 {
			sig, crypt = 6, 4
		}
		nd.Assert(r.Count("HNSHK") == 1 && r.Count("HNSHA") == 1, "messages are signed once")
		nd.Assert(lib.Eq(r.Group("HNSHK", sig, 2), csid), "the signature has the client system ID")
		nd.Assert(lib.Eq(lib.Part(r.Crypt, crypt, 2), csid), "the encryption has the client system ID")
	}

	reaction := b.react(kind)
	if reaction != accept {
		if kind == endReq {
			b.endFailed = true
		} else {
			b.failed = true
		}
	}
	if kind == endReq {
		b.open = false
	}
	var segs []byte
	switch reaction {
	case lost:
		return nil, lib.ErrLost
	case nonsense:
		return &transport.Response{Request: req, Body: lib.Encode([]byte("HNHBK:1:3+x'"))}, nil
	case refuse:
		segs = append(segs, "HIRMG:2:2+9050::errors'HIRMS:3:2:4+9010::refused'"...)
	case accept:
		segs = append(segs, "HIRMG:2:2+0010::received'"...)
	}
	if reaction == accept && (kind == syncReq || kind == initReq) {
		b.open = true
		b.dialogs++
		b.id = b.dialogID(b.dialogs)
		if kind == syncReq {
			b.syncs++
			b.csid = b.systemID(b.syncs)
			segs = append(segs, "HISYN:4:3:5+"...)
			segs = append(segs, b.csid...)
			segs = append(segs, '\'')
		}
	}
	id := b.id
	if id == nil {
		id = []byte("0")
	}
	answer := lib.Answer(b.v.Version(), id, r.Number, segs)
	if b.anonymous {
		answer = lib.Plain(b.v.Version(), id, r.Number, segs)
	}
	return &transport.Response{Request: req, Body: lib.Encode(answer)}, nil
}

func newBank(v int) *bank {
	b := &bank{v: segment.HBCI220, csid: []byte("0")}
	if v == 1 {
		b.v = segment.FINTS300
	}
	b.react = func(int) int { return accept }
	b.dialogID = func(n int) []byte { return []byte("D" + lib.Dec(n, 1)) }
	b.systemID = func(n int) []byte { return []byte("S" + lib.Dec(n, 1)) }
	return b
}

func (b *bank) dialog() *dialog.PinTanDialog {
	return dialog.NewPinTanDialog(dialog.Config{
		BankID: domain.BankID{CountryCode: 280, ID: "10090000"}, HBCIURL: "https://bank", UserID: "user",
		HBCIVersion: b.v, Transport: transport.Func(b.do),
	})
}

// calls
const (
	send = iota
	sync
	update
	anonymous
	calls
)

func (b *bank) call(d *dialog.PinTanDialog, call int) {
	b.failed, b.endFailed, b.anonymous = false, false, false
	var err error
	switch call {
	case send:
		var m message.BankMessage
		m, err = d.SendMessage(message.NewHBCIMessage(b.v, segment.NewAccountBalanceRequestV5(domain.AccountConnection{AccountID: "1", CountryCode: 280, BankID: "10090000"}, false)))
		nd.Assert((err == nil) == (m != nil), "a job has a result or an error")
	case sync:
		var id string
		id, err = d.SyncClientSystemID()
		nd.Assert(err != nil || lib.EqS(string(lib.Escaped([]byte(id))), string(b.csid)), "synchronising gives the client system ID")
		nd.Assert((err != nil) == (b.failed || b.endFailed), "synchronising succeeds exactly if the bank accepts it")
	case update:
		err = d.SyncUserParameterData()
	case anonymous:
		b.anonymous = true
		var m message.BankMessage
		m, err = d.SendAnonymousMessage(message.NewHBCIMessage(b.v, segment.NewAccountBalanceRequestV5(domain.AccountConnection{AccountID: "1", CountryCode: 280, BankID: "10090000"}, false)))
		nd.Assert((err == nil) == (m != nil), "a job has a result or an error")
	}
	nd.Assert(!b.failed || err != nil, "what the bank does not accept is an error")
	if call != sync && !b.failed && !b.endFailed {
		nd.Assert(err == nil, "what the bank accepts is no error")
	}
	nd.Assert(!b.open, "every dialog the bank accepted is ended")
}

// Sequence: calls p[1:] with a bank of version p[0] whose reactions are arbitrary.
func Sequence(p []int) {
	b := newBank(p[0])
	b.react = func(int) int { return nd.Choice("reaction", reactions) }
	d := b.dialog()
	d.SetPin("12345")
	for k, c := range p[1:] {
		b.call(d, c)
		if !b.failed && k == len(p)-2 {
			nd.Cover("accepted")
		}
	}
	nd.Cover("end")
}

// Ids: the IDs the bank gives are arbitrary texts.
func Ids(p []int) {
	b := newBank(p[0])
	text, iso := lib.Text("id", p[2])
	nd.Assume(!lib.MalformedFloat(append(append([]byte{}, iso...), '+'), 0))
	nd.Assume(!lib.MalformedFloat(append(append([]byte{}, iso...), '\''), 0))
	id := lib.Escaped(iso)
	if p[1] == 0 {
		b.dialogID = func(n int) []byte { return id }
	} else {
		b.systemID = func(n int) []byte { return id }
	}
	d := b.dialog()
	d.SetPin("12345")
	b.call(d, send)
	nd.Assert(!b.failed, "accepted")
	if p[1] == 1 {
		nd.Assert(lib.EqS(d.ClientSystemID, text), "the client system ID is that of the bank")
	}
	nd.Assert(b.requests == 5 || p[1] == 1 && text == "0", "synchronisation and job are one dialog each")
	nd.Cover("end")
}

// Preset: a client system ID that is already known is used, and a synchronisation replaces it.
func Preset(p []int) {
	b := newBank(p[0])
	text, iso := lib.Text("id", p[1])
	nd.Assume(text != "0")
	b.csid = lib.Escaped(iso)
	d := b.dialog()
	if p[2] == 0 {
		d.SetPin("12345")
		d.SetClientSystemID(text)
	} else {
		d.SetClientSystemID(text)
		d.SetPin("12345")
	}
	b.call(d, send)
	nd.Assert(b.requests == 3, "a known client system ID needs no synchronisation")
	b.react = func(kind int) int {
		if kind == syncReq {
			return nd.Choice("reaction", reactions)
		}
		return accept
	}
	b.call(d, sync)
	b.call(d, send)
	nd.Cover("end")
}

// NoPin: without PIN nothing is sent.
func NoPin(p []int) {
	b := newBank(p[0])
	d := b.dialog()
	if p[1] == 1 {
		d.SetClientSystemID("S0")
	}
	err := d.SyncUserParameterData()
	nd.Assert(err != nil && b.requests == 0, "without PIN nothing is sent")
	nd.Cover("end")
}

func cross(dims ...[]int) (out [][]int) {
	out = [][]int{nil}
	for _, d := range dims {
		var next [][]int
		for _, o := range out {
			for _, v := range d {
				next = append(next, append(append([]int{}, o...), v))
			}
		}
		out = next
	}
	return
}

func upto(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return
}

var Harnesses = []nd.H{
	{Name: "Sequence", F: Sequence, Covers: []string{"accepted", "end"},
		Quick: append(cross(upto(2), upto(calls)), cross([]int{1}, upto(calls), upto(calls))...), Thorough: append(cross([]int{0}, upto(calls), upto(calls)), cross([]int{1}, upto(3), upto(3), upto(3))...), Steps: 100_000_000,
		Bound: "up to 3 calls of sending a job, synchronising, updating the user's data and sending an anonymous job, each message accepted, refused, lost or answered with nonsense"},
	{Name: "Ids", F: Ids, Covers: []string{"end"},
		Quick: cross(upto(2), upto(2), []int{1}), Thorough: cross(upto(2), upto(2), []int{2}), Steps: 100_000_000,
		Bound: "dialog and client system IDs of up to 2 arbitrary characters"},
	{Name: "Preset", F: Preset, Covers: []string{"end"},
		Quick: cross(upto(2), []int{1}, upto(2)), Thorough: cross(upto(2), []int{2}, upto(2)), Steps: 100_000_000,
		Bound: "a client system ID of up to 2 arbitrary characters set before"},
	{Name: "NoPin", F: NoPin, Covers: []string{"end"}, Quick: cross(upto(2), upto(2)), Bound: "both versions"},
}
