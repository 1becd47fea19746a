// Package p16: what the bank answers in a dialog takes effect.
package p16

import (
	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

// kinds of requests
const (
	syncReq = iota
	initReq
	jobReq
	endReq
)

// bank answers every request with what answer makes for it.
type bank struct {
	v         segment.HBCIVersion
	anonymous bool
	answer    func(kind int, r *lib.Request) []byte // nil: the usual
	ended     bool
}

func (b *bank) do(req *transport.Request) (*transport.Response, error) {
	r := lib.ReadRequest(lib.Decode(req.Body))
	nd.Assert(r != nil, "messages are well-formed")
	kind := jobReq
	switch {
	case r.Has("HKSYN"):
		kind = syncReq
	case r.Has("HKIDN"):
		kind = initReq
	case r.Has("HKEND"):
		kind = endReq
		b.ended = true
	}
	segs := b.answer(kind, r)
	if segs == nil {
		segs = []byte("HIRMG:2:2+0010::received'")
	}
	if kind == syncReq {
		segs = append(segs, "HISYN:4:3:5+S1'"...)
	}
	if b.anonymous {
		return &transport.Response{Request: req, Body: lib.Encode(lib.Plain(b.v.Version(), []byte("D1"), r.Number, segs))}, nil
	}
	return &transport.Response{Request: req, Body: lib.Encode(lib.Answer(b.v.Version(), []byte("D1"), r.Number, segs))}, nil
}

func newBank(v int) *bank {
	b := &bank{v: segment.HBCI220}
	if v == 1 {
		b.v = segment.FINTS300
	}
	b.answer = func(int, *lib.Request) []byte { return nil }
	return b
}

func (b *bank) dialog() *dialog.PinTanDialog {
	d := dialog.NewPinTanDialog(dialog.Config{
		BankID: domain.BankID{CountryCode: 280, ID: "10090000"}, HBCIURL: "https://bank", UserID: "user",
		HBCIVersion: b.v, Transport: transport.Func(b.do),
	})
	d.SetPin("12345")
	d.SetClientSystemID("S0")
	return d
}

func (b *bank) job() message.HBCIMessage {
	return message.NewHBCIMessage(b.v, segment.NewAccountBalanceRequestV5(domain.AccountConnection{AccountID: "1", CountryCode: 280, BankID: "10090000"}, false))
}

func code(name string) (int, []byte) {
	d := make([]byte, 4)
	n := 0
	for k := range d {
		d[k] = nd.Byte(name)
		nd.Assume(d[k] >= '0' && d[k] <= '9')
		n = n*10 + int(d[k]-'0')
	}
	return n, d
}

// Acks: p[1] is the call, p[2] the request of it answered with three acknowledgements, the p[3]-th
// of an arbitrary code.
func Acks(p []int) {
	b := newBank(p[0])
	c, digits := code("code")
	b.answer = func(kind int, r *lib.Request) []byte {
		if kind != p[2] {
			return nil
		}
		codes := [][]byte{[]byte("0010"), []byte("3076"), []byte("0020")}
		codes[p[3]] = digits
		return []byte("HIRMG:2:2+" + string(codes[0]) + "::a+" + string(codes[1]) + "::b'HIRMS:3:2:4+" + string(codes[2]) + ":1,2:c:par'")
	}
	d := b.dialog()
	var err error
	switch p[1] {
	case 0:
		var m message.BankMessage
		m, err = d.SendMessage(b.job())
		nd.Assert((err == nil) == (m != nil), "a job has a result or an error")
	case 1:
		_, err = d.SyncClientSystemID()
	case 2:
		err = d.SyncUserParameterData()
	case 3:
		b.anonymous = true
		var m message.BankMessage
		m, err = d.SendAnonymousMessage(b.job())
		nd.Assert((err == nil) == (m != nil), "a job has a result or an error")
	}
	if p[2] == endReq && p[1] != 1 {
		nd.Assert(err == nil, "a job that is done is no error")
		nd.Cover("done")
		return
	}
	if err != nil {
		nd.Assert(c >= 9000, "no code below 9000 is an error")
		nd.Cover("error")
	} else {
		nd.Assert(c < 9000, "every code from 9000 is an error")
		nd.Cover("done")
	}
}

// choose returns one of n numbers, or only the first or last one.
func choose(name string, n int, few bool) int {
	if few {
		return nd.Choice(name, 2) * (n - 1)
	}
	return nd.Choice(name, n)
}

// tens makes a digit from 1 to 9.
func tens(name string) byte {
	d := nd.Byte(name)
	nd.Assume(nd.And(d >= '1', d <= '9'))
	return d
}

// Data: the answers to p[1] beginnings of dialogs contain arbitrary selections of parameter data.
func Data(p []int) {
	b := newBank(p[0])
	bpd, upd, customer, bankName, maxTx, user, size := 0, 0, "user", "", 0, "", 0
	var accounts []string
	var supported []segment.VersionedSegment
	var decoded []bool
	pins := map[string]bool{}
	round := 0
	b.answer = func(kind int, r *lib.Request) []byte {
		if kind != syncReq && kind != initReq {
			return nil
		}
		wantBpd, wantUpd, wantCustomer := bpd, upd, customer
		if kind == syncReq {
			wantBpd, wantUpd = 0, 0
		}
		if b.anonymous {
			wantCustomer = "9999999999"
		}
		nd.Assert(lib.Num(r.Element("HKVVB", 1)) == wantBpd, "the client names its version of the bank's parameters")
		nd.Assert(lib.Num(r.Element("HKVVB", 2)) == wantUpd, "the client names its version of the user's parameters")
		nd.Assert(string(r.Element("HKIDN", 2)) == wantCustomer, "the client identifies itself as the bank called it")
		round++
		k := lib.Dec(round, 1)
		segs := "HIRMG:2:2+0010::received'"
		few := len(p) > 2 // fewer selections in each of more than one dialog
		if sel := choose("bank data", 3, few); sel > 0 {
			v := tens("bank version")
			bpd, bankName, maxTx = int(v-'0')*10+round, "bank"+k, 3+round
			segs += "HIBPA:3:" + []string{"", "2", "3"}[sel] + ":4+" + string([]byte{v}) + k + "+280:10090000+bank" + k + "+" + lib.Dec(maxTx, 1) + "+1:2+220:300+" + lib.Dec(7*round, 1)
			size = 7 * round
			if sel == 2 {
				segs += "+1+" + lib.Dec(9*round, 1)
			}
			segs += "'"
			supported = []segment.VersionedSegment{{ID: "HISALS", Version: 5}, {ID: "HISALS", Version: 6}}
			decoded = []bool{false, false}
			pins = nil
			segs += "HISALS:4:5:4+1+1'HISALS:5:6:4+1+1+0'"
			if nd.Choice("pins", 2) == 1 {
				segs += "HIPINS:6:1:4+1+1+0+5:6:6:a:b:HKSAL:N:HKUEB:J:HK" + k + ":J'HIPINS:6:2:4+1+1+0+5:6:6:a:b:HKSAL:J'"
				pins = map[string]bool{"HKSAL": false, "HKUEB": true, "HK" + k: true}
				supported = append(supported, segment.VersionedSegment{ID: "HIPINS", Version: 1}, segment.VersionedSegment{ID: "HIPINS", Version: 2})
				decoded = append(decoded, true, false)
			}
		}
		if sel := choose("user data", 3, few); sel > 0 {
			v := tens("user version")
			upd, customer = int(v-'0')*10+round, "cust"+k
			segs += "HIUPA:7:" + []string{"", "2", "4"}[sel] + ":4+" + customer + "+" + string([]byte{v}) + k + "+0"
			user = ""
			if sel == 2 {
				user = "name" + k
				segs += "+" + user
			}
			segs += "'"
		}
		if n := choose("accounts", 3, few && round == 1); n > 0 {
			accounts = nil
			for j := 0; j < n; j++ {
				name := "acc" + k + lib.Dec(j, 1)
				accounts = append(accounts, name)
				segs += "HIUPD:8:4:4+" + name + "::280:10090000+user+EUR+name'"
			}
		}
		if !few && nd.Choice("news", 2) == 1 {
			segs += "HIKIM:9:2:4+subject+body'"
		}
		return []byte(segs)
	}
	d := b.dialog()
	for i := 1; i < len(p); i++ {
		b.anonymous = false
		var err error
		switch p[i] {
		case 0:
			_, err = d.SendMessage(b.job())
		case 1:
			_, err = d.SyncClientSystemID()
		case 2:
			err = d.SyncUserParameterData()
		case 3:
			b.anonymous = true
			_, err = d.SendAnonymousMessage(b.job())
		}
		nd.Assert(err == nil, "parameter data are no error")
		nd.Assert(d.BankParameterDataVersion() == bpd && d.BankParameterData.Version == bpd, "the bank's parameters are the last ones it sent")
		nd.Assert(d.BankParameterData.BankName == bankName && d.BankParameterData.MaxTransactionsPerMessage == maxTx, "the bank's parameters are the last ones it sent")
		nd.Assert(d.UserParameterDataVersion() == upd && d.UserParameterData.Version == upd, "the user's parameters are the last ones the bank sent")
		nd.Assert(upd == 0 || d.UserParameterData.UserID == customer, "the user's parameters are the last ones the bank sent")
		nd.Assert(d.UserParameterData.UserName == user, "the user's parameters are the last ones the bank sent")
		nd.Assert(d.BankParameterData.MaxMessageSize == size, "the bank's parameters are the last ones it sent")
		nd.Assert(len(d.Accounts) == len(accounts), "the accounts are the last ones the bank sent, each once")
		for j, a := range accounts {
			nd.Assert(d.Accounts[j].AccountConnection.AccountID == a, "the accounts are the last ones the bank sent, each once")
		}
		got := d.SupportedSegments()
		nd.Assert(len(got) == len(supported), "the supported jobs are those the bank named")
		params := d.BankParameterData.SupportedSegmentParameters
		nd.Assert(len(params) == len(supported), "the supported jobs are those the bank named")
		for j, s := range supported {
			nd.Assert(got[j] == s && params[j].VersionedSegment == s, "the supported jobs are those the bank named")
			nd.Assert((params[j].Parameters != nil) == decoded[j], "the parameters that are understood are there")
		}
		tx := d.BankParameterData.PinTanBusinessTransactions
		nd.Assert(len(tx) == len(pins), "the jobs that need a TAN are those the bank named")
		for id, tan := range pins {
			got, ok := tx[id]
			nd.Assert(ok && got == tan, "the jobs that need a TAN are those the bank named")
		}
	}
	nd.Cover("end")
}

const procedure = ":2:a:b:13:n:6:1:d:3:J:2:N:0:0:N:N:00:0:N:1"

var functions = []string{"900", "910", "999"}

// Security: the bank names p[2] security functions for the user and offers p[3] ones, at least one.
// 10 more: named in two acknowledgements, offered among versions of the segment that are not known.
func Security(p []int) {
	nd.MapOrder(true)
	b := newBank(p[0])
	current := "999"
	fail := false
	b.answer = func(kind int, r *lib.Request) []byte {
		fn, profile := r.Element("HNSHK", 1), []byte(nil)
		if b.v.Version() == 300 {
			fn, profile = r.Element("HNSHK", 2), r.Element("HNSHK", 1)
			want := "PIN:2"
			if current == "999" {
				want = "PIN:1"
			}
			nd.Assert(string(profile) == want, "the security profile is that of the security function")
			nd.Assert(string(r.Crypt[1]) == want, "the security profile is that of the security function")
		}
		nd.Assert(string(fn) == current, "messages are signed with the chosen security function")
		if kind != syncReq && kind != initReq {
			return nil
		}
		segs := "HIRMG:2:2+0010::received'"
		tan := nd.Choice("tan", 4)
		allowed := make([]string, p[2]%10)
		for k := range allowed {
			allowed[k] = functions[nd.Choice("allowed", len(functions))]
		}
		offered := make([]string, p[3]%10)
		for k := range offered {
			offered[k] = functions[nd.Choice("offered", len(functions))]
		}
		if tan >= 1 {
			segs += "HIRMS:3:2:4+3920::functions"
			for k, f := range allowed {
				if p[2] >= 10 && k == len(allowed)-1 {
					// what counts if the first one names none that is offered is not claimed
					common := false
					for _, g := range allowed[:k] {
						for _, o := range offered {
							common = common || g == o
						}
					}
					nd.Assume(common || tan != 1)
					segs += "+3920::more"
				}
				segs += ":" + f
			}
			segs += "'"
		}
		other := 0
		if p[3] >= 10 {
			other = nd.Choice("other versions", 4)
		}
		if other&1 != 0 {
			segs += "HITANS:4:5:4+1+1+1+J:N:0:999" + procedure + "'"
		}
		if tan <= 1 {
			segs += "HITANS:4:6:4+1+1+1+J:N:0"
			for _, f := range offered {
				segs += ":" + f + procedure
			}
			segs += "'"
		}
		if other&2 != 0 {
			segs += "HITANS:4:7:4+1+1+1+J:N:0:999" + procedure + "'"
		}
		if tan == 3 {
			segs += "HITANS:4:6:4+1+1+1'"
		}
		fail = tan == 3
		if tan == 1 {
			fail = true
			for _, f := range allowed {
				for _, o := range offered {
					if f == o && fail {
						fail = false
						current = f
					}
				}
			}
		}
		return []byte(segs)
	}
	d := b.dialog()
	for k, c := range p[4:] {
		if k > 0 {
			d.SetPin("54321")
		}
		b.ended = false
		var err error
		switch c {
		case 0:
			_, err = d.SendMessage(b.job())
		case 1:
			_, err = d.SyncClientSystemID()
		case 2:
			err = d.SyncUserParameterData()
		}
		nd.Assert((err != nil) == fail, "without a common security function there is an error")
		nd.Assert(b.ended, "the dialog is ended")
	}
	nd.Cover("end")
}

func cross(dims ...[]int) (out [][]int) {
	out = [][]int{nil}
	for _, d := range dims {
		var next [][]int
		for _, o := range out {
			for _, v := range d {
				next = append(next, append(append([]int{}, o...), v))
			}
		}
		out = next
	}
	return
}

func upto(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return
}

var acks = append(append(append(
	cross(upto(2), []int{0, 3}, []int{initReq, jobReq, endReq}, upto(3)),
	cross(upto(2), []int{1}, []int{syncReq, endReq}, upto(3))...),
	cross(upto(2), []int{2}, []int{initReq, endReq}, upto(3))...))

var Harnesses = []nd.H{
	{Name: "Acks", F: Acks, Covers: []string{"done", "error"}, Quick: acks, Steps: 100_000_000,
		Bound: "three acknowledgements of message and segment in the answer to any request, one of them of any code of four digits"},
	{Name: "Data", F: Data, Covers: []string{"end"}, Steps: 200_000_000,
		Quick:    append(cross(upto(2), upto(4)), [][]int{{1, 0, 0}, {1, 1, 0}, {1, 2, 1}, {1, 3, 2}}...),
		Thorough: cross(upto(2), upto(4), upto(4)),
		Bound:    "up to 2 dialogs, in each the bank sends or leaves out its parameters, the jobs with PIN, the user's parameters, 0 to 2 accounts and news"},
	{Name: "Security", F: Security, Covers: []string{"end"}, Steps: 200_000_000,
		Quick:    append(append(cross(upto(2), []int{0}, []int{0, 1}, []int{1}, upto(3)), cross([]int{1}, []int{0}, []int{2}, []int{1, 2}, []int{1, 2})...), append(cross([]int{0}, []int{0}, []int{1}, []int{1}, []int{1, 2}, []int{0}), []int{1, 0, 12, 1, 2}, []int{0, 0, 1, 11, 0}, []int{1, 0, 1, 11, 1})...),
		Thorough: append(append(cross(upto(2), []int{0}, []int{1, 2}, []int{1, 2}, []int{0, 1, 2}), cross([]int{1}, []int{0}, []int{2}, []int{1}, []int{1, 2}, []int{0})...), cross([]int{1}, []int{0}, []int{3}, []int{2}, []int{2})...),
		Bound:    "up to 3 functions allowed and 2 offered out of 3, named or not, in up to 2 dialogs with a change of the PIN between, in any order of maps"},
}
