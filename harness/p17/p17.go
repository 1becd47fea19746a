// Package p17: what the client returns is what the bank sent.
package p17

import (
	"time"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

// bank answers the requests of a client; job makes the answer to the n-th job.
type bank struct {
	version  int
	syncs    int
	n        int
	job      func(n int, r *lib.Request) []byte
	accounts string
}

const supported = "HISALS:4:5:4+1+1'HISALS:4:6:4+1+1+0'HISALS:4:7:4+1+1+0'HIKAZS:4:5:4+1+1'HIKAZS:4:6:4+1+1+0'HIKAZS:4:7:4+1+1+0'HIPROS:4:3:4+1+1'HIPROS:4:4:4+1+1+0'"

func (b *bank) do(req *transport.Request) (*transport.Response, error) {
	r := lib.ReadRequest(lib.Decode(req.Body))
	nd.Assert(r != nil, "messages are well-formed")
	segs := "HIRMG:2:2+0010::received'"
	switch {
	case r.Has("HKSYN"):
		b.syncs++
		segs += "HIBPA:3:2:4+1+280:10090000+bank+3+1+220:300+0'" + supported + "HISYN:4:3:5+S1'"
	case r.Has("HKIDN"):
		segs += b.accounts
	case r.Has("HKEND"):
	default:
		segs += string(b.job(b.n, r))
		b.n++
	}
	return &transport.Response{Request: req, Body: lib.Encode(lib.Answer(b.version, []byte("D1"), r.Number, []byte(segs)))}, nil
}

func newBank(v int) (*bank, *client.Client) {
	b := &bank{version: 220 + 80*v}
	c, err := client.New(client.Config{BankID: "10090000", AccountID: "user", PIN: "12345", URL: "https://bank", HBCIVersion: b.version, Transport: transport.Func(b.do)})
	nd.Assert(err == nil, "there is a client for a supported version")
	return b, c
}

var account = domain.AccountConnection{AccountID: "1", CountryCode: 280, BankID: "10090000"}

var sepa = domain.InternationalAccountConnection{IBAN: "DE1", BIC: "B", AccountID: "1", BankID: domain.BankID{CountryCode: 280, ID: "10090000"}}

// amount is one of ten amounts.
func amount(name string) (byte, float64) {
	d := nd.Byte(name)
	nd.Assume(d >= '0' && d <= '9')
	return d, float64(d - '0')
}

func binary(data string) string { return "@" + lib.Dec(len(data), 1) + "@" + data }

// kinds of jobs
const (
	turnover = iota
	sepaTurnover
	balances
	sepaBalances
)

var names = []string{"HKKAZ", "HKKAZ", "HKSAL", "HKSAL"}

// Pages: job p[1] is answered in p[2] pages, with a continuation mark of p[3] characters (0: a fixed
// one). A page contains one entry, or if p[4] is 1 none or two, if p[4] is 2 only p[5] none, if
// p[4] is 3 one with a fixed amount. With
// p[6] page p[5] is an error or ends without a mark.
func Pages(p []int) {
	b, c := newBank(p[0])
	kind, pages := p[1], p[2]
	var want []float64
	var mark []byte
	all := nd.Choice("all", 2) == 1
	frame := domain.Timeframe{StartDate: domain.ShortDate{Time: time.Date(2021, 1, 2, 0, 0, 0, 0, time.Local)}, EndDate: domain.ShortDate{Time: time.Date(2021, 1, 31, 0, 0, 0, 0, time.Local)}}
	fail, failed, malformed := false, false, false
	b.job = func(n int, r *lib.Request) []byte {
		nd.Assert(n < pages && !failed, "nothing is asked for that is not there")
		nd.Assert(r.Count(names[kind]) == 1, "one job is asked for")
		got := lib.Unescaped(last(r, names[kind]))
		if n == 0 {
			nd.Assert(len(got) == 0, "the first request continues nothing")
		} else {
			nd.Assert(lib.Eq(got, mark), "further requests name the mark where the bank stopped")
		}
		nd.Assert(string(r.Element(names[kind], 1)) == []string{"1::280:10090000", "DE1:B:1::280:10090000", "1::280:10090000", "DE1:B:1::280:10090000"}[kind], "every request names the account")
		nd.Assert(string(r.Element(names[kind], 2)) == map[bool]string{true: "J", false: "N"}[all], "every request says whether it is about all accounts")
		if kind == turnover || kind == sepaTurnover {
			nd.Assert(string(r.Element(names[kind], 3)) == "20210102" && string(r.Element(names[kind], 4)) == "20210131", "every request names the timeframe")
		}
		segs := ""
		m := 1
		if p[4] == 1 {
			m = 2 * nd.Choice("segments", 2)
			if m == 0 && kind >= balances {
				malformed = true
			}
		}
		for k := 0; k < m; k++ {
			d, v := byte('0'+n%10), float64(n%10)
			if p[4] != 3 {
				d, v = amount("amount")
			}
			switch kind {
			case turnover, sepaTurnover:
				if p[4] == 2 && n == p[5] {
					segs += "HIKAZ:5:6:3++@1@x'"
					continue
				}
				want = append(want, v)
				segs += "HIKAZ:5:" + []string{"6", "7"}[kind] + ":3+" + binary("\r\n:20:R\r\n:25:10090000/1\r\n:28C:1\r\n:60F:C210101EUR0,\r\n:61:2101010101C"+string(d)+",NTRFNONREF\r\n:86:166?20P\r\n:62F:C210101EUR0,\r\n-") + "'"
			case balances:
				want = append(want, v)
				segs += "HISAL:5:6:3+1::280:10090000+Giro+EUR+C:" + string(d) + ",:EUR:20210101'"
			case sepaBalances:
				want = append(want, v)
				segs += "HISAL:5:7:3+DE1:B:1::280:10090000+Giro+EUR+C:" + string(d) + ",:EUR:20210101'"
			}
		}
		if len(p) > 6 && n == p[5] {
			switch p[6] {
			case 0:
				fail, failed = true, true
				return []byte(segs + "HIRMS:4:2:3+9010::no'")
			case 1: // an end without mark
				failed = true
				return []byte(segs + "HIRMS:4:2:3+3040::more'")
			}
		}
		if n+1 < pages {
			mark = []byte("M+" + lib.Dec(n, 1))
			if p[3] > 0 {
				_, mark = lib.Text("mark", p[3])
			}
			nd.Assume(!lib.MalformedFloat(append(lib.Escaped(mark), '+'), 0))
			segs += "HIRMS:4:2:3+0020::done+3040::more:" + string(lib.Escaped(mark)) + []string{"", ":more"}[n%2] + "'"
		} else {
			segs += "HIRMS:4:2:3+0020::done'"
		}
		return []byte(segs)
	}
	var got []float64
	var err error
	switch kind {
	case turnover, sepaTurnover:
		var tx []domain.AccountTransaction
		if kind == turnover {
			tx, err = c.AccountTransactions(account, frame, all, "")
		} else {
			tx, err = c.SepaAccountTransactions(sepa, frame, all, "")
		}
		for _, t := range tx {
			got = append(got, t.Amount.Amount)
		}
	case balances:
		var bs []domain.AccountBalance
		bs, err = c.AccountBalances(account, all)
		for _, x := range bs {
			got = append(got, x.BookedBalance.Amount.Amount)
		}
	case sepaBalances:
		var bs []domain.SepaAccountBalance
		bs, err = c.SepaAccountBalances(sepa, all, "")
		for _, x := range bs {
			got = append(got, x.BookedBalance.Amount.Amount)
		}
	}
	nd.Assert(b.syncs == 1, "the client synchronizes once")
	if fail || malformed {
		nd.Assert(err != nil && got == nil, "a page that fails fails the job")
		nd.Cover("error")
		return
	}
	nd.Assert(err == nil, "a job that is done is no error")
	nd.Assert(failed || b.n == pages, "every page is fetched")
	nd.Assert(len(got) == len(want), "every entry of every page is there once")
	for k := range want {
		nd.Assert(got[k] == want[k], "the entries are in the order of the bank")
	}
	nd.Cover("done")
}

// last returns the continuation mark of a job.
func last(r *lib.Request, id string) []byte {
	if id == "HKSAL" {
		return r.Element(id, 4)
	}
	return r.Element(id, 6)
}

// Status: p[1] acknowledgements in an answer of version p[2].
func Status(p []int) {
	b, c := newBank(p[0])
	var codes []int
	b.job = func(n int, r *lib.Request) []byte {
		nd.Assert(n == 0 && r.Has("HKPRO"), "one job is asked for")
		segs := "HIRMS:4:2:3+0020::done'"
		for k := 0; k < p[1]; k++ {
			d := nd.Byte("code")
			nd.Assume(d >= '0' && d <= '9')
			codes = append(codes, 9000+int(d-'0'))
			segs += "HIPRO:5:" + lib.Dec(p[2], 1) + ":3+D7:2+6+20200102+030405+900" + string(d) + "::text'"
		}
		return []byte(segs)
	}
	acks, err := c.Status(time.Date(2020, 1, 2, 0, 0, 0, 0, time.Local), time.Date(2020, 1, 3, 0, 0, 0, 0, time.Local), 5, "")
	if p[2] > 4 {
		nd.Cover("unknown")
		return
	}
	nd.Assert(err == nil, "a job that is done is no error")
	nd.Assert(len(acks) == len(codes), "every acknowledgement is there once")
	for k, a := range acks {
		nd.Assert(a.Code == codes[k] && a.ReferencingMessage.DialogID == "D7", "the acknowledgements are in the order of the bank")
	}
	nd.Cover("done")
}

// Accounts: p[1] accounts with names of p[2] characters.
func Accounts(p []int) {
	b, c := newBank(p[0])
	var names []string
	b.accounts = "HIUPA:7:2:4+user+2+0'"
	for k := 0; k < p[1]; k++ {
		utf8, iso := lib.Text("name", p[2])
		nd.Assume(!lib.MalformedFloat(append(lib.Escaped(iso), '+'), 0))
		names = append(names, utf8)
		b.accounts += "HIUPD:8:4:4+acc::280:10090000+user+EUR+" + string(lib.Escaped(iso)) + "'"
	}
	for round := 0; round < 2; round++ {
		got, err := c.Accounts()
		nd.Assert(err == nil, "accounts are no error")
		nd.Assert(len(got) == len(names), "every account is there once")
		for k, n := range names {
			nd.Assert(lib.EqS(got[k].Name1, n), "the accounts are those the bank sent")
		}
	}
	nd.Assert(b.syncs == 1, "the client synchronizes once")
	nd.Cover("done")
}

// Information: there is an error if the bank sends no information.
func Information(p []int) {
	b, c := newBank(p[0])
	b.job = func(n int, r *lib.Request) []byte {
		nd.Assert(n == 0 && r.Has("HKKIF"), "one job is asked for")
		if p[1] == 0 {
			return []byte("HIRMS:4:2:3+0020::done'")
		}
		return []byte("HIRMS:4:2:3+0020::done'HIKIF:5:1:3+acc::280:10090000+1+name'")
	}
	err := c.AccountInformation(account, false)
	nd.Assert((err == nil) == (p[1] == 1), "without information there is an error")
	nd.Cover("done")
}

func cross(dims ...[]int) (out [][]int) {
	out = [][]int{nil}
	for _, d := range dims {
		var next [][]int
		for _, o := range out {
			for _, v := range d {
				next = append(next, append(append([]int{}, o...), v))
			}
		}
		out = next
	}
	return
}

func upto(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return
}

var pages = append(append(append(
	cross(upto(2), upto(4), []int{1, 2, 3}, []int{0}, []int{1}),
	cross(upto(2), upto(2), []int{1, 2, 3}, []int{0}, []int{2}, []int{0})...),
	cross([]int{1}, upto(2), []int{2, 3}, []int{0}, []int{2}, []int{1})...),
	append(cross(upto(2), upto(4), []int{1}, []int{0}, []int{0}, []int{0}, upto(2)),
		cross([]int{1}, upto(4), []int{3}, []int{0}, []int{0}, upto(3), upto(2))...)...)

var Harnesses = []nd.H{
	{Name: "Pages", F: Pages, Covers: []string{"done", "error"}, Steps: 200_000_000,
		Quick:    append(append(append(cross(upto(2), upto(4), []int{2}, []int{1}, []int{0}), pages...), cross([]int{1}, upto(4), []int{12}, []int{0}, []int{3})...), cross([]int{1}, upto(4), []int{2}, []int{160001, 80201, 170000}, []int{0})...),
		Thorough: append(append(cross(upto(2), upto(4), []int{3}, []int{1}, []int{0}), cross([]int{1}, upto(4), []int{2}, []int{2}, []int{0})...), pages...),
		Bound:    "up to 3 pages of 0 to 2 entries, with continuation marks of any character or of 35 characters, or 12 pages of one entry; one of the pages an error or without mark"},
	{Name: "Status", F: Status, Covers: []string{"done", "unknown"}, Steps: 200_000_000,
		Quick: cross(upto(2), []int{0, 2}, []int{3, 4, 5}),
		Bound: "up to 2 acknowledgements of the versions 3 to 5"},
	{Name: "Accounts", F: Accounts, Covers: []string{"done"}, Steps: 200_000_000,
		Quick: append(cross(upto(2), []int{1, 2}, []int{1}), []int{1, 12, 30000}, []int{0, 1, 130001}),
		Bound: "up to 2 accounts, and 12 with fixed names, asked for twice"},
	{Name: "Information", F: Information, Covers: []string{"done"}, Steps: 200_000_000,
		Quick: cross(upto(2), upto(2)),
		Bound: "with and without information"},
}
