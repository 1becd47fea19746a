// Package p21: what is printed shows every entry with its values.
package p21

import (
	"strconv"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

// source gives the values of the entries; the one with number sym is arbitrary.
type source struct {
	n, sym, size int
	out          [][]string // expected lines of cells
}

func printable(c byte) bool {
	return nd.Or(nd.And(c > ' ', nd.And(c < 0x7f, c != '|')), c > 0xa0)
}

func (s *source) text(def string) string {
	s.n++
	if s.n-1 != s.sym {
		return def + lib.Dec(s.n, 1)
	}
	n := s.size
	fill := ""
	if n > 3 { // long texts are arbitrary in two places only
		fill = strings.Repeat("x", n-2)
		n = 2
	}
	t, iso := lib.Text("text", n)
	for _, c := range iso {
		nd.Assume(printable(c))
	}
	if fill != "" {
		return fill + t
	}
	return t
}

func (s *source) amount() (domain.Amount, string) {
	s.n++
	cur := "EUR"
	if s.n-1 != s.sym {
		txt := lib.Dec(s.n, 1) + "." + lib.Dec(s.n%7, 1) + "5"
		f, _ := strconv.ParseFloat(txt, 64)
		return domain.Amount{Amount: f, Currency: cur}, txt + " " + cur
	}
	n := s.size
	switch {
	case n > 9:
		n = 9
	case n == 0:
		n = 1
	}
	d := nd.Bytes("amount", n+2)
	for _, c := range d {
		nd.Assume(lib.Digit(c))
	}
	neg := nd.Bool("negative")
	if neg || n > 1 {
		nd.Assume(d[0] != '0')
	}
	txt := string(d[:n]) + "." + string(d[n:])
	if neg {
		txt = "-" + txt
	}
	f, err := strconv.ParseFloat(txt, 64)
	nd.Assert(err == nil, "the amount is one")
	c := nd.Bytes("currency", 3)
	for _, b := range c {
		nd.Assume(b >= 'A' && b <= 'Z')
	}
	cur = string(c)
	return domain.Amount{Amount: f, Currency: cur}, txt + " " + cur
}

func days(y, m int) int {
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

func (s *source) date() (time.Time, string) {
	s.n++
	if s.n-1 != s.sym {
		d := 1 + s.n%28
		return time.Date(2020, 3, d, 0, 0, 0, 0, time.UTC), "2020-03-" + lib.Dec(d, 2)
	}
	b := nd.Bytes("date", 8)
	for _, c := range b {
		nd.Assume(lib.Digit(c))
	}
	n := func(i, j int) (r int) {
		for ; i < j; i++ {
			r = r*10 + int(b[i]-'0')
		}
		return
	}
	y, m, d := n(0, 4), n(4, 6), n(6, 8)
	nd.Assume(y >= 1 && m >= 1 && m <= 12 && d >= 1)
	nd.Assume(d <= days(y, m))
	return time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC), string(b[:4]) + "-" + string(b[4:6]) + "-" + string(b[6:])
}

func (s *source) line(cells ...string) { s.out = append(s.out, cells) }

func pad(c byte) bool { return c == ' ' || c == '\t' || c == '|' }

// show asserts that out has exactly the expected lines.
func (s *source) show(out string) {
	out = strings.TrimPrefix(out, "\n")
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	nd.Assert(len(lines) == len(s.out), "there is a line for every entry")
	for k, l := range lines {
		pos := 0
		gap := true
		for s.out[k][0] == "" && pos < len(l) && pad(l[pos]) {
			pos++
		}
		for _, c := range s.out[k] {
			if c == "" {
				continue
			}
			nd.Assert(gap, "values are apart")
			nd.Assert(pos+len(c) <= len(l) && lib.EqS(l[pos:pos+len(c)], c), "every value is printed in its place")
			pos += len(c)
			gap = false
			for pos < len(l) && pad(l[pos]) {
				pos++
				gap = true
			}
		}
		nd.Assert(pos == len(l), "nothing else is printed")
	}
	nd.Cover("printed")
}

// opt is an optional amount: symbolic presence where it is the arbitrary value.
func (s *source) opt(present bool) (*domain.Amount, string) {
	a, t := s.amount()
	if s.n-1 == s.sym {
		present = !nd.Bool("absent")
	}
	if !present {
		return nil, "-"
	}
	return &a, t
}

func (s *source) balance(k int) (domain.AccountBalance, domain.SepaAccountBalance, []string) {
	var b domain.AccountBalance
	b.ProductName = s.text("product")
	b.Account = domain.AccountConnection{BankID: s.text("bank"), AccountID: s.text("account"), CountryCode: 280}
	date, dt := s.date()
	amt, at := s.amount()
	b.BookedBalance = domain.Balance{Amount: amt, TransmissionDate: date}
	cells := []string{b.ProductName, b.Account.BankID, b.Account.AccountID, dt, at}
	mark, mt := s.opt(k%2 == 1)
	if mark != nil {
		b.EarmarkedBalance = &domain.Balance{Amount: *mark, TransmissionDate: date}
		if mark.Amount != 0 {
			cells[4] += " (" + mt + ")*"
		}
	}
	var lt string
	b.CreditLimit, lt = s.opt(k%2 == 0)
	cells = append(cells, lt)
	sb := domain.SepaAccountBalance{
		Account: domain.InternationalAccountConnection{BIC: b.Account.BankID, IBAN: b.Account.AccountID}, ProductName: b.ProductName,
		BookedBalance: b.BookedBalance, EarmarkedBalance: b.EarmarkedBalance, CreditLimit: b.CreditLimit,
	}
	return b, sb, cells
}

func note(bs []domain.AccountBalance) bool {
	for _, b := range bs {
		if b.EarmarkedBalance != nil && b.EarmarkedBalance.Amount.Amount != 0 {
			return true
		}
	}
	return false
}

// Balances: p = SEPA, number of entries (-1: a single one), arbitrary value, its size.
func Balances(p []int) {
	s := &source{sym: p[2], size: p[3]}
	var bs []domain.AccountBalance
	var ss domain.SepaAccountBalances
	var rows [][]string
	n := p[1]
	if n < 0 {
		n = 1
	}
	for k := 0; k < n; k++ {
		b, sb, cells := s.balance(k)
		bs, ss, rows = append(bs, b), append(ss, sb), append(rows, cells)
	}
	id := []string{"BankID", "AccountID"}
	if p[0] == 1 {
		id = []string{"BIC", "IBAN"}
	}
	if p[1] < 0 {
		s.line(id[0], id[1], "BookingDate", "Amount")
		amount := rows[0][4]
		if i := strings.IndexByte(amount, '('); i > 0 {
			amount = amount[:i-1]
		}
		s.line(rows[0][1], rows[0][2], rows[0][3], amount)
		if p[0] == 1 {
			s.show(ss[0].String())
		} else {
			s.show(bs[0].String())
		}
		return
	}
	s.line("Product Name", id[0], id[1], "BookingDate", "Amount", "Limit")
	s.out = append(s.out, rows...)
	if note(bs) {
		s.line("* earmarked transactions")
	}
	if p[0] == 1 {
		s.show(ss.String())
	} else {
		s.show(domain.AccountBalances(bs).String())
	}
}

// Transactions: p = number of entries (-1: a single one), arbitrary value, its size.
func Transactions(p []int) {
	s := &source{sym: p[1], size: p[2]}
	acc := domain.AccountConnection{BankID: s.text("bank"), AccountID: s.text("account")}
	bal := func() (domain.Balance, string) {
		d, dt := s.date()
		a, at := s.amount()
		return domain.Balance{Amount: a, TransmissionDate: d}, "Balance at " + dt + ": " + at
	}
	before, bt := bal()
	after, at := bal()
	n := p[0]
	if n < 0 {
		n = 1
	}
	var ts domain.AccountTransactions
	var rows [][]string
	for k := 0; k < n; k++ {
		var t domain.AccountTransaction
		var dt, amt string
		t.Account = acc
		t.BookingDate, dt = s.date()
		t.Amount, amt = s.amount()
		t.BookingText, t.BankID, t.AccountID = s.text("text"), s.text("other"), s.text("number")
		t.Name, t.Purpose = s.text("name"), s.text("purpose")
		if k == 0 {
			t.AccountBalanceBefore = before
		}
		if k == n-1 {
			t.AccountBalanceAfter = after
		}
		ts = append(ts, t)
		rows = append(rows, []string{dt, t.BookingText, amt, t.BankID, t.AccountID, t.Name, t.Purpose})
	}
	if p[0] < 0 {
		r := rows[0]
		s.line("BookingDate", "Amount", "BankID", "AccountID", "Purpose")
		s.line(r[0], r[2], r[3], r[4], r[6])
		s.show(ts[0].String())
		return
	}
	if n > 0 {
		s.line("Transactions for account " + acc.BankID + "/" + acc.AccountID)
		s.line(bt)
	}
	s.line("BookingDate", "Booking Text", "Amount", "BankID", "AccountID", "Name", "Purpose")
	s.out = append(s.out, rows...)
	if n > 0 {
		s.line(at)
	}
	s.show(ts.String())
}

// Infos: p = number of entries (-1: a single one), arbitrary value, its size.
func Infos(p []int) {
	s := &source{sym: p[1], size: p[2]}
	n := p[0]
	if n < 0 {
		n = 1
	}
	s.line("BankID", "AccountID", "UserID", "Currency", "Name", "ProductID", "Limit")
	var is domain.AccountInfos
	for k := 0; k < n; k++ {
		var i domain.AccountInformation
		i.AccountConnection = domain.AccountConnection{BankID: s.text("bank"), AccountID: s.text("account")}
		i.UserID, i.Currency = s.text("user"), s.text("cur")
		i.Name1, i.Name2, i.ProductID = s.text("name"), s.text("second"), s.text("product")
		kind := s.text("k")
		a, t := s.opt(k%2 == 0)
		if a != nil {
			i.Limit = &domain.AccountLimit{Kind: kind, Amount: *a, Days: 3}
			t = kind + ": " + t
		}
		is = append(is, i)
		s.line(i.AccountConnection.BankID, i.AccountConnection.AccountID, i.UserID, i.Currency, i.Name1+", "+i.Name2, i.ProductID, t)
	}
	if p[0] < 0 {
		s.show(is[0].String())
	} else {
		s.show(is.String())
	}
}

// Acks: p = status, number of parameters, arbitrary text, its size.
func Acks(p []int) {
	s := &source{sym: p[2], size: p[3]}
	a := domain.NewSegmentAcknowledgement(0, s.text("pos"), s.text("text"), nil)
	if nd.Bool("message") {
		a = domain.NewMessageAcknowledgement(0, a.ReferenceDataElement, a.Text, nil)
	}
	a.Code = nd.Int("code", 0, 9999)
	a.ReferencingSegmentNumber = nd.Int("segment", 0, 2)
	a.ReferencingMessage = domain.MessageReference{DialogID: s.text("dialog"), MessageNumber: nd.Int("number", 0, 9)}
	if nd.Bool("nowhere") {
		a.ReferenceDataElement = ""
	}
	for k := 0; k < p[1]; k++ {
		a.Params = append(a.Params, s.text("p"))
	}
	num := func(n int) string { return strconv.Itoa(n) }
	want := a.Type + " for message " + num(a.ReferencingMessage.MessageNumber) + " (" + a.ReferencingMessage.DialogID + ")"
	if a.ReferencingSegmentNumber > 0 {
		want += ", segment " + num(a.ReferencingSegmentNumber)
	}
	want += ": "
	var st domain.StatusAcknowledgement
	if p[0] == 1 {
		st = domain.StatusAcknowledgement{Acknowledgement: a, TransmittedAt: time.Date(2020, 3, 4, 5, 6, 7, 0, time.UTC)}
		want += "Transmitted at: 2020-03-04 05:06:07 +0000 UTC, "
	}
	want += "Code: " + num(a.Code) + ", Position: "
	if a.ReferenceDataElement == "" {
		want += "none"
	} else {
		want += a.ReferenceDataElement
	}
	want += ", Text: '" + a.Text + "'"
	var got string
	if p[0] == 1 {
		got = st.String()
	} else {
		got = a.String()
	}
	nd.Assert(len(got) >= len(want) && lib.EqS(got[:len(want)], want), "an acknowledgement is printed with what it says")
	rest := got[len(want):]
	for k := range a.Params {
		i := strings.Index(rest, a.Params[k])
		nd.Assert(i >= 0, "every parameter is printed in order")
		rest = rest[i+len(a.Params[k]):]
	}
	if len(a.Params) == 0 {
		nd.Assert(rest == "", "nothing else is printed")
	}
	nd.Cover("printed")
}

func cross(dims ...[]int) [][]int {
	out := [][]int{{}}
	for _, d := range dims {
		var next [][]int
		for _, o := range out {
			for _, v := range d {
				next = append(next, append(append([]int{}, o...), v))
			}
		}
		out = next
	}
	return out
}

func upto(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}

var Harnesses = []nd.H{
	{Name: "Balances", F: Balances, Covers: []string{"printed"},
		Quick:    append(append(cross([]int{0, 1}, []int{2}, upto(14), []int{1, 2}), cross([]int{0, 1}, []int{-1, 1}, upto(7), []int{1, 20})...), cross([]int{0, 1}, []int{0}, []int{-1}, []int{0})...),
		Thorough: cross([]int{0, 1}, []int{2, 3}, upto(21), []int{0, 3, 8, 24}),
		Bound:    "up to 2 (thorough 3) entries with any one text of up to 2 (thorough 3) arbitrary characters or a long one with 2 at its end, date, or amount of up to 2 (thorough 8) digits and currency arbitrary or absent"},
	{Name: "Transactions", F: Transactions, Covers: []string{"printed"},
		Quick:    append(cross([]int{-1, 2}, upto(20), []int{1, 2}), cross([]int{-1, 0, 1}, upto(13), []int{8, 24})...),
		Thorough: cross([]int{-1, 2, 3}, upto(27), []int{0, 3, 9, 23}),
		Bound:    "up to 2 (thorough 3) entries with any one text, date, amount and currency arbitrary as for balances"},
	{Name: "Infos", F: Infos, Covers: []string{"printed"},
		Quick:    append(cross([]int{-1, 2}, upto(18), []int{1, 2}), cross([]int{-1, 0, 1}, upto(9), []int{20, 8})...),
		Thorough: cross([]int{-1, 2, 3}, upto(27), []int{0, 3, 19, 21}),
		Bound:    "up to 2 (thorough 3) entries with any one text and limit arbitrary as for balances"},
	{Name: "Acks", F: Acks, Covers: []string{"printed"},
		Quick:    append(cross([]int{0}, []int{0, 2}, upto(3), []int{1, 2}), cross([]int{1}, []int{0, 1, 2}, upto(4), []int{1, 2})...),
		Thorough: append(cross([]int{0}, []int{3}, upto(3), []int{3}), cross([]int{1}, []int{3}, upto(6), []int{3})...),
		Bound:    "every code of up to 4 digits, kind, segment, up to 2 (thorough 3) parameters, with any one text (of parameters only those of status messages) of up to 2 (thorough 3) arbitrary characters"},
}
