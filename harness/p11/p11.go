// Package p11: transactions and balances of S.W.I.F.T. MT940 statements.
package p11

import (
	"strconv"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/swift"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

func digits(name string, n int) string {
	d := make([]byte, n)
	for i := range d {
		d[i] = nd.Byte(name)
		nd.Assume(nd.And(d[i] >= '0', d[i] <= '9'))
	}
	return string(d)
}

func num(d string) int {
	v := 0
	for i := 0; i < len(d); i++ {
		v = v*10 + int(d[i]-'0')
	}
	return v
}

// amount is an arbitrary amount of n digits before and m after the comma.
func amount(n, m int) (string, float64) {
	i, f := digits("amount", n), digits("amount", m)
	v, _ := strconv.ParseFloat(i+"."+f+"0", 64)
	return i + "," + f, v
}

func decode(data string) ([]domain.AccountTransaction, error) {
	raw := []byte(data)
	tr, err := swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(raw)
	nd.Assert(lib.EqS(string(raw), data), "reading a statement leaves its bytes as they are")
	return tr, err
}

const (
	head  = "\r\n:20:STARTUMSE\r\n:25:12345678/4711\r\n:28C:00001/001"
	start = "\r\n:60F:C200101EUR100,"
	end   = "\r\n:62F:C200103EUR200,5"
	close = "\r\n-"
)

var others = []string{
	"\r\n:61:2001020102CR11,25NMSCNONREF\r\n:86:166?00GUTSCHRIFT?20eins?32Meier",
	"\r\n:61:2001020102DR12,5N024NONREF//ABC\r\n/OCMT/EUR12,5//CHGS\r\n:86:005?00LASTSCHRIFT?20zwei?32Huber",
}
var otherAmounts = []float64{11.25, -12.5}
var otherNames = []string{"Meier", "Huber"}

// with puts a transaction at place k between two others.
func with(k int, tr string) string {
	s := ""
	for i := 0; i <= len(others); i++ {
		if i == k {
			s += tr
		}
		if i < len(others) {
			s += others[i]
		}
	}
	return s
}

// among checks the two other transactions and returns the one at place k.
func among(k int, list []domain.AccountTransaction, err error) *domain.AccountTransaction {
	nd.Assert(err == nil, "every statement can be read")
	nd.Assert(err != nil || len(list) == 3, "every transaction is reported once")
	if err != nil || len(list) != 3 {
		return nil
	}
	var at *domain.AccountTransaction
	o := 0
	for i := range list {
		if i == k {
			at = &list[i]
			continue
		}
		t := list[i]
		nd.Assert(t.Amount == domain.Amount{Amount: otherAmounts[o], Currency: "EUR"} && t.Name == otherNames[o], "transactions are reported in their order with their own amount and text")
		o++
	}
	for _, t := range list {
		nd.Assert(t.Account == domain.AccountConnection{AccountID: "4711", CountryCode: 280, BankID: "12345678"}, "transactions belong to the account of the statement")
	}
	return at
}

func signed(mark string, v float64) float64 {
	if mark == "D" || mark == "RC" {
		return -v
	}
	return v
}

var marks = []string{"C", "D", "RC", "RD"}

// Amount: p = place, mark, currency kind?, digits before and after the comma, booking date?
func Amount(p []int) {
	k, mark, kind := p[0], marks[p[1]], ""
	if p[2] == 1 {
		b := nd.Byte("kind")
		nd.Assume(nd.And(b >= 'A', b <= 'Z'))
		kind = string([]byte{b})
	}
	txt, v := amount(p[3], p[4])
	booking := ""
	if p[5] == 1 {
		booking = "0102"
	}
	list, err := decode(head + start + with(k, "\r\n:61:200102"+booking+mark+kind+txt+"NMSCNONREF\r\n:86:166?00X") + end + close)
	t := among(k, list, err)
	if t == nil {
		return
	}
	nd.Assert(t.Amount.Amount == signed(mark, v), "a transaction has its amount, negative if it is a debit or a reversed credit")
	nd.Assert(t.Amount.Currency == "EUR", "a transaction has the currency of its account")
	nd.Assert(t.BookingText == "X", "a transaction has its own text")
	nd.Cover("amount")
}

type day struct{ y, m, d int }

func days(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

func (d day) valid() bool { return d.m >= 1 && d.m <= 12 && d.d >= 1 && d.d <= days(d.y, d.m) }

func (d day) is(t time.Time) bool {
	y, m, dd := t.Date()
	return nd.And(y == d.y, nd.And(int(m) == d.m, dd == d.d))
}

// anyDay is a day of the current century.
func anyDay(name string) (string, day) {
	raw := digits(name, 6)
	d := day{time.Now().Year()/100*100 + num(raw[:2]), num(raw[2:4]), num(raw[4:])}
	nd.Assume(d.valid())
	return raw, d
}

// Balance: p = which (0 = before, 1 = after), mark, digits before and after the comma, intermediate?
func Balance(p []int) {
	mark := marks[p[1]]
	txt, v := amount(p[2], p[3])
	raw, d := anyDay("date")
	cur := []byte{nd.Byte("currency"), nd.Byte("currency"), nd.Byte("currency")}
	for _, c := range cur {
		nd.Assume(nd.And(c >= 'A', c <= 'Z'))
	}
	kind := "F"
	if p[4] == 1 {
		kind = "M"
	}
	bal := kind + ":" + mark + raw + string(cur) + txt
	s, e := "\r\n:60"+bal, end
	if p[0] == 1 {
		s, e = start, "\r\n:62"+bal
	}
	list, err := decode(head + s + with(1, "\r\n:61:2001020102C7,NMSCNONREF") + e + "\r\n:64:D200103EUR1,\r\n:65:C200104EUR2," + close)
	nd.Assert(err == nil && len(list) == 3, "every statement can be read")
	for _, t := range list {
		b, other, rest := t.AccountBalanceBefore, t.AccountBalanceAfter, 200.5
		if p[0] == 1 {
			b, other, rest = other, b, 100
		}
		nd.Assert(b.Amount.Amount == signed(mark, v), "the balance is the one of the statement, negative if it is a debit")
		nd.Assert(lib.EqS(b.Amount.Currency, string(cur)), "the balance has its own currency")
		nd.Assert(d.is(b.TransmissionDate), "the balance has its own date")
		nd.Assert(other.Amount == domain.Amount{Amount: rest, Currency: "EUR"}, "the balances before and after are told apart")
	}
	nd.Cover("balance")
}

// Dates: any valuta date; p = place, booking date?
func Dates(p []int) {
	raw, valuta := anyDay("valuta")
	booking := ""
	var b day
	if p[1] == 1 {
		booking = digits("booking", 4)
		b = day{valuta.y, num(booking[:2]), num(booking[2:])}
		// the booking date is the next one to the valuta date
		switch diff := b.m - valuta.m; {
		case diff > 6:
			b.y--
		case diff < -6:
			b.y++
		default:
			nd.Assume(diff != 6 && diff != -6)
		}
		nd.Assume(b.valid())
	}
	list, err := decode(head + start + with(p[0], "\r\n:61:"+raw+booking+"C7,NMSCNONREF\r\n:86:166?00X") + end + close)
	t := among(p[0], list, err)
	if t == nil {
		return
	}
	nd.Assert(valuta.is(t.ValutaDate), "a transaction has its valuta date")
	if p[1] == 1 {
		nd.Assert(b.is(t.BookingDate), "the booking date is in the year next to the valuta date")
		nd.Cover("booked")
	} else {
		nd.Assert(t.BookingDate.IsZero(), "an absent booking date is empty")
		nd.Cover("not booked")
	}
	nd.Assert(t.Amount.Amount == 7, "a transaction has its amount")
}

// text is an arbitrary text of a field: its UTF-8 and ISO-8859-1 form.
func text(name string, n int) (string, []byte) {
	utf, iso := lib.Text(name, n)
	for _, c := range iso {
		nd.Assume(c != '?' && c != '\r' && c != '\n')
	}
	return utf, iso
}

var fieldIDs = []string{"00", "10", "20", "21", "29", "30", "31", "32", "33", "34", "60", "61"}

// Texts: p = the arbitrary field, its length, place of a line break in it or -1, order, place of the transaction
func Texts(p []int) {
	f, n, brk, order := p[0], p[1], p[2], p[3]
	vals := map[string]string{"00": "t00", "10": "p10", "20": "z20", "21": "z21", "29": "z29", "30": "BIC", "31": "DE47", "32": "Max", "33": "Muster", "34": "992", "60": "y60", "61": "y61"}
	iso := map[string]string{}
	for k, v := range vals {
		iso[k] = v
	}
	id := fieldIDs[f]
	if id == "34" {
		vals[id] = digits("code", n)
		iso[id] = vals[id]
	} else {
		u, i := text("text", n)
		vals[id], iso[id] = u, string(i)
	}
	if brk >= 0 {
		i := iso[id]
		if brk < len(i) { // a line of a field starts with neither ":" nor "-"
			nd.Assume(i[brk] != ':' && i[brk] != '-')
		}
		iso[id] = i[:brk] + "\r\n" + i[brk:]
	}
	field := "177"
	for k := range fieldIDs {
		x := fieldIDs[(k*[]int{1, 11, 5}[order%3]+order/3)%len(fieldIDs)]
		field += "?" + x + iso[x]
	}
	list, err := decode(head + start + with(p[4], "\r\n:61:2001020102C7,NMSCNONREF\r\n:86:"+field) + end + "\r\n:86:166?00NOT THIS" + close)
	t := among(p[4], list, err)
	if t == nil {
		return
	}
	nd.Assert(t.TransactionID == 177, "a transaction has its business transaction code")
	nd.Assert(lib.EqS(t.BookingText, vals["00"]), "a transaction has its booking text")
	nd.Assert(lib.EqS(t.BankID, vals["30"]) && lib.EqS(t.AccountID, vals["31"]), "a transaction has the bank and account of the other party")
	if order == 0 {
		nd.Assert(lib.EqS(t.Name, vals["32"]+" "+vals["33"]), "a transaction has the name of the other party")
		nd.Assert(lib.EqS(t.Purpose, vals["20"]+" "+vals["21"]+" "+vals["29"]), "a transaction has its purpose, line by line")
		nd.Assert(lib.EqS(t.Purpose2, vals["60"]+" "+vals["61"]), "a transaction has the rest of its purpose")
	}
	nd.Cover("texts")
}

// Fields: p = set of present fields; absent fields are empty.
func Fields(p []int) {
	field := "020"
	has := func(k int) bool { return p[0]>>k&1 == 1 }
	u, i := text("text", 1)
	want := map[string]string{}
	var purpose, purpose2 []string
	for k, id := range fieldIDs {
		if !has(k) {
			continue
		}
		v, w := id+"x", id+"x"
		if id == "34" {
			v, w = "123", "123"
		} else if k == p[1] {
			v, w = string(i), u
		}
		field += "?" + id + v
		want[id] = w
		if id[0] == '2' {
			purpose = append(purpose, w)
		}
		if id[0] == '6' {
			purpose2 = append(purpose2, w)
		}
	}
	list, err := decode(head + start + with(1, "\r\n:61:2001020102C7,NMSCNONREF\r\n:86:"+field) + end + close)
	t := among(1, list, err)
	if t == nil {
		return
	}
	nd.Assert(lib.EqS(t.BookingText, want["00"]), "a transaction has its booking text")
	nd.Assert(lib.EqS(t.BankID, want["30"]) && lib.EqS(t.AccountID, want["31"]), "a transaction has the bank and account of the other party")
	nd.Assert(lib.EqS(t.Purpose, strings.Join(purpose, " ")) && lib.EqS(t.Purpose2, strings.Join(purpose2, " ")), "a transaction has its purpose, line by line")
	if has(7) && !has(8) {
		nd.Assert(lib.EqS(t.Name, want["32"]), "a transaction has the name of the other party")
	}
	nd.Cover("fields")
}

var lineIDs = []string{"20", "21", "22", "23", "24", "25", "26", "27", "28", "29", "60", "61", "62", "63"}

// Lines: p = set of the lines of the purpose that are there, length (code) of the first of them,
// number of characters of a line of the dataset or 0 for one line, which of the lines is written first
func Lines(p []int) {
	var purpose, purpose2 []string
	field, first := "166?00B?109?32M", true
	for i := range lineIDs {
		k := (i + p[3]) % len(lineIDs)
		if p[0]>>k&1 == 0 {
			continue
		}
		v := "v" + lineIDs[k]
		w := v
		if first {
			first = false
			var iso []byte
			w, iso = text("text", p[1])
			v = string(iso)
		}
		field += "?" + lineIDs[k] + v
		if k < 10 {
			purpose = append(purpose, w)
		} else {
			purpose2 = append(purpose2, w)
		}
	}
	wrapped := field
	if p[2] > 0 {
		wrapped = ""
		for i := 0; i < len(field); i += p[2] {
			line := field[i:]
			if len(line) > p[2] {
				line = line[:p[2]]
			}
			if i > 0 { // a line starts with neither ":" nor "-"
				nd.Assume(line[0] != ':' && line[0] != '-')
				wrapped += "\r\n"
			}
			wrapped += line
		}
	}
	list, err := decode(head + start + with(1, "\r\n:61:2001020102C7,NMSCNONREF\r\n:86:"+wrapped) + end + close)
	t := among(1, list, err)
	if t == nil {
		return
	}
	nd.Assert(lib.EqS(t.Purpose, strings.Join(purpose, " ")) && lib.EqS(t.Purpose2, strings.Join(purpose2, " ")), "a transaction has its purpose, line by line")
	nd.Assert(t.BookingText == "B" && t.Name == "M" && t.TransactionID == 166, "a transaction has its own text")
	nd.Cover("lines")
}

func lines() (out [][]int) {
	for s := 0; s < 1<<14; s += 127 {
		out = append(out, []int{s, 1, []int{0, 4, 7, 3, 5, 13, 27}[s%7], s % 14})
	}
	for _, w := range []int{0, 7, 27, 65} {
		for _, code := range []int{0, 2, 130001, 130101, 130401, 81001, 131101} {
			out = append(out, []int{1<<14 - 1, code, w, 0}, []int{1<<14 - 1, code, w, 10})
		}
	}
	return
}

// References: p = lengths of reference, bank reference and further information (-1 = absent), place.
func References(p []int) {
	free := func(name string, n int) string {
		b := nd.Bytes(name, n)
		for _, c := range b {
			nd.Assume(c != '\r' && c != '\n' && c != '/')
		}
		return string(b)
	}
	ref := free("reference", p[0])
	line, bank, info := ref, "", ""
	if p[1] >= 0 {
		bank = free("bank reference", p[1])
		line += "//" + bank
	}
	if p[2] >= 0 {
		info = free("information", p[2])
		line += "\r\n/" + info
	}
	data := head + start + with(p[3], "\r\n:61:2001020102D7,5NMSC"+line+"\r\n:86:166?00X") + end + close
	list, err := decode(data)
	t := among(p[3], list, err)
	if t == nil {
		return
	}
	nd.Assert(t.Amount.Amount == -7.5 && t.BookingText == "X", "references leave amount and text alone")
	m := &swift.MT940{}
	err = m.Unmarshal([]byte(data))
	nd.Assert(err == nil && len(m.Transactions) == 3, "every statement can be read")
	if err != nil {
		return
	}
	tag := m.Transactions[p[3]].Transaction
	nd.Assert(tag.BookingKey == "MSC", "a transaction has its booking key")
	nd.Assert(lib.EqS(tag.Reference, ref), "a transaction has its reference")
	nd.Assert(lib.EqS(tag.BankReference, bank), "a transaction has the reference of the bank")
	nd.Assert(lib.EqS(tag.AdditionalInformation, info), "a transaction has its further information")
	nd.Cover("references")
}

// Account: any bank and account of p[0] and p[1] characters; p[2] = sequence number, p[3] = only digits?
func Account(p []int) {
	word := func(name string, n int) string {
		if p[3] == 1 {
			return digits(name, n)
		}
		b := nd.Bytes(name, n)
		for _, c := range b {
			nd.Assume(nd.And(nd.And(c > ' ', c < 127), c != '/'))
		}
		return string(b)
	}
	bank, account := word("bank", p[0]), word("account", p[1])
	list, err := decode("\r\n:20:STARTUMSE\r\n:25:" + bank + "/" + account + "\r\n:28C:" + []string{"0", "1/1", "00012/00034"}[p[2]] + start + with(3, "") + end + close)
	nd.Assert(err == nil && len(list) == 2, "every statement can be read")
	for _, t := range list {
		nd.Assert(lib.EqS(t.Account.BankID, bank) && lib.EqS(t.Account.AccountID, account), "transactions belong to the account of the statement")
	}
	nd.Cover("account")
}

// Several: p = transactions of each statement; each has its own account, currency and balances.
func Several(p []int) {
	data, n := "", 0
	for k, c := range p {
		id := string(rune('1' + k))
		data += "\r\n:20:R" + id + "\r\n:25:1234567" + id + "/471" + id + "\r\n:28C:" + id + "\r\n:60F:C200101EU" + id + id + ","
		for i := 0; i < c; i++ {
			data += "\r\n:61:2001020102C" + lib.Dec(n+1, 1) + ",NMSCNONREF\r\n:86:020?00T" + lib.Dec(n+1, 1)
			n++
		}
		data += "\r\n:62F:D200102EU" + id + "1" + id + ",\r\n-"
	}
	list, err := decode(data)
	nd.Assert(err == nil && len(list) == n, "every transaction of every statement is reported once")
	if err != nil || len(list) != n {
		return
	}
	i := 0
	for k, c := range p {
		id := string(rune('1' + k))
		v := float64(k + 1)
		for j := 0; j < c; j++ {
			t := list[i]
			i++
			nd.Assert(t.Amount == domain.Amount{Amount: float64(i), Currency: "EU" + id} && t.BookingText == "T"+lib.Dec(i, 1), "transactions are reported in their order with their own amount and text")
			nd.Assert(t.Account.AccountID == "471"+id && t.Account.BankID == "1234567"+id, "transactions belong to the account of their statement")
			nd.Assert(t.AccountBalanceBefore.Amount.Amount == v && t.AccountBalanceAfter.Amount.Amount == -v-10, "transactions have the balances of their statement")
		}
	}
	nd.Cover("several")
}

// Missing: p = set of the tags that are there; whatever is missing, reading does not fail hard.
func Missing(p []int) {
	tags := []string{"\r\n:20:STARTUMSE", "\r\n:25:12345678/4711", "\r\n:28C:1", "\r\n:60F:C200101EUR100,", "\r\n:61:2001020102C7,NMSCNONREF", "\r\n:86:020?00X", "\r\n:62F:C200103EUR200,5", "\r\n:86:020?00Y"}
	data, twice := "", nd.Bool("twice")
	for k, t := range tags {
		if p[0]>>k&1 == 1 {
			data += t
		}
	}
	data += close
	if twice {
		data += data
	}
	list, err := decode(data)
	all := 1<<3 | 1<<4 | 1<<6 | 1<<1
	if err == nil && p[0]&all == all {
		nd.Assert(len(list) > 0 && list[0].Amount == domain.Amount{Amount: 7, Currency: "EUR"}, "a transaction has its amount")
		nd.Cover("complete")
	}
}

// Raw: p = tag, length, ASCII only?; arbitrary content of a tag never makes reading fail hard.
func Raw(p []int) {
	tags := []string{":20:", ":21:", ":25:", ":28C:", ":60F:", ":61:", ":86:", ":62F:", ":64:", ":61:2001020102", ":61:200102C7,", ":60F:C200101EUR", ":86:020?", ":61:200102C7,NMSC", ":25:1/", ":28C:1/"}
	raw := nd.Bytes("raw", p[1])
	decimal := true
	for _, c := range raw {
		nd.Assume(p[2] == 0 || c < 128)
		decimal = nd.And(decimal, nd.Or(nd.And(c >= '0', c <= '9'), nd.Or(c == ',', c == '.')))
	}
	before, after := head+start+others[0], end+close
	switch p[0] {
	case 6, 12:
		before = head + start + "\r\n:61:2001020102C7,NMSCNONREF"
	}
	list, err := decode(before + "\r\n" + tags[p[0]] + string(raw) + after)
	if err == nil {
		nd.Cover("read")
		nd.Assert(len(list) > 0, "every transaction is reported once")
		nd.Assert(p[0] != 11 || decimal, "a malformed amount is rejected")
	} else {
		nd.Cover("rejected")
	}
}

func cross(dims ...[]int) (out [][]int) {
	out = [][]int{nil}
	for _, d := range dims {
		var next [][]int
		for _, o := range out {
			for _, v := range d {
				next = append(next, append(append([]int(nil), o...), v))
			}
		}
		out = next
	}
	return
}

func upto(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return
}

func fieldSets(step int) (out [][]int) {
	for s := 0; s < 1<<12; s += step {
		k := s / step % 12
		out = append(out, []int{s, k})
	}
	return
}

var Harnesses = []nd.H{
	{Name: "Amount", F: Amount, Covers: []string{"amount"},
		Quick: cross([]int{1}, upto(4), upto(2), []int{1, 3}, []int{0, 2}, upto(2)), Thorough: cross(upto(3), upto(4), upto(2), []int{1, 2, 5, 9}, []int{0, 1, 2}, upto(2)),
		Bound: "a transaction at any of 3 places, every mark and currency kind, every amount of up to 9 digits before and 2 after the comma"},
	{Name: "Balance", F: Balance, Covers: []string{"balance"},
		Quick: cross(upto(2), upto(2), []int{1, 4}, []int{0, 2}, upto(2)), Thorough: cross(upto(2), upto(2), []int{1, 2, 6, 9}, []int{0, 1, 2}, upto(2)),
		Bound: "every balance of up to 9 digits before and 2 after the comma, every day of the current century, every currency"},
	{Name: "Dates", F: Dates, Covers: []string{"booked", "not booked"},
		Quick: cross([]int{0}, upto(2)), Thorough: cross(upto(3), upto(2)),
		Bound: "every valuta date of the current century with every booking date up to 5 months before or after"},
	{Name: "Texts", F: Texts, Covers: []string{"texts"},
		Quick: append(cross(upto(12), []int{1, 2}, []int{-1, 1}, []int{0}, []int{1}), cross(upto(12), []int{1}, []int{0}, []int{1, 2, 4}, []int{2})...), Thorough: cross(upto(12), []int{1, 2}, []int{-1, 0, 1}, upto(6), upto(3)),
		Bound: "each field of a description with up to 2 arbitrary ISO-8859-1 characters and a line break at any place, several orders of the fields"},
	{Name: "Fields", F: Fields, Covers: []string{"fields"},
		Quick: fieldSets(13), Thorough: fieldSets(1),
		Bound: "every set of present fields with one arbitrary character"},
	{Name: "Lines", F: Lines, Covers: []string{"lines"},
		Quick: lines(),
		Bound: "129 sets of the 14 lines of a purpose, in any rotation of their order, the first of them arbitrary with up to 27 characters, the description wrapped at 3 to 65 characters"},
	{Name: "References", F: References, Covers: []string{"references"},
		Quick: cross([]int{0, 2}, []int{-1, 0, 2}, []int{-1, 0, 2}, []int{1}), Thorough: cross([]int{0, 1, 3}, []int{-1, 0, 2}, []int{-1, 0, 2}, upto(3)),
		Bound: "references of up to 3 arbitrary characters"},
	{Name: "Account", F: Account, Covers: []string{"account"},
		Quick: append(cross([]int{1, 2}, []int{1}, upto(3), []int{0}), cross([]int{8}, []int{1, 10}, upto(3), []int{1})...), Thorough: append(cross(upto(3)[1:], upto(3)[1:], upto(3), []int{0}), cross([]int{8, 11}, []int{1, 3, 10}, upto(3), []int{1})...),
		Bound: "every bank of up to 11 and account of up to 10 digits, up to 2 printable characters"},
	{Name: "Several", F: Several, Covers: []string{"several"},
		Quick: append(cross(upto(3), upto(3)), append(cross(upto(2), upto(2), upto(3)), []int{13}, []int{5, 0, 7}, []int{1, 2, 1, 0, 1, 3, 1, 1, 1})...), Thorough: cross(upto(3), upto(3), upto(3)),
		Bound: "up to 3 statements of up to 2 transactions; 9 statements; 13 transactions"},
	{Name: "Missing", F: Missing, Covers: []string{"complete"},
		Quick: cross(upto(256)), Thorough: cross(upto(256)),
		Bound: "every subset of the tags of a statement, once or twice"},
	{Name: "Raw", F: Raw, Covers: []string{"read", "rejected"},
		Quick: append(cross(upto(16), []int{1}, []int{0}), cross(upto(16), []int{2, 3}, []int{1})...), Thorough: append(append(cross(upto(16), upto(2), []int{0}), cross(upto(16), []int{2, 3}, []int{1})...), cross([]int{0, 4, 5, 7, 9, 13}, []int{4}, []int{1})...),
		Bound: "each tag with 1 arbitrary byte, up to 4 below 128"},
}
