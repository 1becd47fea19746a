// Package p09: dates and times.
package p09

import (
	"encoding"
	"encoding/json"
	"fmt"
	"net/url"
	"strconv"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

func digits(name string, n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = nd.Byte(name)
		nd.Assume(nd.And(d[i] >= '0', d[i] <= '9'))
	}
	return d
}

func num(d []byte) int {
	v := 0
	for _, c := range d {
		v = v*10 + int(c-'0')
	}
	return v
}

func days(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// day is a calendar day and the digits it is written with.
type day struct {
	raw     []byte
	y, m, d int
}

func (d day) valid() bool {
	return d.m >= 1 && d.m <= 12 && d.d >= 1 && d.d <= days(d.y, d.m)
}

func (d day) is(t time.Time) bool {
	y, m, dd := t.Date()
	return nd.And(y == d.y, nd.And(int(m) == d.m, dd == d.d))
}

func (d day) at(c clock, loc *time.Location) time.Time {
	return time.Date(d.y, time.Month(d.m), d.d, c.h, c.m, c.s, 0, loc)
}

// dashed is the notation with dashes.
func (d day) dashed() []byte {
	return []byte(string(d.raw[:4]) + "-" + string(d.raw[4:6]) + "-" + string(d.raw[6:]))
}

func anyDay(name string) day {
	raw := digits(name, 8)
	return day{raw, num(raw[:4]), num(raw[4:6]), num(raw[6:])}
}

func validDay(name string) day {
	d := anyDay(name)
	nd.Assume(d.valid())
	return d
}

// clock is a time of day and the digits it is written with.
type clock struct {
	raw     []byte
	h, m, s int
}

func (c clock) valid() bool { return c.h <= 23 && c.m <= 59 && c.s <= 59 }

func (c clock) is(t time.Time) bool {
	h, m, s := t.Clock()
	return nd.And(h == c.h, nd.And(m == c.m, nd.And(s == c.s, t.Nanosecond() == 0)))
}

func anyClock(name string) clock {
	raw := digits(name, 6)
	return clock{raw, num(raw[:2]), num(raw[2:4]), num(raw[4:])}
}

func validClock(name string) clock {
	c := anyClock(name)
	nd.Assume(c.valid())
	return c
}

// fixedClock is n-th of some times of day.
func fixedClock(n int) clock {
	raw := []string{"000000", "000001", "115959", "120000", "233000", "235959"}[n]
	b := []byte(raw)
	return clock{b, num(b[:2]), num(b[2:4]), num(b[4:])}
}

func zone(n int) *time.Location {
	switch n {
	case 1:
		return time.FixedZone("CET", 3600)
	case 2:
		return time.FixedZone("EST", -5*3600)
	case 3:
		return time.FixedZone("LINT", 14*3600)
	case 4:
		return time.FixedZone("ACST", 9*3600+1800)
	}
	return time.UTC
}

type marshaler interface{ MarshalHBCI() ([]byte, error) }

func written(de marshaler, want []byte, what string) {
	got, err := de.MarshalHBCI()
	nd.Assert(err == nil, what+" can be written")
	nd.Assert(lib.Eq(got, want), what+" is written in its notation")
}

// Date: any 8 digits, p = zone
func Date(p []int) {
	d := anyDay("date")
	e := &element.DateDataElement{}
	err := e.UnmarshalHBCI(d.raw)
	if !d.valid() {
		nd.Assert(err != nil, "digits that are no calendar day are rejected")
		nd.Cover("no date")
		return
	}
	nd.Assert(err == nil, "every calendar day is read")
	nd.Assert(d.is(e.Val()), "the calendar day that was written is read")
	written(e, d.raw, "a date that was read")
	written(element.NewDate(d.at(clock{}, time.UTC)), d.raw, "a date")
	nd.Cover("date")
}

// Time: any 6 digits
func Time(p []int) {
	c := anyClock("time")
	e := &element.TimeDataElement{}
	err := e.UnmarshalHBCI(c.raw)
	if !c.valid() {
		nd.Assert(err != nil, "digits that are no time of day are rejected")
		nd.Cover("no time")
		return
	}
	nd.Assert(err == nil, "every time of day is read")
	nd.Assert(c.is(e.Val()), "the time of day that was written is read")
	written(e, c.raw, "a time that was read")
	nd.Cover("time")
}

// Raw: p = bytes; what has not exactly the digits of a date or time is rejected.
func Raw(p []int) {
	raw := nd.Bytes("raw", p[0])
	keep := string(raw)
	all := true
	for _, c := range raw {
		all = nd.And(all, nd.And(c >= '0', c <= '9'))
	}
	d := &element.DateDataElement{}
	if err := d.UnmarshalHBCI(raw); err == nil {
		nd.Assert(len(raw) == 8 && all, "a date has eight digits")
	} else {
		nd.Cover("no date")
	}
	if len(raw) <= 7 { // a fraction of a second is tolerated
		t := &element.TimeDataElement{}
		if err := t.UnmarshalHBCI(raw); err == nil {
			nd.Assert(len(raw) == 6 && all, "a time has six digits")
		}
	}
	nd.Assert(string(raw) == keep, "reading leaves the bytes as they are")
}

// Zoned: p = zone, time of day or -1; dates and times are written as the clock of their own zone shows them.
func Zoned(p []int) {
	d := validDay("date")
	c := validClock("time")
	if p[1] >= 0 {
		c = fixedClock(p[1])
	}
	nd.Assume(d.y >= 1)
	t := d.at(c, zone(p[0]))
	written(element.NewDate(t), d.raw, "a date")
	written(element.NewTime(t), c.raw, "a time")
	s := domain.NewShortDate(t)
	nd.Assert(d.is(s.Time), "a short date is the calendar day of the time it is made from")
	h, m, sec := s.Clock()
	nd.Assert(h == 0 && m == 0 && sec == 0, "a short date has no time of day")
	nd.Cover("zone")
}

func when(d, c []byte) []byte { return []byte(string(d) + ":" + string(c)) }

// Security: p = kind
func Security(p []int) {
	d, c := validDay("date"), validClock("time")
	id, kind := "1", element.SecurityTimestamp
	if p[0] == 1 {
		id, kind = "6", element.CertificateRevocationTime
	}
	want := append([]byte(id+":"), when(d.raw, c.raw)...)
	written(element.NewSecurityDate(kind, d.at(c, time.UTC)), want, "a security date")
	s := &element.SecurityDateDataElement{}
	nd.Assert(s.UnmarshalHBCI(want) == nil, "a security date is read")
	nd.Assert(s.DateIdentifier.Val() == id, "the kind of a security date is read back")
	nd.Assert(d.is(s.Date.Val()), "the day of a security date is read back")
	nd.Assert(c.is(s.Time.Val()), "the time of a security date is read back")
	nd.Cover("security date")
}

// Balance: p = debit, with time
func Balance(p []int) {
	d, c := validDay("date"), validClock("time")
	cents := digits("amount", 3)
	nd.Assume(cents[0] != '0')
	v, _ := strconv.ParseFloat(string(cents[:2])+"."+string(cents[2:]), 64)
	wire := []byte("C:" + string(cents[:2]) + ",")
	if cents[2] != '0' {
		wire = append(wire, cents[2])
	}
	if p[0] == 1 {
		v, wire[0] = -v, 'D'
	}
	wire = append(append(wire, ":EUR:"...), d.raw...)
	if p[1] == 1 {
		wire = append(append(wire, ':'), c.raw...)
	}
	amount := domain.Amount{Amount: v, Currency: "EUR"}
	written(element.NewBalance(amount, d.at(c, time.UTC), p[1] == 1), wire, "a balance")
	b := &element.BalanceDataElement{}
	nd.Assert(b.UnmarshalHBCI(wire) == nil, "a balance is read")
	got := b.Balance()
	nd.Assert(got.Amount.Amount == v && got.Amount.Currency == "EUR", "debit and credit keep their sign")
	nd.Assert(d.is(got.TransmissionDate) && d.is(b.Date()), "the day of a balance is read back")
	if p[1] == 1 {
		nd.Assert(got.TransmissionTime != nil && c.is(*got.TransmissionTime), "the time of a balance is read back")
	} else {
		nd.Assert(got.TransmissionTime == nil, "a balance without time has none")
	}
	nd.Cover("balance")
}

// Booked: p = version, with date, with time, with due date
func Booked(p []int) {
	d, c, due := validDay("booked"), validClock("time"), validDay("due")
	account := "1:2:280:3"
	if p[0] >= 7 {
		account = "DE1:BIC:1:2:280:3"
	}
	wire := "HISAL:3:" + strconv.Itoa(p[0]) + ":4+" + account + "+Giro+EUR+C:1,:EUR:20200101+++++"
	if p[1] == 1 {
		wire += string(d.raw)
	}
	wire += "+"
	if p[2] == 1 {
		wire += string(c.raw)
	}
	wire += "+"
	if p[3] == 1 {
		wire += string(due.raw)
	}
	s := &segment.AccountBalanceResponseSegment{}
	nd.Assert(s.UnmarshalHBCI([]byte(wire+"'")) == nil, "a balance response is read")
	check := func(booked, dueDate *time.Time) {
		if p[1] == 1 {
			nd.Assert(booked != nil && d.is(*booked), "the booking date is the day the bank sent")
			if p[2] == 1 {
				nd.Assert(c.is(*booked), "the booking date has the time the bank sent")
			} else {
				nd.Assert((clock{}).is(*booked), "a booking date without time is midnight")
			}
		} else {
			nd.Assert(booked == nil, "no booking date without a day")
		}
		if p[3] == 1 {
			nd.Assert(dueDate != nil && due.is(*dueDate), "the due date is the day the bank sent")
		} else {
			nd.Assert(dueDate == nil, "no due date if the bank sent none")
		}
	}
	b := s.AccountBalance()
	check(b.BookingDate, b.DueDate)
	if p[0] >= 7 {
		sb, err := s.SepaAccountBalance()
		nd.Assert(err == nil, "a SEPA balance is read")
		check(sb.BookingDate, sb.DueDate)
	}
	nd.Cover("balance response")
}

// Protocol: p = version, with message, with segment
func Protocol(p []int) {
	d, c := validDay("date"), validClock("time")
	wire := "HIPRO:3:" + strconv.Itoa(p[0]) + ":4+"
	if p[1] == 1 {
		wire += "abc:7"
	}
	wire += "+"
	if p[2] == 1 {
		wire += "5"
	}
	wire += "+" + string(d.raw) + "+" + string(c.raw) + "+0020::done'"
	s := &segment.StatusProtocolResponseSegment{}
	nd.Assert(s.UnmarshalHBCI([]byte(wire)) == nil, "a status protocol entry is read")
	got := s.Status()
	nd.Assert(d.is(got.TransmittedAt), "an entry was transmitted on the day the bank sent")
	nd.Assert(c.is(got.TransmittedAt), "an entry was transmitted at the time the bank sent")
	nd.Assert(got.Code == 20 && got.Text == "done", "the acknowledgement of an entry")
	if p[1] == 1 {
		nd.Assert(got.ReferencingMessage.DialogID == "abc" && got.ReferencingMessage.MessageNumber == 7, "the message an entry is about")
	}
	if p[2] == 1 {
		nd.Assert(got.IsSegmentAcknowledgement() && got.ReferencingSegmentNumber == 5, "the segment an entry is about")
	} else {
		nd.Assert(got.IsMessageAcknowledgement(), "an entry without segment is about the message")
	}
	nd.Cover("entry")
}

// Text: the notations of short dates
func Text(p []int) {
	d := anyDay("date")
	text := d.dashed()
	s, j := domain.ShortDate{}, domain.ShortDate{}
	err := s.UnmarshalText(text)
	jerr := j.UnmarshalJSON([]byte(`"` + string(text) + `"`))
	if !d.valid() {
		nd.Assert(err != nil && jerr != nil, "a text that is no calendar day is rejected")
		nd.Cover("no date")
		return
	}
	nd.Assert(err == nil && d.is(s.Time), "a short date is read from its text")
	nd.Assert(jerr == nil && d.is(j.Time), "a short date is read from JSON")
	out, err := s.MarshalText()
	nd.Assert(err == nil && lib.Eq(out, text) && lib.EqS(s.String(), string(text)), "a short date is written as its text")
	var value, pointer interface{} = s, &s
	_, jv := value.(json.Marshaler)
	_, jp := pointer.(json.Marshaler)
	_, tv := value.(encoding.TextMarshaler)
	_, tp := pointer.(encoding.TextMarshaler)
	nd.Assert(jv && jp && tv && tp, "a short date is written as itself wherever it is")
	out, err = value.(json.Marshaler).MarshalJSON()
	nd.Assert(err == nil, "a short date can be written as JSON")
	printed, ok := value.(fmt.Stringer)
	nd.Assert(ok && lib.EqS(printed.String(), string(text)), "a short date is printed as its text")
	if d.y == 1 && d.m == 1 && d.d == 1 {
		nd.Assert(string(out) == `""`, "the zero date is written as empty JSON text")
		nd.Assert(j.UnmarshalJSON(out) == nil && j.IsZero(), "the zero date is read from JSON")
		nd.Cover("zero")
	} else {
		nd.Assert(lib.Eq(out, []byte(`"`+string(text)+`"`)), "a short date is written as JSON")
	}
	nd.Cover("date")
}

// Frame: the notations of time frames
func Frame(p []int) {
	a, b := validDay("start"), validDay("end")
	nd.Assume(a.y >= 2 && b.y >= 2)
	f := domain.Timeframe{StartDate: domain.ShortDate{Time: a.at(clock{}, time.UTC)}, EndDate: domain.ShortDate{Time: b.at(clock{}, time.UTC)}}
	q := f.ToQuery()
	nd.Assert(lib.EqS(q.Get("from"), string(a.raw)) && lib.EqS(q.Get("to"), string(b.raw)), "a time frame is written as a query")
	g, err := domain.TimeframeFromQuery(q)
	nd.Assert(err == nil && a.is(g.StartDate.Time) && b.is(g.EndDate.Time), "a time frame is read from its query")
	var value interface{} = f
	_, ok := value.(json.Marshaler)
	nd.Assert(ok, "a time frame is written as itself wherever it is")
	text, err := value.(json.Marshaler).MarshalJSON()
	nd.Assert(err == nil && lib.EqS(string(text), `"`+string(a.dashed())+","+string(b.dashed())+`"`), "a time frame is written as JSON")
	var h domain.Timeframe
	nd.Assert(h.UnmarshalJSON(text) == nil && a.is(h.StartDate.Time) && b.is(h.EndDate.Time), "a time frame is read from JSON")
	nd.Assert(!h.IsZero(), "a time frame with dates is not empty")
	printed, ok := value.(fmt.Stringer)
	nd.Assert(ok && lib.EqS(printed.String(), "{"+string(a.dashed())+"-"+string(b.dashed())+"}"), "a time frame is written as its days")
	nd.Cover("frame")
}

// Frames: texts of time frames of which the first (p[0] 0) or last day may be none; p[0] 2: a piece
// too many, 3: one too few. The other day is fixed.
func Frames(p []int) {
	fixed := func(raw string) day {
		b := []byte(raw)
		return day{b, num(b[:4]), num(b[4:6]), num(b[6:])}
	}
	a, b := fixed("20200229"), fixed("20211231")
	switch p[0] {
	case 0:
		a = anyDay("day")
		nd.Assume(a.y >= 2)
	case 1:
		b = anyDay("day")
		nd.Assume(b.y >= 2)
	default:
		a.raw = append([]byte("202002"), digits("day", 2)...)
	}
	ok := p[0] < 2 && a.valid() && b.valid()
	text := string(a.dashed()) + "," + string(b.dashed())
	q := url.Values{"from": {string(a.raw)}, "to": {string(b.raw)}}
	switch p[0] {
	case 2:
		text += "," + string(b.dashed())
		q.Set("to", string(b.raw)+"1")
	case 3:
		text = string(a.dashed())
		q.Del("to")
	}
	var f domain.Timeframe
	err := f.UnmarshalJSON([]byte(`"` + text + `"`))
	g, qerr := domain.TimeframeFromQuery(q)
	if !ok {
		nd.Assert(qerr != nil && g.IsZero(), "a query that names no days is rejected")
		nd.Assert(err != nil || f.IsZero(), "a text that names no days is no time frame")
		nd.Cover("no frame")
		return
	}
	nd.Assert(qerr == nil && a.is(g.StartDate.Time) && b.is(g.EndDate.Time), "a time frame is read from its query")
	nd.Assert(err == nil && a.is(f.StartDate.Time) && b.is(f.EndDate.Time), "a time frame is read from JSON")
	nd.Cover("frame")
}

// Until: the time frame from a day in zone p[0] to today.
func Until(p []int) {
	a := validDay("start")
	start := domain.ShortDate{Time: a.at(clock{}, zone(p[0]))}
	before := time.Now().In(zone(p[0]))
	f := domain.TimeframeFromDate(start)
	after := time.Now().In(zone(p[0]))
	nd.Assert(a.is(f.StartDate.Time), "a time frame has its first day")
	y, m, d := f.EndDate.Date()
	on := func(t time.Time) bool {
		ty, tm, td := t.Date()
		return y == ty && m == tm && d == td
	}
	nd.Assert(on(before) || on(after), "a time frame that is still open ends today, where it started")
	h, mm, s := f.EndDate.Clock()
	nd.Assert(h == 0 && mm == 0 && s == 0, "a day has no time")
	nd.Cover("frame")
}

// Range: p = kind, with start, with end; the range of transactions that is asked for
func Range(p []int) {
	a, b := validDay("start"), validDay("end")
	nd.Assume(a.y >= 2 && b.y >= 2)
	var f domain.Timeframe
	from, to := a.raw, b.raw
	now := time.Now()
	if p[1] == 1 {
		f.StartDate = domain.NewShortDate(a.at(clock{}, time.UTC))
	} else {
		from = []byte(now.AddDate(0, -1, 0).Format("20060102"))
	}
	if p[2] == 1 {
		f.EndDate = domain.NewShortDate(b.at(clock{}, time.UTC))
	} else {
		to = []byte(now.Format("20060102"))
	}
	var s segment.Marshaler
	wire := "HKKAZ:1:" + strconv.Itoa(5+p[0]) + "+1::280:3+N+"
	switch p[0] {
	case 0:
		t := segment.NewAccountTransactionRequestSegmentV5(domain.AccountConnection{AccountID: "1", CountryCode: 280, BankID: "3"}, false)
		t.SetTransactionRange(f)
		s = t
	case 1:
		t := segment.NewAccountTransactionRequestSegmentV6(domain.AccountConnection{AccountID: "1", CountryCode: 280, BankID: "3"}, false)
		t.SetTransactionRange(f)
		s = t
	case 2:
		t := segment.NewAccountTransactionRequestSegmentV7(domain.InternationalAccountConnection{IBAN: "DE1", BIC: "B", AccountID: "1", BankID: domain.BankID{CountryCode: 280, ID: "3"}}, false)
		t.SetTransactionRange(f)
		s = t
		wire = "HKKAZ:1:7+DE1:B:1::280:3+N+"
	case 3:
		s = segment.NewStatusProtocolRequestV3(f.StartDate.Time, f.EndDate.Time, 1, "")
		wire = "HKPRO:1:3+"
	case 4:
		s = segment.NewStatusProtocolRequestV4(f.StartDate.Time, f.EndDate.Time, 1, "")
		wire = "HKPRO:1:4+"
	}
	wire += string(from) + "+" + string(to)
	if p[0] >= 3 {
		wire += "+1"
	}
	written(s, []byte(wire+"'"), "a request for a range of dates")
	nd.Cover("range")
}

var Harnesses = []nd.H{
	{Name: "Date", F: Date, Covers: []string{"date", "no date"}, Quick: [][]int{{}}, Bound: "all strings of 8 digits"},
	{Name: "Time", F: Time, Covers: []string{"time", "no time"}, Quick: [][]int{{}}, Bound: "all strings of 6 digits"},
	{Name: "Raw", F: Raw, Covers: []string{"no date"}, Quick: [][]int{{0}, {1}, {2}, {4}, {6}, {7}, {8}, {9}}, Thorough: [][]int{{3}, {5}, {10}}, Bound: "any 9 bytes (10 thorough)"},
	{Name: "Zoned", F: Zoned, Covers: []string{"zone"}, Quick: [][]int{{0, -1}, {1, -1}, {2, -1}, {3, 0}, {4, 5}}, Thorough: [][]int{{3, -1}, {4, -1}}, Bound: "years 1-9999, all times of day, offsets UTC, +1, -5, +14 and +9:30"},
	{Name: "Security", F: Security, Covers: []string{"security date"}, Quick: [][]int{{0}, {1}}, Bound: "all dates and times"},
	{Name: "Balance", F: Balance, Covers: []string{"balance"}, Quick: [][]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}}, Bound: "all dates, times and amounts of three digits"},
	{Name: "Booked", F: Booked, Covers: []string{"balance response"}, Quick: [][]int{{5, 1, 1, 1}, {6, 1, 1, 1}, {7, 1, 1, 1}, {8, 1, 1, 1}, {5, 1, 0, 0}, {6, 0, 1, 1}, {7, 0, 1, 0}, {8, 0, 1, 1}, {8, 1, 0, 1}, {5, 0, 0, 0}}, Thorough: [][]int{{5, 0, 1, 1}, {6, 1, 0, 0}, {7, 1, 0, 1}, {8, 0, 0, 0}}, Bound: "all dates and times, versions 5-8"},
	{Name: "Protocol", F: Protocol, Covers: []string{"entry"}, Quick: [][]int{{3, 1, 1}, {4, 1, 1}, {3, 0, 0}, {4, 0, 0}, {3, 1, 0}, {4, 1, 0}}, Bound: "all dates and times, versions 3 and 4"},
	{Name: "Text", F: Text, Covers: []string{"date", "no date", "zero"}, Quick: [][]int{{}}, Bound: "all strings of 4, 2 and 2 digits"},
	{Name: "Frame", F: Frame, Covers: []string{"frame"}, Quick: [][]int{{}}, Bound: "all pairs of dates of the years 2-9999"},
	{Name: "Frames", F: Frames, Covers: []string{"frame", "no frame"}, Quick: [][]int{{0}, {1}, {2}, {3}}, Bound: "any 8 digits, of the years 2-9999, as one of the days"},
	{Name: "Until", F: Until, Covers: []string{"frame"}, Quick: [][]int{{0}, {1}, {2}, {3}, {4}}, Bound: "all first days, in 5 zones, until the day of the run"},
	{Name: "Range", F: Range, Covers: []string{"range"}, Quick: [][]int{{0, 1, 1}, {1, 1, 1}, {2, 1, 1}, {3, 1, 1}, {4, 1, 1}, {0, 0, 1}, {1, 1, 0}, {2, 0, 0}, {2, 0, 1}}, Thorough: [][]int{{0, 1, 0}, {1, 0, 1}, {2, 1, 0}}, Bound: "all pairs of dates of the years 2-9999"},
}
