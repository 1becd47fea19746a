// Package p08: numbers, decimals, flags and binary data in HBCI notation.
package p08

import (
	"strconv"

	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

// digits makes n digits, the first of them not zero if lead.
func digits(name string, n int, lead bool) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = nd.Byte(name)
		nd.Assume(nd.And(d[i] >= '0', d[i] <= '9'))
		if i == 0 && lead && n > 1 {
			nd.Assume(d[i] != '0')
		}
	}
	return d
}

func value(d []byte) int {
	v := 0
	for _, c := range d {
		v = v*10 + int(c-'0')
	}
	return v
}

func same(de element.DataElement, want []byte, what string) {
	got, err := de.MarshalHBCI()
	nd.Assert(err == nil, what+" can be written")
	nd.Assert(lib.Eq(got, want), what+" is written in its notation")
}

// Number: p = digits
func Number(p []int) {
	d := digits("digit", p[0], true)
	v := value(d)
	same(element.NewNumber(v, p[0]), d, "a number")
	n := &element.NumberDataElement{}
	nd.Assert(n.UnmarshalHBCI(d) == nil && n.Val() == v, "a number is read back")
	same(n, d, "a number that was read")
	nd.Assert(n.IsValid(), "a number that was read is valid")
	nd.Cover("number")
}

// Width: p = width, digits; numbers of fixed width have leading zeros.
func Width(p []int) {
	d := digits("digit", p[1], true)
	v := value(d)
	w := append([]byte("0000000000")[:p[0]-p[1]], d...)
	same(element.NewDigit(v, p[0]), w, "a number of fixed width")
	n := &element.DigitDataElement{}
	nd.Assert(n.UnmarshalHBCI(w) == nil && n.Val() == v, "a number of fixed width is read back")
	same(n, w, "a number of fixed width that was read")
	if p[0] == 3 {
		same(element.NewCountryCode(v), w, "a country code")
		c := &element.CountryCodeDataElement{}
		nd.Assert(c.UnmarshalHBCI(w) == nil && c.Val() == v, "a country code is read back")
		same(c, w, "a country code that was read")
	}
	nd.Cover("digit")
}

// NumberRaw: p = bytes
func NumberRaw(p []int) {
	raw := nd.Bytes("raw", p[0])
	ok := len(raw) > 0
	v := 0
	for _, c := range raw {
		if c < '0' || c > '9' {
			ok = false
			break
		}
		v = v*10 + int(c-'0')
	}
	keep := string(raw)
	n := &element.NumberDataElement{}
	err := n.UnmarshalHBCI(raw)
	d := &element.DigitDataElement{}
	derr := d.UnmarshalHBCI(raw)
	if ok {
		nd.Assert(err == nil && n.Val() == v, "digits are read as the number they denote")
		nd.Assert(derr == nil && d.Val() == v, "digits of fixed width are read as the number they denote")
		same(d, raw, "a number of fixed width that was read")
		nd.Cover("digits")
	} else if len(raw) == 0 || raw[0] != '-' && raw[0] != '+' {
		nd.Assert(err != nil && derr != nil, "what is no number is an error")
		nd.Cover("no number")
	}
	nd.Assert(string(raw) == keep, "reading leaves the bytes as they are")
}

// Decimal: p = digits before and behind the decimal separator
func Decimal(p []int) {
	i, f := digits("integer", p[0], true), digits("fraction", p[1], false)
	v, _ := strconv.ParseFloat(string(i)+"."+string(f)+"0", 64)
	n := len(f)
	for n > 0 && f[n-1] == '0' {
		n--
	}
	want := append(append(append([]byte{}, i...), ','), f[:n]...)
	raw := append(append(append([]byte{}, i...), ','), f...)
	same(element.NewFloat(v, 15), want, "a decimal")
	same(element.NewValue(v), want, "a value")
	same(element.NewAmount(v, "EUR"), append(append([]byte{}, want...), ":EUR"...), "an amount")
	for _, in := range [][]byte{want, raw} {
		e := &element.FloatDataElement{}
		nd.Assert(e.UnmarshalHBCI(in) == nil && e.Val() == v, "a decimal is read back")
		same(e, want, "a decimal that was read")
		w := &element.ValueDataElement{}
		nd.Assert(w.UnmarshalHBCI(in) == nil && w.Val() == v, "a value is read back")
	}
	a := &element.AmountDataElement{}
	nd.Assert(a.UnmarshalHBCI(append(raw, ":EUR"...)) == nil, "an amount is read")
	nd.Assert(a.Val().Amount == v && a.Val().Currency == "EUR", "an amount is read back")
	nd.Cover("decimal")
}

// DecimalRaw: p = bytes
func DecimalRaw(p []int) {
	raw := nd.Bytes("raw", p[0])
	count, commas, other := 0, 0, false
	for i, c := range raw {
		switch {
		case c >= '0' && c <= '9':
			count++
		case c == ',':
			commas++
		case i == 0 && c == '-':
		default:
			other = true
		}
		if other {
			break
		}
	}
	keep := string(raw)
	e := &element.FloatDataElement{}
	err := e.UnmarshalHBCI(raw)
	if other || count == 0 || commas > 1 {
		nd.Assert(err != nil, "what is no decimal is an error")
		nd.Cover("no decimal")
	} else {
		nd.Assert(err == nil, "a decimal is read")
		nd.Cover("decimal")
	}
	nd.Assert(string(raw) == keep, "reading leaves the bytes as they are")
}

// Flag: p = bytes
func Flag(p []int) {
	raw := nd.Bytes("raw", p[0])
	b := &element.BooleanDataElement{}
	err := b.UnmarshalHBCI(raw)
	switch string(raw) {
	case "J":
		nd.Assert(err == nil && b.Val(), "J is true")
		nd.Cover("true")
	case "N":
		nd.Assert(err == nil && !b.Val(), "N is false")
		nd.Cover("false")
	default:
		nd.Assert(err != nil, "what is no flag is an error")
	}
	same(element.NewBoolean(true), []byte("J"), "true")
	same(element.NewBoolean(false), []byte("N"), "false")
}

// Binary: p = size
func Binary(p []int) {
	data := nd.Bytes("data", p[0])
	want := append([]byte("@"+strconv.Itoa(len(data))+"@"), data...)
	same(element.NewBinary(data, p[0]), want, "binary data")
	same(element.NewDtausCharset(data, p[0]), want, "DTAUS data")
	keep := string(want)
	b := &element.BinaryDataElement{}
	nd.Assert(b.UnmarshalHBCI(want) == nil && lib.Eq(b.Val(), data), "binary data is read back")
	same(b, want, "binary data that was read")
	d := &element.DtausCharsetDataElement{}
	nd.Assert(d.UnmarshalHBCI(want) == nil && lib.Eq(d.Val(), data), "DTAUS data is read back")
	nd.Assert(string(want) == keep, "reading leaves the bytes as they are")
	nd.Cover("binary")
}

// BinaryRaw: p = bytes, leading '@' given
func BinaryRaw(p []int) {
	raw := nd.Bytes("raw", p[0])
	if p[1] == 1 {
		nd.Assume(len(raw) > 0 && raw[0] == '@')
	}
	// @<length>@<data>
	i, size := 1, 0
	for i < len(raw) && raw[i] >= '0' && raw[i] <= '9' {
		size = size*10 + int(raw[i]-'0')
		i++
	}
	ok := i > 1 && raw[0] == '@' && i < len(raw) && raw[i] == '@' && size == len(raw)-i-1
	b := &element.BinaryDataElement{}
	err := b.UnmarshalHBCI(raw)
	if ok {
		nd.Assert(err == nil && lib.Eq(b.Val(), raw[i+1:]), "binary data is read")
		nd.Cover("binary")
	} else {
		nd.Assert(err != nil, "binary data without its exact length is an error")
		nd.Cover("no binary")
	}
}

var Harnesses = []nd.H{
	{Name: "Number", F: Number, Covers: []string{"number"}, Quick: [][]int{{1}, {2}, {4}, {7}, {10}, {15}}, Thorough: [][]int{{12}, {17}}, Bound: "numbers of up to 15 digits (17 thorough)"},
	{Name: "Width", F: Width, Covers: []string{"digit"}, Quick: [][]int{{3, 1}, {3, 2}, {3, 3}, {8, 4}, {2, 2}}, Thorough: [][]int{{10, 7}}, Bound: "numbers of a fixed width of up to 10"},
	{Name: "NumberRaw", F: NumberRaw, Covers: []string{"no number"}, Quick: [][]int{{0}, {1}, {2}, {3}, {4}}, Thorough: [][]int{{5}, {7}}, Bound: "any 4 bytes (7 thorough)"},
	{Name: "Decimal", F: Decimal, Covers: []string{"decimal"}, Quick: [][]int{{1, 0}, {1, 1}, {1, 2}, {3, 2}, {5, 2}, {11, 2}, {8, 4}}, Thorough: [][]int{{12, 2}, {4, 6}, {9, 3}}, Bound: "decimals of up to 13 digits (14 thorough)"},
	{Name: "DecimalRaw", F: DecimalRaw, Covers: []string{"no decimal"}, Quick: [][]int{{0}, {1}, {2}, {3}, {4}, {5}}, Thorough: [][]int{{6}, {8}}, Bound: "any 5 bytes (8 thorough)"},
	{Name: "Flag", F: Flag, Quick: [][]int{{0}, {1}, {2}}, Thorough: [][]int{{3}}, Bound: "any 3 bytes"},
	{Name: "Binary", F: Binary, Covers: []string{"binary"}, Quick: [][]int{{0}, {1}, {3}, {10}, {100}}, Thorough: [][]int{{1000}, {16}}, Bound: "binary data of up to 100 bytes (1000 thorough)"},
	{Name: "BinaryRaw", F: BinaryRaw, Covers: []string{"no binary"}, Quick: [][]int{{0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 1}, {5, 1}, {6, 1}, {8, 1}}, Thorough: [][]int{{7, 1}, {10, 1}}, Bound: "any 3 bytes; '@' and any 7 bytes (9 thorough)"},
}
