// Package p04: texts on the wire.
package p04

import (
	"github.com/mitch000001/go-hbci/charset"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

const kinds = 5

func make_(kind int, v string) element.DataElement {
	switch kind {
	case 0:
		return element.NewAlphaNumeric(v, 99)
	case 1:
		return element.NewText(v, 99)
	case 2:
		return element.NewIdentification(v)
	case 3:
		return element.NewCode(v, 99, []string{v})
	}
	return element.NewCurrency(v)
}

func blank(kind int) element.DataElement {
	switch kind {
	case 0:
		return &element.AlphaNumericDataElement{}
	case 1:
		return &element.TextDataElement{}
	case 2:
		return &element.IdentificationDataElement{}
	case 3:
		return &element.CodeDataElement{}
	}
	return &element.CurrencyDataElement{}
}

func val(kind int, d element.DataElement) string {
	switch kind {
	case 0:
		return d.(*element.AlphaNumericDataElement).Val()
	case 1:
		return d.(*element.TextDataElement).Val()
	case 2:
		return d.(*element.IdentificationDataElement).Val()
	case 3:
		return d.(*element.CodeDataElement).Val()
	}
	return d.(*element.CurrencyDataElement).Val()
}

// Encode: a text is written as one escaped ISO-8859-1 element and read back as it was.
func Encode(p []int) {
	kind := p[0]
	v, iso := lib.Text("text", p[1])
	d := make_(kind, v)
	wire, err := d.MarshalHBCI()
	nd.Assert(err == nil, "every text can be written")
	nd.Assert(lib.Eq(wire, lib.Escaped(iso)), "the wire form is the escaped text")
	nd.Assert(val(kind, d) == v, "writing does not change the value")
	if len(iso) > 0 && !lib.MalformedFloat(append(append([]byte{}, iso...), '+'), 0) {
		nd.Assert(lib.WellFormed(wire), "the wire form is a single element")
		nd.Cover("element")
	}
	back := blank(kind)
	nd.Assert(back.UnmarshalHBCI(wire) == nil, "the wire form can be read")
	nd.Assert(val(kind, back) == v, "the text read is the text written")
}

// Decode: every element on the wire is read as its unescaped text and written the same way.
func Decode(p []int) {
	kind := p[0]
	wire := lib.Bytes("wire", p[1])
	nd.Assume(lib.WellFormed(wire) && (len(wire) == 0 || wire[0] != '@'))
	keep := append([]byte{}, wire...)
	d := blank(kind)
	nd.Assert(d.UnmarshalHBCI(wire) == nil, "every element can be read as text")
	nd.Assert(val(kind, d) == lib.UTF8(lib.Unescaped(wire)), "the text is the unescaped element")
	nd.Assert(lib.Eq(wire, keep), "reading leaves the wire form as it was")
	again, err := d.MarshalHBCI()
	// an '@' in the middle may go without escape
	nd.Assert(err == nil && lib.Eq(again, lib.Escaped(lib.Unescaped(keep))), "writing it again gives the same element")
	nd.Cover("decoded")
}

// Charset: ISO-8859-1 and UTF-8 are converted losslessly.
func Charset(p []int) {
	v, iso := lib.Text("text", p[0])
	nd.Assert(lib.Eq(charset.ToISO8859_1(v), iso), "to ISO-8859-1")
	nd.Assert(charset.ToUTF8(iso) == v, "to UTF-8")
	nd.Cover("converted")
}

func cross(lens ...int) (out [][]int) {
	for k := 0; k < kinds; k++ {
		for _, n := range lens {
			out = append(out, []int{k, n})
		}
	}
	return
}

// The same with long and many pieces.
func LongEncode(p []int) { Encode(p) }
func LongDecode(p []int) { Decode(p) }

// long: n arbitrary bytes between two runs of every filler.
func long(n int, runs ...int) (out []int) {
	for _, r := range runs {
		for k := 0; k < 12; k++ {
			out = append(out, 10000*r+100*k+n)
		}
	}
	return
}

var Harnesses = []nd.H{
	{Name: "LongEncode", F: LongEncode, Covers: []string{"element"}, Quick: cross(long(2, 20)...), Thorough: cross(long(2, 300)...), Bound: "texts of two runs of 20 (thorough 300) characters of 12 kinds with 2 arbitrary characters between them"},
	{Name: "LongDecode", F: LongDecode, Covers: []string{"decoded"}, Quick: cross(long(2, 20)...), Thorough: cross(long(2, 300)...), Bound: "elements of two runs of 20 (thorough 300) bytes of 12 kinds with 2 arbitrary bytes between them"},
	{Name: "Encode", F: Encode, Covers: []string{"element"}, Quick: cross(0, 1, 2, 3, 4, 5), Thorough: cross(6), Bound: "texts of up to 5 (thorough 6) characters"},
	{Name: "Decode", F: Decode, Covers: []string{"decoded"}, Quick: cross(0, 1, 2, 3, 4, 5), Thorough: cross(6), Bound: "elements of up to 5 (thorough 6) bytes"},
	{Name: "Charset", F: Charset, Covers: []string{"converted"}, Quick: [][]int{{0}, {1}, {2}, {4}, {8}}, Thorough: [][]int{{12}}, Bound: "up to 8 (thorough 12) characters"},
}
