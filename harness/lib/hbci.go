// HBCI syntax, written from the specification and independent of the code under test.
package lib

import (
	"github.com/mitch000001/go-hbci/token"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

func Delim(b byte) bool { return b == '+' || b == ':' || b == '\'' }
func Digit(b byte) bool { return '0' <= b && b <= '9' }
func Syntax(b byte) bool {
	return b == '+' || b == ':' || b == '\'' || b == '?' || b == '@'
}

// Reference scans one token of in starting at pos: its type and length, or ok=false when the
// syntax admits none. It is written from the HBCI syntax, not from the lexer.
func Reference(in []byte, pos int) (typ token.Type, n int, ok bool) {
	rest := in[pos:]
	if len(rest) == 0 {
		return token.EOF, 0, true
	}
	switch rest[0] {
	case '+':
		return token.DATA_ELEMENT_SEPARATOR, 1, true
	case ':':
		return token.GROUP_DATA_ELEMENT_SEPARATOR, 1, true
	case '\'':
		return token.SEGMENT_END_MARKER, 1, true
	case '@':
		// @<length>@<data>, followed by a delimiter
		i, size := 1, 0
		for i < len(rest) && Digit(rest[i]) {
			if size <= len(in) {
				size = size*10 + int(rest[i]-'0')
			}
			i++
		}
		if i == 1 || i >= len(rest) || rest[i] != '@' || size > len(rest)-i-1 {
			return 0, 0, false
		}
		i += 1 + size
		if i >= len(rest) || !Delim(rest[i]) {
			return 0, 0, false
		}
		return token.BINARY_DATA, i, true
	}
	// everything up to the next delimiter that is not escaped
	text, digits, commas, commaAt := false, true, 0, 0
	i := 0
	for {
		if i >= len(rest) {
			return 0, 0, false
		}
		b := rest[i]
		if Delim(b) {
			break
		}
		if b == '?' {
			if i+1 >= len(rest) || !Syntax(rest[i+1]) {
				return 0, 0, false
			}
			digits = false
			i += 2
			continue
		}
		if b == '\r' || b == '\n' {
			text = true
			digits = false
		} else if b == ',' {
			if commas == 0 {
				commaAt = i
			}
			commas++
		} else if !Digit(b) {
			digits = false
		}
		i++
	}
	zeroLed := rest[0] == '0'
	switch {
	case text:
		return token.TEXT, i, true
	case digits && commas == 0 && zeroLed && i > 1:
		return token.DIGIT, i, true
	case digits && commas == 0:
		return token.NUMERIC, i, true
	case digits && commas == 1 && commaAt > 0 && !(zeroLed && commaAt > 1):
		return token.FLOAT, i, true
	}
	return token.ALPHA_NUMERIC, i, true
}

// MalformedFloat: a number with superfluous leading zeros and a fraction is rejected by design.
func MalformedFloat(in []byte, pos int) bool {
	i := pos
	if i >= len(in) || in[i] != '0' {
		return false
	}
	for i < len(in) && Digit(in[i]) {
		i++
	}
	return i > pos+1 && i < len(in) && in[i] == ','
}

// WellFormed: piece is a complete element, so that the next delimiter behind it ends it.
func WellFormed(piece []byte) bool {
	if len(piece) == 0 {
		return true
	}
	in := append(append(make([]byte, 0, len(piece)+1), piece...), '+')
	if Delim(in[0]) || MalformedFloat(in, 0) {
		return false
	}
	_, n, ok := Reference(in, 0)
	return ok && n == len(piece)
}

// Piece is one element and the delimiter behind it.
type Piece struct {
	Val   []byte
	Delim byte
}

// Delimiter codes of Build.
const (
	Colon = -1
	Plus  = -2
	End   = -3
	Open  = -4 // nothing behind the piece
)

// fillers are runs of ordinary and special bytes that make an element long.
var fillers = []string{"a", "7", "?+", "x\r\n", "\xfc", "7,", "??", "?'", ":a", "\r\nA", "-", "0"}

// Bytes returns arbitrary bytes. In code, the last two digits are their number; 10000*run+100*k
// puts them between two runs of at least run bytes of filler k.
func Bytes(name string, code int) []byte {
	fill, run := fillers[code/100%100], code/10000
	var pad []byte
	for len(pad) < run {
		pad = append(pad, fill...)
	}
	pad = pad[:len(pad):len(pad)]
	if code < 10000 {
		return nd.Bytes(name, code)
	}
	return append(append(pad, nd.Bytes(name, code%100)...), pad...)
}

// Build makes an input of well-formed elements. codes alternates the length of an element (or its
// code for Bytes) and the code of the delimiter behind it.
func Build(codes []int) (in []byte, pieces []Piece) {
	for i := 0; i+1 < len(codes); i += 2 {
		v := Bytes("element", codes[i])
		nd.Assume(WellFormed(v))
		in = append(in, v...)
		d := byte(0)
		switch codes[i+1] {
		case Colon:
			d = ':'
		case Plus:
			d = '+'
		case End:
			d = '\''
		}
		if d != 0 {
			in = append(in, d)
		}
		pieces = append(pieces, Piece{v, d})
	}
	return in, pieces
}

// Text returns an arbitrary text of n ISO-8859-1 characters (n is a code for Bytes) and its encoding
// in that charset.
func Text(name string, n int) (string, []byte) {
	iso := Bytes(name, n)
	var utf8 []byte
	for _, b := range iso {
		if b < 0x80 {
			utf8 = append(utf8, b)
		} else {
			utf8 = append(utf8, 0xc0|b>>6, 0x80|b&0x3f)
		}
	}
	return string(utf8), iso
}

// Escaped is the wire form of the characters of iso: every syntax character behind a '?'.
func Escaped(iso []byte) []byte {
	var out []byte
	for _, b := range iso {
		if Syntax(b) {
			out = append(out, '?')
		}
		out = append(out, b)
	}
	return out
}

// Unescaped takes the escapes out of a well-formed element.
func Unescaped(wire []byte) []byte {
	var out []byte
	for i := 0; i < len(wire); i++ {
		if wire[i] == '?' && i+1 < len(wire) {
			i++
		}
		out = append(out, wire[i])
	}
	return out
}

// UTF8 decodes ISO-8859-1 bytes.
func UTF8(iso []byte) string {
	var out []byte
	for _, b := range iso {
		if b < 0x80 {
			out = append(out, b)
		} else {
			out = append(out, 0xc0|b>>6, 0x80|b&0x3f)
		}
	}
	return string(out)
}
