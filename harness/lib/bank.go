package lib

import (
	"bytes"
	"encoding/base64"
	"errors"
	"io"
)

// Split cuts raw behind every delimiter that is neither escaped nor inside binary data; what
// follows the last one is dropped if empty. It does not look at anything but syntax.
func Split(raw []byte, delim byte) [][]byte {
	var out [][]byte
	var cur []byte
	for i := 0; i < len(raw); i++ {
		switch c := raw[i]; {
		case c == '?' && i+1 < len(raw):
			cur = append(cur, c, raw[i+1])
			i++
		case c == '@':
			n, j := 0, i+1
			for j < len(raw) && Digit(raw[j]) {
				n = n*10 + int(raw[j]-'0')
				j++
			}
			if j < len(raw) && raw[j] == '@' && j > i+1 && j+n < len(raw) {
				cur = append(cur, raw[i:j+1+n]...)
				i = j + n
			} else {
				cur = append(cur, c)
			}
		case c == delim:
			out = append(out, cur)
			cur = nil
		default:
			cur = append(cur, c)
		}
	}
	if len(cur) > 0 || delim != '\'' {
		out = append(out, cur)
	}
	return out
}

// Num reads a number without sign; -1 if it is none.
func Num(b []byte) int {
	if len(b) == 0 {
		return -1
	}
	n := 0
	for _, c := range b {
		if !Digit(c) {
			return -1
		}
		n = n*10 + int(c-'0')
	}
	return n
}

// Request is a message as the bank gets it.
type Request struct {
	Size, Version, Number, EndNumber int
	Dialog                           []byte // as written, with escapes
	Encrypted                        bool
	Crypt                            [][]byte // elements of the encryption header
	Segments                         [][][]byte
	ok                               bool
}

// Element returns an element of the first segment with the ID, nil if there is none.
func (r *Request) Element(id string, n int) []byte {
	for _, s := range r.Segments {
		if r.id(s) == id && n < len(s) {
			return s[n]
		}
	}
	return nil
}

func (r *Request) id(s [][]byte) string {
	return string(Split(s[0], ':')[0])
}

// Has says whether there is a segment with the ID.
func (r *Request) Has(id string) bool {
	for _, s := range r.Segments {
		if r.id(s) == id {
			return true
		}
	}
	return false
}

// Count returns the number of segments with the ID.
func (r *Request) Count(id string) (n int) {
	for _, s := range r.Segments {
		if r.id(s) == id {
			n++
		}
	}
	return
}

// Group returns a part of an element of the first segment with the ID.
func (r *Request) Group(id string, n, part int) []byte {
	ps := Split(r.Element(id, n), ':')
	if part < len(ps) {
		return ps[part]
	}
	return nil
}

// Part returns a part of an element.
func Part(elems [][]byte, n, part int) []byte {
	if n >= len(elems) {
		return nil
	}
	ps := Split(elems[n], ':')
	if part < len(ps) {
		return ps[part]
	}
	return nil
}

func has(b []byte, prefix string) bool {
	return len(b) >= len(prefix) && EqS(string(b[:len(prefix)]), prefix)
}

// ReadRequest takes a message of the client apart; nil if it is none.
func ReadRequest(raw []byte) *Request {
	segs := Split(raw, '\'')
	if len(segs) < 3 || !has(segs[0], "HNHBK:1:3+") || !has(segs[len(segs)-1], "HNHBS:") {
		return nil
	}
	r := &Request{}
	head := Split(segs[0], '+')
	end := Split(segs[len(segs)-1], '+')
	if len(head) != 5 || len(end) != 2 {
		return nil
	}
	r.Size, r.Version, r.Dialog, r.Number, r.EndNumber = Num(head[1]), Num(head[2]), head[3], Num(head[4]), Num(end[1])
	if r.Size != len(raw) {
		return nil
	}
	inner := segs[1 : len(segs)-1]
	if has(inner[0], "HNVSK:998:") {
		if len(inner) != 2 || !has(inner[1], "HNVSD:999:1+@") {
			return nil
		}
		r.Encrypted = true
		r.Crypt = Split(inner[0], '+')
		data := inner[1][len("HNVSD:999:1+@"):]
		n := 0
		for len(data) > 0 && Digit(data[0]) {
			n = n*10 + int(data[0]-'0')
			data = data[1:]
		}
		if len(data) != n+1 {
			return nil
		}
		inner = Split(data[1:], '\'')
	}
	for _, s := range inner {
		r.Segments = append(r.Segments, Split(s, '+'))
	}
	return r
}

// Answer makes an encrypted message of the bank: dialog as written, with escapes.
func Answer(version int, dialog []byte, number int, segments []byte) []byte {
	body := []byte("HNVSK:998:3+PIN:1+998+1+1::0+1:20200102:030405+2:2:13:@8@\x00\x00\x00\x00\x00\x00\x00\x00:5:1+280:10090000:user:V:0:0+0'")
	body = append(body, "HNVSD:999:1+@"+Dec(len(segments), 1)+"@"...)
	body = append(body, segments...)
	body = append(body, '\'')
	return Plain(version, dialog, number, body)
}

// Plain makes an unencrypted message of the bank.
func Plain(version int, dialog []byte, number int, body []byte) []byte {
	head := append([]byte("+"+Dec(version, 3)+"+"), dialog...)
	head = append(head, "+"+Dec(number, 1)+"+"...)
	head = append(head, dialog...)
	head = append(head, ":"+Dec(number, 1)+"'"...)
	end := "HNHBS:9:1+" + Dec(number, 1) + "'"
	out := []byte("HNHBK:1:3+" + Dec(10+12+len(head)+len(body)+len(end), 12))
	out = append(out, head...)
	out = append(out, body...)
	return append(out, end...)
}

// ErrLost is the error of a transport that loses a message.
var ErrLost = errors.New("connection lost")

// Decode reads the Base64 body of a request.
func Decode(body io.Reader) []byte {
	raw, err := io.ReadAll(base64.NewDecoder(base64.StdEncoding, body))
	if err != nil {
		return nil
	}
	return raw
}

// Encode makes the Base64 body of a response.
func Encode(raw []byte) io.ReadCloser {
	var buf bytes.Buffer
	w := base64.NewEncoder(base64.StdEncoding, &buf)
	w.Write(raw)
	w.Close()
	return io.NopCloser(&buf)
}
