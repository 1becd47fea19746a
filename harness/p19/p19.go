// Package p19: a message reaches the bank, and the answer the client, unchanged whatever carries them.
package p19

import (
	"bufio"
	"encoding/base64"
	"errors"
	"io"
	"log"
	"net/http"

	"github.com/mitch000001/go-hbci/transport"
	https "github.com/mitch000001/go-hbci/transport/https"
	middleware "github.com/mitch000001/go-hbci/transport/middleware"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
	"golang.org/x/text/encoding/charmap"
)

var errBroken = errors.New("connection broken")

// few: only few of the places where a stream may be cut are.
var few bool

// stream gives its data in two pieces, then ends or breaks.
type stream struct {
	data     []byte
	cut      int  // the first piece
	breaks   bool // an error instead of the end
	together bool // the end or the error comes with the last piece
}

func newStream(name string, data []byte, mayBreak bool) *stream {
	s := &stream{data: data}
	if n := len(data); few {
		s.cut = []int{0, 1, 57, n / 2, n - 1}[nd.Choice(name+" cut", 5)]
	} else {
		s.cut = nd.Choice(name+" cut", n+1)
	}
	if mayBreak {
		s.breaks = nd.Choice(name+" breaks", 2) == 1
	}
	s.together = nd.Choice(name+" together", 2) == 1
	return s
}

func (s *stream) end() error {
	if s.breaks {
		return errBroken
	}
	return io.EOF
}

func (s *stream) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, s.end()
	}
	n := len(s.data)
	if s.cut > 0 {
		n = s.cut
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	s.cut -= n
	if s.cut < 0 {
		s.cut = 0
	}
	if len(s.data) == 0 && s.together {
		return n, s.end()
	}
	return n, nil
}

func (s *stream) Close() error { return nil }

// wire is the bank's side of the connection.
type wire struct {
	fails  bool
	status int
	answer *stream
	early  int // what is read of the request before it is answered; 0 is all

	calls             int
	method, url, mime string
	got               []byte
	err               error // of reading the request
}

func (w *wire) RoundTrip(r *http.Request) (*http.Response, error) {
	w.calls++
	w.method, w.url, w.mime = r.Method, r.URL.String(), r.Header.Get("Content-Type")
	w.got, w.err = w.read(r.Body)
	if w.err != nil {
		return nil, w.err
	}
	if w.fails {
		return nil, errBroken
	}
	return &http.Response{StatusCode: w.status, ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: w.answer, Request: r}, nil
}

func (w *wire) read(body io.Reader) ([]byte, error) {
	if w.early > 0 {
		b := make([]byte, w.early)
		n, err := io.ReadFull(body, b)
		return b[:n], err
	}
	return io.ReadAll(body)
}

// Do makes the wire a transport without HTTP.
func (w *wire) Do(r *transport.Request) (*transport.Response, error) {
	w.calls++
	w.url = r.URL
	w.got, w.err = w.read(r.Body)
	if w.err != nil {
		return nil, w.err
	}
	if w.fails {
		return nil, errBroken
	}
	return &transport.Response{Request: r, Body: w.answer}, nil
}

const url = "https://hbci.example.com/cgi/hbci"

const (
	plain   = iota // HTTPS
	encoded        // HTTPS with Base64
	base           // the Base64 middleware
	logged         // the logging middleware
	loggedBase
	both // Base64 around HTTPS
	ways
)

// carrier is the way to the bank, and whether its text is Base64 there.
func carrier(way int, w *wire) (t transport.Transport, http bool, b64 bool) {
	switch way {
	case plain:
		return https.NewNonDefault(client(w)), true, false
	case encoded:
		use(w)
		return https.NewBase64(), true, true
	case base:
		return middleware.Base64Encoding(base64.StdEncoding)(w), false, true
	case logged:
		return middleware.Logging(log.New(io.Discard, "", 0), nil)(w), false, false
	case loggedBase:
		return middleware.Logging(log.New(io.Discard, "", 0), nil)(middleware.Base64Encoding(base64.StdEncoding)(w)), false, true
	}
	use(w)
	return middleware.Base64Encoding(base64.StdEncoding)(https.New()), true, true
}

func client(w *wire) *http.Client { return &http.Client{Transport: w} }
func use(w *wire)                 { http.DefaultClient.Transport = w }

func encode(b []byte) []byte { return []byte(base64.StdEncoding.EncodeToString(b)) }

// Carry: p = way, bytes of the request, bytes of the answer; any bytes, in pieces, with the connection breaking anywhere.
func Carry(p []int) {
	request, answer := lib.Bytes("request", p[1]), lib.Bytes("answer", p[2])
	keep := append([]byte{}, request...)
	few = p[1]+p[2] > 100
	w := &wire{status: 200}
	t, overHTTP, b64 := carrier(p[0], w)
	sent := answer
	if b64 {
		sent = encode(answer)
	}
	body := &stream{data: request}
	w.answer = &stream{data: sent}
	if p[1] > 0 {
		body = newStream("request", request, true)
		w.fails = nd.Choice("fails", 2) == 1
	} else {
		w.answer = newStream("answer", sent, true)
		// a bank may answer before it has read everything
		if nd.Choice("early", 2) == 1 {
			body = &stream{data: []byte("request")}
			keep = []byte("request")
			w.early = 1
		}
	}
	res, err := t.Do(&transport.Request{URL: url, Body: body})
	var got []byte
	if err == nil {
		got, err = io.ReadAll(res.Body)
	}
	nd.Assert(w.calls <= 1, "a message is sent once")
	if w.calls == 1 && w.err == nil {
		nd.Assert(w.url == url, "a message is sent to the bank's address")
		if overHTTP {
			nd.Assert(w.method == "POST" && w.mime == "application/vnd.hbci", "a message is posted as HBCI")
		}
		nd.Assert(!body.breaks, "no part of a message is sent as if it were all")
		arrived := w.got
		if w.early > 0 {
			arrived = keep
		} else if b64 {
			var derr error
			arrived, derr = base64.StdEncoding.DecodeString(string(w.got))
			nd.Assert(derr == nil, "a message arrives as it was sent")
		}
		nd.Assert(lib.Eq(arrived, keep), "a message arrives as it was sent")
	}
	if body.breaks || w.fails || w.answer.breaks {
		nd.Assert(err != nil, "a broken connection is an error")
		nd.Cover("broken")
		return
	}
	nd.Assert(err == nil, "a message that was carried is no error")
	nd.Assert(w.calls == 1, "a message is sent once")
	nd.Assert(lib.Eq(got, answer), "the answer arrives as it was sent")
	nd.Cover("carried")
}

// Long: the same with long messages.
func Long(p []int) { Carry(p) }

func longs(codes ...int) (out [][]int) {
	for way := 0; way < ways; way++ {
		for _, n := range codes {
			out = append(out, []int{way, n, 0}, []int{way, 0, n})
		}
	}
	return
}

// NotEncoded: p = way, status, bytes; an answer that is not Base64.
func NotEncoded(p []int) {
	few = false
	answer := nd.Bytes("answer", p[2])
	// none of them Base64
	nd.Assume(answer[0] == '<')
	w := &wire{status: p[1], answer: newStream("answer", answer, false)}
	t, overHTTP, _ := carrier(p[0], w)
	res, err := t.Do(&transport.Request{URL: url, Body: &stream{data: []byte("request")}})
	var got []byte
	if err == nil {
		got, err = io.ReadAll(res.Body)
	}
	if overHTTP && p[0] == encoded && p[1] != 200 {
		nd.Assert(err == nil && lib.Eq(got, answer), "what comes with another status is passed on as it is")
		nd.Cover("raw")
	} else {
		nd.Assert(err != nil, "an answer that is not encoded is an error")
		nd.Cover("error")
	}
}

// UTF8: p = bytes of the request, characters of the answer.
func UTF8(p []int) {
	few = false
	w := &wire{}
	t := middleware.UTF8Encoding(charmap.ISO8859_1)(w)
	if p[0] > 0 {
		// any bytes, UTF-8 or not
		raw := nd.Bytes("request", p[0])
		var want []byte
		valid := true
		for i := 0; i < len(raw) && valid; {
			c := raw[i]
			switch {
			case c < 0x80:
				want = append(want, c)
				i++
			case (c == 0xc2 || c == 0xc3) && i+1 < len(raw) && raw[i+1]&0xc0 == 0x80:
				want = append(want, c<<6|raw[i+1]&0x3f)
				i += 2
			default:
				valid = false
			}
		}
		w.answer = &stream{}
		body := newStream("request", append([]byte{}, raw...), true)
		_, err := t.Do(&transport.Request{URL: url, Body: body})
		if body.breaks {
			nd.Assert(err != nil, "a broken connection is an error")
			nd.Assert(w.calls == 0, "no part of a message is sent as if it were all")
			return
		}
		nd.Assert((err == nil) == valid, "a text that has no form in the bank's character set is an error")
		if valid {
			nd.Assert(w.calls == 1 && w.url == url && lib.Eq(w.got, want), "a text is sent in the bank's character set")
			nd.Cover("sent")
		} else {
			nd.Assert(w.calls == 0, "no part of a message is sent as if it were all")
			nd.Cover("rejected")
		}
		return
	}
	text, iso := lib.Text("answer", p[1])
	w.answer = newStream("answer", iso, true)
	res, err := t.Do(&transport.Request{URL: url, Body: &stream{data: []byte("r")}})
	nd.Assert(err == nil, "a message that was carried is no error")
	got, err := io.ReadAll(res.Body)
	if w.answer.breaks {
		nd.Assert(err != nil, "a broken connection is an error")
		nd.Cover("broken")
		return
	}
	nd.Assert(err == nil && lib.EqS(string(got), text), "the answer is read in the bank's character set")
	nd.Cover("read")
}

// Response: p = bytes; the answer as the dialog takes it.
func Response(p []int) {
	_, iso := lib.Text("text", p[0])
	n := len(iso)
	few = n > 100
	raw := append(append([]byte("HIABC:1:1+"), lib.Escaped(iso)...), '\'')
	nd.Assume(n > 3 || !lib.MalformedFloat(raw, 10))
	keep := append([]byte{}, raw...)
	if nd.Choice("whole", 2) == 0 {
		raw = raw[:len(raw)-1]
	}
	s := newStream("answer", raw, true)
	req := &transport.Request{URL: url}
	res, err := transport.ReadResponse(bufio.NewReader(s), req)
	if s.breaks {
		nd.Assert(err != nil, "a broken connection is an error")
		nd.Cover("broken")
		return
	}
	if len(raw) < len(keep) {
		nd.Assert(err != nil, "half an answer is an error")
		nd.Cover("half")
		return
	}
	nd.Assert(err == nil, "a whole answer is no error")
	body, berr := io.ReadAll(res.Body)
	nd.Assert(berr == nil && lib.Eq(body, keep) && lib.Eq(res.MarshaledResponse, keep) && res.Request == req, "the answer arrives as it was sent")
	nd.Assert(lib.Eq(res.FindSegment("HIABC"), keep) && !res.IsEncrypted(), "the segments of the answer are found")
	nd.Cover("read")
}

// Logged: p = bytes; whatever is logged, in whatever state, the messages pass.
func Logged(p []int) {
	request, answer := nd.Bytes("request", p[0]), nd.Bytes("answer", p[1])
	whole := []byte("HNHBK:1:3+000000000123+300+dialog+4+mine:3'")
	if nd.Choice("begins well", 2) == 1 {
		request = append(append([]byte{}, whole...), request...)
	}
	w := &wire{answer: &stream{data: append([]byte{}, answer...)}}
	t := middleware.Logging(log.New(failing{}, "", 0), nil)(w)
	res, err := t.Do(&transport.Request{URL: url, Body: &stream{data: append([]byte{}, request...)}})
	nd.Assert(err == nil, "a message that was carried is no error")
	got, err := io.ReadAll(res.Body)
	nd.Assert(err == nil && lib.Eq(got, answer) && lib.Eq(w.got, request) && w.calls == 1, "logging leaves the messages as they are")
	nd.Cover("logged")
}

// failing is a log that cannot be written.
type failing struct{}

func (failing) Write(p []byte) (int, error) { return 0, errBroken }

func carries(ns ...int) (out [][]int) {
	for way := 0; way < ways; way++ {
		for _, n := range ns {
			// logging also reads the messages as HBCI, or tries to
			if way == logged || way == loggedBase {
				if n == 5 {
					n = 3
				} else if n > 2 {
					continue
				}
			}
			out = append(out, []int{way, n, 1}, []int{way, 0, n})
		}
	}
	return
}

var Harnesses = []nd.H{
	{Name: "Carry", F: Carry, Covers: []string{"carried", "broken"},
		Quick: carries(0, 1, 2, 3, 4), Thorough: carries(5, 7),
		Bound: "HTTPS, HTTPS with Base64, and the Base64 and logging layers, alone and stacked; any request or answer of up to 4 bytes (7 thorough; with logging 2 and 3), in any two pieces, the connection breaking at any point"},
	{Name: "Long", F: Long, Covers: []string{"carried", "broken"},
		Quick: longs(5000401, 450301), Thorough: longs(400000001, 5000702, 160000801),
		Bound: "the same with requests or answers of up to 1001 (thorough 80001) bytes, one or two of them arbitrary"},
	{Name: "NotEncoded", F: NotEncoded, Covers: []string{"raw", "error"},
		Quick: [][]int{{encoded, 200, 3}, {encoded, 500, 3}, {encoded, 404, 3}, {encoded, 201, 2}, {base, 200, 3}, {both, 200, 3}, {both, 500, 2}},
		Bound: "answers of 3 bytes of which the first is '<', with statuses 200, 201, 404 and 500"},
	{Name: "UTF8", F: UTF8, Covers: []string{"sent", "rejected", "read", "broken"},
		Quick: [][]int{{1, 0}, {2, 0}, {3, 0}, {0, 0}, {0, 1}, {0, 2}, {0, 3}}, Thorough: [][]int{{4, 0}, {0, 4}},
		Bound: "any request of up to 3 bytes (4 thorough), any answer of up to 3 characters, in any two pieces, the connection breaking at any point"},
	{Name: "Response", F: Response, Covers: []string{"read", "half", "broken"},
		Quick: [][]int{{0}, {1}, {2}, {5000401}, {30000001}, {5000701}}, Thorough: [][]int{{3}},
		Bound: "a segment with any text of up to 2 or 6000 ISO-8859-1 characters (3 thorough), in any two pieces, the connection breaking at any point"},
	{Name: "Logged", F: Logged, Covers: []string{"logged"},
		Quick: [][]int{{0, 0}, {1, 0}, {2, 1}, {1, 2}}, Thorough: [][]int{{3, 1}, {2, 2}},
		Bound: "any request and answer of up to 2 bytes (3 thorough), the request behind a message header or not, with a log that cannot be written"},
}
