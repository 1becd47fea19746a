// Package p20: a client talks to the bank it is configured for.
package p20

import (
	"errors"
	"net/http"
	"strings"

	"github.com/mitch000001/go-hbci/bankinfo"
	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

var errNone = errors.New("no answer")

// prefixes of bank IDs; the rest is arbitrary
var prefixes = []string{"100", "1009", "3706", "500", "7002", "87", ""}

func bankID(p int) string {
	if p < 0 {
		return "10090000"
	}
	id := []byte(prefixes[p])
	for len(id) < 8 {
		d := nd.Byte("bank")
		nd.Assume(lib.Digit(d))
		id = append(id, d)
	}
	return string(id)
}

// entries of a bank in the database
func entries(id string) (out []bankinfo.BankInfo) {
	for _, e := range bankinfo.ZZEntries() {
		if e.BankID == id {
			out = append(out, e)
		}
	}
	return
}

func versionOf(e bankinfo.BankInfo) int {
	v := 0
	for name, n := range names {
		if e.VersionName == name && n > v {
			v = n
		}
	}
	for number, n := range numbers {
		if e.VersionNumber == number && n > v {
			v = n
		}
	}
	return v
}

var names = map[string]int{"HBCI 2.2 Erweiterung PIN/TAN V1.01": 220, "FinTS V3.0": 300, "FinTS V4.0": 400, "FinTS V4.1": 410}
var numbers = map[string]int{"2.1": 210, "2.2": 220, "3.0": 300, "4.0": 400, "4.1": 410}

// Find: p = prefix of the bank ID, or -1 and the length of an arbitrary string.
func Find(p []int) {
	var id string
	if p[0] < 0 {
		id = string(nd.Bytes("bank", p[1]))
	} else {
		id = bankID(p[0])
	}
	got := bankinfo.FindByBankID(id)
	all := entries(id)
	if len(all) == 0 {
		nd.Assert(got == bankinfo.BankInfo{}, "nothing is found for a bank that is not in the database")
		nd.Cover("unknown")
		return
	}
	ok := false
	for _, e := range all {
		ok = ok || got == e
	}
	nd.Assert(ok, "what is found is the entry of the bank")
	v := versionOf(got)
	if v > 0 {
		nd.Assert(got.HbciVersion() == v, "the version is the higher one of the entry")
	}
	nd.Cover("found")
}

// bank keeps the request it gets.
type bank struct {
	calls   int
	url     string
	version int
	id      string
	user    string
	product string
	release string
}

func (b *bank) Do(r *transport.Request) (*transport.Response, error) {
	b.calls++
	b.url = r.URL
	req := lib.ReadRequest(lib.Decode(r.Body))
	nd.Assert(req != nil, "messages are well-formed")
	b.version = req.Version
	b.id = string(req.Group("HKIDN", 1, 1))
	b.user = string(req.Element("HKIDN", 2))
	b.product = string(req.Element("HKVVB", 4))
	b.release = string(req.Element("HKVVB", 5))
	return nil, errNone
}

// Config: p = prefix of the bank ID (-1: a fixed bank), whether a URL is given, whether a version is.
func Config(p []int) {
	b := &bank{}
	c := client.Config{BankID: bankID(p[0]), AccountID: "user", PIN: "12345", Transport: b, ProductName: "prod", ProductVersion: "1.7"}
	found := bankinfo.FindByBankID(c.BankID)
	wantURL, wantVersion := found.URL, versionOf(found)
	if p[1] == 1 {
		c.URL = "https://given.example.com/"
		wantURL = c.URL
	}
	if p[2] == 1 {
		c.HBCIVersion = nd.Int("version", -2, 500)
		if c.HBCIVersion > 0 {
			wantVersion = c.HBCIVersion
		}
	}
	cl, err := client.New(c)
	if wantVersion != 220 && wantVersion != 300 {
		nd.Assert(err != nil, "there is no client for a version that is not supported or known")
		nd.Cover("no version")
		return
	}
	if wantURL == "" {
		nd.Assert(err != nil, "there is no client without an address")
		nd.Cover("no address")
		return
	}
	nd.Assert(err == nil, "there is a client when address and version are known")
	_, err = cl.Accounts()
	nd.Assert(err != nil, "no answer is an error")
	nd.Assert(b.calls == 1, "a request is sent once")
	nd.Assert(b.url == wantURL, "the client talks to the address given, else that of the bank's entry")
	nd.Assert(b.version == wantVersion, "the client speaks the version given, else that of the bank's entry")
	nd.Assert(b.id == c.BankID && b.user == "user" && b.product == "prod" && b.release == "1.7", "the client says for whom and at which bank")
	nd.Cover("client")
}

// RoundTrip makes the bank one that is reached over the network.
func (b *bank) RoundTrip(r *http.Request) (*http.Response, error) {
	nd.Assert(r.Method == "POST" && r.Header.Get("Content-Type") == "application/vnd.hbci", "requests are posted as HBCI messages")
	b.Do(&transport.Request{URL: r.URL.String(), Body: r.Body})
	return nil, errNone
}

// Default: without a transport the client talks to the bank over the network; p = whether a URL
// is given, digits of the bank ID that are arbitrary, length of user, product and its version.
func Default(p []int) {
	b := &bank{}
	http.DefaultClient = &http.Client{}
	http.DefaultTransport = b
	user, product, release := nd.Bytes("user", p[2]), nd.Bytes("product", p[2]), nd.Bytes("release", p[2])
	for k := range user {
		for _, c := range []byte{user[k], product[k], release[k]} {
			nd.Assume(nd.And('a' <= c, c <= 'z'))
		}
	}
	id := []byte("10090000")
	for k := 0; k < p[1]; k++ {
		id[7-k] = nd.Byte("bank")
		nd.Assume(lib.Digit(id[7-k]))
	}
	c := client.Config{BankID: string(id), AccountID: string(user), PIN: "12345", HBCIVersion: 300, ProductName: string(product), ProductVersion: string(release)}
	want := bankinfo.FindByBankID(c.BankID).URL
	if p[0] == 1 {
		want = "https://given.example.com/hbci"
		c.URL = want
	}
	cl, err := client.New(c)
	if want == "" {
		nd.Assert(err != nil, "there is no client without an address")
		nd.Cover("no address")
		return
	}
	nd.Assert(err == nil, "there is a client when address and version are known")
	_, err = cl.Accounts()
	nd.Assert(err != nil, "no answer is an error")
	nd.Assert(b.calls == 1, "a request is sent once")
	nd.Assert(b.url == want, "the client talks to the address given, else that of the bank's entry")
	nd.Assert(b.version == 300 && b.id == c.BankID, "the client says at which bank")
	nd.Assert(lib.EqS(b.user, c.AccountID) && lib.EqS(b.product, c.ProductName) && lib.EqS(b.release, c.ProductVersion), "the client says for whom it speaks")
	nd.Cover("client")
}

// Version: p = length of the version name, of the number.
func Version(p []int) {
	e := bankinfo.BankInfo{VersionName: string(nd.Bytes("name", p[0])), VersionNumber: string(nd.Bytes("number", p[1]))}
	known := true
	want := -1
	if n, ok := names[e.VersionName]; ok {
		want = n
	} else if e.VersionName != "" {
		known = false
	}
	if n, ok := numbers[e.VersionNumber]; ok {
		if n > want {
			want = n
		}
	} else if e.VersionNumber != "" {
		known = false
	}
	got := 0
	panicked := nd.Catch(func() { got = e.HbciVersion() })
	nd.Assert(panicked == !known, "a version that is not known is not taken for one")
	nd.Assert(panicked || got == want, "the version is the higher one of the entry")
	nd.Cover("version")
}

var columns = []string{"BLZ", "BIC", "Institut", "HBCI-Version", "PIN/TAN-Zugang URL", "Version", "Ort", "Datum letzte \u00c4nderung"}

// Parse: p = column of the arbitrary text, its characters, rotation of the columns (negative: reversed).
func Parse(p []int) {
	text, _ := lib.Text("text", p[1])
	for k := 0; k < len(text); k++ {
		c := text[k]
		nd.Assume(c != ';' && c != '"' && c != '\n' && c != '\r')
	}
	order := make([]int, len(columns))
	for k := range order {
		order[k] = (k + p[2] + len(columns)) % len(columns)
		if p[2] < 0 {
			order[k] = (len(columns) - k - p[2]) % len(columns)
		}
	}
	var head []string
	rows := make([][]string, 3)
	var want [3][8]string
	for _, c := range order {
		head = append(head, columns[c])
		for r := range rows {
			f := "r" + lib.Dec(r, 1) + "c" + lib.Dec(c, 1)
			if r == 1 && c == p[0] {
				f = text
			}
			want[r][c] = strings.TrimSpace(f)
			if r == 2 && c == 0 {
				f = "" // no bank
			}
			if r == 0 && c%2 == 1 {
				f = " " + f + "  "
			}
			rows[r] = append(rows[r], f)
		}
	}
	csv := strings.Join(head, ";") + ";other\n"
	for _, r := range rows {
		csv += strings.Join(r, ";") + ";x\n"
	}
	got, err := bankinfo.ParseBankInfos(strings.NewReader(csv))
	nd.Assert(err == nil, "a list of banks is read")
	n := 0
	for r := 0; r < 2; r++ {
		if r == 1 && p[0] == 0 && strings.TrimSpace(text) == "" {
			continue
		}
		nd.Assert(n < len(got), "every bank of the list is read")
		e, w := got[n], want[r]
		n++
		fields := []string{e.BankID, e.BIC, e.Institute, e.VersionNumber, e.URL, e.VersionName, e.City, e.LastChanged}
		for c := range fields {
			nd.Assert(lib.EqS(fields[c], w[c]), "every column of the list is read where it is")
		}
	}
	nd.Assert(n == len(got), "only banks of the list are read")
	nd.Cover("read")
}

// Bic: p = arbitrary column (0 bank, 1 BIC), its characters, order of the columns.
func Bic(p []int) {
	text, _ := lib.Text("text", p[1])
	for k := 0; k < len(text); k++ {
		c := text[k]
		nd.Assume(c != ';' && c != '"' && c != '\n' && c != '\r')
	}
	cells := [2]string{"10090000", "BEVODEBBXXX"}
	cells[p[0]] = text
	row := func(bank, bic string) string {
		if p[2] == 1 {
			return bic + ";x;" + bank + "\n"
		}
		return bank + ";" + bic + ";x\n"
	}
	got, err := bankinfo.ParseBicData(strings.NewReader(row("Bank-leitzahl", "BIC") + row("1", "A") + row(cells[0], cells[1]) + row("", "C") + row("4", "D")))
	nd.Assert(err == nil, "a list of BICs is read")
	want := []string{"1", "A"}
	if strings.TrimSpace(cells[0]) != "" {
		want = append(want, strings.TrimSpace(cells[0]), strings.TrimSpace(cells[1]))
	}
	want = append(want, "4", "D")
	nd.Assert(2*len(got) == len(want), "exactly the banks of the list are read")
	for k, e := range got {
		nd.Assert(lib.EqS(e.BankID, want[2*k]) && lib.EqS(e.BIC, want[2*k+1]), "every column of the list is read where it is")
	}
	nd.Cover("read")
}

func cross(dims ...[]int) [][]int {
	out := [][]int{{}}
	for _, d := range dims {
		var next [][]int
		for _, o := range out {
			for _, v := range d {
				next = append(next, append(append([]int{}, o...), v))
			}
		}
		out = next
	}
	return out
}

var Harnesses = []nd.H{
	{Name: "Find", F: Find, Covers: []string{"found", "unknown"},
		Quick: [][]int{{1}, {2}, {4}, {-1, 0}, {-1, 7}, {-1, 9}}, Thorough: [][]int{{0}, {3}, {5}, {6}}, Steps: 400_000_000,
		Bound: "every bank ID of 8 digits beginning with 1009, 3706 or 7002 (any thorough), any strings of 0, 7 and 9 bytes; the database of the tree"},
	{Name: "Config", F: Config, Covers: []string{"client", "no version", "no address"},
		Quick: [][]int{{1, 0, 0}, {1, 1, 0}, {2, 0, 0}, {-1, 1, 1}, {-1, 0, 1}, {1, 0, 1}}, Thorough: [][]int{{0, 0, 0}, {3, 0, 0}, {4, 0, 0}, {5, 0, 0}}, Steps: 400_000_000,
		Bound: "every bank ID of 8 digits beginning with 1009 or 3706 (thorough also 100, 500, 7002 and 87), address given or not, any version from -2 to 500 given or none"},
	{Name: "Default", F: Default, Covers: []string{"client", "no address"},
		Quick: [][]int{{1, 0, 1}, {1, 0, 3}, {0, 1, 1}, {0, 2, 1}}, Thorough: [][]int{{1, 0, 5}, {0, 3, 2}}, Steps: 400_000_000,
		Bound: "banks beginning with 100900 (thorough 10090), user, product and its version of up to 3 (thorough 5) letters, a client without a transport of its own"},
	{Name: "Version", F: Version, Covers: []string{"version"},
		Quick: cross([]int{0, 1, 10, 34}, []int{0, 2, 3, 4}),
		Bound: "names of 0, 1, 10 and 34 bytes and numbers of up to 4 bytes, any bytes"},
	{Name: "Parse", F: Parse, Covers: []string{"read"},
		Quick: append(cross([]int{0, 1, 2, 3, 4, 5, 6, 7}, []int{0, 1, 2}, []int{0}), cross([]int{0, 4}, []int{1}, []int{1, 3, 5, -1, -4})...), Thorough: cross([]int{0, 3, 5}, []int{3}, []int{2, -2}),
		Bound: "lists of three banks with one field of up to 2 (thorough 3) ISO-8859-1 characters arbitrary (no quotes, separators or line ends), the columns in 6 (thorough 8) orders"},
	{Name: "Bic", F: Bic, Covers: []string{"read"},
		Quick: cross([]int{0, 1}, []int{0, 1, 2}, []int{0, 1}), Thorough: cross([]int{0, 1}, []int{3}, []int{0, 1}),
		Bound: "lists of three BICs with one field of up to 2 (thorough 3) ISO-8859-1 characters arbitrary, in both orders of the columns"},
}
