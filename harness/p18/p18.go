// Package p18: IBANs.
package p18

import (
	"github.com/mitch000001/go-hbci/iban"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

func letter(c byte) bool { return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' }

var tens, ones [256]byte

var alnum [256]bool

func init() {
	for c := range alnum {
		alnum[c] = letter(byte(c)) || lib.Digit(byte(c))
	}
	for c := byte('A'); c <= 'Z'; c++ {
		tens[c], ones[c] = '0'+(c-'A'+10)/10, '0'+(c-'A'+10)%10
	}
}

func upper(s []byte) []byte {
	var out []byte
	for _, c := range s {
		if c >= 'a' && c <= 'z' {
			c -= 32
		}
		out = append(out, c)
	}
	return out
}

// mod is the remainder of the digits of s after those of r, letters counting from ten.
func mod(r uint16, s []byte) uint16 {
	for _, c := range s {
		if letter(c) {
			r = (r*10 + uint16(tens[c]-'0')) % 97
			c = ones[c]
		}
		r = (r*10 + uint16(c-'0')) % 97
	}
	return r
}

// bban is n characters, of which the first k are any bytes and the others digits.
func bban(n, k int) []byte {
	s := nd.Bytes("bban", n)
	for i := k; i < n; i++ {
		nd.Assume(lib.Digit(s[i]))
	}
	return s
}

func wellFormed(s []byte) bool {
	for _, c := range s {
		if !letter(c) && !lib.Digit(c) {
			return false
		}
	}
	return len(s) > 0
}

// countries and the longest BBAN each
var countries = []struct {
	code string
	n    int
}{{"DE", 18}, {"GB", 18}, {"NO", 11}, {"MT", 27}, {"FR", 23}, {"dE", 18}, {"ZZ", 30}}

// New: p[1] characters for country p[0], the first p[2] of them any bytes.
func New(p []int) {
	c := countries[p[0]]
	b := bban(p[1], p[2])
	i, err := iban.New(c.code, string(b))
	if !wellFormed(b) || len(b) > c.n {
		nd.Assert(err != nil, "what is no account number is an error")
		nd.Cover("error")
		return
	}
	nd.Assert(err == nil, "an account number has an IBAN")
	cc, up := upper([]byte(c.code)), upper(b)
	nd.Assert(len(i) == 4+len(b) && lib.EqS(i.CountryCode(), string(cc)) && lib.Eq([]byte(i.BBAN()), up), "an IBAN consists of country, check digits and account number")
	check := []byte(i.ProofNumber())
	nd.Assert(lib.Digit(check[0]) && lib.Digit(check[1]), "an IBAN consists of country, check digits and account number")
	want := 98 - mod(mod(mod(0, up), cc), []byte("00"))
	nd.Assert(uint16(check[0]-'0')*10+uint16(check[1]-'0') == want, "the check digits are those of ISO 13616")
	nd.Assert(i.Valid(), "what is made is valid")
	nd.Cover("made")
}

// registry has the countries with their lengths, as registered for ISO 13616.
const registry = "AL28 AD24 AT20 AZ28 BH22 BE16 BA20 BR29 VG24 BG22 BY28 CR22 HR21 CY28 CZ24 DK18 DE22 DO28 EE20 FO18 FI18 FR27 GE22 GI23 GR27 GL18 GB22 GT28 HU28 IS26 IE22 IL23 IQ23 IT27 JO30 KZ20 XK20 KW30 LV21 LB28 LC32 LI21 LT20 LU20 MK19 MT31 MR27 MU30 MD24 MC27 ME22 NL18 NO15 PK24 PS29 PL28 PT25 QA29 RO24 SM27 SA24 SC31 ST25 RS22 SK24 SI19 ES24 SE24 SV28 CH21 TN24 TR26 TL23 AE23 UA29"

// Country: any country of the registry, p[0] characters more than its longest account number has;
// the last p[1] of them are any digits.
func Country(p []int) {
	k := 5 * nd.Choice("country", (len(registry)+1)/5)
	code := registry[k : k+2]
	n := int(registry[k+2]-'0')*10 + int(registry[k+3]-'0') - 4 + p[0]
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte((7*i+k)%10)
	}
	copy(b[n-p[1]:], nd.Bytes("digits", p[1]))
	for _, c := range b[n-p[1]:] {
		nd.Assume(lib.Digit(c))
	}
	i, err := iban.New(code, string(b))
	if p[0] > 0 {
		nd.Assert(err != nil, "an account number that is too long for its country is an error")
		text := code + "12" + string(b)
		_, err = iban.From(text)
		nd.Assert(err != nil && !iban.IsValid(text), "an account number that is too long for its country is not valid")
		nd.Cover("error")
		return
	}
	nd.Assert(err == nil, "an account number of its country has an IBAN")
	nd.Assert(len(i) == 4+n && lib.EqS(i.CountryCode(), code) && lib.Eq([]byte(i.BBAN()), b), "an IBAN consists of country, check digits and account number")
	check := []byte(i.ProofNumber())
	want := 98 - mod(mod(mod(0, b), []byte(code)), []byte("00"))
	nd.Assert(uint16(check[0]-'0')*10+uint16(check[1]-'0') == want, "the check digits are those of ISO 13616")
	nd.Assert(i.Valid(), "what is made is valid")
	nd.Cover("made")
}

// Back: what New makes is accepted unchanged, in capitals or not.
func Back(p []int) {
	c := countries[p[0]]
	b := bban(p[1], p[2])
	nd.Assume(wellFormed(b) && len(b) <= c.n)
	i, err := iban.New(c.code, string(b))
	nd.Assert(err == nil, "an account number has an IBAN")
	nd.Assert(iban.IsValid(i.String()), "what is made is valid")
	in := []byte(i)
	copy(in, c.code)
	copy(in[4:], b)
	j, err := iban.From(string(in))
	nd.Assert(err == nil && lib.EqS(string(j), string(i)), "what is made is read back")
	nd.Cover("back")
}

// Any: IsValid of p[1] characters behind two check characters, for country p[0], the first p[2] of
// them any bytes.
func Any(p []int) {
	c := countries[p[0]]
	check := nd.Bytes("check", 2)
	b := bban(p[1], p[2])
	in := append(append([]byte(c.code), check...), b...)
	got := iban.IsValid(string(in))
	i, err := iban.From(string(in))
	nd.Assert(got == (err == nil), "what is read is valid")
	if !wellFormed(b) || len(b) > c.n || !lib.Digit(check[0]) || !lib.Digit(check[1]) {
		nd.Assert(!got, "what is no IBAN is not valid")
		nd.Cover("malformed")
		return
	}
	cc, up := upper([]byte(c.code)), upper(b)
	want := 98 - mod(mod(mod(0, up), cc), []byte("00"))
	if uint16(check[0]-'0')*10+uint16(check[1]-'0') == want {
		nd.Assert(got, "with the right check digits it is valid")
		nd.Assert(lib.Eq([]byte(i), append(append(append([]byte{}, cc...), check...), up...)), "what is read is the IBAN in capitals")
		nd.Cover("valid")
	} else {
		nd.Assert(!got, "with wrong check digits it is not valid")
		nd.Cover("wrong")
	}
}

// Short: any p[0] bytes; p[1] of them are not digits only.
func Short(p []int) {
	in := nd.Bytes("in", p[0])
	for i := p[1]; i < len(in); i++ {
		nd.Assume(lib.Digit(in[i]))
	}
	got := iban.IsValid(string(in))
	valid := iban.IBAN(in).Valid()
	nd.Assert(!got || valid, "what is read is valid")
	if len(in) < 5 || !letter(in[0]) || !letter(in[1]) || !wellFormed(in) {
		nd.Assert(!got, "what is no IBAN is not valid")
		nd.Cover("malformed")
		return
	}
	nd.Cover("formed")
}

// German: the IBAN of p[1] characters of an account at a bank with p[0] characters, p[2] saying
// which character of them is any byte (others are digits).
func German(p []int) {
	bank, acc := nd.Bytes("bank", p[0]), nd.Bytes("account", p[1])
	ok := p[0] == 8 && p[1] > 0 && p[1] <= 10
	for k := range bank {
		if k != p[2] {
			nd.Assume(lib.Digit(bank[k]))
		}
		ok = ok && lib.Digit(bank[k])
	}
	for k := range acc {
		if k+8 != p[2] {
			nd.Assume(lib.Digit(acc[k]))
		}
		ok = ok && lib.Digit(acc[k])
	}
	i, err := iban.NewGerman(string(bank), string(acc))
	if !ok {
		nd.Assert(err != nil, "what is no account is an error")
		nd.Cover("error")
		return
	}
	nd.Assert(err == nil && len(i) == 22, "an account has an IBAN of 22 characters")
	nd.Assert(i.Valid(), "what is made is valid")
	nd.Assert(i.CountryCode() == "DE" && lib.Eq([]byte(i.BankID()), bank), "the bank is the one given")
	nd.Assert(lib.EqS(i.BBAN(), string(bank)+"0000000000"[:10-len(acc)]+string(acc)), "the account is the one given")
	n := 0
	for n < len(acc) && acc[n] == '0' {
		n++
	}
	nd.Assert(lib.Eq([]byte(i.AccountID()), acc[n:]), "the account is the one given, without zeros in front")
	nd.Cover("made")
}

// Print: groups of four.
func Print(p []int) {
	in := nd.Bytes("in", p[0])
	for _, c := range in {
		nd.Assume(alnum[c])
	}
	var want []byte
	for k, c := range in {
		if k > 0 && k%4 == 0 {
			want = append(want, ' ')
		}
		want = append(want, c)
	}
	nd.Assert(lib.Eq([]byte(iban.Print(iban.IBAN(in))), want), "an IBAN is printed in groups of four")
	nd.Cover("end")
}

func cross(dims ...[]int) (out [][]int) {
	out = [][]int{nil}
	for _, d := range dims {
		var next [][]int
		for _, o := range out {
			for _, v := range d {
				next = append(next, append(append([]int{}, o...), v))
			}
		}
		out = next
	}
	return
}

func upto(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return
}

var Harnesses = []nd.H{
	{Name: "New", F: New, Covers: []string{"made", "error"}, Steps: 100_000_000,
		Quick:    append(cross(upto(7), []int{11}, upto(2)), [][]int{{0, 18, 0}, {0, 18, 1}, {0, 1, 1}, {0, 0, 0}, {0, 19, 0}, {1, 18, 2}, {2, 12, 0}, {3, 27, 1}, {3, 28, 1}, {4, 23, 1}, {4, 24, 1}, {5, 18, 1}, {5, 19, 0}, {6, 3, 2}, {6, 30, 0}, {6, 31, 0}}...),
		Thorough: append(cross([]int{0}, upto(20), upto(2)), [][]int{{1, 18, 3}, {3, 27, 3}, {4, 23, 2}, {6, 30, 3}, {0, 18, 18}}...),
		Bound:    "account numbers of the stated length for 7 countries, up to the stated number of characters any bytes and the others digits"},
	{Name: "Back", F: Back, Covers: []string{"back"}, Steps: 100_000_000,
		Quick:    [][]int{{0, 18, 0}, {1, 18, 2}, {3, 27, 1}, {4, 23, 1}, {5, 18, 1}, {6, 3, 2}},
		Thorough: [][]int{{1, 18, 3}, {3, 27, 2}, {5, 18, 2}, {6, 30, 2}},
		Bound:    "account numbers of the stated length for 6 countries, in capitals or not"},
	{Name: "Country", F: Country, Covers: []string{"made", "error"}, Steps: 400_000_000,
		Quick: [][]int{{0, 0}, {1, 1}, {-1, 0}}, Thorough: [][]int{{0, 0}, {1, 3}, {-3, 0}},
		Bound: "all 75 countries of the list, account numbers of their length or one more or less"},
	{Name: "Any", F: Any, Covers: []string{"valid", "wrong", "malformed"}, Steps: 100_000_000,
		Quick:    [][]int{{0, 18, 0}, {0, 4, 1}, {1, 6, 2}, {0, 19, 0}, {0, 0, 0}, {5, 6, 1}},
		Thorough: [][]int{{1, 18, 2}, {3, 27, 1}, {5, 18, 1}, {0, 10, 1}},
		Bound:    "any two check characters in front of account numbers of the stated length"},
	{Name: "Short", F: Short, Covers: []string{"formed", "malformed"}, Steps: 100_000_000,
		Quick:    [][]int{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 2}},
		Thorough: [][]int{{6, 2}},
		Bound:    "any strings of up to 4 bytes, and of up to 6 bytes with digits behind the first 1 or 2"},
	{Name: "German", F: German, Covers: []string{"made", "error"}, Steps: 100_000_000,
		Quick:    append(append(cross([]int{8}, upto(12), []int{-1}), cross([]int{0, 7, 9}, []int{10}, []int{-1})...), cross([]int{8}, []int{10}, []int{0, 7, 8, 17})...),
		Thorough: cross([]int{8}, []int{9, 10}, upto(18)),
		Bound:    "banks of 0, 7, 8 and 9 and accounts of 0 to 11 digits, or one of the characters any byte"},
	{Name: "Print", F: Print, Covers: []string{"end"}, Steps: 100_000_000,
		Quick:    cross([]int{1, 4, 5, 15, 18, 20, 21, 22, 23, 24}),
		Thorough: cross([]int{25, 26, 27, 28, 29, 30, 31, 32, 33, 34}),
		Bound:    "IBANs of up to 34 letters and digits"},
}
