// Package p12: requests are built in the highest version that the bank supports.
package p12

import (
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

var (
	account = domain.AccountConnection{AccountID: "4711", CountryCode: 280, BankID: "10000000"}
	sepa    = domain.InternationalAccountConnection{IBAN: "DE02", BIC: "BIC", AccountID: "4711", BankID: domain.BankID{CountryCode: 280, ID: "10000000"}}
	day     = time.Date(2020, 2, 3, 0, 0, 0, 0, time.UTC)
)

// kind is a kind of request: its ID, that of its parameters, its versions and how to ask for it.
type kind struct {
	id, params string
	versions   []int
	choose     func(versions []int, all bool) (segment.ClientSegment, error)
	build      func(b segment.Builder, all bool) (segment.ClientSegment, error)
	body       map[int]string // the rest of the request behind the header, J or N for ?
}

// wire hides typed nil pointers.
func wire(ok bool, s segment.ClientSegment, err error) (segment.ClientSegment, error) {
	if !ok {
		return nil, err
	}
	return s, err
}

var kinds = []kind{
	{"HKSAL", "HISALS", []int{5, 6},
		func(v []int, all bool) (segment.ClientSegment, error) {
			f, err := segment.AccountBalanceRequestBuilder(v)
			if err != nil {
				return nil, err
			}
			return f(account, all), nil
		},
		func(b segment.Builder, all bool) (segment.ClientSegment, error) {
			s, err := b.AccountBalanceRequest(account, all)
			return wire(s != nil, s, err)
		},
		map[int]string{5: "4711::280:10000000+?", 6: "4711::280:10000000+?"}},
	{"HKSAL", "HISALS", []int{7, 8},
		func(v []int, all bool) (segment.ClientSegment, error) {
			f, err := segment.SepaAccountBalanceRequestBuilder(v)
			if err != nil {
				return nil, err
			}
			return f(sepa, all), nil
		},
		func(b segment.Builder, all bool) (segment.ClientSegment, error) {
			s, err := b.SepaAccountBalanceRequest(sepa, all)
			return wire(s != nil, s, err)
		},
		map[int]string{7: "DE02:BIC:4711::280:10000000+?", 8: "DE02:BIC:4711::280:10000000+?"}},
	{"HKKAZ", "HIKAZS", []int{5, 6},
		func(v []int, all bool) (segment.ClientSegment, error) {
			f, err := segment.AccountTransactionRequestBuilder(v)
			if err != nil {
				return nil, err
			}
			return f(account, all), nil
		},
		func(b segment.Builder, all bool) (segment.ClientSegment, error) {
			s, err := b.AccountTransactionRequest(account, all)
			return wire(s != nil, s, err)
		},
		map[int]string{5: "4711::280:10000000+?", 6: "4711::280:10000000+?"}},
	{"HKKAZ", "HIKAZS", []int{7},
		func(v []int, all bool) (segment.ClientSegment, error) {
			f, err := segment.SepaAccountTransactionRequestBuilder(v)
			if err != nil {
				return nil, err
			}
			return f(sepa, all), nil
		},
		func(b segment.Builder, all bool) (segment.ClientSegment, error) {
			s, err := b.SepaAccountTransactionRequest(sepa, all)
			return wire(s != nil, s, err)
		},
		map[int]string{7: "DE02:BIC:4711::280:10000000+?"}},
	{"HKPRO", "HIPROS", []int{3, 4},
		func(v []int, all bool) (segment.ClientSegment, error) {
			f, err := segment.StatusProtocolRequestBuilder(v)
			if err != nil {
				return nil, err
			}
			return f(day, day, 7, "ref"), nil
		},
		func(b segment.Builder, all bool) (segment.ClientSegment, error) {
			s, err := b.StatusProtocolRequest(day, day, 7, "ref")
			return wire(s != nil, s, err)
		},
		map[int]string{3: "20200203+20200203+7+ref", 4: "20200203+20200203+7+ref"}},
	{"HKTAN", "", []int{1, 6},
		func(v []int, all bool) (segment.ClientSegment, error) {
			f, err := segment.TanProcess4RequestBuilder(v)
			if err != nil {
				return nil, err
			}
			return f("HKIDN"), nil
		}, nil,
		map[int]string{1: "4", 6: "4+HKIDN"}},
}

// check compares a request with the highest version that both sides support.
func check(k *kind, versions []int, all bool, s segment.ClientSegment, err error) {
	best := -1
	for _, own := range k.versions {
		for _, v := range versions {
			best = nd.IfInt(v == own, own, best)
		}
	}
	if best < 0 {
		nd.Assert(err != nil && s == nil, "without a common version there is an error")
		nd.Cover("none")
		return
	}
	nd.Assert(err == nil && s != nil, "with a common version there is a request")
	if err != nil || s == nil {
		return
	}
	w, err := s.MarshalHBCI()
	nd.Assert(err == nil, "requests can be written")
	flag := byte('N')
	if all {
		flag = 'J'
	}
	for _, own := range k.versions {
		if best == own {
			body := []byte(k.body[own])
			for i, c := range body {
				if c == '?' {
					body[i] = flag
				}
			}
			nd.Assert(lib.EqS(string(w), k.id+":1:"+lib.Dec(own, 1)+"+"+string(body)+"'"), "the request has the highest version that both sides support")
		}
	}
	nd.Cover("some")
}

// Choose: p = kind, number of versions
func Choose(p []int) {
	k := &kinds[p[0]]
	versions := make([]int, p[1], p[1]+1)
	for i := range versions {
		versions[i] = nd.Int("version", -1, 999)
	}
	before := append([]int(nil), versions...)
	all := nd.Bool("all")
	s, err := k.choose(versions, all)
	for i := range versions {
		nd.Assert(versions[i] == before[i], "choosing a version leaves the versions as they are")
	}
	check(k, before, all, s, err)
}

var ids = []string{"HISALS", "HIKAZS", "HIPROS", "HISAL", "HIPRO", "HIKAZ"}

// Build: p = kind, number of supported segments, number of them with an arbitrary ID
func Build(p []int) {
	k := &kinds[p[0]]
	var supported []segment.VersionedSegment
	var versions []int
	for i := 0; i < p[1]; i++ {
		id := ids[nd.Choice("id", len(ids))]
		if i < p[2] {
			b := nd.Bytes("id", 6)
			for j, c := range b {
				nd.Assume(nd.And(c >= 'A', c <= 'Z'))
				if j < 2 {
					nd.Assume(c == "HI"[j])
				}
			}
			id = string(b)
		}
		v := nd.Int("version", 0, 9)
		supported = append(supported, segment.VersionedSegment{ID: id, Version: v})
		if id == k.params {
			versions = append(versions, v)
		}
	}
	before := append([]segment.VersionedSegment(nil), supported...)
	all := nd.Bool("all")
	b := segment.NewBuilder(supported)
	if nd.Bool("other first") {
		kinds[(p[0]+1)%5].build(b, !all)
	}
	s, err := k.build(b, all)
	for i := range before {
		nd.Assert(before[i] == supported[i], "choosing a version leaves the versions as they are")
	}
	check(k, versions, all, s, err)
}

func cross(dims ...[]int) (out [][]int) {
	out = [][]int{nil}
	for _, d := range dims {
		var next [][]int
		for _, o := range out {
			for _, v := range d {
				next = append(next, append(append([]int(nil), o...), v))
			}
		}
		out = next
	}
	return
}

func upto(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return
}

var Harnesses = []nd.H{
	{Name: "Choose", F: Choose, Covers: []string{"none", "some"},
		Quick: cross(upto(6), upto(6)), Thorough: cross(upto(6), upto(7)),
		Bound: "every list of up to 5 (thorough 6) versions of -1 to 999, in every order and with repetitions"},
	{Name: "Build", F: Build, Covers: []string{"none", "some"},
		Quick: append(cross(upto(5), upto(3), []int{0}), cross(upto(5), []int{2}, []int{1})...), Thorough: append(cross(upto(5), upto(4), []int{0}), cross(upto(5), []int{1, 2, 3}, []int{1})...),
		Bound: "every list of up to 3 supported parameter segments, one of them with an arbitrary ID, versions 0 to 9"},
}
