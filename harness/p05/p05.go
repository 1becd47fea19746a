// Package p05: element groups and segments keep every field in its place.
package p05

import (
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

// fields collects the parts a group must have on the wire.
type fields struct {
	lens  []int
	parts [][]byte
}

func (f *fields) next() int {
	if len(f.lens) == 0 {
		return 1
	}
	n := f.lens[0]
	f.lens = f.lens[1:]
	return n
}

func (f *fields) text(name string) string {
	v, iso := lib.Text(name, f.next())
	nd.Assume(!lib.MalformedFloat(append(append([]byte{}, iso...), '+'), 0))
	f.parts = append(f.parts, lib.Escaped(iso))
	return v
}

// num is a number of up to three digits, written with at least width digits.
func (f *fields) num(name string, width int) int {
	k := 3 // digits written
	if width < 3 {
		k = width + nd.Choice(name+" digits", 4-width)
	}
	n := 0
	var d []byte
	for i := 0; i < k; i++ {
		c := nd.Byte(name)
		nd.Assume(c >= '0' && c <= '9' && !(i == 0 && k > width && c == '0'))
		d = append(d, c)
		n = n*10 + int(c-'0')
	}
	f.parts = append(f.parts, d)
	return n
}

func (f *fields) lit(s string) { f.parts = append(f.parts, []byte(s)) }

func (f *fields) bin(name string) []byte {
	n := f.next()
	b := nd.Bytes(name, n)
	f.parts = append(f.parts, append([]byte{'@', byte('0' + n), '@'}, b...))
	return b
}

func (f *fields) flag(name string) bool {
	if nd.Choice(name, 2) == 1 {
		f.lit("J")
		return true
	}
	f.lit("N")
	return false
}

func join(parts [][]byte) []byte {
	n := len(parts)
	for n > 0 && len(parts[n-1]) == 0 {
		n--
	}
	var out []byte
	for i := 0; i < n; i++ {
		if i > 0 {
			out = append(out, ':')
		}
		out = append(out, parts[i]...)
	}
	return out
}

type group struct {
	de    element.DataElement
	blank element.DataElement
	check func() bool
}

var groups = []func(f *fields) group{
	0: func(f *fields) group {
		v := domain.AccountConnection{AccountID: f.text("account"), SubAccountCharacteristics: f.text("sub"), CountryCode: f.num("country", 3), BankID: f.text("bank")}
		b := &element.AccountConnectionDataElement{}
		return group{element.NewAccountConnection(v), b, func() bool { return b.Val() == v }}
	},
	1: func(f *fields) group {
		v := domain.InternationalAccountConnection{IBAN: f.text("iban"), BIC: f.text("bic"), AccountID: f.text("account"), SubAccountCharacteristics: f.text("sub"), BankID: domain.BankID{CountryCode: f.num("country", 3), ID: f.text("bank")}}
		b := &element.InternationalAccountConnectionDataElement{}
		return group{element.NewInternationalAccountConnection(v), b, func() bool { return b.Val() == v }}
	},
	2: func(f *fields) group {
		v := domain.BankID{CountryCode: f.num("country", 3), ID: f.text("bank")}
		b := &element.BankIdentificationDataElement{}
		return group{element.NewBankIdentification(v), b, func() bool { return b.Val() == v }}
	},
	3: func(f *fields) group {
		v := domain.KeyName{BankID: domain.BankID{CountryCode: f.num("country", 3), ID: f.text("bank")}, UserID: f.text("user"), KeyType: "S", KeyNumber: 0, KeyVersion: 0}
		f.lit("S")
		v.KeyNumber = f.num("number", 1)
		f.lit("7")
		v.KeyVersion = 7
		b := &element.KeyNameDataElement{}
		return group{element.NewKeyName(v), b, func() bool { return b.Val() == v }}
	},
	4: func(f *fields) group {
		pin, tan := f.text("pin"), f.text("tan")
		b := &element.PinTanDataElement{}
		return group{element.NewPinTan(pin, tan), b, func() bool {
			if (b.TAN == nil) != (tan == "") || tan != "" && b.TAN.Val() != tan {
				return false
			}
			return b.PIN.Val() == pin
		}}
	},
	5: func(f *fields) group {
		v := domain.MessageReference{DialogID: f.text("dialog"), MessageNumber: f.num("message", 1)}
		b := &element.ReferencingMessageDataElement{}
		return group{element.NewReferencingMessage(v.DialogID, v.MessageNumber), b, func() bool { return b.Val() == v }}
	},
	6: func(f *fields) group {
		v := domain.Acknowledgement{Code: 3076, Params: []string{}}
		f.lit("3076")
		v.ReferenceDataElement, v.Text = f.text("reference"), f.text("text")
		for len(f.lens) > 0 {
			v.Params = append(v.Params, f.text("param"))
		}
		b := &element.AcknowledgementDataElement{}
		return group{element.NewAcknowledgement(v), b, func() bool {
			g := b.Val()
			if g.Code != v.Code || g.ReferenceDataElement != v.ReferenceDataElement || g.Text != v.Text || len(g.Params) != len(v.Params) {
				return false
			}
			for i := range v.Params {
				if g.Params[i] != v.Params[i] {
					return false
				}
			}
			return true
		}}
	},
	7: func(f *fields) group {
		limited := f.next() == 1
		v := domain.BusinessTransaction{ID: f.text("segment"), NeededSignatures: f.num("signatures", 1)}
		var l domain.AccountLimit
		if limited {
			l.Kind = f.text("kind")
			f.lit("1234,5")
			l.Amount.Amount = 1234.5
			l.Amount.Currency = f.text("currency")
			l.Days = f.num("days", 1)
			v.Limit = &l
		}
		b := &element.AllowedBusinessTransactionDataElement{}
		return group{element.NewAllowedBusinessTransaction(v), b, func() bool {
			g := b.Val()
			if g.ID != v.ID || g.NeededSignatures != v.NeededSignatures || (g.Limit == nil) == limited {
				return false
			}
			return !limited || *g.Limit == l
		}}
	},
	8: func(f *fields) group {
		f.lit("1")
		f.lit("")
		id := f.text("system")
		b := &element.SecurityIdentificationDataElement{}
		return group{element.NewRDHSecurityIdentification("MS", id), b, func() bool {
			return b.SecurityHolder.Val() == "1" && b.CID == nil && b.ClientSystemID.Val() == id
		}}
	},
	9: func(f *fields) group {
		id, pos, ver := f.text("id"), f.num("position", 1), 3
		f.lit("3")
		ref := f.num("reference", 1)
		b := &element.SegmentHeader{}
		return group{element.NewReferencingSegmentHeader(id, pos, ver, ref), b, func() bool {
			return b.ID.Val() == id && b.Position.Val() == pos && b.Version.Val() == ver && b.ReferencingSegment() == ref
		}}
	},
	10: func(f *fields) group {
		id, pos := f.text("id"), f.num("position", 1)
		ver := f.num("version", 1)
		b := &element.SegmentHeader{}
		return group{element.NewSegmentHeader(id, pos, ver), b, func() bool {
			return b.ID.Val() == id && b.Position.Val() == pos && b.Version.Val() == ver && b.ReferencingSegment() == -1
		}}
	},
	11: func(f *fields) group {
		var v []domain.PinTanBusinessTransaction
		for n := f.next(); n > 0; n-- {
			v = append(v, domain.PinTanBusinessTransaction{SegmentID: f.text("segment"), NeedsTan: f.flag("tan")})
		}
		b := &element.PinTanBusinessTransactionParameters{}
		return group{element.NewPinTanBusinessTransactionParameters(v), b, func() bool {
			g := b.Val()
			if len(g) != len(v) {
				return false
			}
			for i := range v {
				if g[i] != v[i] {
					return false
				}
			}
			return true
		}}
	},
	12: func(f *fields) group {
		var v []string
		for len(f.lens) > 0 {
			v = append(v, f.text("param"))
		}
		b := &element.ParamsDataElement{}
		return group{element.NewParams(0, 10, v...), b, func() bool {
			g := b.Val()
			if len(g) != len(v) {
				return false
			}
			for i := range v {
				if g[i] != v[i] {
					return false
				}
			}
			return true
		}}
	},
	13: func(f *fields) group {
		v := domain.Address{Name1: f.text("name1"), Name2: f.text("name2"), Street: f.text("street"), PLZ: f.text("plz"), City: f.text("city"), CountryCode: f.num("country", 3), Phone: f.text("phone"), Fax: f.text("fax"), Email: f.text("email")}
		return group{element.NewAddress(v), nil, nil}
	},
	14: func(f *fields) group {
		v := domain.CommunicationParameter{Protocol: f.num("protocol", 1), Address: f.text("address"), AddressAddition: f.text("addition"), FilterFunction: f.text("filter"), FilterFunctionVersion: f.num("version", 1)}
		b := &element.CommunicationParameterDataElement{}
		return group{element.NewCommunicationParameter(v), b, func() bool {
			return b.Protocol.Val() == v.Protocol && b.Address.Val() == v.Address && (v.AddressAddition == "" || b.AddressAddition.Val() == v.AddressAddition) &&
				(v.FilterFunction == "" || b.FilterFunction.Val() == v.FilterFunction) && b.FilterFunctionVersion.Val() == v.FilterFunctionVersion
		}}
	},
	15: func(f *fields) group {
		kind := f.text("kind")
		f.lit("10,25")
		cur, days := f.text("currency"), f.num("days", 1)
		b := &element.AccountLimitDataElement{}
		v := domain.AccountLimit{Kind: kind, Amount: domain.Amount{Amount: 10.25, Currency: cur}, Days: days}
		return group{element.NewAccountLimit(kind, 10.25, cur, days), b, func() bool { return b.Val() == v }}
	},
	16: func(f *fields) group {
		code := f.text("method")
		var vs []int
		for n := f.next(); n > 0; n-- {
			vs = append(vs, f.num("version", 1))
		}
		b := &element.SupportedSecurityMethodDataElement{}
		return group{element.NewSupportedSecurityMethod(code, vs...), b, func() bool {
			if b.MethodCode.Val() != code || len(b.Versions.Versions()) != len(vs) {
				return false
			}
			for i, v := range b.Versions.Versions() {
				if v.Val() != vs[i] {
					return false
				}
			}
			return true
		}}
	},
	17: func(f *fields) group {
		var vs []int
		for n := f.next(); n > 0; n-- {
			vs = append(vs, f.num("version", 1))
		}
		b := &element.SupportedHBCIVersionsDataElement{}
		return group{element.NewSupportedHBCIVersions(vs...), b, func() bool {
			g := b.Value().([]interface{})
			if len(g) != len(vs) {
				return false
			}
			for i, v := range g {
				if v.(int) != vs[i] {
					return false
				}
			}
			return true
		}}
	},
	18: func(f *fields) group {
		typ := f.num("type", 1)
		cert := f.bin("certificate")
		b := &element.CertificateDataElement{}
		return group{element.NewCertificate(typ, cert), b, func() bool {
			return b.CertificateType.Val() == typ && lib.Eq(b.Content.Val(), cert)
		}}
	},
	19: func(f *fields) group {
		f.lit("2")
		f.lit("2")
		f.lit("13")
		key := f.bin("key")
		f.lit("6")
		f.lit("1")
		b := &element.EncryptionAlgorithmDataElement{}
		return group{element.NewRDHEncryptionAlgorithm(key), b, func() bool {
			return b.Usage.Val() == "2" && b.OperationMode.Val() == "2" && b.Algorithm.Val() == "13" && lib.Eq(b.Key.Val(), key) && b.KeyParamID.Val() == "6" && b.InitializationValueParamID.Val() == "1"
		}}
	},
	20: func(f *fields) group {
		f.lit("PIN")
		v := f.num("version", 1)
		b := &element.SecurityProfileDataElement{}
		return group{element.NewPinTanSecurityProfile(v), b, func() bool {
			return b.SecurityMethod.Val() == "PIN" && b.SecurityMethodVersion.Val() == v
		}}
	},
	21: func(f *fields) group {
		pin, tan := f.text("pin"), f.text("tan")
		b := &element.CustomSignatureDataElement{PinTanDataElement: &element.PinTanDataElement{}}
		return group{element.NewCustomSignature(pin, tan), b, func() bool {
			if (b.TAN == nil) != (tan == "") || tan != "" && b.TAN.Val() != tan {
				return false
			}
			return b.PIN.Val() == pin
		}}
	},
	22: func(f *fields) group {
		f.lit("99,5")
		v := domain.Amount{Amount: 99.5, Currency: f.text("currency")}
		b := &element.AmountDataElement{}
		return group{element.NewAmount(v.Amount, v.Currency), b, func() bool { return b.Val() == v }}
	},
}

// Group: a group is written as its escaped parts in order and read back as it was.
func Group(p []int) {
	f := &fields{lens: p[1:]}
	g := groups[p[0]](f)
	want := join(f.parts)
	wire, err := g.de.MarshalHBCI()
	nd.Assert(err == nil, "every group can be written")
	nd.Assert(lib.Eq(wire, want), "the wire form has every part in its place")
	nd.Cover("written")
	if g.blank == nil {
		return
	}
	nd.Assert(g.blank.UnmarshalHBCI(wire) == nil, "the wire form can be read")
	nd.Assert(lib.Eq(wire, want), "reading leaves the wire form as it was")
	nd.Assert(g.check(), "the value read is the value written")
	again, err := g.blank.MarshalHBCI()
	nd.Assert(err == nil && lib.Eq(again, want), "writing it again gives the same bytes")
	nd.Cover("read")
}

var Harnesses = []nd.H{
	{Name: "Group", F: Group, Covers: []string{"written", "read"},
		Quick: [][]int{{0, 2, 0, 1}, {0, 1, 0, 1}, {1, 1, 0, 1, 0, 1}, {1, 0, 1, 0, 1, 1}, {2, 3}, {3, 2, 1}, {3, 1, 2}, {4, 2, 2}, {4, 2, 0}, {5, 3}, {6, 0, 2}, {6, 1, 1, 1}, {6, 0, 1, 1, 0, 1},
			{7, 0, 2}, {7, 1, 0, 1, 1}, {8, 3}, {9, 2}, {10, 2}, {11, 1, 2}, {11, 2, 1, 1}, {12, 2}, {12, 1, 0, 1}, {13, 1, 0, 0, 0, 0, 0, 0, 1}, {13, 0, 0, 1, 1, 0, 0, 0, 0}, {14, 1, 0, 0}, {14, 1, 1, 1},
			{15, 1, 2}, {16, 2, 1}, {16, 1, 2}, {17, 1}, {17, 2}, {18, 2}, {19, 2}, {20}, {21, 2, 2}, {21, 2, 0}, {22, 2}},
		Thorough: [][]int{{0, 1, 1, 2}, {1, 1, 1, 1, 0, 2}, {6, 1, 2, 2}, {7, 1, 1, 1, 2}, {12, 3}, {12, 2, 2}, {11, 2, 2, 1}, {13, 1, 1, 0, 0, 0, 0, 0, 1}, {21, 3, 1}, {14, 2, 1, 1}},
		Bound:    "all element groups with texts of up to 3 characters, binary data of up to 2 bytes and numbers up to 999"},
}
