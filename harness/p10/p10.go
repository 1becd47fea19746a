// Package p10: bank segments are decoded with every element in its place.
package p10

import (
	"reflect"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

// in holds the values of a segment: all but one are fixed and distinct.
type in struct {
	val [10]string
	iso [10][]byte
	num int
	dig []byte
	bin []byte
	has bool // whether there is binary data at all
	all bool
	flg string // the flag on the wire, "" if absent
}

func inputs(sym, n int) *in {
	i := &in{}
	fixed := []string{"t0a", "t1b", "t2c", "t3d", "t4e", "t5f", "t6g", "t7h", "t8i", "t9j"}
	for k, s := range fixed {
		i.val[k], i.iso[k] = s, []byte(s)
	}
	i.num, i.dig, i.bin, i.has, i.flg, i.all = 17, []byte("17"), []byte("xx"), true, "J", true
	switch {
	case sym < 0:
	case sym < 10:
		i.val[sym], i.iso[sym] = lib.Text("text", n)
	case sym == 10: // the number
		i.num, i.dig = 0, nil
		for k := 0; k < n; k++ {
			c := nd.Byte("digit")
			nd.Assume(c >= '0' && c <= '9' && !(k == 0 && c == '0' && n > 1))
			i.num = i.num*10 + int(c-'0')
			i.dig = append(i.dig, c)
		}
	case sym == 11: // the binary data
		i.bin = lib.Bytes("data", n)
		i.has = n > 0
	case sym == 12: // the flag
		i.all = n == 1
		i.flg = []string{"N", "J", ""}[n]
	}
	return i
}

// wire renders a template: "$0" to "$9" texts, "$#" the number, "$?" the flag, "$@" binary data.
func (i *in) wire(template string) []byte {
	return lib.Render(template, func(c byte) []byte {
		switch c {
		case '#':
			return i.dig
		case '?':
			return []byte(i.flg)
		case '%':
			return []byte(bin(statement))
		case '@':
			if !i.has {
				return nil
			}
			return append([]byte("@"+lib.Dec(len(i.bin), 1)+"@"), i.bin...)
		}
		return lib.Escaped(i.iso[c-'0'])
	})
}

func (i *in) text(k int, got string) {
	nd.Assert(lib.EqS(got, i.val[k]), "every text is read at its place")
}
func (i *in) number(got int) {
	nd.Assert(got == i.num, "every number is read at its place")
}
func (i *in) flag(got bool) { nd.Assert(got == i.all, "every flag is read at its place") }
func (i *in) data(got []byte) {
	want := i.bin
	if !i.has {
		want = nil
	}
	nd.Assert(lib.Eq(got, want), "binary data is read at its place")
}
func same(ok bool) { nd.Assert(ok, "every fixed element is read at its place") }

func date(y int, m time.Month, d int) time.Time { return time.Date(y, m, d, 0, 0, 0, 0, time.UTC) }
func on(t time.Time, y int, m time.Month, d int) bool {
	return t.Year() == y && t.Month() == m && t.Day() == d
}
func at(t time.Time, h, m, s int) bool { return t.Hour() == h && t.Minute() == m && t.Second() == s }

func (i *in) account(a domain.AccountConnection) {
	i.text(0, a.AccountID)
	i.text(1, a.SubAccountCharacteristics)
	same(a.CountryCode == 280)
	i.text(2, a.BankID)
}

func (i *in) sepaAccount(a domain.InternationalAccountConnection) {
	i.text(0, a.IBAN)
	i.text(1, a.BIC)
	i.text(2, a.AccountID)
	i.text(3, a.SubAccountCharacteristics)
	same(a.BankID.CountryCode == 280)
	i.text(4, a.BankID.ID)
}

func amount(a *domain.Amount, v float64) {
	same(a != nil)
	if a != nil {
		same(a.Amount == v && a.Currency == "EUR")
	}
}

// keyName: 280:$2:$3:S:$#:5
func (i *in) keyName(k *element.KeyNameDataElement) {
	v := k.Val()
	same(v.BankID.CountryCode == 280 && v.KeyType == "S" && v.KeyVersion == 5)
	i.text(2, v.BankID.ID)
	i.text(3, v.UserID)
	i.number(v.KeyNumber)
}

const balances = "+$5+EUR+C:12,5:EUR:20200102:030405+D:3,25:EUR:20200103+1,:EUR+2,:EUR+3,:EUR+20200104+060708+20200105"

func (i *in) balance(a domain.AccountBalance) {
	i.text(5, a.ProductName)
	same(a.Currency == "EUR")
	booked := a.BookedBalance
	same(booked.Amount.Amount == 12.5 && booked.Amount.Currency == "EUR" && on(booked.TransmissionDate, 2020, 1, 2))
	same(booked.TransmissionTime != nil && at(*booked.TransmissionTime, 3, 4, 5))
	same(a.EarmarkedBalance != nil)
	same(a.EarmarkedBalance.Amount.Amount == -3.25 && on(a.EarmarkedBalance.TransmissionDate, 2020, 1, 3) && a.EarmarkedBalance.TransmissionTime == nil)
	amount(a.CreditLimit, 1)
	amount(a.AvailableAmount, 2)
	amount(a.UsedAmount, 3)
	same(a.BookingDate != nil && on(*a.BookingDate, 2020, 1, 4) && at(*a.BookingDate, 6, 7, 8))
	same(a.DueDate != nil && on(*a.DueDate, 2020, 1, 5))
}

// shortBalance: only what is mandatory is there.
func (i *in) shortBalance(a domain.AccountBalance) {
	i.text(5, a.ProductName)
	same(a.Currency == "EUR" && a.BookedBalance.Amount.Amount == 12.5 && on(a.BookedBalance.TransmissionDate, 2020, 1, 2) && a.BookedBalance.TransmissionTime == nil)
	same(a.EarmarkedBalance == nil && a.CreditLimit == nil && a.AvailableAmount == nil && a.UsedAmount == nil && a.BookingDate == nil && a.DueDate == nil)
}

const shortBalances = "+$5+EUR+C:12,5:EUR:20200102"

func (i *in) sepaBalance(a domain.SepaAccountBalance, short bool) {
	i.sepaAccount(a.Account)
	i.text(5, a.ProductName)
	same(a.Currency == "EUR" && a.BookedBalance.Amount.Amount == 12.5 && on(a.BookedBalance.TransmissionDate, 2020, 1, 2))
	if short {
		same(a.EarmarkedBalance == nil && a.CreditLimit == nil && a.AvailableAmount == nil && a.UsedAmount == nil && a.BookingDate == nil && a.DueDate == nil && a.SeizableAfterMonth == nil)
		return
	}
	same(a.EarmarkedBalance != nil && a.EarmarkedBalance.Amount.Amount == -3.25)
	amount(a.CreditLimit, 1)
	amount(a.AvailableAmount, 2)
	amount(a.UsedAmount, 3)
	same(a.BookingDate != nil && on(*a.BookingDate, 2020, 1, 4) && at(*a.BookingDate, 6, 7, 8))
	same(a.DueDate != nil && on(*a.DueDate, 2020, 1, 5))
}

func limit(l *domain.AccountLimit, kind string, v float64, days int) {
	same(l != nil)
	if l != nil {
		same(l.Kind == kind && l.Amount.Amount == v && l.Amount.Currency == "EUR" && l.Days == days)
	}
}

// information: the account of HIUPD with n allowed business transactions.
func (i *in) information(a domain.AccountInformation, n int) {
	i.account(a.AccountConnection)
	i.text(3, a.UserID)
	same(a.Currency == "EUR")
	i.text(4, a.Name1)
	i.text(5, a.Name2)
	i.text(6, a.ProductID)
	limit(a.Limit, "Z", 5.5, 7)
	i.transactions(a.AllowedBusinessTransactions, n)
}

func (i *in) transactions(tr []domain.BusinessTransaction, n int) {
	same(len(tr) == n)
	if len(tr) != n {
		return
	}
	if n > 0 {
		i.text(7, tr[0].ID)
		same(tr[0].NeededSignatures == 1 && tr[0].Limit == nil)
	}
	if n > 1 {
		same(tr[1].ID == "HKSAL")
		i.number(tr[1].NeededSignatures)
		limit(tr[1].Limit, "E", 9, 3)
	}
	if n > 2 {
		same(tr[2].ID == "HKKAZ" && tr[2].NeededSignatures == 0 && tr[2].Limit == nil)
	}
}

const trans = "+$7:1+HKSAL:$#:E:9,:EUR:3+HKKAZ:0"

// statement: one booked transaction of 7,50 and its text.
const statement = "\r\n:20:REF\r\n:25:111/222\r\n:28C:1/1\r\n:60F:C200101EUR1,\r\n:61:2001020102C7,5NMSCNONREF\r\n:86:020?00GUT\r\n:62F:C200102EUR8,5\r\n-"

func bin(s string) string { return "@" + lib.Dec(len(s), 1) + "@" + s }

type kind struct {
	template string
	check    func(i *in, s segment.Segment)
	wrap     func() segment.Unmarshaler
	need     string // the places that are never empty
}

func wrapBalance() segment.Unmarshaler  { return &segment.AccountBalanceResponseSegment{} }
func wrapTrans() segment.Unmarshaler    { return &segment.AccountTransactionResponseSegment{} }
func wrapInfo() segment.Unmarshaler     { return &segment.AccountInformationSegment{} }
func wrapBPD() segment.Unmarshaler      { return &segment.CommonBankParameterSegment{} }
func wrapUPD() segment.Unmarshaler      { return &segment.CommonUserParameterDataSegment{} }
func wrapPin() segment.Unmarshaler      { return &segment.PinTanBankParameterSegment{} }
func wrapTanBPD() segment.Unmarshaler   { return &segment.TanBankParameterSegment{} }
func wrapTan() segment.Unmarshaler      { return &segment.TanResponseSegment{} }
func wrapSync() segment.Unmarshaler     { return &segment.SynchronisationResponseSegment{} }
func wrapStatus() segment.Unmarshaler   { return &segment.StatusProtocolResponseSegment{} }
func wrapSignHead() segment.Unmarshaler { return &segment.SignatureHeaderSegment{} }
func wrapSignEnd() segment.Unmarshaler  { return &segment.SignatureEndSegment{} }
func wrapCrypt() segment.Unmarshaler    { return &segment.EncryptionHeaderSegment{} }

type acknowledging interface {
	Acknowledgements() []domain.Acknowledgement
}

func acks(i *in, s segment.Segment, ref int) {
	a, ok := s.(acknowledging)
	same(ok)
	list := a.Acknowledgements()
	same(len(list) == 2)
	i.number(list[0].Code)
	i.text(0, list[0].ReferenceDataElement)
	i.text(1, list[0].Text)
	same(len(list[0].Params) == 2 && list[0].Params[1] == "p2")
	i.text(2, list[0].Params[0])
	same(list[1].Code == 9010 && list[1].ReferenceDataElement == "" && len(list[1].Params) == 0)
	i.text(3, list[1].Text)
	same(list[0].ReferencingSegmentNumber == ref && list[1].ReferencingSegmentNumber == ref)
}

const ackList = "+$#:$0:$1:$2:p2+9010::$3"

func signature(i *in, id *element.SecurityIdentificationDataElement) {
	same(id.SecurityHolder.Val() == "1")
	i.text(1, id.ClientSystemID.Val())
}

var kinds = []kind{
	0: {"HISAL:5:5:3+$0:$1:280:$2" + balances, func(i *in, s segment.Segment) {
		a := s.(segment.AccountBalanceResponse).AccountBalance()
		i.account(a.Account)
		i.balance(a)
	}, wrapBalance, "2"},
	1: {"HISAL:5:6:3+$0:$1:280:$2" + balances, func(i *in, s segment.Segment) {
		a := s.(segment.AccountBalanceResponse).AccountBalance()
		i.account(a.Account)
		i.balance(a)
	}, wrapBalance, "2"},
	2: {"HISAL:5:7:3+$0:$1:$2:$3:280:$4" + balances, func(i *in, s segment.Segment) {
		r := s.(segment.AccountBalanceResponse)
		i.balance(r.AccountBalance())
		a, err := r.SepaAccountBalance()
		same(err == nil)
		i.sepaBalance(a, false)
	}, wrapBalance, "4"},
	3: {"HISAL:5:8:3+$0:$1:$2:$3:280:$4" + balances, func(i *in, s segment.Segment) {
		r := s.(segment.AccountBalanceResponse)
		i.balance(r.AccountBalance())
		a, err := r.SepaAccountBalance()
		same(err == nil)
		i.sepaBalance(a, false)
	}, wrapBalance, "4"},
	4: {"HISAL:5:5:3+$0:$1:280:$2" + shortBalances, func(i *in, s segment.Segment) {
		i.shortBalance(s.(segment.AccountBalanceResponse).AccountBalance())
	}, wrapBalance, "2"},
	5: {"HISAL:5:6:3+$0:$1:280:$2" + shortBalances, func(i *in, s segment.Segment) {
		i.shortBalance(s.(segment.AccountBalanceResponse).AccountBalance())
	}, wrapBalance, "2"},
	6: {"HISAL:5:7:3+$0:$1:$2:$3:280:$4" + shortBalances, func(i *in, s segment.Segment) {
		r := s.(segment.AccountBalanceResponse)
		i.shortBalance(r.AccountBalance())
		a, err := r.SepaAccountBalance()
		same(err == nil)
		i.sepaBalance(a, true)
	}, wrapBalance, "4"},
	7: {"HISAL:5:8:3+$0:$1:$2:$3:280:$4" + shortBalances, func(i *in, s segment.Segment) {
		r := s.(segment.AccountBalanceResponse)
		i.shortBalance(r.AccountBalance())
		a, err := r.SepaAccountBalance()
		same(err == nil)
		i.sepaBalance(a, true)
	}, wrapBalance, "4"},
	8: {"HIUPD:5:4:3+$0:$1:280:$2+$3+EUR+$4+$5+$6+Z:5,5:EUR:7" + trans, func(i *in, s segment.Segment) {
		i.information(s.(segment.AccountInformation).Account(), 3)
	}, wrapInfo, "2#"},
	9: {"HIUPD:5:5:3+$0:$1:280:$2+$3+1+EUR+$4+$5+$6+Z:5,5:EUR:7" + trans, func(i *in, s segment.Segment) {
		i.information(s.(segment.AccountInformation).Account(), 3)
	}, wrapInfo, "2#"},
	10: {"HIUPD:5:6:3+$0:$1:280:$2+IBAN+$3+1+EUR+$4+$5+$6+Z:5,5:EUR:7" + trans, func(i *in, s segment.Segment) {
		i.information(s.(segment.AccountInformation).Account(), 3)
	}, wrapInfo, "2#"},
	11: {"HIUPD:5:7:3+$0:$1:280:$2+IBAN+$3+1+EUR+$4+$5+$6+Z:5,5:EUR:7" + trans, func(i *in, s segment.Segment) {
		i.information(s.(segment.AccountInformation).Account(), 3)
	}, wrapInfo, "2#"},
	12: {"HIUPD:5:6:3+$0:$1:280:$2+$8+$3+$#+EUR+$4+$5+$6+Z:5,5:EUR:7+$7:1+$9", func(i *in, s segment.Segment) {
		i.information(s.(segment.AccountInformation).Account(), 1)
		a := s.(*segment.AccountInformationV6)
		i.text(8, a.IBAN.Val())
		i.number(a.AccountType.Val())
		i.text(9, a.AccountExtensions.Val())
	}, nil, "27"},
	13: {"HIUPD:5:7:3+$0:$1:280:$2+$8+$3+$#+EUR+$4+$5+$6+Z:5,5:EUR:7+$7:1+$9", func(i *in, s segment.Segment) {
		i.information(s.(segment.AccountInformation).Account(), 1)
		a := s.(*segment.AccountInformationV7)
		i.text(8, a.IBAN.Val())
		i.number(a.AccountType.Val())
		i.text(9, a.AccountExtensions.Val())
	}, nil, "27"},
	14: {"HIUPD:5:4:3+$0:$1:280:$2+$3+EUR+$4", func(i *in, s segment.Segment) {
		a := s.(segment.AccountInformation).Account()
		i.account(a.AccountConnection)
		i.text(3, a.UserID)
		i.text(4, a.Name1)
		same(a.Currency == "EUR" && a.Name2 == "" && a.ProductID == "" && a.Limit == nil && len(a.AllowedBusinessTransactions) == 0)
	}, wrapInfo, "2"},
	15: {"HIUPD:5:5:3++$3+++$4++++$7:1", func(i *in, s segment.Segment) {
		a := s.(segment.AccountInformation).Account()
		i.text(3, a.UserID)
		i.text(4, a.Name1)
		same(a.Currency == "" && a.AccountConnection == domain.AccountConnection{} && a.Limit == nil)
		i.transactions(a.AllowedBusinessTransactions, 1)
	}, wrapInfo, "7"},
	16: {"HIUPA:4:2:3+$0+$#+1", func(i *in, s segment.Segment) {
		u := s.(segment.CommonUserParameterData).UserParameterData()
		i.text(0, u.UserID)
		i.number(u.Version)
		same(u.Usage == 1 && u.UserName == "" && u.Additions == "")
	}, wrapUPD, ""},
	17: {"HIUPA:4:3:3+$0+$#+1+$1+$2", func(i *in, s segment.Segment) {
		u := s.(segment.CommonUserParameterData).UserParameterData()
		i.text(0, u.UserID)
		i.number(u.Version)
		i.text(1, u.UserName)
		i.text(2, u.Additions)
		same(u.Usage == 1)
	}, wrapUPD, ""},
	18: {"HIUPA:4:4:3+$0+$#+1+$1+$2", func(i *in, s segment.Segment) {
		u := s.(segment.CommonUserParameterData).UserParameterData()
		i.text(0, u.UserID)
		i.number(u.Version)
		i.text(1, u.UserName)
		i.text(2, u.Additions)
		same(u.Usage == 1)
	}, wrapUPD, ""},
	19: {"HIUPA:4:4:3+$0+12+$#", func(i *in, s segment.Segment) {
		u := s.(segment.CommonUserParameterData).UserParameterData()
		i.text(0, u.UserID)
		i.number(u.Usage)
		same(u.Version == 12 && u.UserName == "" && u.Additions == "")
	}, wrapUPD, ""},
	20: {"HIBPA:4:2:3+$#+280:$0+$1+3+1:2+220:300+9999", func(i *in, s segment.Segment) {
		b := s.(segment.CommonBankParameter).BankParameterData()
		i.number(b.Version)
		i.text(0, b.BankID.ID)
		i.text(1, b.BankName)
		same(b.BankID.CountryCode == 280 && b.MaxTransactionsPerMessage == 3 && b.MaxMessageSize == 9999)
	}, wrapBPD, "0"},
	21: {"HIBPA:4:3:3+12+280:$0+$1+3+1:2+220:300+$#+10+300", func(i *in, s segment.Segment) {
		b := s.(segment.CommonBankParameter).BankParameterData()
		i.number(b.MaxMessageSize)
		i.text(0, b.BankID.ID)
		i.text(1, b.BankName)
		same(b.BankID.CountryCode == 280 && b.MaxTransactionsPerMessage == 3 && b.Version == 12 && b.MinTimeout == 10 && b.MaxTimeout == 300)
		v := s.(*segment.CommonBankParameterV3)
		l := v.SupportedLanguages.Languages()
		same(len(l) == 2 && l[0].Val() == 1 && l[1].Val() == 2)
		same(len(v.SupportedHBCIVersions.GroupDataElements()) == 2)
	}, nil, "0"},
	22: {"HIBPA:4:3:3+12+280:$0+$1+$#+3+300", func(i *in, s segment.Segment) {
		b := s.(segment.CommonBankParameter).BankParameterData()
		i.number(b.MaxTransactionsPerMessage)
		i.text(0, b.BankID.ID)
		i.text(1, b.BankName)
		same(b.MaxMessageSize == 0 && b.MinTimeout == 0 && b.MaxTimeout == 0)
	}, wrapBPD, "0"},
	23: {"HISYN:5:3:6+$0+$#+9", func(i *in, s segment.Segment) {
		r := s.(segment.SynchronisationResponse)
		i.text(0, r.ClientSystemID())
		i.number(r.LastMessageNumber())
		same(r.SignatureID() == 9)
	}, wrapSync, ""},
	24: {"HISYN:5:4:6+$0+8+$#", func(i *in, s segment.Segment) {
		r := s.(segment.SynchronisationResponse)
		i.text(0, r.ClientSystemID())
		i.number(r.SignatureID())
		same(r.LastMessageNumber() == 8)
	}, wrapSync, ""},
	25: {"HISYN:5:3:6+$0", func(i *in, s segment.Segment) {
		r := s.(segment.SynchronisationResponse)
		i.text(0, r.ClientSystemID())
		same(r.LastMessageNumber() == 0 && r.SignatureID() == 0)
	}, wrapSync, ""},
	26: {"HIKIM:6:2:3+$0+$1", func(i *in, s segment.Segment) {
		b := s.(*segment.BankAnnouncementSegment)
		i.text(0, b.Subject.Val())
		i.text(1, b.Body.Val())
	}, nil, ""},
	27: {"HIKOM:6:3:3+280:$0+$#+2:$1:$2:MIM:1", func(i *in, s segment.Segment) {
		c := s.(*segment.CommunicationAccessResponseSegment)
		same(c.BankID.Val().CountryCode == 280)
		i.text(0, c.BankID.Val().ID)
		i.number(c.StandardLanguage.Val())
		same(c.CommunicationParams.Protocol.Val() == 2)
		i.text(1, c.CommunicationParams.Address.Val())
		i.text(2, c.CommunicationParams.AddressAddition.Val())
		same(c.CommunicationParams.FilterFunction.Val() == "MIM" && c.CommunicationParams.FilterFunctionVersion.Val() == 1)
	}, nil, "0"},
	28: {"HNHBK:1:3+000000000123+300+$0+4+$1:$#", func(i *in, s segment.Segment) {
		h := s.(*segment.MessageHeaderSegment)
		same(h.Size.Val() == 123 && h.HBCIVersion.Val() == 300 && h.Number.Val() == 4)
		i.text(0, h.DialogID.Val())
		i.text(1, h.ReferencingMessage().DialogID)
		i.number(h.ReferencingMessage().MessageNumber)
	}, nil, "#"},
	29: {"HNHBK:1:3+000000000123+300+$0+$#", func(i *in, s segment.Segment) {
		h := s.(*segment.MessageHeaderSegment)
		i.text(0, h.DialogID.Val())
		i.number(h.Number.Val())
		same(h.ReferencingMessage() == domain.MessageReference{})
	}, nil, ""},
	30: {"HNHBS:7:1+$#", func(i *in, s segment.Segment) { i.number(s.(*segment.MessageEndSegment).Number.Val()) }, nil, ""},
	31: {"HNVSD:999:1+$@", func(i *in, s segment.Segment) { i.data(s.(*segment.EncryptedDataSegment).Data.Val()) }, nil, ""},
	32: {"HNVSK:998:2+998+1+1::$1+1:20200102:030405+2:2:13:$@:5:1+280:$2:$3:S:$#:5+0", func(i *in, s segment.Segment) {
		e := s.(*segment.EncryptionHeaderV2)
		same(e.SecurityFunction.Val() == "998" && e.SecuritySupplierRole.Val() == "1" && e.CompressionFunction.Val() == "0")
		signature(i, e.SecurityID)
		same(on(e.SecurityDate.Date.Val(), 2020, 1, 2) && at(e.SecurityDate.Time.Val(), 3, 4, 5))
		i.keyName(e.KeyName)
		same(e.EncryptionAlgorithm.Usage.Val() == "2" && e.EncryptionAlgorithm.OperationMode.Val() == "2" && e.EncryptionAlgorithm.Algorithm.Val() == "13")
		i.data(e.EncryptionAlgorithm.Key.Val())
	}, wrapCrypt, "1"},
	33: {"HNVSK:998:3+PIN:2+998+1+1::$1+1:20200102:030405+2:2:13:$@:5:1+280:$2:$3:S:$#:5+0", func(i *in, s segment.Segment) {
		e := s.(*segment.EncryptionHeaderSegmentV3)
		same(e.SecurityFunction.Val() == "998" && e.SecuritySupplierRole.Val() == "1" && e.CompressionFunction.Val() == "0")
		same(e.SecurityProfile.SecurityMethod.Val() == "PIN" && e.SecurityProfile.SecurityMethodVersion.Val() == 2)
		signature(i, e.SecurityID)
		i.keyName(e.KeyName)
		i.data(e.EncryptionAlgorithm.Key.Val())
	}, wrapCrypt, "1"},
	34: {"HNSHK:2:3+999+$0+1+1+1::$1+7+1:20200102:030405+1:999:1+6:10:16+280:$2:$3:S:$#:5", func(i *in, s segment.Segment) {
		h := s.(*segment.SignatureHeaderV3)
		same(h.SecurityFunction.Val() == "999" && h.SecurityApplicationRange.Val() == "1" && h.SecuritySupplierRole.Val() == "1" && h.SecurityRefNumber.Val() == 7)
		i.text(0, h.SecurityControlRef.Val())
		signature(i, h.SecurityID)
		i.keyName(h.KeyName)
		same(h.HashAlgorithm.Algorithm.Val() == "999" && h.SignatureAlgorithm.Algorithm.Val() == "10" && h.SignatureAlgorithm.OperationMode.Val() == "16")
	}, wrapSignHead, "1"},
	35: {"HNSHK:2:4+PIN:1+912+$0+1+1+1::$1+7+1:20200102:030405+1:999:1+6:10:16+280:$2:$3:S:$#:5", func(i *in, s segment.Segment) {
		h := s.(*segment.SignatureHeaderSegmentV4)
		same(h.SecurityProfile.SecurityMethod.Val() == "PIN" && h.SecurityFunction.Val() == "912" && h.SecurityApplicationRange.Val() == "1" && h.SecuritySupplierRole.Val() == "1" && h.SecurityRefNumber.Val() == 7)
		i.text(0, h.SecurityControlRef.Val())
		signature(i, h.SecurityID)
		i.keyName(h.KeyName)
	}, wrapSignHead, "1"},
	36: {"HNSHA:7:1+$0+$@+$1:$2", func(i *in, s segment.Segment) {
		e := s.(*segment.SignatureEndV1)
		i.text(0, e.SecurityControlRef.Val())
		i.data(e.Signature.Val())
		i.text(1, e.PinTan.PIN.Val())
		i.text(2, e.PinTan.TAN.Val())
	}, wrapSignEnd, "1"},
	37: {"HNSHA:7:2+$0+$@+$1:$2", func(i *in, s segment.Segment) {
		e := s.(*segment.SignatureEndV2)
		i.text(0, e.SecurityControlRef.Val())
		i.data(e.Signature.Val())
		i.text(1, e.CustomSignature.PIN.Val())
		i.text(2, e.CustomSignature.TAN.Val())
	}, wrapSignEnd, "1"},
	38: {"HIPRO:5:3:3+$0:$#+6+20200102+030405+3020:$1:$2:$3", func(i *in, s segment.Segment) { status(i, s, true) }, wrapStatus, "#"},
	39: {"HIPRO:5:4:3+$0:$#+6+20200102+030405+3020:$1:$2:$3", func(i *in, s segment.Segment) { status(i, s, true) }, wrapStatus, "#"},
	40: {"HIPRO:5:3:3+$0:$#++20200102+030405+3020:$1:$2:$3", func(i *in, s segment.Segment) { status(i, s, false) }, wrapStatus, "#"},
	41: {"HIPRO:5:4:3+$0:$#++20200102+030405+3020:$1:$2:$3", func(i *in, s segment.Segment) { status(i, s, false) }, wrapStatus, "#"},
	42: {"HITAN:5:6:4+4+$@+$0+$1+" + bin("chall") + "+$2+20200102:030405", func(i *in, s segment.Segment) {
		t := s.(*segment.TanResponseSegmentV6)
		same(t.TANProcess.Val() == "4" && string(t.ChallengeHHD_UC.Val()) == "chall")
		i.data(t.JobHash.Val())
		i.text(0, t.JobReference.Val())
		i.text(1, t.Challenge.Val())
		i.text(2, t.TANMediumDescription.Val())
		same(t.ChallengeExpiryDate != nil && on(t.ChallengeExpiryDate.Date.Val(), 2020, 1, 2) && at(t.ChallengeExpiryDate.Time.Val(), 3, 4, 5))
	}, wrapTan, ""},
	43: {"HITAN:5:6:4+4++$0+$1", func(i *in, s segment.Segment) {
		t := s.(*segment.TanResponseSegmentV6)
		same(t.TANProcess.Val() == "4" && t.ChallengeExpiryDate == nil)
		i.text(0, t.JobReference.Val())
		i.text(1, t.Challenge.Val())
	}, wrapTan, ""},
	44: {"HIPINS:5:1:3+$#+1+0+5:6:6:$0:$1:$2:J:HKSAL:$?:HKKAZ:N", func(i *in, s segment.Segment) {
		p := s.(*segment.PinTanBankParameterV1)
		i.number(p.MaxJobs.Val())
		same(p.MinSignatures.Val() == 1)
		pinTan(i, p.PinTanBusinessTransactions(), "J")
	}, wrapPin, "#?"},
	45: {"DIPINS:5:1:3+$#+1+$2:J:HKSAL:$?:HKKAZ:N", func(i *in, s segment.Segment) {
		p := s.(segment.PinTanBusinessTransactionParams)
		i.number(s.(*segment.PinTanBusinessTransactionParamsSegment).MaxJobs.Val())
		pinTan(i, p.PinTanBusinessTransactions(), "J")
	}, nil, "#?"},
	46: {"HITANS:5:6:4+$#+1+1+$?:N:0:910:2:$0:$1:13:$2:6:1:$3:3:J:2:N:0:0:N:N:00:0:N:1:911:2:x:y:14:z:6:1:w:3:J:2:N:0:0:N:N:00:0:N:2", func(i *in, s segment.Segment) {
		t := s.(*segment.TanBankParameterV6)
		i.number(t.MaxJobs.Val())
		same(t.MinSignatures.Val() == 1 && t.SecurityClass.Val() == "1")
		p := t.Tan2StepSubmissionParameter
		i.flag(p.OneStepProcessAllowed.Val())
		same(!p.MoreThanOneObligatoryTanJobAllowed.Val() && p.JobHashMethod.Val() == "0")
		list := p.ProcessParameters.GroupDataElements()
		same(len(list) == 2)
		a := list[0].(*element.Tan2StepSubmissionProcessParameterV6)
		same(a.SecurityFunction.Val() == "910" && a.TanProcess.Val() == "2" && a.ZKATanProcessVersion.Val() == "13")
		i.text(0, a.TechnicalIDTanProcess.Val())
		i.text(1, a.ZKATanProcess.Val())
		i.text(2, a.TwoStepProcessName.Val())
		i.text(3, a.TwoStepProcessReturnValueText.Val())
		same(a.TwoStepProcessMaxInputValue.Val() == 6 && a.TwoStepProcessReturnValueTextMaxLength.Val() == 3 && a.MultiTANAllowed.Val() && !a.JobCancellationAllowed.Val() && a.InitializationMode.Val() == "00" && a.SupportedActiveTanMedia.Val() == 1)
		b := list[1].(*element.Tan2StepSubmissionProcessParameterV6)
		same(b.SecurityFunction.Val() == "911" && b.TwoStepProcessName.Val() == "z" && b.SupportedActiveTanMedia.Val() == 2)
	}, wrapTanBPD, "?"},
	47: {"HIKPV:5:1:3+0", func(i *in, s segment.Segment) {
		m := s.(*segment.CompressionMethodSegment).SupportedCompressionMethods.GroupDataElements()
		same(len(m) == 1 && m[0].(*element.CodeDataElement).Val() == "0")
	}, nil, ""},
	48: {"HISHV:5:2:3+$?+RDH:1:$#", func(i *in, s segment.Segment) {
		m := s.(*segment.SecurityMethodSegment)
		i.flag(m.MixAllowed.Val())
		same(m.SupportedMethods.MethodCode.Val() == "RDH")
		v := m.SupportedMethods.Versions.Versions()
		same(len(v) >= 1 && v[0].Val() == 1)
		i.number(v[len(v)-1].Val())
	}, nil, "#"},
	49: {"HIRMG:2:2" + ackList, func(i *in, s segment.Segment) { acks(i, s, 0) }, nil, "#3"},
	50: {"HIRMS:3:2:4" + ackList, func(i *in, s segment.Segment) { acks(i, s, 4) }, nil, "#3"},
	51: {"HIKIF:5:1:3+$0:$1:280:$2+$#+$3+$4+$5+EUR+20200102+1,5+2,5+3,5+9,:EUR+r0:r1:280:r2+1+2+$6+$7:x+y", func(i *in, s segment.Segment) {
		a := s.(*segment.AccountInformationResponseSegment)
		i.account(a.AccountConnection.Val())
		i.number(a.AccountKind.Val())
		i.text(3, a.Name1.Val())
		i.text(4, a.Name2.Val())
		i.text(5, a.AccountProductID.Val())
		same(a.AccountCurrency.Val() == "EUR" && on(a.OpeningDate.Val(), 2020, 1, 2))
		same(a.DebitInterest.Val() == 1.5 && a.CreditInterest.Val() == 2.5 && a.OverDebitInterest.Val() == 3.5)
		limit := a.CreditLimit.Val()
		amount(&limit, 9)
		same(a.ReferenceAccount.Val() == domain.AccountConnection{AccountID: "r0", SubAccountCharacteristics: "r1", CountryCode: 280, BankID: "r2"})
		same(a.AccountStatementShippingType.Val() == 1 && a.AccountStatementShippingRotation.Val() == 2)
		i.text(6, a.AdditionalInformation.Val())
		same(a.DisposalEligiblePersons != nil)
	}, nil, "2"},
	52: {"HIKAZ:5:5:3+$%+$@", func(i *in, s segment.Segment) {
		i.data(s.(*segment.AccountTransactionResponseSegmentV5).UnbookedTransactions.Val())
		booked(s)
	}, wrapTrans, ""},
	53: {"HIKAZ:5:6:3+$%+$@", func(i *in, s segment.Segment) {
		i.data(s.(*segment.AccountTransactionResponseSegmentV6).UnbookedTransactions.Val())
		booked(s)
	}, wrapTrans, ""},
	54: {"HIKAZ:5:7:3+$%+$@", func(i *in, s segment.Segment) {
		i.data(s.(*segment.AccountTransactionResponseSegmentV7).UnbookedTransactions.Val())
		booked(s)
	}, wrapTrans, ""},
	55: {"HISAL:5:7:3+$0:$1" + shortBalances, func(i *in, s segment.Segment) {
		r := s.(segment.AccountBalanceResponse)
		i.shortBalance(r.AccountBalance())
		a, err := r.SepaAccountBalance()
		same(err == nil)
		i.text(0, a.Account.IBAN)
		i.text(1, a.Account.BIC)
		same(a.Account.AccountID == "" && a.Account.SubAccountCharacteristics == "" && a.Account.BankID == domain.BankID{})
	}, wrapBalance, ""},
	56: {"HIUPD:5:6:3+$0:$1:280:$2+$8+$3+1+EUR+$4+$5+$6++$7:1+HKSAL:$#+HKKAZ:0+$9", func(i *in, s segment.Segment) {
		a := s.(segment.AccountInformation).Account()
		i.account(a.AccountConnection)
		i.text(3, a.UserID)
		same(a.Limit == nil && len(a.AllowedBusinessTransactions) == 3)
		if len(a.AllowedBusinessTransactions) == 3 {
			i.text(7, a.AllowedBusinessTransactions[0].ID)
			i.number(a.AllowedBusinessTransactions[1].NeededSignatures)
			same(a.AllowedBusinessTransactions[2].ID == "HKKAZ")
		}
		i.text(9, s.(*segment.AccountInformationV6).AccountExtensions.Val())
	}, nil, "27#"},
	57: {"HIUPD:5:7:3+$0:$1:280:$2+$8+$3+1+EUR+$4+++" + "+$7:1+HKSAL:$#", func(i *in, s segment.Segment) {
		a := s.(segment.AccountInformation).Account()
		i.account(a.AccountConnection)
		same(a.Limit == nil && len(a.AllowedBusinessTransactions) == 2)
		if len(a.AllowedBusinessTransactions) == 2 {
			i.text(7, a.AllowedBusinessTransactions[0].ID)
			i.number(a.AllowedBusinessTransactions[1].NeededSignatures)
		}
		same(s.(*segment.AccountInformationV7).AccountExtensions == nil)
	}, nil, "27#"},
	58: {"HIUPD:5:4:3+$0:$1:280:$2+$3+EUR+$4+$5+$6+Z:5,5:EUR:7", func(i *in, s segment.Segment) {
		i.information(s.(segment.AccountInformation).Account(), 0)
	}, wrapInfo, "2"},
	59: {"HIUPD:5:5:3+$0:$1:280:$2+$3+1+EUR+$4+$5+$6+Z:5,5:EUR:7", func(i *in, s segment.Segment) {
		i.information(s.(segment.AccountInformation).Account(), 0)
	}, wrapInfo, "2"},
	60: {"HIUPD:5:6:3+$0:$1:280:$2+IBAN+$3+1+EUR+$4+$5+$6+Z:5,5:EUR:7", func(i *in, s segment.Segment) {
		i.information(s.(segment.AccountInformation).Account(), 0)
	}, wrapInfo, "2"},
	61: {"HIUPD:5:7:3+$0:$1:280:$2+IBAN+$3+1+EUR+$4+$5+$6+Z:5,5:EUR:7", func(i *in, s segment.Segment) {
		i.information(s.(segment.AccountInformation).Account(), 0)
	}, wrapInfo, "2"},
}

func booked(s segment.Segment) {
	m := s.(segment.AccountTransactionResponse).BookedSwiftTransactions()
	same(m != nil)
	if m != nil {
		same(string(m.Data) == statement)
	}
}

func pinTan(i *in, tr []domain.PinTanBusinessTransaction, first string) {
	same(len(tr) == 3)
	if len(tr) == 3 {
		i.text(2, tr[0].SegmentID)
		same(tr[0].NeedsTan && tr[1].SegmentID == "HKSAL" && tr[2].SegmentID == "HKKAZ" && !tr[2].NeedsTan)
		i.flag(tr[1].NeedsTan)
	}
}

func status(i *in, s segment.Segment, ref bool) {
	a := s.(segment.StatusProtocolResponse).Status()
	i.text(0, a.ReferencingMessage.DialogID)
	i.number(a.ReferencingMessage.MessageNumber)
	same(a.Code == 3020 && on(a.TransmittedAt, 2020, 1, 2) && at(a.TransmittedAt, 3, 4, 5))
	i.text(1, a.ReferenceDataElement)
	i.text(2, a.Text)
	same(len(a.Params) <= 1 && a.IsSegmentAcknowledgement() == ref && a.IsMessageAcknowledgement() == !ref && (a.ReferencingSegmentNumber == 6) == ref)
	if len(a.Params) == 1 {
		i.text(3, a.Params[0])
	}
}

// Segment: a bank segment as it comes over the wire is read with every element in its place.
func Segment(p []int) {
	k, sym := kinds[p[0]], p[1]
	i := inputs(sym, p[2])
	wire := i.wire(k.template)
	head := strings.Split(strings.Split(k.template, "+")[0], ":")
	id := segment.VersionedSegment{ID: head[0], Version: int(head[2][0] - '0')}
	u, err := segment.KnownSegments.UnmarshalerForSegment(id)
	nd.Assert(err == nil, "every bank segment is known")
	if err != nil {
		return
	}
	keep := append([]byte(nil), wire...)
	err = u.UnmarshalHBCI(wire)
	nd.Assert(err == nil, "every bank segment can be read")
	if err != nil {
		return
	}
	nd.Assert(lib.Eq(keep, wire), "the bytes of a segment stay as they are")
	s := u.(segment.Segment)
	h := s.Header()
	pos, ref := number(head[1]), -1
	if len(head) > 3 {
		ref = number(head[3])
	}
	nd.Assert(h.ID.Val() == id.ID && h.Version.Val() == id.Version && h.Position.Val() == pos && h.ReferencingSegment() == ref, "the header of a segment is read")
	k.check(i, s)
	nd.Cover("read")
	if k.wrap == nil {
		return
	}
	w := k.wrap()
	err = w.UnmarshalHBCI(wire)
	nd.Assert(err == nil, "every bank segment can be read")
	if err != nil {
		return
	}
	h = w.(segment.Segment).Header()
	nd.Assert(h.ID.Val() == id.ID && h.Version.Val() == id.Version, "the header of a segment is read")
	if b, ok := w.(segment.AccountBalanceResponse); ok {
		i.text(5, b.AccountBalance().ProductName)
	}
	if b, ok := w.(segment.SynchronisationResponse); ok {
		i.text(0, b.ClientSystemID())
	}
	if b, ok := w.(segment.CommonUserParameterData); ok {
		i.text(0, b.UserParameterData().UserID)
	}
	if b, ok := w.(segment.CommonBankParameter); ok {
		i.text(1, b.BankParameterData().BankName)
	}
	if b, ok := w.(segment.AccountInformation); ok {
		i.text(3, b.Account().UserID)
	}
}

// repeated is one kind of repeated elements: the bytes of a segment with n of them and a check of
// the k-th one, whose text is given.
type repeated struct {
	head, first, next, tail string
	list                    func(s segment.Segment) int
	at                      func(s segment.Segment, k int) (text string, num int)
}

var repeats = []repeated{
	{"HIUPD:5:4:3+a::280:b+u+EUR+n+m+p+", "", "+$t:$n", "", countTransactions, transaction},
	{"HIUPD:5:5:3+a::280:b+u+1+EUR+n+m+p+", "", "+$t:$n:E:9,:EUR:3", "", countTransactions, transaction},
	{"HIUPD:5:6:3+a::280:b+i+u+1+EUR+n+m+p+", "", "+$t:$n", "", countTransactions, transaction},
	{"HIUPD:5:7:3+a::280:b+i+u+1+EUR+n+m+p+", "", "+$t:$n:Z:9,:EUR", "", countTransactions, transaction},
	{"HIRMG:2:2", "", "+$n:1,2:$t:p", "", countAcks, acknowledgement},
	{"HIRMS:2:2:3", "", "+$n::$t", "", countAcks, acknowledgement},
	{"HIPINS:5:1:3+1+1+0+5:6:6:a:b", "", ":$t:$f", "", countPins, pinJob},
	{"DIPINS:5:1:3+1+1+", "$t:$f", ":$t:$f", "", countPins, pinJob},
	{"HITANS:5:6:4+1+1+1+J:N:0", "", ":910:2:a:b:13:$t:6:1:d:3:J:2:N:0:0:N:N:00:0:N:$n", "", func(s segment.Segment) int {
		return len(s.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements())
	}, func(s segment.Segment, k int) (string, int) {
		p := s.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements()[k].(*element.Tan2StepSubmissionProcessParameterV6)
		return p.TwoStepProcessName.Val(), p.SupportedActiveTanMedia.Val()
	}},
	{"HIBPA:4:3:3+1+280:b+n+3+", "$n", ":$n", "+300", func(s segment.Segment) int {
		return len(s.(*segment.CommonBankParameterV3).SupportedLanguages.Languages())
	}, func(s segment.Segment, k int) (string, int) {
		return "", s.(*segment.CommonBankParameterV3).SupportedLanguages.Languages()[k].Val()
	}},
	{"HISHV:5:2:3+J+RDH:", "$n", ":$n", "", func(s segment.Segment) int {
		return len(s.(*segment.SecurityMethodSegment).SupportedMethods.Versions.Versions())
	}, func(s segment.Segment, k int) (string, int) {
		return "", s.(*segment.SecurityMethodSegment).SupportedMethods.Versions.Versions()[k].Val()
	}},
}

func countTransactions(s segment.Segment) int {
	return len(s.(segment.AccountInformation).Account().AllowedBusinessTransactions)
}
func transaction(s segment.Segment, k int) (string, int) {
	t := s.(segment.AccountInformation).Account().AllowedBusinessTransactions[k]
	return t.ID, t.NeededSignatures
}
func countAcks(s segment.Segment) int { return len(s.(acknowledging).Acknowledgements()) }
func acknowledgement(s segment.Segment, k int) (string, int) {
	a := s.(acknowledging).Acknowledgements()[k]
	return a.Text, a.Code
}
func countPins(s segment.Segment) int {
	return len(s.(segment.PinTanBusinessTransactionParams).PinTanBusinessTransactions())
}
func pinJob(s segment.Segment, k int) (string, int) {
	t := s.(segment.PinTanBusinessTransactionParams).PinTanBusinessTransactions()[k]
	return t.SegmentID, map[bool]int{true: 1}[t.NeedsTan]
}

// Repeated: p = kind, number, which of them is arbitrary; two of them are the same.
func Repeated(p []int) {
	r := repeats[p[0]]
	any, iso := lib.Text("text", 1)
	digit := nd.Byte("digit")
	max := 9
	if p[0] == 9 { // there are three languages
		max = 3
	}
	nd.Assume(digit >= '1' && int(digit-'0') <= max)
	flag := nd.Bool("flag")
	wire := []byte(r.head)
	var texts []string
	var nums []int
	for k := 0; k < p[1]; k++ {
		t, raw, n, dig, f := "T"+lib.Dec(k/2, 2), []byte(nil), k%max+1, []byte(nil), k%3 == 0
		raw, dig = []byte(t), []byte(lib.Dec(n, 1))
		if k == p[2] {
			t, raw, n, dig, f = any, lib.Escaped(iso), int(digit-'0'), []byte{digit}, flag
		}
		tmpl := r.next
		if k == 0 && r.first != "" {
			tmpl = r.first
		}
		hasText, hasFlag := false, false
		for i := 0; i < len(tmpl); i++ {
			if tmpl[i] != '$' {
				wire = append(wire, tmpl[i])
				continue
			}
			i++
			switch tmpl[i] {
			case 't':
				hasText = true
				wire = append(wire, raw...)
			case 'n':
				wire = append(wire, dig...)
			case 'f':
				hasFlag = true
				wire = append(wire, map[bool]byte{true: 'J', false: 'N'}[f])
			}
		}
		if !hasText {
			t = ""
		}
		if hasFlag {
			n = map[bool]int{true: 1}[f]
		}
		texts, nums = append(texts, t), append(nums, n)
	}
	wire = append(append(wire, r.tail...), '\'')
	head := strings.Split(strings.Split(r.head, "+")[0], ":")
	u, err := segment.KnownSegments.UnmarshalerForSegment(segment.VersionedSegment{ID: head[0], Version: int(head[2][0] - '0')})
	nd.Assert(err == nil, "every bank segment is known")
	err = u.UnmarshalHBCI(wire)
	nd.Assert(err == nil, "every bank segment can be read")
	s := u.(segment.Segment)
	nd.Assert(r.list(s) == len(texts), "every repeated element is read")
	for k := range texts {
		text, num := r.at(s, k)
		nd.Assert(num == nums[k], "repeated elements are read in order")
		nd.Assert(lib.EqS(text, texts[k]), "repeated elements are read in order")
	}
	nd.Cover("read")
}

// longs: every kind with its first text or its data long.
func longs(codes ...int) (out [][]int) {
	for k := range kinds {
		for sym := 0; sym < 12; sym++ {
			mark := "$" + string(rune('0'+sym))
			if sym == 11 {
				mark = "$@"
			}
			if sym != 10 && strings.Contains(kinds[k].template, mark) {
				out = append(out, []int{k, sym, codes[(k+sym)%len(codes)]})
			}
		}
	}
	return
}

func repeatTasks() (out [][]int) {
	for k := range repeats {
		for _, n := range []int{1, 2, 3, 7, 12, 21} {
			if n <= 9 || repeats[k].head[:5] != "HIBPA" && repeats[k].head[:5] != "HISHV" {
				out = append(out, []int{k, n, n - 1})
			}
		}
		out = append(out, []int{k, 9, 0})
	}
	return
}

// Long: the same with long texts.
func Long(p []int) { Segment(p) }

func number(s string) (n int) {
	for k := 0; k < len(s); k++ {
		n = n*10 + int(s[k]-'0')
	}
	return
}

// tasks: every kind with each of its inputs symbolic in turn.
func tasks(lens ...int) (out [][]int) {
	for k := range kinds {
		any := false
		for sym := 0; sym < 13; sym++ {
			mark := "$" + string(rune('0'+sym))
			if sym >= 10 {
				mark = []string{"$#", "$@", "$?"}[sym-10]
			}
			if strings.Contains(kinds[k].template, mark) {
				any = true
				for _, n := range lens {
					if (n == 0 && sym < 12 || n == 2 && sym == 12) && strings.Contains(kinds[k].need, mark[1:]) {
						continue
					}
					if sym == 12 && n > 2 {
						continue
					}
					out = append(out, []int{k, sym, n})
				}
			}
		}
		if !any {
			out = append(out, []int{k, 0, 1})
		}
	}
	return
}

// Cut: p = kind, elements; a segment that ends early is read like one whose other elements are empty.
func Cut(p []int) {
	elems := strings.Split(kinds[p[0]].template, "+")
	i := inputs(last(elems[:p[1]]), 1)
	wire := i.wire(strings.Join(elems[:p[1]], "+"))
	long := append([]byte(nil), wire[:len(wire)-1]...)
	for k := p[1]; k < tail(elems); k++ {
		long = append(long, '+')
	}
	long = append(long, '\'')
	head := strings.Split(elems[0], ":")
	id := segment.VersionedSegment{ID: head[0], Version: int(head[2][0] - '0')}
	a, aerr := segment.KnownSegments.UnmarshalerForSegment(id)
	b, berr := segment.KnownSegments.UnmarshalerForSegment(id)
	nd.Assert(aerr == nil && berr == nil, "every bank segment is known")
	if aerr != nil || berr != nil {
		return
	}
	aerr, berr = a.UnmarshalHBCI(wire), b.UnmarshalHBCI(long)
	nd.Assert((aerr == nil) == (berr == nil), "an element left out at the end is as good as an empty one")
	if aerr == nil && berr == nil {
		s, t := a.(segment.Segment), b.(segment.Segment)
		var x, y []interface{}
		// without what is mandatory there may be nothing to tell
		xp := nd.Catch(func() { x = data(s) })
		yp := nd.Catch(func() { y = data(t) })
		nd.Assert(xp == yp && (xp || reflect.DeepEqual(x, y)), "an element left out at the end is as good as an empty one")
		nd.Cover("cut")
	}
}

// data is what a segment tells the user.
func data(s segment.Segment) (out []interface{}) {
	if b, ok := s.(segment.AccountBalanceResponse); ok {
		sepa, err := b.SepaAccountBalance()
		out = append(out, b.AccountBalance(), sepa, err == nil)
	}
	if b, ok := s.(segment.AccountInformation); ok {
		out = append(out, b.Account())
	}
	if b, ok := s.(segment.CommonUserParameterData); ok {
		out = append(out, b.UserParameterData())
	}
	if b, ok := s.(segment.CommonBankParameter); ok {
		out = append(out, b.BankParameterData())
	}
	if b, ok := s.(segment.SynchronisationResponse); ok {
		out = append(out, b.ClientSystemID(), b.LastMessageNumber(), b.SignatureID())
	}
	if b, ok := s.(segment.StatusProtocolResponse); ok {
		out = append(out, b.Status())
	}
	return
}

// last is the number of the last text in the elements, or -1.
func last(elems []string) int {
	for k := len(elems) - 1; k > 0; k-- {
		for sym := 9; sym >= 0; sym-- {
			if strings.Contains(elems[k], "$"+string(rune('0'+sym))) {
				return sym
			}
		}
	}
	return -1
}

// tail is the number of elements before those that may be repeated.
func tail(elems []string) int {
	for k, e := range elems {
		if strings.HasPrefix(e, "$7:1") || strings.HasPrefix(e, "$#:$0:$1") {
			return k
		}
	}
	return len(elems)
}

// cuts: every kind cut behind every element.
func cuts() (out [][]int) {
	for k := range kinds {
		n := strings.Count(kinds[k].template, "+") + 1
		if t := tail(strings.Split(kinds[k].template, "+")); t < n {
			n = t
		}
		for c := 1; c < n; c++ {
			out = append(out, []int{k, c})
		}
	}
	return
}

var Harnesses = []nd.H{
	{Name: "Segment", F: Segment, Covers: []string{"read"},
		Quick: tasks(0, 2), Thorough: tasks(1, 3),
		Bound: "every bank segment and version with any one text of up to 3 ISO-8859-1 characters, number of up to 3 digits, flag or binary data of up to 3 bytes arbitrary or absent and the other fields fixed and distinct"},
	{Name: "Long", F: Long, Covers: []string{"read"},
		Quick: longs(330001, 100401, 150101, 120201, 80701),
		Bound: "every bank segment and version with any one text or binary data of up to 67 bytes, one of them arbitrary"},
	{Name: "Repeated", F: Repeated, Covers: []string{"read"},
		Quick: repeatTasks(),
		Bound: "every kind of repeated elements with up to 21 of them, one of them arbitrary, some of them the same"},
	{Name: "Cut", F: Cut, Covers: []string{"cut"},
		Quick: cuts(),
		Bound: "every bank segment and version cut behind each of its elements, with the last text that is left of one arbitrary ISO-8859-1 character"},
}
