// Package p06: client segments have their header and every element in its place.
package p06

import (
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/zzverif/lib"
	"github.com/mitch000001/go-hbci/zzverif/nd"
)

// in holds the texts of a segment: all but one are fixed and distinct.
type in struct {
	val [8]string
	iso [8][]byte
	num int
	dig []byte
	bin []byte
	all bool
}

func inputs(sym, n int) *in {
	i := &in{}
	fixed := []string{"t0a", "t1b", "t2c", "t3d", "t4e", "t5f", "t6g", "t7h"}
	for k, s := range fixed {
		i.val[k], i.iso[k] = s, []byte(s)
	}
	i.num, i.dig, i.bin = 17, []byte("17"), []byte("xx")
	switch {
	case sym < 8:
		i.val[sym], i.iso[sym] = lib.Text("text", n)
	case sym == 8: // the number
		i.num, i.dig = 0, nil
		for k := 0; k < n; k++ {
			c := nd.Byte("digit")
			nd.Assume(c >= '0' && c <= '9' && !(k == 0 && c == '0' && n > 1))
			i.num = i.num*10 + int(c-'0')
			i.dig = append(i.dig, c)
		}
	case sym == 9: // the binary data
		i.bin = nd.Bytes("data", n)
	}
	i.all = nd.Choice("flag", 2) == 1
	return i
}

// matches compares wire with a template: elements joined by '+', parts by ':', "$n" a text,
// "$#" the number, "$@" the binary data, "$?" the flag and '.' a digit of the current date or time.
// Empty parts at the end of a group and empty elements at the end are left out.
func (i *in) matches(wire []byte, template string) bool {
	want := lib.Render(template, func(c byte) []byte {
		switch c {
		case '#':
			return i.dig
		case '?':
			if i.all {
				return []byte("J")
			}
			return []byte("N")
		case '@':
			return append([]byte{'@', byte('0' + len(i.bin)), '@'}, i.bin...)
		}
		return lib.Escaped(i.iso[c-'0'])
	})
	return lib.Matches(wire, want)
}

type kind struct {
	template string
	make     func(i *in) segment.Marshaler
}

func national(i *in) domain.AccountConnection {
	return domain.AccountConnection{AccountID: i.val[0], SubAccountCharacteristics: i.val[1], CountryCode: 280, BankID: i.val[2]}
}

func international(i *in) domain.InternationalAccountConnection {
	return domain.InternationalAccountConnection{IBAN: i.val[0], BIC: i.val[1], AccountID: i.val[2], SubAccountCharacteristics: i.val[3], BankID: domain.BankID{CountryCode: 280, ID: i.val[4]}}
}

func keyName(i *in) domain.KeyName {
	nd.Assume(i.val[2] != "") // a key belongs to a bank
	return domain.KeyName{BankID: domain.BankID{CountryCode: 280, ID: i.val[2]}, UserID: i.val[3], KeyType: "S", KeyNumber: i.num, KeyVersion: 5}
}

var from = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
var to = time.Date(2021, 12, 31, 23, 59, 58, 0, time.UTC)

func balance(s segment.AccountBalanceRequest, mark string) segment.Marshaler {
	s.SetContinuationMark(mark)
	return s
}
func information(s segment.AccountInformationRequest, mark string) segment.Marshaler {
	s.SetContinuationMark(mark)
	return s
}
func transactions(s *segment.AccountTransactionRequestSegment, mark string) segment.Marshaler {
	s.SetTransactionRange(domain.Timeframe{StartDate: domain.NewShortDate(from), EndDate: domain.NewShortDate(to)})
	s.SetContinuationReference(mark)
	return s
}

func signEnd(s *segment.SignatureEndSegment, i *in, pin bool) segment.Marshaler {
	s.SetPosition(func() int { return i.num })
	s.SetControlReference(i.val[0])
	if pin {
		s.SetPinTan(i.val[1], i.val[2])
	} else {
		s.SetSignature(i.bin)
	}
	return s
}

func signHead(s *segment.SignatureHeaderSegment, i *in) segment.Marshaler {
	s.SetClientSystemID(i.val[1])
	s.SetSigningKeyName(keyName(i))
	s.SetSignatureID(9)
	s.SetSecurityFunction("999")
	s.SetControlReference(i.val[0])
	return s
}

const sigTail = "+1:999:1+6:10:16+280:$2:$3:S:$#:5"

var kinds = []kind{
	0: {"HKIDN:3:2+280:$2+$0+$1+1", func(i *in) segment.Marshaler {
		return segment.NewIdentificationSegment(domain.BankID{CountryCode: 280, ID: i.val[2]}, i.val[0], i.val[1], true)
	}},
	1: {"HKIDN:3:2+280:$2+$0+$1+0", func(i *in) segment.Marshaler {
		return segment.NewIdentificationSegment(domain.BankID{CountryCode: 280, ID: i.val[2]}, i.val[0], i.val[1], false)
	}},
	2: {"HKEND:3:1+$0", func(i *in) segment.Marshaler { return segment.NewDialogEndSegment(i.val[0]) }},
	3: {"HKVVB:4:2+$#+22+2+$0+$1", func(i *in) segment.Marshaler {
		nd.Assume(i.val[0] != "" && i.val[1] != "")
		return segment.NewProcessingPreparationSegmentV2(i.num, 22, domain.English, i.val[0], i.val[1])
	}},
	4: {"HKVVB:4:3+11+$#+1+$0+$1", func(i *in) segment.Marshaler {
		nd.Assume(i.val[0] != "" && i.val[1] != "")
		return segment.NewProcessingPreparationSegmentV3(11, i.num, domain.German, i.val[0], i.val[1])
	}},
	5: {"HKSAL:1:5+$0:$1:280:$2+$?++$3", func(i *in) segment.Marshaler {
		return balance(segment.NewAccountBalanceRequestV5(national(i), i.all), i.val[3])
	}},
	6: {"HKSAL:1:6+$0:$1:280:$2+$?++$3", func(i *in) segment.Marshaler {
		return balance(segment.NewAccountBalanceRequestV6(national(i), i.all), i.val[3])
	}},
	7: {"HKSAL:1:7+$0:$1:$2:$3:280:$4+$?++$5", func(i *in) segment.Marshaler {
		return balance(segment.NewAccountBalanceRequestV7(international(i), i.all), i.val[5])
	}},
	8: {"HKSAL:1:8+$0:$1:$2:$3:280:$4+$?++$5", func(i *in) segment.Marshaler {
		return balance(segment.NewAccountBalanceRequestV8(international(i), i.all), i.val[5])
	}},
	9: {"HKKIF:1:1+$0:$1:280:$2+$?++$3", func(i *in) segment.Marshaler {
		return information(segment.NewAccountInformationRequestSegmentV1(national(i), i.all), i.val[3])
	}},
	10: {"HKKIF:1:2+$0:$1:280:$2+$?++$3", func(i *in) segment.Marshaler {
		return information(segment.NewAccountInformationRequestSegmentV2(national(i), i.all), i.val[3])
	}},
	11: {"HKKIF:1:3+$0:$1:$2:$3:280:$4+$?++$5", func(i *in) segment.Marshaler {
		return information(segment.NewAccountInformationRequestSegmentV3(international(i), i.all), i.val[5])
	}},
	12: {"HKKIF:1:4+$0:$1:$2:$3:280:$4+$?++$5", func(i *in) segment.Marshaler {
		return information(segment.NewAccountInformationRequestSegmentV4(international(i), i.all), i.val[5])
	}},
	13: {"HKKIF:1:5+$0:$1:$2:$3:280:$4+$?++$5", func(i *in) segment.Marshaler {
		return information(segment.NewAccountInformationRequestSegmentV5(international(i), i.all), i.val[5])
	}},
	14: {"HKKIF:1:6+$0:$1:$2:$3:280:$4+$?++$5", func(i *in) segment.Marshaler {
		return information(segment.NewAccountInformationRequestSegmentV6(international(i), i.all), i.val[5])
	}},
	15: {"HKKAZ:1:5+$0:$1:280:$2+$?+20200102+20211231++$3", func(i *in) segment.Marshaler {
		return transactions(segment.NewAccountTransactionRequestSegmentV5(national(i), i.all), i.val[3])
	}},
	16: {"HKKAZ:1:6+$0:$1:280:$2+$?+20200102+20211231++$3", func(i *in) segment.Marshaler {
		return transactions(segment.NewAccountTransactionRequestSegmentV6(national(i), i.all), i.val[3])
	}},
	17: {"HKKAZ:1:7+$0:$1:$2:$3:280:$4+$?+20200102+20211231++$5", func(i *in) segment.Marshaler {
		return transactions(segment.NewAccountTransactionRequestSegmentV7(international(i), i.all), i.val[5])
	}},
	18: {"HKPRO:1:3+20200102+20211231+$#+$0", func(i *in) segment.Marshaler {
		return segment.NewStatusProtocolRequestV3(from, to, i.num, i.val[0])
	}},
	19: {"HKPRO:1:4+20200102+20211231+$#+$0", func(i *in) segment.Marshaler {
		return segment.NewStatusProtocolRequestV4(from, to, i.num, i.val[0])
	}},
	20: {"HKTAN:1:1+2++$0++$?", func(i *in) segment.Marshaler { return segment.NewTanRequestProcess2(i.val[0], i.all) }},
	21: {"HKTAN:1:6+4+$0", func(i *in) segment.Marshaler { return segment.NewTanProcess4RequestSegmentV6(i.val[0]) }},
	22: {"HKTAN:1:1+4", func(i *in) segment.Marshaler { return segment.NewTanProcess4RequestSegmentV1(i.val[0]) }},
	23: {"HNSHA:$#:1+$0++$1:$2", func(i *in) segment.Marshaler { return signEnd(segment.NewSignatureEndSegmentV1(), i, true) }},
	24: {"HNSHA:$#:2+$0++$1:$2", func(i *in) segment.Marshaler { return signEnd(segment.NewSignatureEndSegmentV2(), i, true) }},
	25: {"HNSHA:$#:1+$0+$@", func(i *in) segment.Marshaler { return signEnd(segment.NewSignatureEndSegmentV1(), i, false) }},
	26: {"HNSHA:$#:2+$0+$@", func(i *in) segment.Marshaler { return signEnd(segment.NewSignatureEndSegmentV2(), i, false) }},
	27: {"HNSHK:2:3+999+$0+1+1+1::$1+0+1:........:......" + sigTail, func(i *in) segment.Marshaler {
		return segment.NewPinTanSignatureHeaderSegment(i.val[0], i.val[1], keyName(i))
	}},
	28: {"HNSHK:2:4+PIN:1+999+$0+1+1+1::$1++1:........:......" + sigTail, func(i *in) segment.Marshaler {
		return segment.NewPinTanSignatureHeaderSegmentV4(i.val[0], i.val[1], keyName(i))
	}},
	29: {"HNSHK:2:3+1+$0+1+1+1::$1+$#+1:........:......" + sigTail, func(i *in) segment.Marshaler {
		return segment.NewRDHSignatureHeaderSegment(i.val[0], i.num, i.val[1], keyName(i))
	}},
	30: {"HNSHK:2:3+999+$0+1+1+1::$1+9+1:........:......" + sigTail, func(i *in) segment.Marshaler { return signHead(segment.NewSignatureHeaderSegmentV3(), i) }},
	31: {"HNSHK:2:4+PIN:1+999+$0+1+1+1::$1+9+1:........:......" + sigTail, func(i *in) segment.Marshaler { return signHead(segment.NewSignatureHeaderSegmentV4(), i) }},
	32: {"HNSHK:2:4+PIN:2+902+$0+1+1+1::$1+9+1:........:......" + sigTail, func(i *in) segment.Marshaler {
		s := segment.NewSignatureHeaderSegmentV4()
		signHead(s, i)
		s.SetSecurityFunction("902")
		return s
	}},
	33: {"HNVSK:998:2+998+1+1::$1+1:........:......+2:2:13:@8@\x00\x00\x00\x00\x00\x00\x00\x00:5:1+280:$2:$3:S:$#:5+0", func(i *in) segment.Marshaler {
		return segment.NewPinTanEncryptionHeaderSegment(i.val[1], keyName(i))
	}},
	34: {"HNVSK:998:3+PIN:1+998+1+1::$1+1:........:......+2:2:13:@8@\x00\x00\x00\x00\x00\x00\x00\x00:5:1+280:$2:$3:S:$#:5+0", func(i *in) segment.Marshaler {
		return segment.NewPinTanEncryptionHeaderSegmentV3(i.val[1], keyName(i))
	}},
	35: {"HNVSK:998:2+4+1+1::$1+1:........:......+2:2:13:$@:6:1+280:$2:$3:S:$#:5+0", func(i *in) segment.Marshaler {
		return segment.NewEncryptionHeaderSegment(i.val[1], keyName(i), i.bin)
	}},
	36: {"HNVSK:998:3+PIN:2+998+1+1::$1+1:........:......+2:2:13:$@:6:1+280:$2:$3:S:$#:5+0", func(i *in) segment.Marshaler {
		s := segment.NewPinTanEncryptionHeaderSegmentV3("old", domain.KeyName{})
		s.SetClientSystemID(i.val[1])
		s.SetEncryptionKeyName(keyName(i))
		s.SetEncryptionAlgorithm(element.NewRDHEncryptionAlgorithm(i.bin))
		s.SetSecurityProfile("902")
		return s
	}},
	37: {"HNVSD:999:1+$@", func(i *in) segment.Marshaler { return segment.NewEncryptedDataSegment(i.bin) }},
	38: {"HKKOM:2:3+280:$0+281:$1+$#+$2", func(i *in) segment.Marshaler {
		return segment.NewCommunicationAccessRequestSegment(domain.BankID{CountryCode: 280, ID: i.val[0]}, domain.BankID{CountryCode: 281, ID: i.val[1]}, i.num, i.val[2])
	}},
	39: {"HKSYN:5:2+0", func(i *in) segment.Marshaler {
		return segment.NewSynchronisationSegmentV2(segment.SyncModeAquireClientID)
	}},
	40: {"HKSYN:5:3+2", func(i *in) segment.Marshaler {
		return segment.NewSynchronisationSegmentV3(segment.SyncModeAquireSignatureID)
	}},
	41: {"HNHBK:1:3+000000000123+220+$0+$#", func(i *in) segment.Marshaler { return segment.NewMessageHeaderSegment(123, 220, i.val[0], i.num) }},
	42: {"HNHBK:1:3+000000000123+300+$0+4+$1:$#", func(i *in) segment.Marshaler {
		return segment.NewReferencingMessageHeaderSegment(123, 300, i.val[0], 4, domain.MessageReference{DialogID: i.val[1], MessageNumber: i.num})
	}},
	43: {"HNHBS:12:1+$#", func(i *in) segment.Marshaler { return segment.NewMessageEndSegment(12, i.num) }},
	44: {"HKISA:7:2+2+124+280:$2:$3:S:$#:5", func(i *in) segment.Marshaler { return segment.NewPublicKeyRequestSegment(7, keyName(i)) }},
	45: {"HKSYN:5:3+1", func(i *in) segment.Marshaler {
		return segment.NewSynchronisationSegmentV3(segment.SyncModeAquireLastProcessedMessageID)
	}},
}

// Segment: a client segment is written exactly as the HBCI segment layout demands.
func Segment(p []int) {
	k, sym := kinds[p[0]], p[1]
	i := inputs(sym, p[2])
	wire, err := k.make(i).MarshalHBCI()
	nd.Assert(err == nil, "every client segment can be written")
	nd.Assert(i.matches(wire, k.template), "the segment has its header and every element in its place")
	nd.Cover("written")
}

// tasks: every kind with each of its inputs symbolic in turn.
func tasks(lens ...int) (out [][]int) {
	for k := range kinds {
		any := false
		for sym := 0; sym < 10; sym++ {
			mark := "$" + string(rune('0'+sym))
			if sym == 8 {
				mark = "$#"
			}
			if sym == 9 {
				mark = "$@"
			}
			if strings.Contains(kinds[k].template, mark) {
				any = true
				for _, n := range lens {
					if n > 0 || sym < 8 {
						out = append(out, []int{k, sym, n})
					}
				}
			}
		}
		if !any {
			out = append(out, []int{k, 0, 1})
		}
	}
	return
}

var Harnesses = []nd.H{
	{Name: "Segment", F: Segment, Covers: []string{"written"},
		Quick: tasks(0, 2), Thorough: tasks(1, 3),
		Bound: "every client segment and version with any one text of up to 3 ISO-8859-1 characters, number of up to 3 digits or binary data of up to 3 bytes arbitrary and the other fields fixed and distinct"},
}
