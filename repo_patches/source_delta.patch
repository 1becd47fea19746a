From 3e53659a915202d5843137a7292c2ef587539015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 01/74] fix: bound the lexer by the input length instead of a
 NUL sentinel

peek and backup at the end of the input moved the position back, which made
an input ending in '@' panic; a binary length larger than the input could
overflow the position; a NUL byte silently ended the scan.
---
 token/lexer.go       | 19 +++++++++++++++----
 token/swift_lexer.go | 10 +++++-----
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/token/lexer.go b/token/lexer.go
index dc63286..18805cf 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -36,6 +36,7 @@ type Lexer struct {
 	state  LexerStateFn // the next lexing function to enter
 	pos    int          // current position in the input.
 	start  int          // start position of this item.
+	width  int          // width of the last byte read; 0 at the end of input.
 	tokens chan Token   // channel of scanned tokens.
 }
 
@@ -93,13 +94,20 @@ func (l *Lexer) emit(t Type) {
 // next returns the next byte in the input.
 func (l *Lexer) next() byte {
 	if l.pos >= len(l.input) {
+		l.width = 0
 		return eof
 	}
 	b := l.input[l.pos]
+	l.width = 1
 	l.pos++
 	return b
 }
 
+// atEOF returns true if the last call to next reached the end of the input.
+func (l *Lexer) atEOF() bool {
+	return l.width == 0
+}
+
 // ignore skips over the pending input before this point.
 func (l *Lexer) ignore() {
 	l.start = l.pos
@@ -108,7 +116,7 @@ func (l *Lexer) ignore() {
 // backup steps back one byte.
 // Can be called only once per call of next.
 func (l *Lexer) backup() {
-	l.pos--
+	l.pos -= l.width
 }
 
 // peek returns but does not consume
@@ -160,7 +168,7 @@ func lexStart(l *Lexer) LexerStateFn {
 	case r == binaryIdentifier:
 		l.backup()
 		return lexBinaryData
-	case r == eof:
+	case r == eof && l.atEOF():
 		// Correctly reached EOF.
 		l.emit(EOF)
 		return nil
@@ -194,7 +202,7 @@ func lexAlphaNumeric(l *Lexer) LexerStateFn {
 				l.emit(ALPHA_NUMERIC)
 			}
 			return lexStart
-		case r == eof:
+		case r == eof && l.atEOF():
 			return l.errorf("Unexpected end of input")
 		case (r == '\n' || r == '\r'):
 			text = true
@@ -219,13 +227,16 @@ func lexBinaryData(l *Lexer) LexerStateFn {
 	if !l.accept('@') {
 		return l.errorf("Binary length must contain of digits only")
 	}
+	if length > len(l.input)-l.pos {
+		return l.errorf("Unexpected end of input")
+	}
 	l.pos += length
 	p := l.peek()
 	if isDelimiter(p) {
 		l.emit(BINARY_DATA)
 		return lexStart
 	}
-	if p == eof {
+	if p == eof && l.atEOF() {
 		return l.errorf("Unexpected end of input")
 	}
 	return l.errorf("Expected syntax symbol after binary data")
diff --git a/token/swift_lexer.go b/token/swift_lexer.go
index 1dfa77f..7635429 100644
--- a/token/swift_lexer.go
+++ b/token/swift_lexer.go
@@ -60,7 +60,7 @@ func lexSwiftStart(l *Lexer) LexerStateFn {
 	case r == carriageReturn:
 		l.backup()
 		return lexSwiftSyntaxSymbol
-	case r == eof:
+	case r == eof && l.atEOF():
 		// Correctly reached EOF.
 		l.emit(EOF)
 		return nil
@@ -73,7 +73,7 @@ func lexSwiftSyntaxSymbol(l *Lexer) LexerStateFn {
 	if l.accept(carriageReturn) && l.accept(lineFeed) {
 		p := l.peek()
 		switch {
-		case p == eof:
+		case p == eof && l.atEOF():
 			return l.errorf(unexpectedEOF)
 		case p == dash:
 			l.next()
@@ -115,7 +115,7 @@ func lexSwiftAlpha(l *Lexer) LexerStateFn {
 		l.backup()
 		l.emit(SWIFT_ALPHA)
 		return lexSwiftStart
-	case r == eof:
+	case r == eof && l.atEOF():
 		return l.errorf(unexpectedEOF)
 	case isSwiftAlphaNumeric(r):
 		return lexSwiftAlphaNumeric
@@ -134,7 +134,7 @@ func lexSwiftCharacter(l *Lexer) LexerStateFn {
 		l.backup()
 		l.emit(SWIFT_CHARACTER)
 		return lexSwiftStart
-	case r == eof:
+	case r == eof && l.atEOF():
 		return l.errorf(unexpectedEOF)
 	case isSwiftAlphaNumeric(r):
 		return lexSwiftAlphaNumeric
@@ -154,7 +154,7 @@ func lexSwiftAlphaNumeric(l *Lexer) LexerStateFn {
 		}
 		l.next()
 		return lexSwiftAlphaNumeric
-	case r == eof:
+	case r == eof && l.atEOF():
 		return l.errorf(unexpectedEOF)
 	case isSwiftAlphaNumeric(r):
 		return lexSwiftAlphaNumeric
-- 
2.43.0


From 9fb8bee872c6661755b48f50ce11119dffb88774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 02/74] fix: keep wrapped SWIFT values of letters, digits or
 decimals in one value

---
 token/swift_lexer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/token/swift_lexer.go b/token/swift_lexer.go
index 7635429..1591365 100644
--- a/token/swift_lexer.go
+++ b/token/swift_lexer.go
@@ -92,7 +92,7 @@ func lexSwiftDigit(l *Lexer) LexerStateFn {
 	l.acceptRun(digits)
 	if l.accept(',') {
 		l.acceptRun(digits)
-		if p := l.peek(); p == carriageReturn {
+		if isTagBoundary(l) {
 			l.emit(SWIFT_DECIMAL)
 			return lexSwiftStart
 		}
@@ -113,6 +113,9 @@ func lexSwiftAlpha(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTagBoundary(l) {
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_ALPHA)
 		return lexSwiftStart
 	case r == eof && l.atEOF():
@@ -132,6 +135,9 @@ func lexSwiftCharacter(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTagBoundary(l) {
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_CHARACTER)
 		return lexSwiftStart
 	case r == eof && l.atEOF():
-- 
2.43.0


From 14cc0a3d519a5d924c2dcf0cb9965450b770c0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 03/74] fix: find segments by their exact ID and do not
 duplicate them when extracting twice

---
 message/segment_extractor.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index 387f845..daee340 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -23,6 +23,7 @@ type SegmentExtractor struct {
 // Extract extract segment byte slices from the message. It will return a copy
 // of the result so it is safe to manipulate it
 func (s *SegmentExtractor) Extract() ([][]byte, error) {
+	s.segments = nil
 	var current []byte
 	lexer := token.NewLexer("SegmentExtractor", s.rawMessage)
 	for lexer.HasNext() {
@@ -44,9 +45,9 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 // FindSegment searches for a given ID and returns the first appearing segment
 // bytes if present
 func (s *SegmentExtractor) FindSegment(id string) []byte {
-	byteID := []byte(id)
 	for _, segment := range s.segments {
-		if bytes.HasPrefix(segment, byteID) {
+		segmentID := bytes.SplitN(segment, []byte(":"), 2)[0]
+		if string(segmentID) == id {
 			return segment
 		}
 	}
-- 
2.43.0


From 7278fb2c969dc34abac7175b63283869bb535473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 04/74] fix: split element groups that contain escaped or inner
 delimiters, without writing behind the caller's slice

---
 element/element_extractor.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/element/element_extractor.go b/element/element_extractor.go
index 6b84032..8d7c395 100644
--- a/element/element_extractor.go
+++ b/element/element_extractor.go
@@ -1,7 +1,6 @@
 package element
 
 import (
-	"bytes"
 	"fmt"
 
 	"github.com/mitch000001/go-hbci/token"
@@ -15,12 +14,6 @@ func ExtractElements(dataElementGroup []byte) ([][]byte, error) {
 
 // newElementExtractor creates a new GroupExtractor ready to use
 func newElementExtractor(dataElementGroup []byte) *groupExtractor {
-	// TODO: workaround to get the lexer work properly for us. Maybe we should adopt the lexer?
-	if bytes.LastIndexFunc(dataElementGroup, func(r rune) bool {
-		return r == '+' || r == '\''
-	}) == -1 {
-		dataElementGroup = append(dataElementGroup, '+')
-	}
 	return &groupExtractor{
 		rawDataElementGroup: dataElementGroup,
 	}
@@ -35,10 +28,22 @@ type groupExtractor struct {
 // Extract extracts DataElements from the underlying DataElementGroup
 func (e *groupExtractor) Extract() ([][]byte, error) {
 	var current []byte
-	lexer := token.NewLexer("ElementExtractor", e.rawDataElementGroup)
+	var lastType token.Type
+	// The lexer expects every element to be terminated by a delimiter, but the
+	// last element of a group may come without.
+	size := len(e.rawDataElementGroup)
+	terminated := make([]byte, size+1)
+	copy(terminated, e.rawDataElementGroup)
+	terminated[size] = '\''
+	lexer := token.NewLexer("ElementExtractor", terminated)
 	for lexer.HasNext() {
 		t := lexer.Next()
 		currentType := t.Type()
+		if t.Pos() == size && size > 0 && (lastType == token.SEGMENT_END_MARKER || lastType == token.DATA_ELEMENT_SEPARATOR) {
+			// the group brought its own terminator
+			break
+		}
+		lastType = currentType
 		if currentType == token.ERROR {
 			return nil, fmt.Errorf("%T: SyntaxError at position %d: %q\n(%q)", e, t.Pos(), t.Value(), e.rawDataElementGroup)
 		}
-- 
2.43.0


From a261e7c1b8d8ea12d7411883f16f894947fb8de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 05/74] fix: keep a delimiter that ends the last text or binary
 element when marshaling groups and segments

---
 element/data_element.go | 9 ++++++---
 segment/segment.go      | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index d742ea0..22eeae2 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -151,9 +151,12 @@ func (g *elementGroup) MarshalHBCI() ([]byte, error) {
 			elementBytes[i] = marshaled
 		}
 	}
-	marshaled := bytes.Join(elementBytes, []byte(":"))
-	marshaled = bytes.TrimRight(marshaled, ":")
-	return marshaled, nil
+	// Empty elements at the end are omitted. Only whole elements may be
+	// dropped as an escaped text or binary data can end with a delimiter, too.
+	for n := len(elementBytes); n > 0 && len(elementBytes[n-1]) == 0; n = len(elementBytes) {
+		elementBytes = elementBytes[:n-1]
+	}
+	return bytes.Join(elementBytes, []byte(":")), nil
 }
 
 func (g *elementGroup) UnmarshalHBCI(value []byte) error {
diff --git a/segment/segment.go b/segment/segment.go
index b814b55..88ecac6 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -110,8 +110,12 @@ func (s *segment) MarshalHBCI() ([]byte, error) {
 			elementBytes[i+1] = marshaled
 		}
 	}
+	// Empty elements at the end are omitted. Only whole elements may be
+	// dropped as an escaped text or binary data can end with a delimiter, too.
+	for n := len(elementBytes); n > 0 && len(elementBytes[n-1]) == 0; n = len(elementBytes) {
+		elementBytes = elementBytes[:n-1]
+	}
 	marshaled := bytes.Join(elementBytes, []byte("+"))
-	marshaled = bytes.TrimRight(marshaled, "+")
 	marshaled = append(marshaled, '\'')
 	return marshaled, nil
 }
-- 
2.43.0


From 27c93c55f1a5b758dccf0b08990aecd6d99b52b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 06/74] fix: resolve escapes in the texts of element groups

---
 element/acknowledgement.go          | 10 +++++-----
 element/bank_parameter_data.go      |  2 +-
 element/data_element.go             |  5 +++++
 element/group_data_element_group.go |  8 ++++----
 element/message.go                  |  5 ++++-
 element/tan.go                      | 29 ++++++++++++++---------------
 6 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 107c771..71053c4 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -109,12 +109,12 @@ func (a *AcknowledgementDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed code", a)
 	}
 	acknowledgement.Code = code
-	acknowledgement.ReferenceDataElement = charset.ToUTF8(chunks[1])
-	acknowledgement.Text = charset.ToUTF8(chunks[2])
+	acknowledgement.ReferenceDataElement = decodeText(chunks[1])
+	acknowledgement.Text = decodeText(chunks[2])
 	if len(chunks) > 3 {
 		params := make([]string, len(chunks[3:]))
 		for i, chunk := range chunks[3:] {
-			params[i] = charset.ToUTF8(chunk)
+			params[i] = decodeText(chunk)
 		}
 		acknowledgement.Params = params
 	}
@@ -149,14 +149,14 @@ func (p *ParamsDataElement) Val() []string {
 func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	if len(elements) > 10 {
 		return fmt.Errorf("malformed params")
 	}
 	dataElements := make([]DataElement, len(elements))
 	for i, elem := range elements {
-		dataElements[i] = NewAlphaNumeric(charset.ToUTF8(elem), 35)
+		dataElements[i] = NewAlphaNumeric(decodeText(elem), 35)
 	}
 	p.arrayElementGroup = newArrayElementGroup(acknowlegdementParamsGDEG, 10, 10, dataElements)
 	return nil
diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 396292c..49afb8a 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -283,7 +283,7 @@ func (p *PinTanBusinessTransactionParameter) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	p.SegmentID = NewAlphaNumeric(charset.ToUTF8(elements[0]), 6)
+	p.SegmentID = NewAlphaNumeric(decodeText(elements[0]), 6)
 	needsTan := &BooleanDataElement{}
 	err = needsTan.UnmarshalHBCI(elements[1])
 	if err != nil {
diff --git a/element/data_element.go b/element/data_element.go
index 22eeae2..6d0e44d 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -228,6 +228,11 @@ func escape(in string) string {
 	return replacer.Replace(in)
 }
 
+// decodeText returns the text of an alphanumeric element in wire format
+func decodeText(value []byte) string {
+	return unescape(charset.ToUTF8(value))
+}
+
 func unescape(in string) string {
 	replacer := strings.NewReplacer("??", "?", "?@", "@", "?'", "'", "?:", ":", "?+", "+")
 	return replacer.Replace(in)
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 951a4dd..225ff06 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -115,7 +115,7 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	b.CountryCode = countryCode
-	b.BankID = NewAlphaNumeric(charset.ToUTF8(elements[1]), 30)
+	b.BankID = NewAlphaNumeric(decodeText(elements[1]), 30)
 	return nil
 }
 
@@ -164,10 +164,10 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed CountryCode: %q", a, elements[2])
 	}
 	accountConnection := domain.AccountConnection{
-		AccountID:                 charset.ToUTF8(elements[0]),
-		SubAccountCharacteristics: charset.ToUTF8(elements[1]),
+		AccountID:                 decodeText(elements[0]),
+		SubAccountCharacteristics: decodeText(elements[1]),
 		CountryCode:               countryCode,
-		BankID:                    charset.ToUTF8(elements[3]),
+		BankID:                    decodeText(elements[3]),
 	}
 	*a = *NewAccountConnection(accountConnection)
 	return nil
diff --git a/element/message.go b/element/message.go
index 7cce54a..7d354c0 100644
--- a/element/message.go
+++ b/element/message.go
@@ -47,10 +47,13 @@ func (r *ReferencingMessageDataElement) IsValid() bool {
 // UnmarshalHBCI unmarshals value into r
 func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
 	if len(elements) != 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	dialogID := charset.ToUTF8(elements[0])
+	dialogID := decodeText(elements[0])
 	num, err := strconv.Atoi(charset.ToUTF8(elements[1]))
 	if err != nil {
 		return fmt.Errorf("%T: Malformed message number: %v", r, err)
diff --git a/element/tan.go b/element/tan.go
index 9209400..83ef66c 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 
-	"github.com/mitch000001/go-hbci/charset"
 	"github.com/mitch000001/go-hbci/internal"
 	"gopkg.in/yaml.v3"
 )
@@ -93,7 +92,7 @@ func (t *Tan2StepSubmissionParameterV6) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	t.MoreThanOneObligatoryTanJobAllowed = moreThanOneObligatoryTanJobAllowed
-	t.JobHashMethod = NewCode(charset.ToUTF8(elements[2]), 1, []string{"0", "1", "2"})
+	t.JobHashMethod = NewCode(decodeText(elements[2]), 1, []string{"0", "1", "2"})
 	processParams := &Tan2StepSubmissionProcessParametersV6{}
 	err = processParams.UnmarshalHBCI(bytes.Join(elements[3:], []byte(":")))
 	if err != nil {
@@ -220,19 +219,19 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return err
 	}
 	iter := internal.NewIterator(elements)
-	t.SecurityFunction = NewCode(iter.NextString(), 3, nil)
-	t.TanProcess = NewCode(iter.NextString(), 1, []string{"1", "2"})
-	t.TechnicalIDTanProcess = NewIdentification(iter.NextString())
-	t.ZKATanProcess = NewAlphaNumeric(iter.NextString(), 32)
-	t.ZKATanProcessVersion = NewAlphaNumeric(iter.NextString(), 10)
-	t.TwoStepProcessName = NewAlphaNumeric(iter.NextString(), 30)
+	t.SecurityFunction = NewCode(decodeText(iter.Next()), 3, nil)
+	t.TanProcess = NewCode(decodeText(iter.Next()), 1, []string{"1", "2"})
+	t.TechnicalIDTanProcess = NewIdentification(decodeText(iter.Next()))
+	t.ZKATanProcess = NewAlphaNumeric(decodeText(iter.Next()), 32)
+	t.ZKATanProcessVersion = NewAlphaNumeric(decodeText(iter.Next()), 10)
+	t.TwoStepProcessName = NewAlphaNumeric(decodeText(iter.Next()), 30)
 	var twoStepProcessMaxInputValue NumberDataElement
 	if err := twoStepProcessMaxInputValue.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling TwoStepProcessMaxInputValue: %v", err)
 	}
 	t.TwoStepProcessMaxInputValue = &twoStepProcessMaxInputValue
-	t.TwoStepProcessAllowedFormat = NewCode(iter.NextString(), 1, nil)
-	t.TwoStepProcessReturnValueText = NewAlphaNumeric(iter.NextString(), 30)
+	t.TwoStepProcessAllowedFormat = NewCode(decodeText(iter.Next()), 1, nil)
+	t.TwoStepProcessReturnValueText = NewAlphaNumeric(decodeText(iter.Next()), 30)
 	var TwoStepProcessReturnValueTextMaxLength NumberDataElement
 	if err := TwoStepProcessReturnValueTextMaxLength.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling TwoStepProcessReturnValueTextMaxLength: %v", err)
@@ -243,14 +242,14 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return fmt.Errorf("error unmarshaling MultiTANAllowed: %v", err)
 	}
 	t.MultiTANAllowed = &MultiTANAllowed
-	t.TanTimeAndDialogReference = NewCode(iter.NextString(), 1, nil)
+	t.TanTimeAndDialogReference = NewCode(decodeText(iter.Next()), 1, nil)
 	var JobCancellationAllowed BooleanDataElement
 	if err := JobCancellationAllowed.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling JobCancellationAllowed: %v", err)
 	}
 	t.JobCancellationAllowed = &JobCancellationAllowed
-	t.SMSAccountRequired = NewCode(iter.NextString(), 1, []string{"0", "1", "2"})
-	t.IssuerAccountRequired = NewCode(iter.NextString(), 1, []string{"0", "2"})
+	t.SMSAccountRequired = NewCode(decodeText(iter.Next()), 1, []string{"0", "1", "2"})
+	t.IssuerAccountRequired = NewCode(decodeText(iter.Next()), 1, []string{"0", "2"})
 	var ChallengeClassRequired BooleanDataElement
 	if err := ChallengeClassRequired.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling ChallengeClassRequired: %v", err)
@@ -261,8 +260,8 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return fmt.Errorf("error unmarshaling ChallengeStructured: %v", err)
 	}
 	t.ChallengeStructured = &ChallengeStructured
-	t.InitializationMode = NewCode(iter.NextString(), -1, []string{"00", "01", "02"})
-	t.TanMediumDescriptionRequired = NewCode(iter.NextString(), 1, []string{"0", "1", "2"})
+	t.InitializationMode = NewCode(decodeText(iter.Next()), -1, []string{"00", "01", "02"})
+	t.TanMediumDescriptionRequired = NewCode(decodeText(iter.Next()), 1, []string{"0", "1", "2"})
 	var HHD_UCResponseRequired BooleanDataElement
 	if err := HHD_UCResponseRequired.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling HHD_UCResponseRequired: %v", err)
-- 
2.43.0


From 7541416220f84dde44b7954cf780a030b2a96ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 07/74] fix: do not leave bank identifications without their
 group or country code after unmarshaling

---
 element/data_element.go             | 2 +-
 element/group_data_element_group.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/element/data_element.go b/element/data_element.go
index 6d0e44d..6b56a17 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -710,7 +710,7 @@ func (c *CountryCodeDataElement) UnmarshalHBCI(value []byte) error {
 	var d DigitDataElement
 	err := d.UnmarshalHBCI(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	*c = CountryCodeDataElement{&d}
 	return nil
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 225ff06..2824aff 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -116,6 +116,7 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 	}
 	b.CountryCode = countryCode
 	b.BankID = NewAlphaNumeric(decodeText(elements[1]), 30)
+	b.DataElement = NewGroupDataElementGroup(bankIdentificationGDEG, 2, b)
 	return nil
 }
 
-- 
2.43.0


From 8f0ff6e15ddaf5cbf2521877b5bd0946d7ef7f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 08/74] fix: accept a PIN without TAN when unmarshaling

---
 element/pin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/element/pin.go b/element/pin.go
index bd837e4..35662f2 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -64,10 +64,10 @@ func (p *PinTanDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	if len(elements) < 2 {
+	if len(elements) < 1 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	p.DataElement = NewDataElementGroup(securityIdentificationDEG, 3, p)
+	p.DataElement = NewDataElementGroup(pinTanDEG, 2, p)
 	if len(elements) > 0 && len(elements[0]) > 0 {
 		p.PIN = &AlphaNumericDataElement{}
 		err = p.PIN.UnmarshalHBCI(elements[0])
-- 
2.43.0


From 53314e4ce1f4faf082758a0152facfcef362be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 09/74] fix: read the limit amount of a business transaction
 with its currency

---
 element/user_parameter_data.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index d8a89ba..b543e92 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -158,15 +158,20 @@ func (a *AllowedBusinessTransactionDataElement) UnmarshalHBCI(value []byte) erro
 		}
 	}
 	if len(elements) > 3 && len(elements[3]) > 0 {
+		// the amount is a group of its own with value and currency
+		amount := elements[3:]
+		if len(amount) > 2 {
+			amount = amount[:2]
+		}
 		a.Amount = &AmountDataElement{}
-		err = a.Amount.UnmarshalHBCI(elements[3])
+		err = a.Amount.UnmarshalHBCI(bytes.Join(amount, []byte(":")))
 		if err != nil {
 			return err
 		}
 	}
-	if len(elements) > 4 && len(elements[4]) > 0 {
+	if len(elements) > 5 && len(elements[5]) > 0 {
 		a.Days = &NumberDataElement{}
-		err = a.Days.UnmarshalHBCI(elements[4])
+		err = a.Days.UnmarshalHBCI(elements[5])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 15b08761995181f247f8fa7a29c74ae1e5c43243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 10/74] fix: cut repeated business transactions at unprotected
 separators only

---
 element/element_extractor.go   | 29 +++++++++++++++++++++++++++++
 element/user_parameter_data.go |  5 ++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/element/element_extractor.go b/element/element_extractor.go
index 8d7c395..0a4d20f 100644
--- a/element/element_extractor.go
+++ b/element/element_extractor.go
@@ -58,3 +58,32 @@ func (e *groupExtractor) Extract() ([][]byte, error) {
 	copy(result, e.elements)
 	return result, nil
 }
+
+// splitElements cuts value at the data element separators which are neither
+// escaped nor part of binary data. It is used for elements which are repeated
+// at the end of a segment.
+func splitElements(value []byte) ([][]byte, error) {
+	size := len(value)
+	terminated := make([]byte, size+1)
+	copy(terminated, value)
+	terminated[size] = '\''
+	var elements [][]byte
+	start := 0
+	lexer := token.NewLexer("ElementSplitter", terminated)
+	for lexer.HasNext() {
+		t := lexer.Next()
+		switch t.Type() {
+		case token.ERROR:
+			return nil, fmt.Errorf("SyntaxError at position %d: %q\n(%q)", t.Pos(), t.Value(), value)
+		case token.SEGMENT_END_MARKER:
+			if t.Pos() != size {
+				return nil, fmt.Errorf("SyntaxError at position %d: unexpected segment end\n(%q)", t.Pos(), value)
+			}
+			elements = append(elements, value[start:size:size])
+		case token.DATA_ELEMENT_SEPARATOR:
+			elements = append(elements, value[start:t.Pos():t.Pos()])
+			start = t.Pos() + 1
+		}
+	}
+	return elements, nil
+}
diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index b543e92..69ac6cd 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -72,7 +72,10 @@ type AllowedBusinessTransactionsDataElement struct {
 
 // UnmarshalHBCI unmarshals value into a
 func (a *AllowedBusinessTransactionsDataElement) UnmarshalHBCI(value []byte) error {
-	elements := bytes.Split(value, []byte("+"))
+	elements, err := splitElements(value)
+	if err != nil {
+		return err
+	}
 	transactions := make([]DataElement, len(elements))
 	for i, elem := range elements {
 		tr := &AllowedBusinessTransactionDataElement{}
-- 
2.43.0


From 94b3163744c8f3b17ce5688f28192e23119f6874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 11/74] fix: unmarshal account limits

---
 element/user_parameter_data.go | 50 +++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index 69ac6cd..81fd631 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -35,11 +35,53 @@ type AccountLimitDataElement struct {
 
 // Val returns the limit as domain.AccountLimit
 func (a *AccountLimitDataElement) Val() domain.AccountLimit {
-	return domain.AccountLimit{
-		Kind:   a.Kind.Val(),
-		Amount: a.Amount.Val(),
-		Days:   a.Days.Val(),
+	var limit domain.AccountLimit
+	if a.Kind != nil {
+		limit.Kind = a.Kind.Val()
+	}
+	if a.Amount != nil {
+		limit.Amount = a.Amount.Val()
+	}
+	if a.Days != nil {
+		limit.Days = a.Days.Val()
+	}
+	return limit
+}
+
+// UnmarshalHBCI unmarshals value into a
+func (a *AccountLimitDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) == 0 || len(elements) > 4 {
+		return fmt.Errorf("malformed marshaled value")
 	}
+	a.DataElement = NewDataElementGroup(accountLimitDEG, 3, a)
+	if len(elements[0]) > 0 {
+		a.Kind = &AlphaNumericDataElement{}
+		if err := a.Kind.UnmarshalHBCI(elements[0]); err != nil {
+			return err
+		}
+	}
+	if len(elements) > 1 && len(elements[1]) > 0 {
+		// the amount is a group of its own with value and currency
+		amount := elements[1:]
+		if len(amount) > 2 {
+			amount = amount[:2]
+		}
+		a.Amount = &AmountDataElement{}
+		if err := a.Amount.UnmarshalHBCI(bytes.Join(amount, []byte(":"))); err != nil {
+			return err
+		}
+	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		a.Days = &NumberDataElement{}
+		if err := a.Days.UnmarshalHBCI(elements[3]); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // GroupDataElements returns the grouped DataElements
-- 
2.43.0


From ed6c446f59ecfb60ef027f0958c79973a923d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 12/74] fix: unmarshal communication parameters

---
 element/communication_access.go | 45 ++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/element/communication_access.go b/element/communication_access.go
index f7c755a..c8fdf6b 100644
--- a/element/communication_access.go
+++ b/element/communication_access.go
@@ -1,6 +1,10 @@
 package element
 
-import "github.com/mitch000001/go-hbci/domain"
+import (
+	"fmt"
+
+	"github.com/mitch000001/go-hbci/domain"
+)
 
 // NewCommunicationParameter returns a new CommunicationParameterDataElement
 func NewCommunicationParameter(params domain.CommunicationParameter) *CommunicationParameterDataElement {
@@ -55,3 +59,42 @@ func (c *CommunicationParameterDataElement) GroupDataElements() []DataElement {
 		c.FilterFunctionVersion,
 	}
 }
+
+// UnmarshalHBCI unmarshals value into c
+func (c *CommunicationParameterDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 || len(elements) > 5 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	c.DataElement = NewDataElementGroup(communicationParameterDEG, 5, c)
+	c.Protocol = &NumberDataElement{}
+	if err := c.Protocol.UnmarshalHBCI(elements[0]); err != nil {
+		return err
+	}
+	c.Address = &AlphaNumericDataElement{}
+	if err := c.Address.UnmarshalHBCI(elements[1]); err != nil {
+		return err
+	}
+	if len(elements) > 2 && len(elements[2]) > 0 {
+		c.AddressAddition = &AlphaNumericDataElement{}
+		if err := c.AddressAddition.UnmarshalHBCI(elements[2]); err != nil {
+			return err
+		}
+	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		c.FilterFunction = &AlphaNumericDataElement{}
+		if err := c.FilterFunction.UnmarshalHBCI(elements[3]); err != nil {
+			return err
+		}
+	}
+	if len(elements) > 4 && len(elements[4]) > 0 {
+		c.FilterFunctionVersion = &NumberDataElement{}
+		if err := c.FilterFunctionVersion.UnmarshalHBCI(elements[4]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
-- 
2.43.0


From a7b5a22227952d5847e3fbb88b6c1fa67cbaf2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 13/74] fix: unmarshal supported security methods

---
 element/bank_parameter_data.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 49afb8a..4650ab7 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -44,8 +44,20 @@ func (s *SupportedSecurityMethodDataElement) GroupDataElements() []DataElement {
 
 // UnmarshalHBCI unmarshals the value to a SupportedSecurityMethodDataElement
 func (s *SupportedSecurityMethodDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
 	s.DataElement = NewDataElementGroup(supportedSecurityMethodDEG, 2, s)
-	return s.DataElement.UnmarshalHBCI(value)
+	s.MethodCode = &AlphaNumericDataElement{}
+	if err := s.MethodCode.UnmarshalHBCI(elements[0]); err != nil {
+		return err
+	}
+	s.Versions = &SecurityMethodVersionsDataElement{}
+	return s.Versions.UnmarshalHBCI(bytes.Join(elements[1:], []byte(":")))
 }
 
 // NewSecurityMethodVersions returns a new SecurityMethodVersionsDataElement
@@ -72,9 +84,23 @@ func (s *SecurityMethodVersionsDataElement) Elements() []DataElement {
 
 // UnmarshalHBCI unmarshals the value to a SecurityMethodVersionsDataElement
 func (s *SecurityMethodVersionsDataElement) UnmarshalHBCI(value []byte) error {
-	dataElements := make([]DataElement, 9)
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) == 0 || len(elements) > 9 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	dataElements := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		version := &NumberDataElement{}
+		if err := version.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		dataElements[i] = version
+	}
 	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, dataElements)
-	return s.arrayElementGroup.UnmarshalHBCI(value)
+	return nil
 }
 
 // Versions returns the possible versions packaged in a slice of
-- 
2.43.0


From 89bf1be8dd6b51252a762a3b945aad62d44b485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 14/74] fix: unmarshal supported compression methods

---
 element/bank_parameter_data.go | 22 ++++++++++++++++++++++
 element/data_element_type.go   |  1 +
 2 files changed, 23 insertions(+)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 4650ab7..b5123ef 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -212,6 +212,28 @@ type SupportedCompressionMethodsDataElement struct {
 	*arrayElementGroup
 }
 
+// UnmarshalHBCI unmarshals the value into the
+// SupportedCompressionMethodsDataElement
+func (s *SupportedCompressionMethodsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := splitElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) > 9 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	methods := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		method := &CodeDataElement{}
+		if err := method.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		methods[i] = method
+	}
+	s.arrayElementGroup = newArrayElementGroup(supportedCompressionMethodDEG, 0, 9, methods)
+	return nil
+}
+
 // A BusinessTransactionParameter defines parameters for a specific business
 // transaction.
 type BusinessTransactionParameter struct {
diff --git a/element/data_element_type.go b/element/data_element_type.go
index 4fb9f88..e9dda8f 100644
--- a/element/data_element_type.go
+++ b/element/data_element_type.go
@@ -65,6 +65,7 @@ const (
 	tan2StepSubmissionParameterDEG
 	tan2StepSubmissionProcessParameterDEG
 	pinTanSpecificParamDataElementDEG
+	supportedCompressionMethodDEG
 )
 
 var typeName = map[DataElementType]string{
-- 
2.43.0


From 3e4534f4d1c9f89d1d322a78be579b8656d7dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 15/74] fix: unmarshal disposal eligible persons

---
 element/account.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/element/account.go b/element/account.go
index ef118f5..95bca4d 100644
--- a/element/account.go
+++ b/element/account.go
@@ -5,7 +5,43 @@ type DisposalEligiblePersonsDataElement struct {
 	DataElement
 }
 
+// UnmarshalHBCI unmarshals value into d
+func (d *DisposalEligiblePersonsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := splitElements(value)
+	if err != nil {
+		return err
+	}
+	persons := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		person := &DisposalEligiblePersonDataElement{}
+		if err := person.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		persons[i] = person
+	}
+	d.DataElement = newArrayElementGroup(disposalEligiblePersonDEG, 0, len(persons), persons)
+	return nil
+}
+
 // DisposalEligiblePersonDataElement represents a DataElement
 type DisposalEligiblePersonDataElement struct {
 	DataElement
 }
+
+// UnmarshalHBCI unmarshals value into d
+func (d *DisposalEligiblePersonDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	parts := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		part := &AlphaNumericDataElement{}
+		if err := part.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		parts[i] = part
+	}
+	d.DataElement = newArrayElementGroup(disposalEligiblePersonDEG, 0, len(parts), parts)
+	return nil
+}
-- 
2.43.0


From fe48277336b26d2dd9f3e653377f1fd2ce6357bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 16/74] fix: unmarshal certificates

---
 element/signature.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/element/signature.go b/element/signature.go
index b134dda..429923e 100644
--- a/element/signature.go
+++ b/element/signature.go
@@ -429,3 +429,21 @@ func (c *CertificateDataElement) GroupDataElements() []DataElement {
 		c.Content,
 	}
 }
+
+// UnmarshalHBCI unmarshals value into the DataElement
+func (c *CertificateDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) != 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	c.DataElement = NewDataElementGroup(certificateDEG, 2, c)
+	c.CertificateType = &NumberDataElement{}
+	if err := c.CertificateType.UnmarshalHBCI(elements[0]); err != nil {
+		return err
+	}
+	c.Content = &BinaryDataElement{}
+	return c.Content.UnmarshalHBCI(elements[1])
+}
-- 
2.43.0


From 18f8a1f3d543e5b680645d8ab3881c968f76322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 17/74] fix: cut generic element groups at unprotected
 separators and reject surplus elements

---
 element/data_element.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/element/data_element.go b/element/data_element.go
index 6b56a17..7dba3aa 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -160,9 +160,15 @@ func (g *elementGroup) MarshalHBCI() ([]byte, error) {
 }
 
 func (g *elementGroup) UnmarshalHBCI(value []byte) error {
-	marshaledElements := bytes.Split(value, []byte(":"))
+	marshaledElements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
 	var errors []string
 	elements := g.elements()
+	if len(marshaledElements) > len(elements) {
+		return fmt.Errorf("malformed marshaled value: %d elements, expected %d", len(marshaledElements), len(elements))
+	}
 	for i, elem := range marshaledElements {
 		if len(elem) == 0 {
 			continue
-- 
2.43.0


From c6792b671b812d22dfe860d39c97aab5f47fc6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 18/74] fix: do not discard unmarshaled security profiles and
 encryption algorithms

---
 element/encryption.go       | 5 ++---
 element/signature_fints3.go | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/element/encryption.go b/element/encryption.go
index 9b74f98..75df9b0 100644
--- a/element/encryption.go
+++ b/element/encryption.go
@@ -64,15 +64,14 @@ func (e *EncryptionAlgorithmDataElement) GroupDataElements() []DataElement {
 
 // UnmarshalHBCI unmarshals value into the DataElement
 func (e *EncryptionAlgorithmDataElement) UnmarshalHBCI(value []byte) error {
-	e = &EncryptionAlgorithmDataElement{}
 	elements, err := ExtractElements(value)
 	if err != nil {
 		return err
 	}
-	if len(elements) < 7 {
+	if len(elements) < 6 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	e.DataElement = NewDataElementGroup(encryptionAlgorithmDEG, 5, e)
+	e.DataElement = NewDataElementGroup(encryptionAlgorithmDEG, 7, e)
 	e.Usage = &AlphaNumericDataElement{}
 	err = e.Usage.UnmarshalHBCI(elements[0])
 	if err != nil {
diff --git a/element/signature_fints3.go b/element/signature_fints3.go
index 6684328..d925a60 100644
--- a/element/signature_fints3.go
+++ b/element/signature_fints3.go
@@ -22,7 +22,6 @@ type SecurityProfileDataElement struct {
 
 // UnmarshalHBCI unmarshals value into the DataElement
 func (s *SecurityProfileDataElement) UnmarshalHBCI(value []byte) error {
-	s = &SecurityProfileDataElement{}
 	elements, err := ExtractElements(value)
 	if err != nil {
 		return err
@@ -30,7 +29,7 @@ func (s *SecurityProfileDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) < 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	s.DataElement = NewDataElementGroup(securityProfileDEG, 5, s)
+	s.DataElement = NewDataElementGroup(securityProfileDEG, 2, s)
 	s.SecurityMethod = &AlphaNumericDataElement{}
 	err = s.SecurityMethod.UnmarshalHBCI(elements[0])
 	if err != nil {
-- 
2.43.0


From d79a70bcea59dad0e553bea463d1199a1ea799d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 19/74] fix: give every dialog language its own code

---
 domain/language.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/language.go b/domain/language.go
index 1f2ef1a..d904d66 100644
--- a/domain/language.go
+++ b/domain/language.go
@@ -8,7 +8,7 @@ const (
 	// German represents the german language
 	German Language = 1
 	// English represents the english language
-	English
+	English Language = 2
 	// French represents the french language
-	French
+	French Language = 3
 )
-- 
2.43.0


From fd637995ceaf3b36a7c0b95ec9dbfac565ae35f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 20/74] fix: set the segment reference of headers without one

---
 element/segment_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element/segment_header.go b/element/segment_header.go
index 565ca58..3c2449b 100644
--- a/element/segment_header.go
+++ b/element/segment_header.go
@@ -42,7 +42,7 @@ func (s *SegmentHeader) SetPosition(pos int) {
 
 // SetReference sets the reference to another segment
 func (s *SegmentHeader) SetReference(ref int) {
-	*s.Ref = *NewNumber(ref, 3)
+	s.Ref = NewNumber(ref, 3)
 }
 
 // ReferencingSegment returns the reference number of the referenced segment
-- 
2.43.0


From 50b3e559a4b4803c1518271a04180d65f419ca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 21/74] fix: keep message numbers of header and end in step and
 do not write stale messages

---
 message/message.go     | 59 +++++++++++++++++++++---------------------
 segment/message_end.go |  5 ++++
 2 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/message/message.go b/message/message.go
index fc04b12..5dafe79 100644
--- a/message/message.go
+++ b/message/message.go
@@ -103,8 +103,7 @@ type BasicMessage struct {
 	SignatureBegin *segment.SignatureHeaderSegment
 	SignatureEnd   *segment.SignatureEndSegment
 	HBCIMessage
-	hbciVersion      segment.HBCIVersion
-	marshaledContent []byte
+	hbciVersion segment.HBCIVersion
 }
 
 // SetSegmentPositions sets the message number on every segment within the message
@@ -175,9 +174,12 @@ func (b *BasicMessage) SetSize() error {
 	return nil
 }
 
-// SetMessageNumber sets the message number in the MessageHeader
+// SetMessageNumber sets the message number in the MessageHeader and the MessageEnd
 func (b *BasicMessage) SetMessageNumber(messageNumber int) {
 	b.Header.SetMessageNumber(messageNumber)
+	if b.End != nil {
+		b.End.SetMessageNumber(messageNumber)
+	}
 }
 
 // MarshalHBCI marshals b into HBCI wire format
@@ -189,44 +191,41 @@ func (b *BasicMessage) MarshalHBCI() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if len(b.marshaledContent) == 0 {
-		var buffer bytes.Buffer
-		headerBytes, err := b.Header.MarshalHBCI()
+	var buffer bytes.Buffer
+	headerBytes, err := b.Header.MarshalHBCI()
+	if err != nil {
+		return nil, err
+	}
+	buffer.Write(headerBytes)
+	if b.SignatureBegin != nil {
+		sigBytes, err := b.SignatureBegin.MarshalHBCI()
 		if err != nil {
 			return nil, err
 		}
-		buffer.Write(headerBytes)
-		if b.SignatureBegin != nil {
-			sigBytes, err := b.SignatureBegin.MarshalHBCI()
-			if err != nil {
-				return nil, err
-			}
-			buffer.Write(sigBytes)
-		}
-		for _, segment := range b.HBCIMessage.HBCISegments() {
-			if !reflect.ValueOf(segment).IsNil() {
-				segBytes, err := segment.MarshalHBCI()
-				if err != nil {
-					return nil, err
-				}
-				buffer.Write(segBytes)
-			}
-		}
-		if b.SignatureEnd != nil {
-			sigEndBytes, err := b.SignatureEnd.MarshalHBCI()
+		buffer.Write(sigBytes)
+	}
+	for _, segment := range b.HBCIMessage.HBCISegments() {
+		if !reflect.ValueOf(segment).IsNil() {
+			segBytes, err := segment.MarshalHBCI()
 			if err != nil {
 				return nil, err
 			}
-			buffer.Write(sigEndBytes)
+			buffer.Write(segBytes)
 		}
-		endBytes, err := b.End.MarshalHBCI()
+	}
+	if b.SignatureEnd != nil {
+		sigEndBytes, err := b.SignatureEnd.MarshalHBCI()
 		if err != nil {
 			return nil, err
 		}
-		buffer.Write(endBytes)
-		b.marshaledContent = buffer.Bytes()
+		buffer.Write(sigEndBytes)
 	}
-	return b.marshaledContent, nil
+	endBytes, err := b.End.MarshalHBCI()
+	if err != nil {
+		return nil, err
+	}
+	buffer.Write(endBytes)
+	return buffer.Bytes(), nil
 }
 
 // Sign signs b using the SignatureProvider
diff --git a/segment/message_end.go b/segment/message_end.go
index 0fcbb62..33fa242 100644
--- a/segment/message_end.go
+++ b/segment/message_end.go
@@ -22,6 +22,11 @@ func (m *MessageEndSegment) ID() string           { return "HNHBS" }
 func (m *MessageEndSegment) referencedId() string { return "" }
 func (m *MessageEndSegment) sender() string       { return senderBoth }
 
+// SetMessageNumber sets the message number
+func (m *MessageEndSegment) SetMessageNumber(messageNumber int) {
+	m.Number = element.NewNumber(messageNumber, 4)
+}
+
 func (m *MessageEndSegment) elements() []element.DataElement {
 	return []element.DataElement{
 		m.Number,
-- 
2.43.0


From 8d15d2584a98401498a6bf17f79c59c5596b5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 22/74] fix: skip absent segments when looking for a segment in
 a client message

---
 message/message.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/message/message.go b/message/message.go
index 5dafe79..073d726 100644
--- a/message/message.go
+++ b/message/message.go
@@ -308,6 +308,9 @@ func (b *BasicMessage) MessageEnd() *segment.MessageEndSegment {
 // found. The first matching segment will be returned.
 func (b *BasicMessage) FindSegment(segmentID string) segment.Segment {
 	for _, segment := range b.HBCIMessage.HBCISegments() {
+		if reflect.ValueOf(segment).IsNil() {
+			continue
+		}
 		if segment.Header().ID.Val() == segmentID {
 			return segment
 		}
@@ -319,6 +322,9 @@ func (b *BasicMessage) FindSegment(segmentID string) segment.Segment {
 func (b *BasicMessage) FindSegments(segmentID string) []segment.Segment {
 	var segments []segment.Segment
 	for _, segment := range b.HBCIMessage.HBCISegments() {
+		if reflect.ValueOf(segment).IsNil() {
+			continue
+		}
 		if segment.Header().ID.Val() == segmentID {
 			segments = append(segments, segment)
 		}
@@ -330,6 +336,9 @@ func (b *BasicMessage) FindSegments(segmentID string) []segment.Segment {
 // nil if nothing found
 func (b *BasicMessage) FindMarshaledSegment(segmentID string) []byte {
 	for _, segment := range b.HBCIMessage.HBCISegments() {
+		if reflect.ValueOf(segment).IsNil() {
+			continue
+		}
 		if segment.Header().ID.Val() == segmentID {
 			return []byte(segment.String())
 		}
@@ -342,6 +351,9 @@ func (b *BasicMessage) FindMarshaledSegment(segmentID string) []byte {
 func (b *BasicMessage) FindMarshaledSegments(segmentID string) [][]byte {
 	var segments [][]byte
 	for _, segment := range b.HBCIMessage.HBCISegments() {
+		if reflect.ValueOf(segment).IsNil() {
+			continue
+		}
 		if segment.Header().ID.Val() == segmentID {
 			segments = append(segments, []byte(segment.String()))
 		}
-- 
2.43.0


From d2304f0d4b655b271ca03c331fa2fe184c7a2892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 23/74] fix: sign the segments as they are sent

---
 message/message.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/message/message.go b/message/message.go
index 073d726..36b8022 100644
--- a/message/message.go
+++ b/message/message.go
@@ -239,10 +239,18 @@ func (b *BasicMessage) Sign(provider SignatureProvider) (*BasicSignedMessage, er
 	b.SignatureEnd = b.hbciVersion.SignatureEnd()
 	b.SetSegmentPositions()
 	var buffer bytes.Buffer
-	buffer.WriteString(b.SignatureBegin.String())
+	sigBytes, err := b.SignatureBegin.MarshalHBCI()
+	if err != nil {
+		return nil, err
+	}
+	buffer.Write(sigBytes)
 	for _, segment := range b.HBCIMessage.HBCISegments() {
 		if !reflect.ValueOf(segment).IsNil() {
-			buffer.WriteString(segment.String())
+			segBytes, err := segment.MarshalHBCI()
+			if err != nil {
+				return nil, err
+			}
+			buffer.Write(segBytes)
 		}
 	}
 	sig, err := provider.Sign(buffer.Bytes())
-- 
2.43.0


From c29d0f3c5fd8e7ae3402c94506822ea8a7e5534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 24/74] fix: reject binary data whose length field does not
 match the data

---
 element/data_element.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/element/data_element.go b/element/data_element.go
index 7dba3aa..ebbd0ee 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -478,10 +478,14 @@ func (b *BinaryDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	binSize, err := strconv.Atoi(binSizeStr[:len(binSizeStr)-1])
+	parsedSize, err := strconv.ParseUint(binSizeStr[:len(binSizeStr)-1], 10, 31)
 	if err != nil {
 		return fmt.Errorf("Error while parsing binary size: %T:%v", err, err)
 	}
+	binSize := int(parsedSize)
+	if binSize != buf.Len() {
+		return fmt.Errorf("BinaryDataElement: Malformed input: expected %d bytes, got %d", binSize, buf.Len())
+	}
 	binData := make([]byte, binSize)
 	_, err = buf.Read(binData)
 	if err != nil {
-- 
2.43.0


From d4a8c104b1ea96ba5d040011546d1b11e2effe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 25/74] fix: accept only decimals as float elements

---
 element/data_element.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/element/data_element.go b/element/data_element.go
index ebbd0ee..8350abc 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -404,6 +404,11 @@ func (f *FloatDataElement) MarshalHBCI() ([]byte, error) {
 
 // UnmarshalHBCI unmarshals value into f
 func (f *FloatDataElement) UnmarshalHBCI(value []byte) error {
+	for i, c := range value {
+		if (c < '0' || c > '9') && c != ',' && (c != '-' || i != 0) {
+			return fmt.Errorf("FloatDataElement: Malformed input: %q", value)
+		}
+	}
 	str := strings.Replace(charset.ToUTF8(value), ",", ".", 1)
 	val, err := strconv.ParseFloat(str, 64)
 	if err != nil {
-- 
2.43.0


From 627e8df5faa29919e692546e679cfb8ac67b2fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 26/74] fix: take the booking time of balances as time of day
 of the booking date

---
 segment/account_balance.go | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/segment/account_balance.go b/segment/account_balance.go
index 7ed9ae3..bfe2741 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -202,6 +202,11 @@ type AccountBalanceResponseSegment struct {
 	AccountBalanceResponse
 }
 
+// withTimeOfDay returns date with the time of day of t, whose date is ignored.
+func withTimeOfDay(date, t time.Time) time.Time {
+	return time.Date(date.Year(), date.Month(), date.Day(), t.Hour(), t.Minute(), t.Second(), 0, date.Location())
+}
+
 type AccountBalanceResponseSegmentV5 struct {
 	Segment
 	AccountConnection  *element.AccountConnectionDataElement
@@ -249,9 +254,8 @@ func (a *AccountBalanceResponseSegmentV5) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = withTimeOfDay(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -325,9 +329,8 @@ func (a *AccountBalanceResponseSegmentV6) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = withTimeOfDay(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -401,9 +404,8 @@ func (a *AccountBalanceResponseSegmentV7) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = withTimeOfDay(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -439,9 +441,8 @@ func (a *AccountBalanceResponseSegmentV7) SepaAccountBalance() (domain.SepaAccou
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = withTimeOfDay(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -513,9 +514,8 @@ func (a *AccountBalanceResponseSegmentV8) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = withTimeOfDay(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -551,9 +551,8 @@ func (a *AccountBalanceResponseSegmentV8) SepaAccountBalance() (domain.SepaAccou
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = withTimeOfDay(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
-- 
2.43.0


From f37abeddfc7285a0145742f57c44001c1757cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 27/74] fix: take date and time of a status protocol entry as
 the time it was transmitted

---
 segment/status_protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index f3ac229..4c5d1ae 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -144,7 +144,7 @@ func (s *StatusProtocolResponseSegmentV3) Status() domain.StatusAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   withTimeOfDay(s.Date.Val(), s.Time.Val()),
 	}
 	return status
 }
@@ -184,7 +184,7 @@ func (s *StatusProtocolResponseSegmentV4) Status() domain.StatusAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   withTimeOfDay(s.Date.Val(), s.Time.Val()),
 	}
 	return status
 }
-- 
2.43.0


From 271016c243900d5ba5ec42a676a663acc88b8e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 28/74] fix: do not read status protocol entries without
 referenced segment as segment acknowledgements

---
 segment/status_protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index 4c5d1ae..a0fc9d5 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -137,6 +137,8 @@ func (s *StatusProtocolResponseSegmentV3) Status() domain.StatusAcknowledgement
 	ack := s.Acknowledgement.Val()
 	if s.ReferencingMessage != nil {
 		ack.ReferencingMessage = s.ReferencingMessage.Val()
+	}
+	if s.ReferencingSegment != nil {
 		ack.ReferencingSegmentNumber = s.ReferencingSegment.Val()
 		ack.Type = domain.SegmentAcknowledgement
 	} else {
@@ -177,6 +179,8 @@ func (s *StatusProtocolResponseSegmentV4) Status() domain.StatusAcknowledgement
 	ack := s.Acknowledgement.Val()
 	if s.ReferencingMessage != nil {
 		ack.ReferencingMessage = s.ReferencingMessage.Val()
+	}
+	if s.ReferencingSegment != nil {
 		ack.ReferencingSegmentNumber = s.ReferencingSegment.Val()
 		ack.Type = domain.SegmentAcknowledgement
 	} else {
-- 
2.43.0


From d56299da6923e2ce218612ff7aba05e524ad43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 29/74] fix: unmarshal the JSON of a zero short date

---
 domain/time.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/time.go b/domain/time.go
index 8eead6f..d5fb499 100644
--- a/domain/time.go
+++ b/domain/time.go
@@ -34,6 +34,10 @@ func (s *ShortDate) MarshalJSON() ([]byte, error) {
 
 // UnmarshalJSON unmarshals the JSON representation into a date
 func (s *ShortDate) UnmarshalJSON(data []byte) error {
+	if string(data) == `""` { // the zero date
+		*s = ShortDate{}
+		return nil
+	}
 	unquotedData, _ := strconv.Unquote(string(data))
 	time, err := time.Parse("2006-01-02", unquotedData)
 	s.Time = time
-- 
2.43.0


From c14135a948f52ff230643916a7bcc0242f880001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 30/74] fix: give absent elements their zero value instead of
 panicking

---
 element/acknowledgement.go          |   6 ++
 element/data_element.go             | 110 +++++++++++++++++++++++++---
 element/group_data_element_group.go |  15 ++++
 element/message.go                  |   3 +
 element/signature.go                |   4 +-
 element/swift.go                    |   3 +
 6 files changed, 126 insertions(+), 15 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 71053c4..1cbd272 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -64,6 +64,9 @@ func (a *AcknowledgementDataElement) SetType(acknowledgementType string) {
 
 // Val returns the underlying value of the acknowledgement.
 func (a *AcknowledgementDataElement) Val() domain.Acknowledgement {
+	if a == nil {
+		return domain.Acknowledgement{}
+	}
 	return domain.Acknowledgement{
 		Code:                     a.Code.Val(),
 		ReferenceDataElement:     a.ReferenceDataElement.Val(),
@@ -138,6 +141,9 @@ type ParamsDataElement struct {
 
 // Val returns the underlying value of the DataElement.
 func (p *ParamsDataElement) Val() []string {
+	if p == nil {
+		return nil
+	}
 	params := make([]string, len(p.array))
 	for i, de := range p.array {
 		params[i] = de.Value().(string)
diff --git a/element/data_element.go b/element/data_element.go
index 8350abc..dfc5f5f 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -254,8 +254,14 @@ type AlphaNumericDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the data as string
-func (a *AlphaNumericDataElement) Val() string { return a.val.(string) }
+// Val returns the data as string.
+// It is the zero value if the element is absent
+func (a *AlphaNumericDataElement) Val() string {
+	if a == nil {
+		return ""
+	}
+	return a.val.(string)
+}
 
 // IsValid returns false if a contains '\n' and '\r', true otherwise
 func (a *AlphaNumericDataElement) IsValid() bool {
@@ -294,8 +300,14 @@ type TextDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the value of a as a string
-func (a *TextDataElement) Val() string { return a.val.(string) }
+// Val returns the value of a as a string.
+// It is the zero value if the element is absent
+func (a *TextDataElement) Val() string {
+	if a == nil {
+		return ""
+	}
+	return a.val.(string)
+}
 func (a *TextDataElement) String() string {
 	return escape(a.basicDataElement.String())
 }
@@ -324,8 +336,14 @@ type DigitDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the digit as int
-func (d *DigitDataElement) Val() int { return d.val.(int) }
+// Val returns the digit as int.
+// It is the zero value if the element is absent
+func (d *DigitDataElement) Val() int {
+	if d == nil {
+		return 0
+	}
+	return d.val.(int)
+}
 
 func (d *DigitDataElement) String() string {
 	fmtString := fmt.Sprintf("%%0%dd", d.maxLength)
@@ -357,8 +375,14 @@ type NumberDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the value of n as int
-func (n *NumberDataElement) Val() int { return n.val.(int) }
+// Val returns the value of n as int.
+// It is the zero value if the element is absent
+func (n *NumberDataElement) Val() int {
+	if n == nil {
+		return 0
+	}
+	return n.val.(int)
+}
 
 // MarshalHBCI marshals n into the HBCI wire format
 func (n *NumberDataElement) MarshalHBCI() ([]byte, error) {
@@ -385,8 +409,14 @@ type FloatDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the value of f as float64
-func (f *FloatDataElement) Val() float64 { return f.val.(float64) }
+// Val returns the value of f as float64.
+// It is the zero value if the element is absent
+func (f *FloatDataElement) Val() float64 {
+	if f == nil {
+		return 0
+	}
+	return f.val.(float64)
+}
 
 func (f *FloatDataElement) String() string {
 	str := strconv.FormatFloat(f.Val(), 'f', -1, 64)
@@ -451,8 +481,12 @@ type BinaryDataElement struct {
 	*basicDataElement
 }
 
-// Val returns b as []byte
+// Val returns b as []byte.
+// It is the zero value if the element is absent
 func (b *BinaryDataElement) Val() []byte {
+	if b == nil {
+		return nil
+	}
 	return b.Value().([]byte)
 }
 
@@ -510,8 +544,12 @@ type BooleanDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the value of b as bool
+// Val returns the value of b as bool.
+// It is the zero value if the element is absent
 func (b *BooleanDataElement) Val() bool {
+	if b == nil {
+		return false
+	}
 	return b.Value().(bool)
 }
 
@@ -555,6 +593,14 @@ type CodeDataElement struct {
 	validSet []string
 }
 
+// Val returns the value of c. It is the zero value if the element is absent
+func (c *CodeDataElement) Val() string {
+	if c == nil {
+		return ""
+	}
+	return c.AlphaNumericDataElement.Val()
+}
+
 // Type returns the DataElementType of c
 func (c *CodeDataElement) Type() DataElementType {
 	return codeDE
@@ -587,7 +633,11 @@ type DateDataElement struct {
 }
 
 // Val returns the value of d as time.Time. The time component of it will always be zero.
+// It is the zero value if the element is absent
 func (d *DateDataElement) Val() time.Time {
+	if d == nil {
+		return time.Time{}
+	}
 	return d.Value().(time.Time)
 }
 
@@ -645,7 +695,11 @@ type TimeDataElement struct {
 }
 
 // Val returns the value of t as time.Time.
+// It is the zero value if the element is absent
 func (t *TimeDataElement) Val() time.Time {
+	if t == nil {
+		return time.Time{}
+	}
 	return t.Value().(time.Time)
 }
 
@@ -686,6 +740,14 @@ type IdentificationDataElement struct {
 	*AlphaNumericDataElement
 }
 
+// Val returns the value of i. It is the zero value if the element is absent
+func (i *IdentificationDataElement) Val() string {
+	if i == nil {
+		return ""
+	}
+	return i.AlphaNumericDataElement.Val()
+}
+
 // Type returns the DataElementType of i
 func (i *IdentificationDataElement) Type() DataElementType {
 	return identificationDE
@@ -715,6 +777,14 @@ type CountryCodeDataElement struct {
 	*DigitDataElement
 }
 
+// Val returns the value of c. It is the zero value if the element is absent
+func (c *CountryCodeDataElement) Val() int {
+	if c == nil {
+		return 0
+	}
+	return c.DigitDataElement.Val()
+}
+
 // Type represents the DataElement Type of c
 func (c *CountryCodeDataElement) Type() DataElementType {
 	return countryCodeDE
@@ -749,6 +819,14 @@ func (c *CurrencyDataElement) IsValid() bool {
 	return c.Length() == 3
 }
 
+// Val returns the value of c. It is the zero value if the element is absent
+func (c *CurrencyDataElement) Val() string {
+	if c == nil {
+		return ""
+	}
+	return c.AlphaNumericDataElement.Val()
+}
+
 // Type returns the DataElementType of c
 func (c *CurrencyDataElement) Type() DataElementType {
 	return currencyDE
@@ -777,6 +855,14 @@ type ValueDataElement struct {
 	*FloatDataElement
 }
 
+// Val returns the value of v. It is the zero value if the element is absent
+func (v *ValueDataElement) Val() float64 {
+	if v == nil {
+		return 0
+	}
+	return v.FloatDataElement.Val()
+}
+
 // Type returns the DataElementType of v
 func (v *ValueDataElement) Type() DataElementType {
 	return valueDE
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 2824aff..17e1ddd 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -38,6 +38,9 @@ func (a *AmountDataElement) Elements() []DataElement {
 
 // Val returns the value of a as a domain.Amount
 func (a *AmountDataElement) Val() domain.Amount {
+	if a == nil {
+		return domain.Amount{}
+	}
 	return domain.Amount{
 		Amount:   a.Amount.Val(),
 		Currency: a.Currency.Val(),
@@ -86,6 +89,9 @@ type BankIdentificationDataElement struct {
 
 // Val returns the value of b as domain.BankID
 func (b *BankIdentificationDataElement) Val() domain.BankID {
+	if b == nil {
+		return domain.BankID{}
+	}
 	return domain.BankID{
 		CountryCode: b.CountryCode.Val(),
 		ID:          b.BankID.Val(),
@@ -176,6 +182,9 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 
 // Val returns the value of a as domain.AccountConnection
 func (a *AccountConnectionDataElement) Val() domain.AccountConnection {
+	if a == nil {
+		return domain.AccountConnection{}
+	}
 	return domain.AccountConnection{
 		AccountID:                 a.AccountID.Val(),
 		SubAccountCharacteristics: a.SubAccountCharacteristics.Val(),
@@ -269,6 +278,9 @@ func (i *InternationalAccountConnectionDataElement) UnmarshalHBCI(value []byte)
 // Val returns the value of i as domain.InternationalAccountConnection
 func (i *InternationalAccountConnectionDataElement) Val() domain.InternationalAccountConnection {
 	conn := domain.InternationalAccountConnection{}
+	if i == nil {
+		return conn
+	}
 	if i.IBAN != nil {
 		conn.IBAN = i.IBAN.Val()
 	}
@@ -331,6 +343,9 @@ func (b *BalanceDataElement) Elements() []DataElement {
 
 // Balance returns the balance as domain.Balance
 func (b *BalanceDataElement) Balance() domain.Balance {
+	if b == nil {
+		return domain.Balance{}
+	}
 	sign := b.DebitCreditIndicator.Val()
 	val := b.Amount.Val()
 	if sign == "D" {
diff --git a/element/message.go b/element/message.go
index 7d354c0..80ea7c0 100644
--- a/element/message.go
+++ b/element/message.go
@@ -29,6 +29,9 @@ type ReferencingMessageDataElement struct {
 
 // Val returns the value of r as domain.ReferencingMessage
 func (r *ReferencingMessageDataElement) Val() domain.MessageReference {
+	if r == nil {
+		return domain.MessageReference{}
+	}
 	return domain.MessageReference{
 		DialogID:      r.DialogID.Val(),
 		MessageNumber: r.MessageNumber.Val(),
diff --git a/element/signature.go b/element/signature.go
index 429923e..c015bec 100644
--- a/element/signature.go
+++ b/element/signature.go
@@ -333,9 +333,7 @@ type KeyNameDataElement struct {
 // Val returns the KeyName as domain.KeyName
 func (k *KeyNameDataElement) Val() domain.KeyName {
 	return domain.KeyName{
-		BankID: domain.BankID{
-			CountryCode: k.Bank.CountryCode.Val(),
-			ID:          k.Bank.BankID.Val()},
+		BankID:     k.Bank.Val(),
 		UserID:     k.UserID.Val(),
 		KeyType:    domain.KeyType(k.KeyType.Val()),
 		KeyNumber:  k.KeyNumber.Val(),
diff --git a/element/swift.go b/element/swift.go
index fc9bc94..45c60f5 100644
--- a/element/swift.go
+++ b/element/swift.go
@@ -24,5 +24,8 @@ func (s *SwiftMT940DataElement) UnmarshalHBCI(value []byte) error {
 
 // Val returns the embodied transactions as *swift.MT940Messages
 func (s *SwiftMT940DataElement) Val() *swift.MT940Messages {
+	if s == nil {
+		return nil
+	}
 	return s.swiftMT940Messages
 }
-- 
2.43.0


From 5e5918ffbe10188242c007dbff0afb2c10e1841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 31/74] fix: decode the custom signature of a signature end

---
 element/pin.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/element/pin.go b/element/pin.go
index 35662f2..a601cf3 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -30,6 +30,12 @@ type CustomSignatureDataElement struct {
 	*PinTanDataElement
 }
 
+// UnmarshalHBCI unmarshals value into the DataElement
+func (c *CustomSignatureDataElement) UnmarshalHBCI(value []byte) error {
+	c.PinTanDataElement = &PinTanDataElement{}
+	return c.PinTanDataElement.UnmarshalHBCI(value)
+}
+
 // NewPinTan returns a new PinTanDataElement for pin and tan
 func NewPinTan(pin, tan string) *PinTanDataElement {
 	p := &PinTanDataElement{
-- 
2.43.0


From 5c68180fd695d0556761263e2d29e2f654f6a5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 32/74] fix: decode all elements of the TAN response

---
 element/data_element_type.go |  2 ++
 element/tan.go               | 21 +++++++++++++++++++++
 segment/tan.go               |  4 ++++
 segment/tan_unmarshaler.go   | 36 ++++++++++++++++++++++++++++++++----
 4 files changed, 59 insertions(+), 4 deletions(-)

diff --git a/element/data_element_type.go b/element/data_element_type.go
index e9dda8f..a81e71c 100644
--- a/element/data_element_type.go
+++ b/element/data_element_type.go
@@ -65,6 +65,7 @@ const (
 	tan2StepSubmissionParameterDEG
 	tan2StepSubmissionProcessParameterDEG
 	pinTanSpecificParamDataElementDEG
+	tanChallengeExpiryDateDEG
 	supportedCompressionMethodDEG
 )
 
@@ -119,6 +120,7 @@ var typeName = map[DataElementType]string{
 	tan2StepSubmissionParameterDEG:        "Parameter Zwei-Schritt-TAN-Einreichung",
 	tan2StepSubmissionProcessParameterDEG: "Verfahrensparameter Zwei-Schritt-Verfahren",
 	pinTanSpecificParamDataElementDEG:     "Parameter PIN/TAN-spezifische Informationen",
+	tanChallengeExpiryDateDEG:             "Gültigkeitsdatum und -uhrzeit für Challenge",
 }
 
 func (d DataElementType) String() string {
diff --git a/element/tan.go b/element/tan.go
index 83ef66c..fa9b1c5 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -27,6 +27,27 @@ func (t *TanChallengeExpiryDate) GroupDataElements() []DataElement {
 	}
 }
 
+// UnmarshalHBCI unmarshals value
+func (t *TanChallengeExpiryDate) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value: less than 2 elements")
+	}
+	t.Date = &DateDataElement{}
+	if err := t.Date.UnmarshalHBCI(elements[0]); err != nil {
+		return fmt.Errorf("error unmarshaling Date: %w", err)
+	}
+	t.Time = &TimeDataElement{}
+	if err := t.Time.UnmarshalHBCI(elements[1]); err != nil {
+		return fmt.Errorf("error unmarshaling Time: %w", err)
+	}
+	t.DataElement = NewDataElementGroup(tanChallengeExpiryDateDEG, 2, t)
+	return nil
+}
+
 // Tan2StepSubmissionParameterV6
 //
 // Parameter Zwei-Schritt-TAN-Einreichung, Elementversion #6
diff --git a/segment/tan.go b/segment/tan.go
index 4ce19e0..39d8302 100644
--- a/segment/tan.go
+++ b/segment/tan.go
@@ -153,5 +153,9 @@ func (t *TanResponseSegmentV6) elements() []element.DataElement {
 		t.TANProcess,
 		t.JobHash,
 		t.JobReference,
+		t.Challenge,
+		t.ChallengeHHD_UC,
+		t.TANMediumDescription,
+		t.ChallengeExpiryDate,
 	}
 }
diff --git a/segment/tan_unmarshaler.go b/segment/tan_unmarshaler.go
index 574ea36..f0eb154 100644
--- a/segment/tan_unmarshaler.go
+++ b/segment/tan_unmarshaler.go
@@ -72,13 +72,41 @@ func (t *TanResponseSegmentV6) UnmarshalHBCI(value []byte) error {
 	}
 	if len(elements) > 3 && len(elements[3]) > 0 {
 		t.JobReference = &element.AlphaNumericDataElement{}
-		if len(elements)+1 > 3 {
-			err = t.JobReference.UnmarshalHBCI(bytes.Join(elements[3:], []byte("+")))
+		err = t.JobReference.UnmarshalHBCI(elements[3])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling JobReference: %w", err)
+		}
+	}
+	if len(elements) > 4 && len(elements[4]) > 0 {
+		t.Challenge = &element.AlphaNumericDataElement{}
+		err = t.Challenge.UnmarshalHBCI(elements[4])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling Challenge: %w", err)
+		}
+	}
+	if len(elements) > 5 && len(elements[5]) > 0 {
+		t.ChallengeHHD_UC = &element.BinaryDataElement{}
+		err = t.ChallengeHHD_UC.UnmarshalHBCI(elements[5])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling ChallengeHHD_UC: %w", err)
+		}
+	}
+	if len(elements) > 6 && len(elements[6]) > 0 {
+		t.TANMediumDescription = &element.AlphaNumericDataElement{}
+		err = t.TANMediumDescription.UnmarshalHBCI(elements[6])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling TANMediumDescription: %w", err)
+		}
+	}
+	if len(elements) > 7 && len(elements[7]) > 0 {
+		t.ChallengeExpiryDate = &element.TanChallengeExpiryDate{}
+		if len(elements)+1 > 7 {
+			err = t.ChallengeExpiryDate.UnmarshalHBCI(bytes.Join(elements[7:], []byte("+")))
 		} else {
-			err = t.JobReference.UnmarshalHBCI(elements[3])
+			err = t.ChallengeExpiryDate.UnmarshalHBCI(elements[7])
 		}
 		if err != nil {
-			return fmt.Errorf("error unmarshaling JobReference: %w", err)
+			return fmt.Errorf("error unmarshaling ChallengeExpiryDate: %w", err)
 		}
 	}
 	return nil
-- 
2.43.0


From 30947234c19c855892530905265dc0fbfe40c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 33/74] fix: report user name and extensions of user parameter
 data version 3

---
 segment/user_parameter_data.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/segment/user_parameter_data.go b/segment/user_parameter_data.go
index 1655369..2256370 100644
--- a/segment/user_parameter_data.go
+++ b/segment/user_parameter_data.go
@@ -93,9 +93,11 @@ func (c *CommonUserParameterDataV3) elements() []element.DataElement {
 
 func (c *CommonUserParameterDataV3) UserParameterData() domain.UserParameterData {
 	return domain.UserParameterData{
-		UserID:  c.UserID.Val(),
-		Version: c.UPDVersion.Val(),
-		Usage:   c.UPDUsage.Val(),
+		UserID:    c.UserID.Val(),
+		Version:   c.UPDVersion.Val(),
+		Usage:     c.UPDUsage.Val(),
+		UserName:  c.UserName.Val(),
+		Additions: c.CommonExtensions.Val(),
 	}
 }
 
-- 
2.43.0


From dd6bb95e2f968b529b04df87fd05ad171587bd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 34/74] fix: decode all allowed business transactions of
 account information versions 6 and 7

---
 segment/basic_account_information.go          | 21 +++++++
 .../basic_account_information_unmarshaler.go  | 58 ++++++++++---------
 2 files changed, 52 insertions(+), 27 deletions(-)

diff --git a/segment/basic_account_information.go b/segment/basic_account_information.go
index c01b7c0..2f02301 100644
--- a/segment/basic_account_information.go
+++ b/segment/basic_account_information.go
@@ -261,3 +261,24 @@ func (a *AccountInformationV7) elements() []element.DataElement {
 		a.AccountExtensions,
 	}
 }
+
+// splitAccountExtensions divides the elements following the account limit into
+// the allowed business transactions, which may be repeated, and the account
+// extensions. In contrast to a business transaction, the extensions are not a
+// group of elements.
+func splitAccountExtensions(elements [][]byte) (transactions [][]byte, extensions []byte, err error) {
+	for i, elem := range elements {
+		if len(elem) == 0 {
+			continue
+		}
+		group, err := element.ExtractElements(elem)
+		if err != nil {
+			return nil, nil, err
+		}
+		if i == len(elements)-1 && len(group) == 1 {
+			return transactions, elem, nil
+		}
+		transactions = append(transactions, elem)
+	}
+	return transactions, nil, nil
+}
diff --git a/segment/basic_account_information_unmarshaler.go b/segment/basic_account_information_unmarshaler.go
index a14818c..769b972 100644
--- a/segment/basic_account_information_unmarshaler.go
+++ b/segment/basic_account_information_unmarshaler.go
@@ -305,22 +305,24 @@ func (a *AccountInformationV6) UnmarshalHBCI(value []byte) error {
 			return fmt.Errorf("error unmarshaling AccountLimit: %w", err)
 		}
 	}
-	if len(elements) > 10 && len(elements[10]) > 0 {
-		a.AllowedBusinessTransactions = &element.AllowedBusinessTransactionsDataElement{}
-		err = a.AllowedBusinessTransactions.UnmarshalHBCI(elements[10])
+	if len(elements) > 10 {
+		transactions, extensions, err := splitAccountExtensions(elements[10:])
 		if err != nil {
-			return fmt.Errorf("error unmarshaling AllowedBusinessTransactions: %w", err)
+			return err
 		}
-	}
-	if len(elements) > 11 && len(elements[11]) > 0 {
-		a.AccountExtensions = &element.AlphaNumericDataElement{}
-		if len(elements)+1 > 11 {
-			err = a.AccountExtensions.UnmarshalHBCI(bytes.Join(elements[11:], []byte("+")))
-		} else {
-			err = a.AccountExtensions.UnmarshalHBCI(elements[11])
+		if len(transactions) > 0 {
+			a.AllowedBusinessTransactions = &element.AllowedBusinessTransactionsDataElement{}
+			err = a.AllowedBusinessTransactions.UnmarshalHBCI(bytes.Join(transactions, []byte("+")))
+			if err != nil {
+				return fmt.Errorf("error unmarshaling AllowedBusinessTransactions: %w", err)
+			}
 		}
-		if err != nil {
-			return fmt.Errorf("error unmarshaling AccountExtensions: %w", err)
+		if len(extensions) > 0 {
+			a.AccountExtensions = &element.AlphaNumericDataElement{}
+			err = a.AccountExtensions.UnmarshalHBCI(extensions)
+			if err != nil {
+				return fmt.Errorf("error unmarshaling AccountExtensions: %w", err)
+			}
 		}
 	}
 	return nil
@@ -402,22 +404,24 @@ func (a *AccountInformationV7) UnmarshalHBCI(value []byte) error {
 			return fmt.Errorf("error unmarshaling AccountLimit: %w", err)
 		}
 	}
-	if len(elements) > 10 && len(elements[10]) > 0 {
-		a.AllowedBusinessTransactions = &element.AllowedBusinessTransactionsDataElement{}
-		err = a.AllowedBusinessTransactions.UnmarshalHBCI(elements[10])
+	if len(elements) > 10 {
+		transactions, extensions, err := splitAccountExtensions(elements[10:])
 		if err != nil {
-			return fmt.Errorf("error unmarshaling AllowedBusinessTransactions: %w", err)
-		}
-	}
-	if len(elements) > 11 && len(elements[11]) > 0 {
-		a.AccountExtensions = &element.AlphaNumericDataElement{}
-		if len(elements)+1 > 11 {
-			err = a.AccountExtensions.UnmarshalHBCI(bytes.Join(elements[11:], []byte("+")))
-		} else {
-			err = a.AccountExtensions.UnmarshalHBCI(elements[11])
+			return err
 		}
-		if err != nil {
-			return fmt.Errorf("error unmarshaling AccountExtensions: %w", err)
+		if len(transactions) > 0 {
+			a.AllowedBusinessTransactions = &element.AllowedBusinessTransactionsDataElement{}
+			err = a.AllowedBusinessTransactions.UnmarshalHBCI(bytes.Join(transactions, []byte("+")))
+			if err != nil {
+				return fmt.Errorf("error unmarshaling AllowedBusinessTransactions: %w", err)
+			}
+		}
+		if len(extensions) > 0 {
+			a.AccountExtensions = &element.AlphaNumericDataElement{}
+			err = a.AccountExtensions.UnmarshalHBCI(extensions)
+			if err != nil {
+				return fmt.Errorf("error unmarshaling AccountExtensions: %w", err)
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 7858ad06f11ad8eb5b5ad45a38e2f33223c971b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 35/74] fix: book reversed credits as debit and reversed debits
 as credit

---
 swift/mt940.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 6a6b829..31d91b4 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -34,11 +34,10 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 	for _, transactionSequence := range m.Transactions {
 		tr := transactionSequence.Transaction
 		descr := transactionSequence.Description
-		var amount float64
-		if tr.DebitCreditIndicator == "D" {
-			amount = -tr.Amount
-		} else {
-			amount = tr.Amount
+		amount := tr.Amount
+		switch tr.DebitCreditIndicator {
+		case "D", "RC": // debit or reversed credit
+			amount = -amount
 		}
 		transaction := domain.AccountTransaction{
 			Account:     accountConnection,
@@ -255,7 +254,7 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 		if unicode.IsDigit(r) {
 			buf.UnreadRune()
 			runes = runes[:len(runes)-1]
-			if len(runes) == 3 {
+			if len(runes) == 3 || len(runes) == 2 && runes[0] == 'R' { // RC or RD
 				t.DebitCreditIndicator = string(runes[:2])
 				t.CurrencyKind = string(runes[2:])
 			} else if len(runes) == 2 {
-- 
2.43.0


From ef59dc118967cdb23ceb1b7ee6123c573e29d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 36/74] fix: report overdrawn balances of a statement as
 negative

---
 swift/mt940.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 31d91b4..aa5a45e 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -44,20 +44,8 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 			Amount:      domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
 			ValutaDate:  tr.ValutaDate.Time,
 			BookingDate: tr.BookingDate.Time,
-			AccountBalanceBefore: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.StartingBalance.Amount,
-					Currency: m.StartingBalance.Currency,
-				},
-				TransmissionDate: m.StartingBalance.BookingDate.Time,
-			},
-			AccountBalanceAfter: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.ClosingBalance.Amount,
-					Currency: m.ClosingBalance.Currency,
-				},
-				TransmissionDate: m.ClosingBalance.BookingDate.Time,
-			},
+			AccountBalanceBefore: m.StartingBalance.Balance(),
+			AccountBalanceAfter:  m.ClosingBalance.Balance(),
 		}
 		if descr != nil {
 			transaction.BookingText = descr.BookingText
-- 
2.43.0


From 7c9ddd9964d901d27df40cc09a30447a71e002f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 37/74] fix: do not panic on statements without account or
 balance

---
 swift/mt940.go     | 18 +++++++++++++-----
 swift/unmarshal.go |  1 +
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index aa5a45e..0f40773 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -29,7 +29,12 @@ type MT940 struct {
 
 // AccountTransactions returns a slice of account transactions created from m
 func (m *MT940) AccountTransactions() []domain.AccountTransaction {
-	accountConnection := domain.AccountConnection{BankID: m.Account.BankID, AccountID: m.Account.AccountID, CountryCode: 280}
+	var accountConnection domain.AccountConnection
+	if m.Account != nil {
+		accountConnection = domain.AccountConnection{BankID: m.Account.BankID, AccountID: m.Account.AccountID, CountryCode: 280}
+	}
+	balanceBefore := m.StartingBalance.Balance()
+	balanceAfter := m.ClosingBalance.Balance()
 	var transactions []domain.AccountTransaction
 	for _, transactionSequence := range m.Transactions {
 		tr := transactionSequence.Transaction
@@ -41,11 +46,11 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 		}
 		transaction := domain.AccountTransaction{
 			Account:     accountConnection,
-			Amount:      domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
+			Amount:      domain.Amount{Amount: amount, Currency: balanceBefore.Amount.Currency},
 			ValutaDate:  tr.ValutaDate.Time,
 			BookingDate: tr.BookingDate.Time,
-			AccountBalanceBefore: m.StartingBalance.Balance(),
-			AccountBalanceAfter:  m.ClosingBalance.Balance(),
+			AccountBalanceBefore: balanceBefore,
+			AccountBalanceAfter:  balanceAfter,
 		}
 		if descr != nil {
 			transaction.BookingText = descr.BookingText
@@ -137,8 +142,11 @@ type BalanceTag struct {
 	Amount               float64
 }
 
-// Balance returns the balance embodied in b
+// Balance returns the balance embodied in b. It is the zero value if the tag is absent
 func (b *BalanceTag) Balance() domain.Balance {
+	if b == nil {
+		return domain.Balance{}
+	}
 	amount := b.Amount
 	if b.DebitCreditIndicator == "D" {
 		amount = -amount
diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index e81efd8..2eecc70 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -88,6 +88,7 @@ func (m *mt940MessagesUnmarshaler) UnmarshalMT940(value []byte) ([]domain.Accoun
 		err = tr.Unmarshal(message)
 		if err != nil {
 			errors = append(errors, fmt.Errorf("error unmarshaling MT940: %w", err))
+			continue
 		}
 		transactions = append(transactions, tr.AccountTransactions()...)
 	}
-- 
2.43.0


From e6695a31143d7030ec129e53db3e0b75c8732bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 38/74] fix: find the year of booking dates before and after
 the turn of the year

---
 swift/mt940.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 0f40773..2be16fa 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -3,7 +3,6 @@ package swift
 import (
 	"bytes"
 	"fmt"
-	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -230,15 +229,27 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if unicode.IsDigit(r) {
 		buf.UnreadRune()
 		dateBytes = buf.Next(4)
-		date, err = parseDate(dateBytes, t.ValutaDate.Year())
+		if len(dateBytes) != 4 {
+			return fmt.Errorf("%T: Malformed marshaled value", t)
+		}
+		month, err := strconv.Atoi(string(dateBytes[:2]))
 		if err != nil {
 			return errors.WithMessage(err, "unmarshal transaction tag: parsing booking date")
 		}
-		t.BookingDate = domain.NewShortDate(date)
-		monthDiff := int(math.Abs(float64(t.ValutaDate.Month() - t.BookingDate.Month())))
-		if monthDiff > 1 {
-			t.BookingDate = domain.NewShortDate(t.BookingDate.AddDate(1, 0, 0))
+		// The booking date comes without a year, it is the one next to the
+		// valuta date
+		year := t.ValutaDate.Year()
+		switch monthDiff := month - int(t.ValutaDate.Month()); {
+		case monthDiff > 6:
+			year--
+		case monthDiff < -6:
+			year++
+		}
+		date, err = parseDate(dateBytes, year)
+		if err != nil {
+			return errors.WithMessage(err, "unmarshal transaction tag: parsing booking date")
 		}
+		t.BookingDate = domain.NewShortDate(date)
 	}
 	var runes []rune
 	for {
-- 
2.43.0


From 34f2e29ef8c9db60268e3b2ed2c970c0213880d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 39/74] fix: do not panic on a slash at the start of the
 additional information of a transaction

---
 swift/mt940.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 2be16fa..c426759 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -289,16 +289,20 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	doubleSlashIdx := strings.Index(remaining, "//")
 
 	if doubleSlashIdx != -1 && addInfSepIdx != -1 {
-		t.Reference = remaining[:doubleSlashIdx]
 		if doubleSlashIdx < addInfSepIdx {
+			t.Reference = remaining[:doubleSlashIdx]
 			t.BankReference = remaining[doubleSlashIdx+2 : addInfSepIdx]
 			t.AdditionalInformation = remaining[addInfSepIdx+3:]
 		} else {
 			// The only valid case in the FINTS30 documentation in the other
 			// one, but the data we receive are sometimes formatted like that
 			// :(
-			t.BankReference = remaining[addInfSepIdx+3 : doubleSlashIdx]
-			t.AdditionalInformation = remaining[doubleSlashIdx+2:]
+			t.Reference = remaining[:addInfSepIdx]
+			t.AdditionalInformation = remaining[addInfSepIdx+3:]
+			if idx := strings.Index(t.AdditionalInformation, "//"); idx != -1 {
+				t.BankReference = t.AdditionalInformation[:idx]
+				t.AdditionalInformation = t.AdditionalInformation[idx+2:]
+			}
 		}
 	} else {
 		t.Reference = remaining
-- 
2.43.0


From 477b377412329d08be4eee1f5103c145749f928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 40/74] fix: read the fields of a description in the order they
 come in

---
 swift/element.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/swift/element.go b/swift/element.go
index c2a91f2..62934f4 100644
--- a/swift/element.go
+++ b/swift/element.go
@@ -3,6 +3,7 @@ package swift
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 
 	"github.com/mitch000001/go-hbci/charset"
@@ -150,6 +151,9 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 		return err
 	}
 	c.Tag = tag.ID
+	if len(tag.Value) < 3 {
+		return fmt.Errorf("%T: Malformed marshaled value", c)
+	}
 	tID, err := strconv.Atoi(charset.ToUTF8(tag.Value[:3]))
 	if err != nil {
 		return err
@@ -166,6 +170,8 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 		}
 	}
 
+	sort.Slice(fields, func(i, j int) bool { return fields[i].index < fields[j].index })
+
 	getFieldValue := func(currentFieldKeyIndex, nextFieldKeyIndex int) string {
 		return charset.ToUTF8(
 			marshaledFields[currentFieldKeyIndex+3 : nextFieldKeyIndex],
-- 
2.43.0


From 53d6beadc9551657eca26248e3a14a50c266f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 41/74] fix: keep the year of dates at the end of February in
 statements

---
 swift/mt940.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swift/mt940.go b/swift/mt940.go
index c426759..79f805f 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -329,6 +329,9 @@ func parseDate(value []byte, referenceYear int) (time.Time, error) {
 	dateString := yearBegin + string(value)
 	date, err := time.Parse("20060102", dateString)
 	if err != nil {
+		if year, err := strconv.Atoi(dateString[:4]); err == nil {
+			referenceYear = year
+		}
 		if strings.HasSuffix(dateString, "0229") {
 			return time.Date(referenceYear, 2, 29, 0, 0, 0, 0, time.UTC), nil
 		}
-- 
2.43.0


From 49bdcdbda1b07d9410523837032939643badd271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 42/74] fix: keep the debit mark of transactions without
 booking date

---
 swift/mt940.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 79f805f..c452d2f 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -226,8 +226,8 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if err != nil {
 		return err
 	}
+	buf.UnreadRune()
 	if unicode.IsDigit(r) {
-		buf.UnreadRune()
 		dateBytes = buf.Next(4)
 		if len(dateBytes) != 4 {
 			return fmt.Errorf("%T: Malformed marshaled value", t)
-- 
2.43.0


From 0c8396696ac879cdca826c94a5c60720ceb247a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 43/74] fix: accept only decimals as amounts of a statement

---
 swift/mt940.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index c452d2f..eeb9623 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -175,8 +175,7 @@ func (b *BalanceTag) Unmarshal(value []byte) error {
 	}
 	b.BookingDate = domain.NewShortDate(date)
 	b.Currency = string(buf.Next(3))
-	amountString := strings.Replace(buf.String(), ",", ".", 1)
-	amount, err := strconv.ParseFloat(amountString, 64)
+	amount, err := parseAmount(buf.Bytes())
 	if err != nil {
 		return errors.Wrap(err, "MT940 Balance tag: error unmarshaling amount")
 	}
@@ -277,8 +276,7 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if err != nil {
 		return err
 	}
-	amountBytes = bytes.Replace(amountBytes[:len(amountBytes)-1], []byte(","), []byte("."), 1)
-	amount, err := strconv.ParseFloat(string(amountBytes), 64)
+	amount, err := parseAmount(amountBytes[:len(amountBytes)-1])
 	if err != nil {
 		return errors.Wrap(err, "MT940 Transaction tag: error unmarshaling amount")
 	}
@@ -318,6 +316,15 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	return nil
 }
 
+func parseAmount(value []byte) (float64, error) {
+	for _, b := range value {
+		if (b < '0' || b > '9') && b != ',' && b != '.' {
+			return 0, fmt.Errorf("malformed amount: %q", value)
+		}
+	}
+	return strconv.ParseFloat(strings.Replace(string(value), ",", ".", 1), 64)
+}
+
 func parseDate(value []byte, referenceYear int) (time.Time, error) {
 	var offset int
 	if len(value) == 6 {
-- 
2.43.0


From 9725b4019dfa7a12b392222f01c07fe34e88d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 44/74] fix: build the status protocol request of the supported
 version

---
 segment/status_protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index a0fc9d5..ed8af8a 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -14,9 +14,9 @@ func StatusProtocolRequestBuilder(versions []int) (func(from, to time.Time, maxE
 	for _, version := range versions {
 		switch version {
 		case 4:
-			return NewStatusProtocolRequestV3, nil
-		case 3:
 			return NewStatusProtocolRequestV4, nil
+		case 3:
+			return NewStatusProtocolRequestV3, nil
 		default:
 			continue
 		}
-- 
2.43.0


From bdbf10f16c0f196a80c28f2487448af649916643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 45/74] fix: build SEPA account transaction requests

---
 segment/account_transaction.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/segment/account_transaction.go b/segment/account_transaction.go
index 40f7eba..a90c5f4 100644
--- a/segment/account_transaction.go
+++ b/segment/account_transaction.go
@@ -29,9 +29,6 @@ func AccountTransactionRequestBuilder(versions []int) (func(account domain.Accou
 func SepaAccountTransactionRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
-		if version > 6 {
-			continue
-		}
 		switch version {
 		case 7:
 			return NewAccountTransactionRequestSegmentV7, nil
-- 
2.43.0


From 16a5d40f64e5fb28d5ce8edee4180ff9891f8931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 46/74] fix: look for the parameter segment of the status
 protocol

---
 segment/hbci_version.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment/hbci_version.go b/segment/hbci_version.go
index e70a580..53a41f7 100644
--- a/segment/hbci_version.go
+++ b/segment/hbci_version.go
@@ -104,7 +104,7 @@ func (b *builder) SepaAccountTransactionRequest(account domain.InternationalAcco
 	return request(account, allAccounts), nil
 }
 func (b *builder) StatusProtocolRequest(from, to time.Time, maxEntries int, continuationReference string) (StatusProtocolRequest, error) {
-	versions, ok := b.supportedSegments["HIPRO"]
+	versions, ok := b.supportedSegments["HIPROS"]
 	if !ok {
 		return nil, fmt.Errorf("Segment %s not supported", "HKPRO")
 	}
-- 
2.43.0


From ea3d88504fb3efcaeff896ce96a76d076cd7dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 47/74] fix: do not reorder the caller's versions when choosing
 a request version

---
 segment/account_balance.go     | 7 ++-----
 segment/account_transaction.go | 7 ++-----
 segment/hbci_version.go        | 8 ++++++++
 segment/status_protocol.go     | 4 +---
 segment/tan.go                 | 4 +---
 5 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/segment/account_balance.go b/segment/account_balance.go
index bfe2741..e7da526 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -2,7 +2,6 @@ package segment
 
 import (
 	"fmt"
-	"sort"
 	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
@@ -21,8 +20,7 @@ var sepaAccountBalanceRequests = map[int]func(account domain.InternationalAccoun
 
 // AccountBalanceRequestBuilder returns the highest matching versioned segment
 func AccountBalanceRequestBuilder(versions []int) (func(account domain.AccountConnection, allAccounts bool) AccountBalanceRequest, error) {
-	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
-	for _, version := range versions {
+	for _, version := range highestFirst(versions) {
 		builder, ok := accountBalanceRequests[version]
 		if ok {
 			return builder, nil
@@ -33,8 +31,7 @@ func AccountBalanceRequestBuilder(versions []int) (func(account domain.AccountCo
 
 // SepaAccountBalanceRequestBuilder returns the highest matching versioned segment
 func SepaAccountBalanceRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) AccountBalanceRequest, error) {
-	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
-	for _, version := range versions {
+	for _, version := range highestFirst(versions) {
 		builder, ok := sepaAccountBalanceRequests[version]
 		if ok {
 			return builder, nil
diff --git a/segment/account_transaction.go b/segment/account_transaction.go
index a90c5f4..4770beb 100644
--- a/segment/account_transaction.go
+++ b/segment/account_transaction.go
@@ -2,7 +2,6 @@ package segment
 
 import (
 	"fmt"
-	"sort"
 	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
@@ -16,8 +15,7 @@ var accountTransactionRequests = map[int](func(account domain.AccountConnection,
 }
 
 func AccountTransactionRequestBuilder(versions []int) (func(account domain.AccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
-	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
-	for _, version := range versions {
+	for _, version := range highestFirst(versions) {
 		builder, ok := accountTransactionRequests[version]
 		if ok {
 			return builder, nil
@@ -27,8 +25,7 @@ func AccountTransactionRequestBuilder(versions []int) (func(account domain.Accou
 }
 
 func SepaAccountTransactionRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
-	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
-	for _, version := range versions {
+	for _, version := range highestFirst(versions) {
 		switch version {
 		case 7:
 			return NewAccountTransactionRequestSegmentV7, nil
diff --git a/segment/hbci_version.go b/segment/hbci_version.go
index 53a41f7..894aec3 100644
--- a/segment/hbci_version.go
+++ b/segment/hbci_version.go
@@ -2,6 +2,7 @@ package segment
 
 import (
 	"fmt"
+	"sort"
 	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
@@ -30,6 +31,13 @@ type HBCIVersion struct {
 	TanProcess4Request            func(referencingSegmentID string) *TanRequestSegment
 }
 
+// highestFirst returns the versions in descending order
+func highestFirst(versions []int) []int {
+	sorted := append([]int(nil), versions...)
+	sort.Sort(sort.Reverse(sort.IntSlice(sorted)))
+	return sorted
+}
+
 // Version returns the HBCI version as integer
 func (v HBCIVersion) Version() int {
 	return v.version
diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index ed8af8a..3efacc5 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -2,7 +2,6 @@ package segment
 
 import (
 	"fmt"
-	"sort"
 	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
@@ -10,8 +9,7 @@ import (
 )
 
 func StatusProtocolRequestBuilder(versions []int) (func(from, to time.Time, maxEntries int, continuationReference string) StatusProtocolRequest, error) {
-	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
-	for _, version := range versions {
+	for _, version := range highestFirst(versions) {
 		switch version {
 		case 4:
 			return NewStatusProtocolRequestV4, nil
diff --git a/segment/tan.go b/segment/tan.go
index 39d8302..c1ef32a 100644
--- a/segment/tan.go
+++ b/segment/tan.go
@@ -2,7 +2,6 @@ package segment
 
 import (
 	"fmt"
-	"sort"
 
 	"github.com/mitch000001/go-hbci/element"
 )
@@ -15,8 +14,7 @@ var tanProcess4RequestSegmentConstructors = map[int](tanProcess4Constructor){
 }
 
 func TanProcess4RequestBuilder(versions []int) (tanProcess4Constructor, error) {
-	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
-	for _, version := range versions {
+	for _, version := range highestFirst(versions) {
 		builder, ok := tanProcess4RequestSegmentConstructors[version]
 		if ok {
 			return builder, nil
-- 
2.43.0


From e91fdb2bbcb0ce518cde099f6e8afecb060fdaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 48/74] fix: reject a segment without any element instead of
 panicking

---
 segment/element_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segment/element_extractor.go b/segment/element_extractor.go
index 2073e1d..44ee573 100644
--- a/segment/element_extractor.go
+++ b/segment/element_extractor.go
@@ -36,6 +36,9 @@ func (e *elementExtractor) Extract() ([][]byte, error) {
 			current = append(current, t.Value()...)
 		}
 	}
+	if len(e.elements) == 0 {
+		return nil, fmt.Errorf("%T: malformed segment: no elements extracted: %q", e, e.rawSegment)
+	}
 	result := make([][]byte, len(e.elements))
 	copy(result, e.elements)
 	return result, nil
-- 
2.43.0


From 03c8479e979eb0a2048c9b949870416f5a9468c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 49/74] fix: reject incomplete PIN/TAN parameters instead of
 panicking

---
 element/bank_parameter_data.go  | 3 +++
 element/tan.go                  | 3 +++
 segment/business_transaction.go | 6 +++---
 segment/pin_bpd.go              | 3 +++
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index b5123ef..2ee1c6a 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -331,6 +331,9 @@ func (p *PinTanBusinessTransactionParameter) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value: too few elements")
+	}
 	p.SegmentID = NewAlphaNumeric(decodeText(elements[0]), 6)
 	needsTan := &BooleanDataElement{}
 	err = needsTan.UnmarshalHBCI(elements[1])
diff --git a/element/tan.go b/element/tan.go
index fa9b1c5..9bf38e8 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -101,6 +101,9 @@ func (t *Tan2StepSubmissionParameterV6) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 3 {
+		return fmt.Errorf("malformed marshaled value: too few elements")
+	}
 	oneStepProcessAllowed := &BooleanDataElement{}
 	err = oneStepProcessAllowed.UnmarshalHBCI(elements[0])
 	if err != nil {
diff --git a/segment/business_transaction.go b/segment/business_transaction.go
index ce19bb7..9b2883f 100644
--- a/segment/business_transaction.go
+++ b/segment/business_transaction.go
@@ -36,14 +36,14 @@ func (b *BusinessTransactionParamsSegment) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 4 {
+		return fmt.Errorf("%T: Malformed marshaled value", b)
+	}
 	seg, err := SegmentFromHeaderBytes(elements[0], b)
 	if err != nil {
 		return err
 	}
 	b.Segment = seg
-	if len(elements) < 4 {
-		return fmt.Errorf("%T: Malformed marshaled value", b)
-	}
 	maxJobs, err := strconv.Atoi(charset.ToUTF8(elements[1]))
 	if err != nil {
 		return fmt.Errorf("%T: Malformed max jobs: %v", b, err)
diff --git a/segment/pin_bpd.go b/segment/pin_bpd.go
index 851dc9a..10db545 100644
--- a/segment/pin_bpd.go
+++ b/segment/pin_bpd.go
@@ -46,6 +46,9 @@ func (t *PinTanBankParameterV1) elements() []element.DataElement {
 
 func (t *PinTanBankParameterV1) PinTanBusinessTransactions() []domain.PinTanBusinessTransaction {
 	var transactions []domain.PinTanBusinessTransaction
+	if t.PinTanSpecificParams == nil {
+		return transactions
+	}
 	for _, transactionDe := range t.PinTanSpecificParams.JobSpecificPinTanInformation.GroupDataElements() {
 		transactions = append(transactions, transactionDe.(*element.PinTanBusinessTransactionParameter).Val())
 	}
-- 
2.43.0


From aaaf36c0bead0c724bf4ca3ee905938ea095c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 50/74] fix: do not duplicate segments when unmarshaling a
 message again

---
 message/unmarshaler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/message/unmarshaler.go b/message/unmarshaler.go
index 82d531f..a8e5ed9 100644
--- a/message/unmarshaler.go
+++ b/message/unmarshaler.go
@@ -40,6 +40,7 @@ func (u *Unmarshaler) Unmarshal() error {
 	if err != nil {
 		return err
 	}
+	u.segments = make(map[string][]segment.Segment)
 	for _, seg := range rawSegments {
 		header, err := extractSegmentHeader(seg)
 		if err != nil {
-- 
2.43.0


From e546d8945ecad07ef767f31ac9a7f95e322922cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:42 +0000
Subject: [PATCH 51/74] fix: number the messages of a synchronisation as a
 dialog of its own

---
 dialog/dialog.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 241b276..1eba83b 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -155,6 +155,8 @@ func (d *dialog) SyncUserParameterData() error {
 }
 
 func (d *dialog) SyncClientSystemID() (string, error) {
+	d.dialogID = initialDialogID
+	d.messageCount = 0
 	syncMessage := message.NewSynchronisationMessage(d.hbciVersion)
 	syncMessage.Identification = segment.NewIdentificationSegment(d.BankID, d.clientID, initialClientSystemID, true)
 	syncMessage.ProcessingPreparation = segment.NewProcessingPreparationSegmentV3(
-- 
2.43.0


From f6fb9666b75fa81ee5d62e8301588ecee13ea915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 52/74] fix: synchronise with the initial client system ID in
 the signature, too, and keep the old one on failure

---
 dialog/dialog.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 1eba83b..7839fe0 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -155,6 +155,19 @@ func (d *dialog) SyncUserParameterData() error {
 }
 
 func (d *dialog) SyncClientSystemID() (string, error) {
+	oldClientSystemID := d.ClientSystemID
+	d.SetClientSystemID(initialClientSystemID)
+	clientSystemID, err := d.syncClientSystemID()
+	if err != nil {
+		if d.ClientSystemID == initialClientSystemID {
+			d.SetClientSystemID(oldClientSystemID)
+		}
+		return "", err
+	}
+	return clientSystemID, nil
+}
+
+func (d *dialog) syncClientSystemID() (string, error) {
 	d.dialogID = initialDialogID
 	d.messageCount = 0
 	syncMessage := message.NewSynchronisationMessage(d.hbciVersion)
@@ -169,7 +182,6 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	d.cryptoProvider.SetClientSystemID(initialClientSystemID)
 	encryptedSyncMessage, err := signedSyncMessage.Encrypt(d.cryptoProvider)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 3a97315dc778015ff5e1e81ca008300b6b92280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 53/74] fix: end a dialog the bank accepted when its
 initialisation fails afterwards

---
 dialog/dialog.go | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7839fe0..7ce5a1a 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -213,34 +213,40 @@ func (d *dialog) syncClientSystemID() (string, error) {
 	if len(errors) > 0 {
 		return "", fmt.Errorf("institute returned errors:\n%s", strings.Join(errors, "\n"))
 	}
-	if err := d.updateSecurityFunctionIfNeeded(decryptedMessage); err != nil {
-		return "", fmt.Errorf("error updating security function: %w", err)
-	}
-
-	syncResponse := decryptedMessage.FindSegment("HISYN")
-	if syncResponse != nil {
-		syncSegment := syncResponse.(segment.SynchronisationResponse)
-		d.SetClientSystemID(syncSegment.ClientSystemID())
-	} else {
-		return "", fmt.Errorf("malformed message: missing unmarshaler for SynchronisationResponse")
-	}
 
-	err = d.parseBankParameterData(decryptedMessage)
+	err = d.parseSyncResponse(decryptedMessage)
 	if err != nil {
+		logErr(d.end())
 		return "", err
 	}
 
-	err = d.parseUserParameterData(decryptedMessage)
+	err = d.end()
 	if err != nil {
 		return "", err
 	}
 
-	err = d.end()
+	return d.ClientSystemID, nil
+}
+
+func (d *dialog) parseSyncResponse(bankMessage message.BankMessage) error {
+	if err := d.updateSecurityFunctionIfNeeded(bankMessage); err != nil {
+		return fmt.Errorf("error updating security function: %w", err)
+	}
+
+	syncResponse := bankMessage.FindSegment("HISYN")
+	if syncResponse != nil {
+		syncSegment := syncResponse.(segment.SynchronisationResponse)
+		d.SetClientSystemID(syncSegment.ClientSystemID())
+	} else {
+		return fmt.Errorf("malformed message: missing unmarshaler for SynchronisationResponse")
+	}
+
+	err := d.parseBankParameterData(bankMessage)
 	if err != nil {
-		return "", err
+		return err
 	}
 
-	return d.ClientSystemID, nil
+	return d.parseUserParameterData(bankMessage)
 }
 
 func (d *dialog) SendAnonymousMessage(clientMessage message.HBCIMessage) (message.BankMessage, error) {
@@ -418,6 +424,7 @@ func (d *dialog) init() error {
 	}
 
 	if err := d.updateSecurityFunctionIfNeeded(decryptedMessage); err != nil {
+		logErr(d.end())
 		return fmt.Errorf("error updating security function: %w", err)
 	}
 
-- 
2.43.0


From f235606383b095dd2189e8c09249ced05d2c65a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 54/74] fix: choose the first supported security function in
 the order of the bank instead of a random one

---
 dialog/dialog.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7ce5a1a..77ee041 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -483,14 +483,9 @@ func (d *dialog) updateSecurityFunctionIfNeeded(message message.BankMessage) err
 		return fmt.Errorf("no supported security function implemented")
 	}
 	oldSecurityFn := d.securityFn
-	newSecurityFn := ""
-	newSecurityFnName := ""
 	// TODO: proper handling of each case, see FINTS3.0 docu -> Ask user which to use
-	for fn, name := range supportedSecurityFns {
-		newSecurityFn = fn
-		newSecurityFnName = name
-		break
-	}
+	newSecurityFn := supportedSecurityFns[0].function
+	newSecurityFnName := supportedSecurityFns[0].name
 	if oldSecurityFn != newSecurityFn {
 		internal.Info.Printf(
 			"New supported security function found. Setting new security function %q (%s).", newSecurityFnName, newSecurityFn,
@@ -514,7 +509,14 @@ func (d *dialog) hasSupportedSecurityAcknowledgement(message message.BankMessage
 	return false
 }
 
-func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankMessage) (map[string]string, bool) {
+type securityFunction struct {
+	function string
+	name     string
+}
+
+// supportedSecurityFunctionsFromBankMessage returns the security functions allowed
+// for the user and offered by the institute, in the order given by the institute
+func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankMessage) ([]securityFunction, bool) {
 	acknowledgements := message.Acknowledgements()
 	var supportedSecurityFns []string
 	for _, ack := range acknowledgements {
@@ -526,7 +528,7 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 	if len(supportedSecurityFns) == 0 {
 		return nil, false
 	}
-	securityFunctions := map[string]string{}
+	var securityFunctions []securityFunction
 	rawSegment := message.FindSegment(segment.TanBankParameterID)
 	if rawSegment == nil {
 		return nil, false
@@ -539,7 +541,7 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 	}
 	for _, sf := range supportedSecurityFns {
 		if pp, ok := availableSecurityFns[sf]; ok {
-			securityFunctions[sf] = pp.TwoStepProcessName.Val()
+			securityFunctions = append(securityFunctions, securityFunction{function: sf, name: pp.TwoStepProcessName.Val()})
 		}
 	}
 	if len(securityFunctions) == 0 {
-- 
2.43.0


From 1a3d32bc024eef4b08503e5084800837025ed6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 55/74] fix: reject TAN parameters without any procedure
 instead of panicking

---
 dialog/dialog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 77ee041..8529ed8 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -534,7 +534,11 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 		return nil, false
 	}
 	availableSecurityFns := map[string]*element.Tan2StepSubmissionProcessParameterV6{}
-	for _, pp := range rawSegment.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements() {
+	tanParams, ok := rawSegment.(*segment.TanBankParameterV6)
+	if !ok || tanParams.Tan2StepSubmissionParameter == nil || tanParams.Tan2StepSubmissionParameter.ProcessParameters == nil {
+		return nil, false
+	}
+	for _, pp := range tanParams.Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements() {
 		tan2StepPP := pp.(*element.Tan2StepSubmissionProcessParameterV6)
 		fn := tan2StepPP.SecurityFunction.Val()
 		availableSecurityFns[fn] = tan2StepPP
-- 
2.43.0


From ec0ebfee15ebef12e595457e987d55a524587b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 56/74] fix: keep the security function when the PIN is changed

---
 dialog/pin_tan_dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/pin_tan_dialog.go b/dialog/pin_tan_dialog.go
index 6bb3025..617f9a2 100644
--- a/dialog/pin_tan_dialog.go
+++ b/dialog/pin_tan_dialog.go
@@ -65,4 +65,7 @@ func (d *PinTanDialog) SetPin(pin string) {
 	d.signatureProvider = message.NewPinTanSignatureProvider(pinKey, d.ClientSystemID)
 	pinKey = domain.NewPinKey(pin, domain.NewPinTanKeyName(d.BankID, d.UserID, domain.KeyTypeEncryption))
 	d.cryptoProvider = message.NewPinTanCryptoProvider(pinKey, d.ClientSystemID)
+	if d.securityFn != "" {
+		d.SetSecurityFunction(d.securityFn)
+	}
 }
-- 
2.43.0


From 5cf308359f47ce64fc632ad3e5985745a5d99db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 57/74] fix: do not duplicate the accounts each time the bank
 sends them

---
 dialog/dialog.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 8529ed8..c0651ff 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -599,10 +599,15 @@ func (d *dialog) parseUserParameterData(bankMessage message.BankMessage) error {
 	}
 
 	accountData := bankMessage.FindSegments(segment.AccountInformationID)
-	for _, acc := range accountData {
+	if len(accountData) == 0 {
+		return nil
+	}
+	accounts := make([]domain.AccountInformation, len(accountData))
+	for i, acc := range accountData {
 		infoSegment := acc.(segment.AccountInformation)
-		d.Accounts = append(d.Accounts, infoSegment.Account())
+		accounts[i] = infoSegment.Account()
 	}
+	d.Accounts = accounts
 	return nil
 }
 
-- 
2.43.0


From 3a0356137b0148c6e1546cfc814ac04cbae484b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:23 +0000
Subject: [PATCH 58/74] fix: keep the pages of account transactions in the
 order of the bank

---
 client/client.go   |  2 +-
 swift/unmarshal.go | 51 ++++++++--------------------------------------
 2 files changed, 10 insertions(+), 43 deletions(-)

diff --git a/client/client.go b/client/client.go
index 658935a..27c49b6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -211,7 +211,7 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 	if err != nil {
 		return nil, err
 	}
-	return swift.MergeMT940Messages(msg, tx), err
+	return swift.MergeMT940Messages(tx, msg), nil
 }
 
 // AccountInformation will print all information attached to the provided
diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index 2eecc70..d4517db 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -2,69 +2,36 @@ package swift
 
 import (
 	"fmt"
-	"sort"
 	"strings"
-	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
 )
 
 func NewMT940Messages(data []byte) *MT940Messages {
 	return &MT940Messages{
-		Data:      data,
-		timestamp: time.Now().UnixNano(),
+		Data: data,
 	}
 }
 
 type MT940Messages struct {
-	Data      []byte
-	timestamp int64
+	Data []byte
 }
 
+// MergeMT940Messages concatenates the data of the provided messages in the
+// given order. Messages which are nil are skipped.
 func MergeMT940Messages(messages ...*MT940Messages) *MT940Messages {
-	sortedMessages := sortedByTimestamp(messages)
-	sort.Sort(sortedMessages)
 	merged := &MT940Messages{
-		Data:      []byte{},
-		timestamp: time.Now().UnixNano(),
+		Data: []byte{},
 	}
-	for _, msg := range sortedMessages {
+	for _, msg := range messages {
+		if msg == nil {
+			continue
+		}
 		merged.Data = append(merged.Data, msg.Data...)
 	}
 	return merged
 }
 
-type sortedByTimestamp []*MT940Messages
-
-// Len is the number of elements in the collection.
-func (s sortedByTimestamp) Len() int {
-	return len(s)
-}
-
-// Less reports whether the element with index i
-// must sort before the element with index j.
-//
-// If both Less(i, j) and Less(j, i) are false,
-// then the elements at index i and j are considered equal.
-// Sort may place equal elements in any order in the final result,
-// while Stable preserves the original input order of equal elements.
-//
-// Less must describe a transitive ordering:
-//  - if both Less(i, j) and Less(j, k) are true, then Less(i, k) must be true as well.
-//  - if both Less(i, j) and Less(j, k) are false, then Less(i, k) must be false as well.
-//
-// Note that floating-point comparison (the < operator on float32 or float64 values)
-// is not a transitive ordering when not-a-number (NaN) values are involved.
-// See Float64Slice.Less for a correct implementation for floating-point values.
-func (s sortedByTimestamp) Less(i int, j int) bool {
-	return s[i].timestamp < s[j].timestamp
-}
-
-// Swap swaps the elements with indexes i and j.
-func (s sortedByTimestamp) Swap(i int, j int) {
-	s[i], s[j] = s[j], s[i]
-}
-
 type MT940Unmarshaler interface {
 	UnmarshalMT940([]byte) ([]domain.AccountTransaction, error)
 }
-- 
2.43.0


From b48c1f3ff962ac6ccb419d3b312e0658ea23653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:23 +0000
Subject: [PATCH 59/74] fix: do not panic when an acknowledgement names no
 continuation reference

---
 client/client.go | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/client/client.go b/client/client.go
index 27c49b6..be67d4c 100644
--- a/client/client.go
+++ b/client/client.go
@@ -195,14 +195,7 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 		}
 		bookedSwiftTransactions = append(bookedSwiftTransactions, seg.BookedSwiftTransactions())
 	}
-	var newContinuationReference string
-	acknowledgements := decryptedMessage.Acknowledgements()
-	for _, ack := range acknowledgements {
-		if ack.Code == element.AcknowledgementAdditionalInformation {
-			newContinuationReference = ack.Params[0]
-			break
-		}
-	}
+	newContinuationReference := continuationReferenceOf(decryptedMessage)
 	tx := swift.MergeMT940Messages(bookedSwiftTransactions...)
 	if newContinuationReference == "" {
 		return tx, nil
@@ -214,6 +207,17 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 	return swift.MergeMT940Messages(tx, msg), nil
 }
 
+// continuationReferenceOf returns the reference under which the bank institute
+// offers the rest of its answer, or an empty string if the answer is complete.
+func continuationReferenceOf(bankMessage message.BankMessage) string {
+	for _, ack := range bankMessage.Acknowledgements() {
+		if ack.Code == element.AcknowledgementAdditionalInformation && len(ack.Params) != 0 {
+			return ack.Params[0]
+		}
+	}
+	return ""
+}
+
 // AccountInformation will print all information attached to the provided
 // account. If allAccounts is true it will fetch also the information
 // associated with the account.
@@ -315,14 +319,7 @@ func (c *Client) SepaAccountBalances(account domain.InternationalAccountConnecti
 	if len(balanceResponses) == 0 {
 		return nil, fmt.Errorf("malformed response: expected HISAL segment")
 	}
-	var newContinuationReference string
-	acknowledgements := decryptedMessage.Acknowledgements()
-	for _, ack := range acknowledgements {
-		if ack.Code == element.AcknowledgementAdditionalInformation {
-			newContinuationReference = ack.Params[0]
-			break
-		}
-	}
+	newContinuationReference := continuationReferenceOf(decryptedMessage)
 	if newContinuationReference == "" {
 		return balances, nil
 	}
-- 
2.43.0


From 55ebc03c24e17244b9433bbc7e007676225af32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:23 +0000
Subject: [PATCH 60/74] fix: report malformed status responses instead of
 panicking

---
 client/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index be67d4c..42a5bdf 100644
--- a/client/client.go
+++ b/client/client.go
@@ -352,7 +352,10 @@ func (c *Client) Status(from, to time.Time, maxEntries int, continuationReferenc
 	var statusAcknowledgements []domain.StatusAcknowledgement
 	statusResponses := bankMessage.FindSegments("HIPRO")
 	for _, seg := range statusResponses {
-		statusResponse := seg.(segment.StatusProtocolResponse)
+		statusResponse, ok := seg.(segment.StatusProtocolResponse)
+		if !ok {
+			return nil, fmt.Errorf("malformed segment found with ID `HIPRO`")
+		}
 		statusAcknowledgements = append(statusAcknowledgements, statusResponse.Status())
 	}
 	return statusAcknowledgements, nil
-- 
2.43.0


From efbd830eb1ec2a31ae31acc7831c38c55bc722e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 61/74] fix: fetch the rest of the account balances if the bank
 offers one

---
 client/client.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index 42a5bdf..bb4dd7f 100644
--- a/client/client.go
+++ b/client/client.go
@@ -247,11 +247,18 @@ func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts b
 	if err := c.init(); err != nil {
 		return nil, err
 	}
+	return c.accountBalances(account, allAccounts, "")
+}
+
+func (c *Client) accountBalances(account domain.AccountConnection, allAccounts bool, continuationReference string) ([]domain.AccountBalance, error) {
 	builder := segment.NewBuilder(c.pinTanDialog.SupportedSegments())
 	accountBalanceRequest, err := builder.AccountBalanceRequest(account, allAccounts)
 	if err != nil {
 		return nil, err
 	}
+	if continuationReference != "" {
+		accountBalanceRequest.SetContinuationMark(continuationReference)
+	}
 	decryptedMessage, err := c.pinTanDialog.SendMessage(
 		message.NewHBCIMessage(
 			c.hbciVersion,
@@ -274,8 +281,15 @@ func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts b
 	if len(balanceResponses) == 0 {
 		return nil, fmt.Errorf("malformed response: expected HISAL segment")
 	}
-
-	return balances, nil
+	newContinuationReference := continuationReferenceOf(decryptedMessage)
+	if newContinuationReference == "" {
+		return balances, nil
+	}
+	nextBalances, err := c.accountBalances(account, allAccounts, newContinuationReference)
+	if err != nil {
+		return nil, err
+	}
+	return append(balances, nextBalances...), nil
 }
 
 // AccountBalances retrieves the balance for the provided account.
-- 
2.43.0


From 0158d64c8fc436eb2cf62f42a57a0042dcd7f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 62/74] fix: an account without any booked transactions is no
 error

---
 swift/unmarshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index d4517db..7072538 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -43,6 +43,9 @@ func NewMT940MessagesUnmarshaler() MT940Unmarshaler {
 type mt940MessagesUnmarshaler struct{}
 
 func (m *mt940MessagesUnmarshaler) UnmarshalMT940(value []byte) ([]domain.AccountTransaction, error) {
+	if len(value) == 0 {
+		return nil, nil
+	}
 	messageExtractor := NewMessageExtractor(value)
 	messages, err := messageExtractor.Extract()
 	if err != nil {
-- 
2.43.0


From 1988a21461230881dfd462d868c80096225b9294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:33 +0000
Subject: [PATCH 63/74] fix: report IBANs that are too short as invalid instead
 of panicking

---
 iban/iban.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iban/iban.go b/iban/iban.go
index 8a6db5c..45f1225 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -69,6 +69,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 // From creates an IBAN from the provided input. If the input is not a valid IBAN, it
 // returns an error.
 func From(input string) (IBAN, error) {
+	if len(input) < 4 {
+		return "", fmt.Errorf("malformed IBAN: too short")
+	}
 	countryCode := input[:2]
 	proofNumber := input[2:4]
 	bban := input[4:]
@@ -115,7 +118,7 @@ func (i IBAN) ProofNumber() string {
 
 // Valid returns true if the IBAN is valid, false otherwise
 func (i IBAN) Valid() bool {
-	if len(i) > maxAllowedIBANLength {
+	if len(i) < 4 || len(i) > maxAllowedIBANLength {
 		return false
 	}
 	countryCode := i.CountryCode()
-- 
2.43.0


From ac3055c288a2640efc417d58d4bdd574ee3c6663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:33 +0000
Subject: [PATCH 64/74] fix: accept only letters and digits in IBANs

---
 iban/iban.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/iban/iban.go b/iban/iban.go
index 45f1225..33a7dfc 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -39,6 +39,12 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 	if len(countryCode) != 2 {
 		return "", fmt.Errorf("malformed countryCode: must have two characters")
 	}
+	if !consistsOf(countryCode, isLetter) {
+		return "", fmt.Errorf("malformed countryCode: must consist of letters")
+	}
+	if !consistsOf(BBAN, isLetterOrDigit) {
+		return "", fmt.Errorf("malformed BBAN: must consist of letters and digits")
+	}
 	countryCode = strings.ToUpper(countryCode)
 
 	ibanLen, ok := ibanMaxLengthForCountry[countryCode]
@@ -122,6 +128,9 @@ func (i IBAN) Valid() bool {
 		return false
 	}
 	countryCode := i.CountryCode()
+	if !consistsOf(countryCode, isLetter) || !consistsOf(i.ProofNumber(), isDigit) || !consistsOf(i.BBAN(), isLetterOrDigit) {
+		return false
+	}
 	countryCode = strings.ToUpper(countryCode)
 	bban := i.BBAN()
 	bban = strings.ToUpper(bban)
@@ -157,6 +166,20 @@ func Print(iban IBAN) string {
 	return strings.TrimSpace(out.String())
 }
 
+// consistsOf returns true if all bytes of s are of the given class
+func consistsOf(s string, class func(byte) bool) bool {
+	for i := 0; i < len(s); i++ {
+		if !class(s[i]) {
+			return false
+		}
+	}
+	return true
+}
+
+func isDigit(c byte) bool         { return '0' <= c && c <= '9' }
+func isLetter(c byte) bool        { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
+func isLetterOrDigit(c byte) bool { return isLetter(c) || isDigit(c) }
+
 func transformLettersToDigits(letters string) string {
 	var replaced []string
 	for k, v := range alphaToDigit {
-- 
2.43.0


From dc68ebddbdcb6cf5b2da784c433de752d8974cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:33 +0000
Subject: [PATCH 65/74] fix: fill up short account numbers in german IBANs

---
 iban/iban.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/iban/iban.go b/iban/iban.go
index 33a7dfc..19c638e 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -8,6 +8,7 @@ import (
 )
 
 const countryDE = "DE"
+const germanBankIDLength = 8
 const germanAccountIDLength = 10
 const maxAllowedIBANLength = 34
 
@@ -25,9 +26,13 @@ func IsValid(input string) bool {
 // It returns only valid german IBANs, as it is hard coded to use german
 // settings.
 func NewGerman(bankID, accountID string) (IBAN, error) {
-	if len(accountID) == (germanAccountIDLength - 1) {
-		accountID = "0" + accountID
+	if len(bankID) != germanBankIDLength || !consistsOf(bankID, isDigit) {
+		return "", fmt.Errorf("malformed bankID: must have %d digits", germanBankIDLength)
 	}
+	if len(accountID) == 0 || len(accountID) > germanAccountIDLength || !consistsOf(accountID, isDigit) {
+		return "", fmt.Errorf("malformed accountID: must have at max %d digits", germanAccountIDLength)
+	}
+	accountID = strings.Repeat("0", germanAccountIDLength-len(accountID)) + accountID
 
 	bban := fmt.Sprintf("%s%s", bankID, accountID)
 
-- 
2.43.0


From 45eede699948702e8b73cdc80c94aa2cba53202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:36 +0000
Subject: [PATCH 66/74] fix: do not pass on requests and responses that could
 not be read completely when logging

---
 transport/middleware/logging.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/middleware/logging.go b/transport/middleware/logging.go
index 4192be6..6639671 100644
--- a/transport/middleware/logging.go
+++ b/transport/middleware/logging.go
@@ -26,6 +26,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledRequest, err := io.ReadAll(io.TeeReader(req.Body, &buf))
 			if err != nil {
 				logger.Printf("Error reading request body: %v", err)
+				return nil, err
 			}
 			req.Body = io.NopCloser(&buf)
 			logger.Println("Decrypted Request:")
@@ -42,6 +43,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledResponse, err := io.ReadAll(io.TeeReader(res.Body, &responseBuf))
 			if err != nil {
 				logger.Printf("Error reading response body: %v", err)
+				return nil, err
 			}
 			res.Body = io.NopCloser(&responseBuf)
 			logger.Println("Decrypted Response:")
-- 
2.43.0


From edcf3acc623a53958a7640713f9c7073ec838f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:36 +0000
Subject: [PATCH 67/74] fix: do not drop an incomplete character at the end of
 a request when encoding it

---
 transport/middleware/encoding.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/transport/middleware/encoding.go b/transport/middleware/encoding.go
index fa37b21..764eb50 100644
--- a/transport/middleware/encoding.go
+++ b/transport/middleware/encoding.go
@@ -18,14 +18,17 @@ import (
 func UTF8Encoding(encoding encoding.Encoding) transport.Middleware {
 	return func(t transport.Transport) transport.Transport {
 		return transport.Func(func(req *transport.Request) (*transport.Response, error) {
-			var buf bytes.Buffer
-			encodingWriter := encoding.NewEncoder().Writer(&buf)
-			_, err := io.Copy(encodingWriter, req.Body)
+			body, err := io.ReadAll(req.Body)
+			if err != nil {
+				return nil, err
+			}
+			// encode the whole body at once: a writer holds back an incomplete character at the end
+			encodedBody, err := encoding.NewEncoder().Bytes(body)
 			if err != nil {
 				return nil, err
 			}
 			encodedRequest := req
-			encodedRequest.Body = io.NopCloser(&buf)
+			encodedRequest.Body = io.NopCloser(bytes.NewReader(encodedBody))
 			response, err := t.Do(encodedRequest)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From b56f0d922b85b0569dd61229daacf7cb711b3e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:52 +0000
Subject: [PATCH 68/74] fix: report a segment that is cut off behind a
 separator as an error instead of dropping it

---
 message/segment_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index daee340..1505aeb 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -37,6 +37,9 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 			current = []byte{}
 		}
 	}
+	if len(current) > 0 {
+		return nil, fmt.Errorf("%T: unexpected end of input: segment %q is not terminated", s, current)
+	}
 	result := make([][]byte, len(s.segments))
 	copy(result, s.segments)
 	return result, nil
-- 
2.43.0


From c9d87911c055b824ff5022ab11753a7bf176cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:18 +0000
Subject: [PATCH 69/74] fix: report a missing URL when creating a client
 instead of sending to none

---
 client/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client.go b/client/client.go
index bb4dd7f..c28212c 100644
--- a/client/client.go
+++ b/client/client.go
@@ -58,6 +58,9 @@ func New(config Config) (*Client, error) {
 	} else {
 		url = bankInfo.URL
 	}
+	if url == "" {
+		return nil, fmt.Errorf("no URL provided and none found in the bankinfo database for bank ID %q", config.BankID)
+	}
 	if config.HBCIVersion > 0 {
 		version, err := config.hbciVersion()
 		if err != nil {
-- 
2.43.0


From 66f9c19b28b181bbafc8247ca6fdf615c0afeab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:38 +0000
Subject: [PATCH 70/74] fix: keep values of printed lists apart when they fill
 their column

---
 domain/account_balance.go     | 8 ++++----
 domain/account_information.go | 2 +-
 domain/account_transaction.go | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/domain/account_balance.go b/domain/account_balance.go
index a7459f0..7fbb788 100644
--- a/domain/account_balance.go
+++ b/domain/account_balance.go
@@ -42,7 +42,7 @@ func (ab AccountBalances) String() string {
 		buf.WriteString("\n")
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	if containsEarmarkedBalances {
@@ -79,7 +79,7 @@ func (a AccountBalance) String() string {
 	buf.WriteString("\t")
 	buf.WriteString(fmt.Sprintf("%.2f %s", a.BookedBalance.Amount.Amount, a.BookedBalance.Amount.Currency))
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 24, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 24, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
@@ -120,7 +120,7 @@ func (ab SepaAccountBalances) String() string {
 		buf.WriteString("\n")
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	if containsEarmarkedBalances {
@@ -158,7 +158,7 @@ func (a SepaAccountBalance) String() string {
 	buf.WriteString("\t")
 	buf.WriteString(fmt.Sprintf("%.2f %s", a.BookedBalance.Amount.Amount, a.BookedBalance.Amount.Currency))
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 24, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 24, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
diff --git a/domain/account_information.go b/domain/account_information.go
index ca7976a..15393c2 100644
--- a/domain/account_information.go
+++ b/domain/account_information.go
@@ -35,7 +35,7 @@ func (ai AccountInfos) String() string {
 		buf.WriteString("\n")
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
diff --git a/domain/account_transaction.go b/domain/account_transaction.go
index c85862f..ae03b86 100644
--- a/domain/account_transaction.go
+++ b/domain/account_transaction.go
@@ -55,7 +55,7 @@ func (at AccountTransactions) String() string {
 		)
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 24, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 24, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
@@ -93,7 +93,7 @@ func (a AccountTransaction) String() string {
 	buf.WriteString("\t")
 	buf.WriteString(a.Purpose)
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 0, 8, 0, '\t', 0)
+	tabw := tabwriter.NewWriter(&out, 0, 8, 1, '\t', 0)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
-- 
2.43.0


From b6baf83412a8654b9cf8ebe8e5deb8c3d3f13224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:19 +0000
Subject: [PATCH 71/74] fix: read the segment of the version asked for instead
 of the first one with its ID

---
 message/unmarshaler.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/message/unmarshaler.go b/message/unmarshaler.go
index a8e5ed9..76eaa1d 100644
--- a/message/unmarshaler.go
+++ b/message/unmarshaler.go
@@ -75,7 +75,7 @@ func (u *Unmarshaler) UnmarshalSegment(segmentID string, version int) (segment.S
 	if err != nil {
 		return nil, err
 	}
-	segmentBytes, err := u.extractSegment(segmentID)
+	segmentBytes, err := u.extractSegment(segmentID, version)
 	if err != nil {
 		return nil, err
 	}
@@ -86,16 +86,21 @@ func (u *Unmarshaler) UnmarshalSegment(segmentID string, version int) (segment.S
 	return unmarshaler.(segment.Segment), nil
 }
 
-func (u *Unmarshaler) extractSegment(segmentID string) ([]byte, error) {
+func (u *Unmarshaler) extractSegment(segmentID string, version int) ([]byte, error) {
 	_, err := u.segmentExtractor.Extract()
 	if err != nil {
 		return nil, err
 	}
-	segmentBytes := u.segmentExtractor.FindSegment(segmentID)
-	if segmentBytes == nil {
-		return nil, fmt.Errorf("Segment not found in message: %q", segmentID)
+	for _, segmentBytes := range u.segmentExtractor.FindSegments(segmentID) {
+		header, err := extractSegmentHeader(segmentBytes)
+		if err != nil {
+			return nil, err
+		}
+		if header.Version.Val() == version {
+			return segmentBytes, nil
+		}
 	}
-	return segmentBytes, nil
+	return nil, fmt.Errorf("Segment not found in message: %q", segmentID)
 }
 
 // SegmentsByID returns all already unmarshaled segments for the given ID
-- 
2.43.0


From 9ef64e9aa49be31215dd0480d84caaf72a365a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:57 +0000
Subject: [PATCH 72/74] fix: return the segments of an own message as they are
 sent

---
 message/message.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/message/message.go b/message/message.go
index 36b8022..6f00d07 100644
--- a/message/message.go
+++ b/message/message.go
@@ -348,7 +348,7 @@ func (b *BasicMessage) FindMarshaledSegment(segmentID string) []byte {
 			continue
 		}
 		if segment.Header().ID.Val() == segmentID {
-			return []byte(segment.String())
+			return marshaledSegment(segment)
 		}
 	}
 	return nil
@@ -363,12 +363,21 @@ func (b *BasicMessage) FindMarshaledSegments(segmentID string) [][]byte {
 			continue
 		}
 		if segment.Header().ID.Val() == segmentID {
-			segments = append(segments, []byte(segment.String()))
+			segments = append(segments, marshaledSegment(segment))
 		}
 	}
 	return segments
 }
 
+// marshaledSegment returns seg as it is sent, or nil if it can not be marshaled
+func marshaledSegment(seg segment.ClientSegment) []byte {
+	marshaled, err := seg.MarshalHBCI()
+	if err != nil {
+		return nil
+	}
+	return marshaled
+}
+
 // SegmentPosition returns the segment position for the given segmentID
 func (b *BasicMessage) SegmentPosition(segmentID string) int {
 	idx := -1
-- 
2.43.0


From 2a2299fbf2d7de16b2313cb6ab5fe9b498a1a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:34 +0000
Subject: [PATCH 73/74] fix: name the message the acknowledgements of segments
 refer to

---
 message/decryption.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/message/decryption.go b/message/decryption.go
index d69f7fb..61048b6 100644
--- a/message/decryption.go
+++ b/message/decryption.go
@@ -23,6 +23,7 @@ func NewDecryptedMessage(header *segment.MessageHeaderSegment, end *segment.Mess
 	}
 	for _, seg := range unmarshaler.SegmentsByID("HIRMS") {
 		if segmentAcknowledgement, ok := seg.(*segment.SegmentAcknowledgement); ok {
+			segmentAcknowledgement.SetReferencingMessage(header.ReferencingMessage())
 			acknowledgements = append(acknowledgements, segmentAcknowledgement.Acknowledgements()...)
 		} else {
 			panic(fmt.Errorf("Error while unmarshaling segments"))
-- 
2.43.0


From 9c326674e2bde1e08ba90b8743b2c868b17fdf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:03 +0000
Subject: [PATCH 74/74] fix: write dates and time frames the same way whether
 or not they are addressable

---
 domain/time.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/domain/time.go b/domain/time.go
index d5fb499..3e3c595 100644
--- a/domain/time.go
+++ b/domain/time.go
@@ -25,7 +25,7 @@ func Date(year int, month time.Month, day int, location *time.Location) ShortDat
 }
 
 // MarshalJSON marshals the date into a JSON representation
-func (s *ShortDate) MarshalJSON() ([]byte, error) {
+func (s ShortDate) MarshalJSON() ([]byte, error) {
 	if s.IsZero() {
 		return json.Marshal("")
 	}
@@ -44,12 +44,12 @@ func (s *ShortDate) UnmarshalJSON(data []byte) error {
 	return err
 }
 
-func (s *ShortDate) String() string {
+func (s ShortDate) String() string {
 	return s.Format("2006-01-02")
 }
 
 // MarshalText marshals the date into a byte representation
-func (s *ShortDate) MarshalText() ([]byte, error) {
+func (s ShortDate) MarshalText() ([]byte, error) {
 	return []byte(s.Format("2006-01-02")), nil
 }
 
@@ -104,7 +104,7 @@ func (tf *Timeframe) ToQuery() url.Values {
 }
 
 // MarshalJSON marhsals the timeframe into a JSON string
-func (tf *Timeframe) MarshalJSON() ([]byte, error) {
+func (tf Timeframe) MarshalJSON() ([]byte, error) {
 	if tf.StartDate.IsZero() || tf.EndDate.IsZero() {
 		return json.Marshal("")
 	}
@@ -137,6 +137,6 @@ func (tf *Timeframe) IsZero() bool {
 	return tf.StartDate.IsZero() && tf.EndDate.IsZero()
 }
 
-func (tf *Timeframe) String() string {
+func (tf Timeframe) String() string {
 	return fmt.Sprintf("{%s-%s}", tf.StartDate, tf.EndDate)
 }
-- 
2.43.0

