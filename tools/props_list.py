NOTES = {}

P("P01", "Raw HBCI bytes are scanned into the tokens the HBCI syntax defines",
  "For every byte sequence, scanning it as HBCI yields contiguous tokens whose values concatenate to the scanned prefix, each ending exactly at the next delimiter ('+', ':', segment end quote) that is neither escaped with '?' nor inside a length-prefixed binary block, and each carrying the type its bytes determine (separator, segment end, number, zero-led digits, decimal, alphanumeric, text with line breaks, binary, end of input). Malformed input (an unterminated element, an invalid escape, a wrong binary length or a missing delimiter behind a binary block) ends the scan with exactly one error token and well-formed input is never rejected, except for decimals with superfluous leading zeros. The scan always terminates.",
  ["inputs"], "every byte sequence up to the stated length, and every binary length field value",
  "The lexer tests are a few dozen literal strings; delimiter, escape and binary-length interactions range over all byte sequences, including NUL bytes and lengths beyond the input.",
  ["token/lexer.go", "token/token.go"],
  [("state function lexer", "token/lexer.go lexStart, lexDigit, lexAlphaNumeric, lexText, lexBinaryData"), ("escape handling", "token/lexer.go lexEscapeSequence")],
  ["token.NewLexer, Lexer.HasNext, Lexer.Next"], [("pos/start/width", "scan position within the input", "token/lexer.go Lexer")])

P("P02", "SWIFT datasets are scanned and cut at tag and message boundaries only",
  "For every SWIFT dataset made of lines \"CRLF :tag:value\" and message ends \"CRLF -\", with values of arbitrary bytes (line breaks inside a value included) that contain no tag or message boundary, the scanner yields exactly the tags, values and separators of the dataset byte by byte, with the character class of each value, and the message extractor returns exactly its messages. For any other bytes the scan still terminates, yields only contiguous pieces of the input and ends with end-of-input or a single error; a dataset that does not start with a line break or is cut off inside a value is an error.",
  ["inputs"], "every dataset of up to the stated number of messages, tags and value bytes; every raw input up to the stated length",
  "The tests scan one recorded statement and two toy datasets; a line break in an unlucky place of a booking text or reference is input-dependent and unreachable by samples.",
  ["token/swift_lexer.go", "swift/message_extractor.go", "token/lexer.go"],
  [("boundary look-ahead", "token/swift_lexer.go isTagBoundary"), ("value classes", "token/swift_lexer.go lexSwiftDigit, lexSwiftAlpha, lexSwiftCharacter, lexSwiftAlphaNumeric"), ("message cut", "swift/message_extractor.go Extract")],
  ["token.NewSwiftLexer", "swift.NewMessageExtractor"])

P("P03", "Messages, segments and groups are cut at unprotected delimiters only",
  "Every well-formed message is cut into exactly its segments, every segment into exactly its elements (a final empty element counts as absent) and every element group into exactly its parts, byte for byte and in order, however often it is done; delimiters that are escaped or inside binary blocks never cut. A segment is found by its exact ID, in order of appearance, and never by a prefix of one. Malformed input is an error at every level, and the caller's bytes, including memory behind the given slice, are never written.",
  ["inputs"], "every well-formed message, segment and group of the stated shapes; every raw input up to the stated length",
  "The tests cut a few literal messages without escapes or binary data; which byte cuts depends on every byte before it.",
  ["message/segment_extractor.go", "segment/segment.go", "element/data_element.go"],
  [("segment cut", "message/segment_extractor.go Extract, FindSegment, FindSegments"), ("element cut", "segment/segment.go ExtractElements"), ("group cut", "element/data_element.go ExtractElements")],
  ["message.NewSegmentExtractor, Extract, FindSegment(s)", "segment.ExtractElements", "element.ExtractElements"])

P("P04", "Text survives the trip onto the wire and back unchanged",
  "Every text of ISO-8859-1 characters, written as an alphanumeric, identification, code or text element, appears on the wire as its ISO-8859-1 bytes with exactly the syntax characters (+ : ' ? @) escaped by '?', is scanned as one single element, and is read back as the same text. Character set conversion is lossless in both directions and rejects nothing it can represent.",
  ["inputs"], "every text of up to the stated number of characters over all of ISO-8859-1",
  "The tests convert a handful of words; any of 256 characters can stand next to any other, and escaping and conversion act per character.",
  ["element/data_element.go", "charset/convert.go"],
  [("escaping", "element/data_element.go AlphaNumericDataElement.MarshalHBCI, UnmarshalHBCI"), ("conversion", "charset/convert.go ToISO8859_1, ToUTF8")],
  ["element.NewAlphaNumeric, NewIdentification, NewCode, NewText; MarshalHBCI, UnmarshalHBCI; charset.ToUTF8, ToISO8859_1"])

P("P05", "Element groups keep every field in its place, on the wire and back",
  "Every element group (accounts, bank identifications, key names, amounts, limits, acknowledgements, PIN and TAN, security and transport parameters, segment headers and the rest) is written as exactly its fields, escaped, in their order, with empty fields at the end left out, whatever characters its texts contain. Reading these bytes gives back the same values, leaves the bytes as they are, and writing the result again gives the same bytes.",
  ["inputs"], "every element group with arbitrary texts, numbers and binary data up to the stated sizes",
  "The tests read and write a few fixed values without syntax characters or absent fields; which field a character lands in depends on every character before it.",
  ["element/group_data_element_group.go", "element/account.go", "element/bank_parameter_data.go", "element/user_parameter_data.go", "element/acknowledgement.go", "element/signature.go", "element/pin.go", "element/element_extractor.go"],
  [("group writing", "element/group_data_element_group.go MarshalHBCI"), ("group reading", "element/*.go UnmarshalHBCI"), ("cut", "element/data_element.go ExtractElements")],
  ["MarshalHBCI, UnmarshalHBCI, Val of the exported element groups"])

P("P06", "Every request segment has its header and each element in its place",
  "Every segment a client sends (identification, dialog preparation and end, synchronisation, balances, account information, transactions, status protocol, TAN, signature, encryption, key management, message header and end), in every version, is written as ID, position and version followed by exactly the elements the HBCI layout of that version has at each place, ended by an unescaped quote. No text, number or binary value, whatever characters it contains, moves, drops or merges a neighbouring element.",
  ["inputs"], "every request segment and version, with each of its texts, numbers and binary values arbitrary up to the stated size",
  "The tests compare single literals for a few segments; versions differ in the place of one element and only arbitrary field values show that no field can spill into its neighbour.",
  ["segment/segment.go", "segment/account_balance.go", "segment/account_transaction.go", "segment/account_information.go", "segment/tan.go", "segment/dialog.go", "segment/identification.go", "segment/signature_header.go", "segment/signature_end.go", "segment/encryption_header.go", "segment/message_header.go", "segment/status_protocol.go"],
  [("segment writing", "segment/segment.go MarshalHBCI"), ("layouts", "segment/*.go elements()")],
  ["segment.New*, MarshalHBCI of the exported request segments"])

P("P07", "Outgoing messages are framed, sized, numbered, signed and wrapped right",
  "Every message a client builds is header, body segments in order and end; its header carries the exact byte size of the message, its segments are numbered consecutively from 1, and the message number of header and end agree. A signed message has signature header and end around its body with one control reference, the signature covers exactly the bytes sent from signature header to the last body segment, and an encrypted message carries exactly the signed bytes as its payload. Absent segments leave no trace, and changing a number, a reference or writing twice never yields a stale or inconsistent message.",
  ["inputs", "histories"], "every message of the stated segments, numbers and texts of the stated sizes, and every order of numbering and writing",
  "The tests compare a few literal messages; size, numbering and signature depend on every byte of every segment, and on what was called before.",
  ["message/message.go", "message/signature.go", "message/encryption.go", "message/crypto.go", "segment/segment.go", "segment/message_header.go"],
  [("framing and size", "message/message.go MarshalHBCI"), ("numbering", "message/message.go SetNumbers, SetMessageNumber"), ("signing and wrapping", "message/message.go Sign, Encrypt")],
  ["message.NewBasicMessage, NewBasicSignedMessage, SetNumbers, SetMessageNumber, MarshalHBCI, Sign, Encrypt"], [("marshaled content", "cached bytes of a message, which must never be stale", "message/message.go")])

P("P08", "Numbers, decimals, flags and binary data keep their value",
  "Every number, fixed-width number, decimal, amount, flag and block of binary data is written in its HBCI notation (no leading zeros, or exactly the width; a comma and no trailing zeros; J or N; the length between at-signs before the data) and is read back as the very same value. Bytes that are not such a notation, including binary data whose stated length is not that of its data, are rejected with an error and never read as another value or panic, and reading leaves the caller's bytes as they are.",
  ["inputs"], "every number, decimal, flag and block of binary data, and all other bytes, of the stated sizes",
  "The tests round a handful of literals; a value lost in a conversion depends on its digits, and what must be rejected is everything else.",
  ["element/data_element.go", "element/group_data_element.go", "element/amount.go", "charset/charset.go"],
  [("decimals", "element/data_element.go FloatDataElement"), ("numbers", "element/data_element.go NumberDataElement, DigitDataElement"), ("binary data", "element/data_element.go BinaryDataElement")],
  ["element.NewNumber, NewDigit, NewFloat, NewValue, NewAmount, NewBoolean, NewBinary, MarshalHBCI, UnmarshalHBCI, Val"])

P("P09", "Dates and times are the ones that were written",
  "Every calendar day and time of day is written in its notation and read back as the same day and time, wherever dates occur: date and time elements, security dates, balances, booking and due dates of balance responses, status protocol entries, short dates and time frames as text, JSON or query, and the ranges a client asks for. A time is written as the clock of its own time zone shows it; digits that are no calendar day or time of day, and anything else, are rejected with an error.",
  ["inputs"], "every date of the years 0 to 9999, every time of day, several time zones, and all other bytes of the stated sizes",
  "The tests use two or three dates; leap years, month ends, midnight, zones and the combination of a date with a time only go wrong on some days.",
  ["element/data_element.go", "element/signature.go", "element/group_data_element_group.go", "segment/account_balance.go", "segment/status_protocol.go", "segment/account_transaction.go", "domain/time.go"],
  [("dates and times", "element/data_element.go DateDataElement, TimeDataElement"), ("combination of date and time", "segment/account_balance.go AccountBalance, segment/status_protocol.go Status"), ("short dates and time frames", "domain/time.go")],
  ["element.NewDate, NewTime, NewSecurityDate, NewBalance", "AccountBalance, Status, SetTransactionRange", "domain.ShortDate, domain.Timeframe"])

P("P10", "Segments of the bank are read with every element in its place",
  "Every segment a bank sends (balances, account information and transactions, user and bank parameters, PIN and TAN parameters, TAN response, synchronisation, acknowledgements, status protocol, announcements, communication access, security header and end, encrypted data, message header and end), in every version and through the version-independent reader, is read with each element at the place its layout gives it, whatever characters its texts contain. Repeated elements are all read, in order. An absent optional element is empty and neither moves another one nor makes its reader fail.",
  ["inputs"], "every bank segment and version with each text, number, flag and block of binary data arbitrary or absent",
  "The tests read one literal of some segments; versions differ in the place of one element, and optional or repeated elements shift the ones behind them.",
  ["segment/account_balance.go", "segment/account_balance_unmarshaler.go", "segment/basic_account_information.go", "segment/basic_account_information_unmarshaler.go", "segment/user_parameter_data.go", "segment/common_bank_parameter_data.go", "segment/pin_bpd.go", "segment/tan.go", "segment/tan_bpd.go", "segment/sync.go", "segment/acknowledgement.go", "segment/status_protocol.go", "segment/account_information.go", "segment/account_transaction.go"],
  [("segment reading", "segment/*_unmarshaler.go UnmarshalHBCI"), ("known segments", "segment/segment_index.go KnownSegments"), ("accessors", "segment/*.go AccountBalance, Account, UserParameterData, BankParameterData, Status, Acknowledgements")],
  ["segment.KnownSegments.UnmarshalerForSegment, UnmarshalHBCI and the exported fields and accessors of the bank segments"])

P("P11", "Account statements are reported with the right amounts, dates and texts",
  "Every transaction of an account statement (MT940) is reported once, in order, with its exact amount, negative exactly if it is a debit or a reversed credit, its currency, valuta and booking date, references, texts and the other party, whatever optional parts are absent and wherever lines wrap. It carries the account and the opening and closing balance of its own statement, each with the right sign, currency and date. Malformed or incomplete statements yield an error at worst, never a panic, and reading leaves the caller's bytes as they are.",
  ["inputs"], "every amount, date, mark, text and reference of the stated sizes, every subset of fields and tags, and arbitrary contents of every tag",
  "The tests read a few real statements; sign, year and field boundaries depend on which optional parts a line has and on every byte of it.",
  ["swift/mt940.go", "swift/mt940_unmarshaler.go", "swift/element.go", "swift/unmarshal.go", "swift/tag_extractor.go", "swift/message_extractor.go", "token/swift_lexer.go"],
  [("transactions", "swift/mt940.go TransactionTag.Unmarshal"), ("balances", "swift/mt940.go BalanceTag.Unmarshal"), ("descriptions", "swift/element.go CustomFieldTag.Unmarshal"), ("statements", "swift/mt940_unmarshaler.go, swift/unmarshal.go UnmarshalMT940")],
  ["swift.NewMT940MessagesUnmarshaler().UnmarshalMT940", "swift.MT940.Unmarshal", "domain.AccountTransaction"])

P("P12", "Requests are built in the highest version both sides support",
  "Whatever segment versions a bank states as supported, in whatever order, with gaps, unknown ones and repetitions, a balance, transaction (national or SEPA), status protocol or TAN request is built in exactly the highest of them that this library can write, with the contents asked for. If there is no common version the result is an error and no request. The statements of one kind of segment never decide about another kind, and the caller's lists stay as they are.",
  ["inputs"], "every list of up to the stated number of segment IDs and versions",
  "There is no test of the choice at all; which version is chosen depends on the whole list, and a wrong one is a request the bank rejects.",
  ["segment/hbci_version.go", "segment/account_balance.go", "segment/account_transaction.go", "segment/status_protocol.go", "segment/tan.go"],
  [("choice by version", "segment/*.go *RequestBuilder"), ("choice by supported segments", "segment/hbci_version.go NewBuilder")],
  ["segment.NewBuilder and its methods", "segment.*RequestBuilder"])

P("P13", "Whatever a bank sends is read or rejected, never a crash",
  "Decoding any bytes as a message of the bank, or any known segment of it of which a field is missing, misplaced, cut off or replaced by other bytes, gives either the message or segment or an error. It never panics, neither while decoding nor when everything that was decoded is asked for afterwards.",
  ["inputs"], "every byte sequence of the stated sizes as a message, a message header, and any one field of every known bank segment",
  "The tests decode well-formed literals only; a response that is damaged, cut short or unusual must not bring down the program that uses the library, and which byte does so cannot be guessed.",
  ["message/decryption.go", "message/unmarshaler.go", "message/segment_extractor.go", "segment/element_extractor.go", "segment/business_transaction.go", "segment/pin_bpd.go", "segment/tan_bpd.go", "segment/acknowledgement.go", "element/tan.go", "element/pin.go", "element/bank_parameter_data.go", "element/acknowledgement.go", "element/group_data_element_group.go"],
  [("messages", "message/decryption.go NewDecryptedMessage, message/unmarshaler.go Unmarshal"), ("segments", "segment/*_unmarshaler.go UnmarshalHBCI"), ("elements", "element/*.go UnmarshalHBCI, Val")],
  ["message.NewDecryptedMessage and the methods of its result", "segment.KnownSegments.UnmarshalerForSegment, UnmarshalHBCI and the accessors of bank segments"])

P("P14", "A message of the bank gives back everything it contains",
  "From a decoded message of the bank, every acknowledgement is returned once, those of the message before those of the segments and otherwise in order, each naming what it refers to, with its code, texts and parameters, and classed as error, warning or success by its code. Every segment is found by its ID as it was sent, in order and with its position, every known one also decoded (one asked for by ID and version is the first such one), unknown ones do not disturb it, and the parameter segments are listed as what the bank supports. Decoding again changes nothing, and the bytes of the message stay as they are.",
  ["inputs"], "every message of up to the stated number of segments, known and unknown, in any order and repetition, with any text, and every code of four digits",
  "The tests look for one segment in one message; what is found depends on every other segment, its ID, version and order.",
  ["message/decryption.go", "message/unmarshaler.go", "message/segment_extractor.go", "segment/segment_index.go", "segment/acknowledgement.go", "domain/acknowledgement.go"],
  [("messages", "message/decryption.go NewDecryptedMessage"), ("segments", "message/unmarshaler.go Unmarshal, message/segment_extractor.go"), ("acknowledgements", "segment/acknowledgement.go, domain/acknowledgement.go")],
  ["message.NewDecryptedMessage, Acknowledgements, FindSegment(s), FindMarshaledSegment(s), SegmentPosition, SupportedSegments", "message.NewUnmarshaler, Unmarshal, SegmentsByID"])

P("P15", "Dialogs with the bank follow the protocol whatever happens in them",
  "Within a dialog messages are numbered from 1 without gaps; the first one carries dialog ID 0 and either requests synchronisation or initialises the dialog, and all later ones carry exactly the dialog ID the bank gave, as does the message that ends it. Every dialog the bank accepted is ended before the call returns, also when a job in it is refused, lost or answered with nonsense, and the next call begins a new dialog. A client system ID is requested from the bank if none is known, with 0 in identification, signature and encryption header, and from then on identification and both security headers carry the one the bank gave last; without PIN nothing is sent, and a call fails exactly if the bank did not accept one of its messages (a failing end of the dialog only counts for synchronisation).",
  ["inputs", "histories"], "every sequence of up to the stated number of calls, every reaction of the bank to each message (accepted, refused, lost, nonsense), and every dialog and client system ID of the stated length",
  "The dialog tests script three successful exchanges; numbers and IDs after a failure, a repeated synchronisation or a refused message depend on the whole history.",
  ["dialog/dialog.go", "dialog/pin_tan_dialog.go", "message/signature.go", "message/crypto.go"],
  [("dialog state", "dialog/dialog.go SendMessage, SyncClientSystemID, init, end, SendAnonymousMessage"), ("message numbers", "dialog/dialog.go newBasicMessage, nextMessageNumber"), ("client system ID", "dialog/dialog.go SetClientSystemID, message/signature.go, message/crypto.go")],
  ["dialog.NewPinTanDialog with a transport of the check: the messages it gets", "SendMessage, SyncClientSystemID, SyncUserParameterData, SendAnonymousMessage, SetPin, SetClientSystemID"],
  [("dialogID, messageCount", "ID of the current dialog and number of its last message", "dialog/dialog.go dialog"), ("ClientSystemID", "the client system ID the bank assigned", "dialog/dialog.go dialog and both providers")])

P("P16", "What the bank answers in a dialog takes effect",
  "An acknowledgement code from 9000 in the answer to any message but the end of a dialog makes the call fail, and no other code does. The parameters of bank and user, the accounts, the supported jobs with their parameters and the jobs that need a TAN are the ones the bank sent last, each account once; what it does not send again is kept, and each dialog begins by naming the versions held. If the bank names the user's security functions together with its TAN procedures, the first one named that it has a procedure for is used for all later messages, also after a change of the PIN, and if there is none the call fails and the dialog is ended.",
  ["inputs", "histories"], "every acknowledgement code, every selection of parameter data, accounts and announcements in up to the stated number of dialogs, every list of allowed and offered security functions of the stated length, and every iteration order of maps",
  "The tests check one synchronisation; what the client holds depends on what every former answer contained or left out, and on the order of maps.",
  ["dialog/dialog.go", "dialog/pin_tan_dialog.go", "dialog/bank_parameter_data.go", "domain/acknowledgement.go", "message/signature.go", "message/crypto.go"],
  [("parameter data", "dialog/dialog.go parseBankParameterData, parseUserParameterData"), ("security function", "dialog/dialog.go updateSecurityFunctionIfNeeded, dialog/pin_tan_dialog.go SetPin"), ("acknowledgements", "domain/acknowledgement.go IsError")],
  ["dialog.NewPinTanDialog with a transport of the check: the messages it gets", "Accounts, BankParameterData, UserParameterData, SupportedSegments"],
  [("BankParameterData, UserParameterData, Accounts", "what the bank sent last", "dialog/dialog.go dialog"), ("securityFn", "the chosen security function", "dialog/dialog.go dialog and both providers")])
P("P17", "What a client returns is everything the bank sent, in its order",
  "Turnovers and balances, national or SEPA, are returned complete: as long as the bank answers with a continuation mark the client repeats its request with exactly that mark and otherwise unchanged, and every entry of every page is returned once and in the order of the bank; an answer without mark or without entries ends the job and is no error for turnovers. If any of the pages is an error, or no balance is sent at all, the call fails and returns no part of the result. Accounts and status messages are returned each once and in the order of the bank, whatever their names contain, and an answer that is not understood never makes the client panic.",
  ["inputs", "histories"], "every continuation mark of the stated length, every number of entries per page and of pages within the bounds, every amount out of ten per entry, errors on any page, in both protocol versions",
  "No existing test runs the client over more than one answer; the pages depend on each other through marks of arbitrary characters.",
  ["client/client.go", "swift/unmarshal.go", "message/decryption.go", "segment/account_transaction.go", "segment/account_balance.go", "segment/status_protocol.go", "dialog/dialog.go"],
  [("pages", "client/client.go accountTransactions, accountBalances, SepaAccountBalances, continuationReferenceOf"), ("merge of pages", "swift/unmarshal.go MergeMT940Messages"), ("results", "client/client.go Accounts, Status, AccountInformation")],
  ["client.New with a transport of the check: the requests it gets", "AccountTransactions, SepaAccountTransactions, AccountBalances, SepaAccountBalances, Accounts, Status, AccountInformation"],
  [("continuation mark", "where the bank stopped", "client/client.go continuationReferenceOf")])
P("P18", "IBANs are made and accepted exactly by the rules of their check digits",
  "The IBAN of a country of two letters and an account number of letters and digits within the country's length is that country, two check digits and the account number in capitals, with 98 minus the remainder modulo 97 of account number, country and 00 (letters counting from ten) as check digits, and it is valid. A string is accepted as an IBAN if and only if it has that form, in capitals or not; anything else, however short or malformed, is reported as invalid and never panics. The IBAN of a German account consists of the bank's 8 digits and the account number filled up with zeros to 10, from which both are read back, and anything but digits of that length is an error; printing puts a blank behind every four characters.",
  ["inputs"], "every account number of digits of the stated lengths, any bytes in up to the stated number of places, any check characters, for 7 countries, and every string of up to 4 bytes",
  "Tests check one account number per country; check digits depend on all characters, and what is rejected is unbounded.",
  ["iban/iban.go"],
  [("making", "iban/iban.go New, NewGerman"), ("accepting", "iban/iban.go From, IBAN.Valid, IsValid"), ("letters", "iban/iban.go transformLettersToDigits")],
  ["iban.New, NewGerman, From, IsValid, Print, IBAN.Valid, BankID, AccountID, BBAN, CountryCode, ProofNumber"])

P("P19", "Messages and answers arrive unchanged whatever transport carries them",
  "Over HTTPS, over HTTPS with Base64 and through the Base64 and logging layers, alone or stacked, a message of any bytes is sent once, to the bank's address (over HTTP as a POST of HBCI content), and arrives at the bank byte for byte as it was handed over, and so does the bank's answer at the client; the character set layer translates between UTF-8 and ISO-8859-1 without losing anything. If reading the message, the connection or reading the answer fails at any point, or the answer is not in the agreed encoding or ends within a segment, that is an error, and no part of a message or answer is passed on as if it were all of it. What is logged, and whether it can be, makes no difference.",
  ["inputs", "fault_sequences"], "every request and answer of up to the stated size, cut into any two pieces, with the connection failing at any point",
  "Tests carry one fixed message over a connection that never fails; encodings hold back bytes at the ends of pieces, and errors appear at any of them.",
  ["transport/transport.go", "transport/https/https.go", "transport/middleware/encoding.go", "transport/middleware/logging.go", "message/segment_extractor.go"],
  [("HTTPS", "transport/https/https.go HTTPSTransport.Do, HTTPSBase64Transport.Do"), ("encodings", "transport/middleware/encoding.go UTF8Encoding, Base64Encoding"), ("logging", "transport/middleware/logging.go Logging"), ("answers", "transport/transport.go ReadResponse")],
  ["https.New, NewNonDefault, NewBase64", "middleware.Base64Encoding, UTF8Encoding, Logging", "transport.ReadResponse"])

P("P20", "A client talks to the bank it is configured for",
  "A client sends its requests, over the network if it is given no transport, to the URL and in the protocol version it is configured with, and as far as these are not given to those of the bank database's entry for exactly the configured bank ID, naming this bank and the configured user and product. An entry's version is the higher one of those its name and its number stand for; if a version is not known or supported, or there is no address at all, no client is created (entries whose version is unknown are not taken for any, asking for it panics as documented). Reading a list of banks or BICs gives every row that names a bank once and in order, each field from the column with its heading, wherever that stands, without blanks around it.",
  ["inputs"], "every bank ID of 8 digits with the stated beginnings and any bytes of other lengths, any version from -2 to 500, any version names and numbers of the stated length, lists with any field of up to 3 characters",
  "Tests look up one bank; there are thousands of entries, and an unknown or incomplete one must not send a PIN to a wrong address.",
  ["client/client.go", "bankinfo/bank_info.go", "bankinfo/parser.go", "dialog/dialog.go"],
  [("configuration", "client/client.go New"), ("database", "bankinfo/bank_info.go FindByBankID, HbciVersion"), ("lists", "bankinfo/parser.go ParseBankInfos, ParseBicData")],
  ["client.New with a transport of the check: the request it gets", "bankinfo.FindByBankID, BankInfo.HbciVersion, ParseBankInfos, ParseBicData"])

P("P21", "What is printed shows every entry with its values",
  "Balances, transactions and account information are printed, alone or as a list, with one line per entry in their order under a line of headings, each value in the place of its heading and separated from the next by blanks or a line, whatever texts, dates and amounts they contain (printable texts): dates as year, month and day, amounts with two decimals, sign and currency. An earmarked amount that is not zero stands in parentheses behind the booked one in a list and is explained at its end, a limit that is absent is a dash; a list of transactions names its account and the balance before the first and after the last of them. Acknowledgements are printed with kind, message, segment if they have one, code, position if any, text and all parameters.",
  ["inputs"], "every text of the stated length in any field of up to 3 entries, every date, every amount of up to 9 digits, every code",
  "No test prints anything; columns that touch or shift depend on the lengths of all values.",
  ["domain/account_balance.go", "domain/account_transaction.go", "domain/account_information.go", "domain/acknowledgement.go"],
  [("lists", "domain AccountBalances, SepaAccountBalances, AccountTransactions, AccountInfos String"), ("entries", "domain AccountBalance, SepaAccountBalance, AccountTransaction, AccountInformation, Acknowledgement, StatusAcknowledgement String")],
  ["the String methods of domain"])

P("P22", "RSA keys sign and encrypt so that the other key verifies and decrypts",
  "What is encrypted with a public RSA key is decrypted by the private key it belongs to and by no other, a signature made with a private key is verified by its public key for exactly the signed bytes, and the ISO 9796-1 representation of a message can be converted back to that message.",
  ["inputs"], "every key of the sizes of HBCI (from 768 bits) and every message of up to the block size",
  "Tests use a few fixed keys; leading zeros and carries depend on the values of key and message.",
  ["domain/key.go", "crypto/rsa.go", "crypto/iso9796_encoding.go"],
  [("keys", "domain/key.go RSAKey, PublicKey"), ("encoding", "crypto/iso9796_encoding.go")],
  ["Sign, Encrypt and Decrypt of the keys"])

NA.append(dict(property="P22", reason="The property is about modular exponentiation with numbers of 768 and more bits in crypto/rsa and math/big: such products and remainders are out of reach of the SMT solver even for one operation with arbitrary operands, replacing them by an abstract function would assume what is to be shown, and concrete keys would be sampling. The code is not reachable through the client either: dialogs use PIN keys only (covered by P07 and P15), nothing imports package crypto, and RSAKey has no verification or decryption yet."))
