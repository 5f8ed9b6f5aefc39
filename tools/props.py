import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ENC=["src/encode/message/message_struct.rs","src/encode/message/header.rs","src/encode/value/basic_type.rs","src/encode/value/container.rs","src/encode/value/value_enum.rs","src/encode/encoder.rs"]
DEC=["src/decode/decoder.rs","src/decode/message/header.rs","src/decode/message/message_struct.rs","src/decode/value/basic_type.rs","src/decode/value/container.rs","src/decode/value/value_enum.rs"]
FLD="src/message/header/fields.rs"
p("C01","Encode then decode gives back the same message",
"Every message that encodes successfully decodes, with the file descriptors the encoder returned, into a message with the same type, flags, version, serial, byte order, header fields and body values (doubles compared bit for bit), consuming exactly the encoded bytes. The only permitted differences are that the header's descriptor count becomes the number of distinct descriptors when the body carries any, and that a body signature placed in the header fields by hand is superseded by the one of the actual body.",
["inputs"],"all messages constructible through the public API: every message type, flag set, version, serial, subset of header fields, byte order and body value tree within the encoder's limits",
"Tests round-trip a few dozen fixed messages; alignment, nesting and length combinations are unbounded.",
ENC+DEC+[FLD],[("Message::encode / encode_with_fds","src/encode/message/message_struct.rs"),("Message::decode / decode_with_fds","src/decode/message/message_struct.rs"),("HeaderFields <-> Vec<Value>","src/message/header/fields.rs")],
["Message::encode_with_fds return","Message::decode_with_fds return"])
p("C02","Re-encoding a received message preserves it and is canonical",
"Whenever received bytes decode to a message, encoding that message succeeds (as long as it still fits the size limits) and decoding the result gives the same message again, whatever order or padding layout the received bytes used for their header fields. Encoding the re-decoded message reproduces the first re-encoding byte for byte, including the descriptor list.",
["inputs"],"all byte strings that decode, including ones no encoder of this library would emit (permuted header fields, the other byte order, trailing bytes)",
"The tests decode, encode and decode about forty captured messages; foreign encodings are not generated.",
ENC+DEC+[FLD],[("Decoder::message","src/decode/message/message_struct.rs"),("Encoder::message","src/encode/message/message_struct.rs")],
["bytes in and out of Message::decode / Message::encode"])
p("C03","Encoded bytes conform to the D-Bus marshalling format",
"Every encoded message follows the D-Bus wire format: fixed header with the right byte-order mark, type, flags, version, body length and serial, a header-field array holding each present field exactly once with its specified code and type, zero padding to each type's alignment counted from the start of the message, NUL-terminated length-prefixed strings and signatures, and array lengths that exclude the initial padding. An independent D-Bus decoder recovers exactly the message's content from the bytes, and nothing follows the body.",
["inputs"],"all encodable messages, both byte orders",
"Tests compare a handful of byte strings; a symmetric encoder/decoder mistake passes every round-trip test.",
ENC+[FLD],[("Encoder::algin","src/encode/encoder.rs"),("Encoder::message_header","src/encode/message/header.rs"),("Encoder::array length back-patch","src/encode/value/container.rs"),("field numbers","src/message/header/fields.rs")],
["bytes returned by Message::encode"])
p("C04","Decoding accepts exactly the well-formed messages and reads them right",
"Decoding succeeds exactly for byte strings that start with a well-formed message: known byte-order mark, message type and flags, header fields with known codes, at most once each, holding values of the specified type and valid names, the fields the message type requires, zero padding, booleans 0 or 1, valid UTF-8, NUL terminators, valid paths and signatures, arrays of at most 64 MiB that end at an element boundary, at most 4 nested variants, a body signature exactly when there is a body, a body that fills exactly the declared length, and at most 128 MiB in all. When it succeeds, type, flags, version, serial, header fields and every body value are exactly what the bytes say; otherwise it returns an error.",
["inputs"],"all byte strings, valid, mutated or hostile, in both byte orders",
"Tests feed a few dozen captured or hand-broken messages; the space of malformed inputs is unbounded and the tests never compare with an independent decoder.",
DEC+[FLD,"src/message/header/header_struct.rs"],[("Decoder::message_header","src/decode/message/header.rs"),("Decoder::algin / read","src/decode/decoder.rs"),("HeaderFields::try_from","src/message/header/fields.rs"),("Decoder::d_array","src/decode/value/container.rs")],
["Message::decode / decode_with_fds result"])
p("C05","Framing: a message's extent does not depend on what follows it",
"A successful decode reports exactly the length of the message (padded header plus body), however many and whatever bytes follow in the buffer and wherever in a larger buffer the message starts, and the decoded message is the same. Decoding a concatenation of messages by advancing with the reported lengths yields exactly those messages in order, for every way of cutting the stream into chunks.",
["inputs","histories"],"all sequences of valid messages, all trailing bytes, all chunkings of the stream",
"Tests decode single messages from exact buffers and ignore the returned length.",
DEC,[("offset returned by Message::decode","src/decode/message/message_struct.rs"),("Decoder.offset","src/decode/decoder.rs")],
["(message, length, fds) returned by Message::decode*"],[("offset","bytes consumed so far","src/decode/decoder.rs")])
p("C06","An incomplete message is reported as not enough bytes",
"Decoding any strict prefix of a valid message, including the empty one, fails with the not-enough-bytes error and nothing else. The error states the length of the given prefix and an offset that lies beyond that prefix but not beyond the complete message.",
["inputs"],"all valid messages and every cut position",
"Tests truncate a few single values, not whole messages at every position.",
DEC,[("Decoder::read","src/decode/decoder.rs")],["DecodeError::NotEnoughBytes returned by Message::decode"])
p("C07","Decoders and parsers are total: no panic, overflow or runaway work",
"For every input, message decoding, match rule parsing and matching, name, path and signature parsing, message encoding and the formatting of their results and errors return a value: they never panic, overflow an integer, abort, exhaust a 2 MiB stack or fail to terminate. The work done by decoding a message or parsing a match rule grows at most linearly with the input.",
["inputs"],"all byte strings and texts of any size, all messages constructible through the public API with values nested up to 600 levels deep",
"Tests try a small fixed set of inputs; absence of panics and of super-linear work is a statement about all inputs.",
["src/decode","src/encode","src/match_rule","src/value"],[("checked_add / read","src/decode/decoder.rs"),("check_depth","src/value/type_enum.rs"),("MAXIMUM_VARIANT_DEPTH","src/decode/value/container.rs"),("Split / unescape","src/match_rule/split.rs")],
["process outcome, panics and executed edges of each call"])
p("C08","Memory use of decoding is bounded by the size of the input",
"Decoding allocates memory proportional to the bytes actually supplied, never to a length, count or depth merely claimed inside them: peak heap use stays under 4 KiB per input byte plus 64 KiB, whether decoding succeeds or fails. Once the result is dropped no memory stays allocated, however often inputs are decoded.",
["inputs"],"all byte strings, in particular short ones announcing huge arrays, strings or bodies",
"No test measures allocation; hostile length fields are not generated.",
DEC,[("Decoder::d_array grows with decoded elements","src/decode/value/container.rs"),("Decoder::read slices before copying","src/decode/decoder.rs")],
["allocator events during Message::decode"])
p("C09","Names and paths are valid exactly per the D-Bus grammar",
"Interface, member, error, unique-connection, well-known and general bus names and object paths can be constructed from exactly the texts the D-Bus grammar allows (character set, element rules, number of elements, no leading digit where forbidden, at most 255 bytes except paths), with the same verdict, and the same error, from borrowed text, owned text and bytes. A constructed name reproduces its text exactly through display, borrowing, conversion to text and comparison with text, and a general bus name is unique exactly when it begins with a colon.",
["inputs"],"all texts and byte strings for all seven kinds and all three source types",
"Tests check a handful of names per kind; each kind is an infinite language recognised by a separate hand-written state machine, repeated for three source types.",
["src/value/interface.rs","src/value/member.rs","src/value/error.rs","src/value/bus/mod.rs","src/value/bus/unique_connection_name.rs","src/value/bus/well_known_bus_name.rs","src/value/object_path.rs"],
[("check() state machines","src/value/*.rs"),("TryFrom<&[u8]> unchecked UTF-8","src/value/interface.rs"),("MAXIMUM_NAME_LENGTH","src/value/mod.rs")],["TryFrom results, Display, AsRef, Into<String>"])
p("C10","Object path operations keep paths valid and agree with path elements",
"Appending an element succeeds exactly when it is a non-empty run of letters, digits and underscores, then adds precisely that element, and otherwise leaves the path unchanged, so any sequence of operations keeps the path valid. One path lies below another exactly when the latter's elements are a proper prefix of its own, and stripping such a prefix yields exactly the remaining elements (nothing otherwise).",
["inputs","histories"],"all paths, elements and sequences of operations, including the root path",
"Tests use about ten fixed paths and single operations.",
["src/value/object_path.rs"],[("ObjectPath::append","src/value/object_path.rs"),("ObjectPath::starts_with / strip_prefix_elements","src/value/object_path.rs")],["path text after each operation, iterator contents"])
p("C11","Type signatures: exact grammar, limits and inverse printing",
"A text parses as a signature exactly when it is a sequence of complete types, at most 255 bytes, with arrays, structs and dict entries each nested at most 32 deep and no empty struct (a dict entry being a key and a value type in braces, allowed at any place); a single type parses exactly when the text holds one complete type. Printing a parsed signature or type gives back the same text, and printing any type fails exactly when its text would not parse.",
["inputs"],"all texts and byte strings, all type trees constructible through the public API",
"Tests list some tens of signatures; nesting, limits and malformed texts are unbounded.",
["src/value/type_enum.rs"],[("next_type","src/value/type_enum.rs"),("check_depth / check_len","src/value/type_enum.rs"),("try_to_string / Display","src/value/type_enum.rs")],["Type and signature parse/print results"])
p("C12","Values are consistently typed",
"The type reported for a value is the one its structure determines (arrays by their declared element type, variants opaque), failing only when structs or dict entries nest more than 32 deep. An array can be built exactly when every element has the declared element type, a struct exactly when it has at least one member, both keep their members in order, and a type's alignment is the one the D-Bus specification assigns.",
["inputs"],"all value trees and element lists constructible through the public API",
"Tests build a few values; heterogeneous element positions and nested structures are unbounded.",
["src/value/container.rs","src/value/value_enum.rs","src/value/type_enum.rs"],[("Array::new","src/value/container.rs"),("Value::get_type","src/value/value_enum.rs"),("Type::get_alignment","src/value/type_enum.rs")],["get_type, Array::new, Struct::try_from results"])
p("C13","Encoding succeeds exactly within the protocol limits",
"A message encodes successfully exactly when every array's content is at most 64 MiB, the whole message at most 128 MiB, variants nest at most 4 deep, and each signature involved (of the body, of a variant's content, of a signature value) is at most 255 bytes long with arrays, structs and dict entries each at most 32 deep and no empty struct. Otherwise it returns an error and never truncated or undecodable bytes.",
["inputs"],"all messages constructible through the public API, in particular at and one past every limit",
"No test builds a message at or beyond a limit.",
ENC+["src/value/type_enum.rs","src/value/value_enum.rs"],[("ArrayTooBig check","src/encode/value/container.rs"),("MessageTooBig check","src/encode/message/message_struct.rs"),("VariantDepth check","src/encode/value/container.rs"),("check_len / check_depth","src/value/type_enum.rs")],["Message::encode result"])
p("C14","Match rules survive printing and parsing",
"Any list of match rules whose argument indices are below 64 is recovered exactly, rule by rule, by parsing its printed text, whatever characters the argument values contain (quotes, commas, backslashes, equal signs, any Unicode). Printing joins the rules with commas, and re-printing the parsed rules gives the same text.",
["inputs"],"all lists of match rules, all argument texts",
"Tests print and parse a few rules; the interplay of escapes at all positions is unbounded.",
["src/match_rule/encode.rs","src/match_rule/escape.rs","src/match_rule/decode.rs","src/match_rule/unescape.rs","src/match_rule/split.rs","src/match_rule/arg.rs","src/match_rule/arg_path.rs"],
[("escape","src/match_rule/escape.rs"),("unescape","src/match_rule/unescape.rs"),("Split","src/match_rule/split.rs")],["MatchRule::encode text, MatchRule::decode result"])
p("C15","Match rule text is parsed exactly per the D-Bus quoting rules",
"A match rule text is accepted exactly when it is a comma-separated list (empty text and one trailing comma allowed) of known keys, each with an unquoted-valid value for that key; outside single quotes a backslash followed by a quote stands for a quote and any other backslash for itself, inside them every character stands for itself, and commas separate only outside quotes. The parsed rules carry exactly those keys, argument indices (0 to 63) and unquoted values in order, and parsing a single rule on its own agrees.",
["inputs"],"all texts",
"Tests parse a dozen texts; quoting states, key spellings and indices are unbounded.",
["src/match_rule/split.rs","src/match_rule/unescape.rs","src/match_rule/decode.rs","src/match_rule/mod.rs","src/message/types.rs"],
[("Split state machine","src/match_rule/split.rs"),("unescape","src/match_rule/unescape.rs"),("MatchRule::try_from","src/match_rule/decode.rs")],["MatchRule::decode / try_from result"])
p("C16","A match rule matches exactly the messages it describes",
"Type, sender, interface, member and path rules match exactly the messages whose field is present and equal; a path namespace matches that path and everything below it; destination matches only an equal unique name; argN matches an equal string at that position of the body; argNpath and arg0namespace match a string (or, for argNpath, an object path) equal to or below the given one; eavesdrop always matches. A list of rules matches exactly when all its rules do, and the empty list matches everything.",
["inputs"],"all messages and all match rules, in particular near misses",
"Tests try one or two messages per rule kind.",
["src/match_rule/matching.rs"],[("matching_rule / matching_rules","src/match_rule/matching.rs"),("match_namespace","src/match_rule/matching.rs")],["matching_rule / matching_rules verdict"])
p("C17","File descriptors are tabulated without loss, duplication or mix-up",
"Encoding a message returns its distinct file descriptors in order of first occurrence in the body, replaces each by its index in that list, and sets the header's descriptor count to the list's length when there are any. Decoding replaces each index by the descriptor at that index of the supplied list, fails with the not-enough-descriptors error for an index outside it, and reports one more than the highest index used (zero if none).",
["inputs"],"all messages with descriptors at any nesting depth, all descriptor lists, all indices",
"Unit tests encode single descriptors; whole messages with repeated and nested descriptors are not tested.",
["src/encode/value/basic_type.rs","src/encode/message/message_struct.rs","src/encode/message/header.rs","src/decode/value/basic_type.rs","src/decode/message/message_struct.rs"],
[("Encoder::unix_fd","src/encode/value/basic_type.rs"),("Decoder::unix_fd","src/decode/value/basic_type.rs"),("decode_with_fds","src/decode/message/message_struct.rs")],["encode_with_fds / decode_with_fds results"],[("fds","descriptor table","src/encode/encoder.rs"),("offset_fds","highest index used","src/decode/decoder.rs")])
p("C18","Replies and error replies answer the right message",
"A method return made from a method call, and an error reply made from any message, carry that message's serial as reply serial, its sender as destination and its destination as sender (absent when absent), its byte order, protocol version 1, serial 0, the no-reply-expected flag and, apart from an error's name and argument signature, no other header field; asking for a method return of anything else yields instead the error reply org.freedesktop.DBus.Error.MessageType with the text 'Message is not a method call'. Error replies carry the given name or org.freedesktop.DBus.Error.InvalidArgs, UnknownProperty, UnknownPath, UnknownInterface or UnknownMember, and exactly one text: the given one, or 'does not have a property X' ('a path X', 'an interface X', 'a member X') with X the name in question. The unknown path, interface and member replies exist exactly when the message has that field.",
["inputs"],"all messages of all types and header field subsets",
"Tests build replies from one fixed message.",
["src/message/header/header_struct.rs","src/message/message_struct.rs"],[("Header::method_return","src/message/header/header_struct.rs"),("Header::error and unknown_*","src/message/header/header_struct.rs")],["encoded bytes and accessors of the reply"])
p("C19","Headers always have what their message type requires, each field once",
"A header can be built, and a message decoded, only if it has the fields its type requires (method call: path and member; signal: path, interface and member; error: error name and reply serial; method return: reply serial), and building fails naming one of the missing ones. Converting a list of values to header fields succeeds exactly when each is a structure of a known code and a variant of that field's type with a valid name and no code repeats; the error names the offending thing, and converting back yields the same fields in ascending code order.",
["inputs"],"all message types, field subsets and value lists (in any order, with duplicates and wrong types)",
"Tests check single omissions and single wrong values.",
["src/message/header/header_struct.rs","src/message/header/fields.rs","src/decode/message/header.rs"],[("check_header_fields","src/message/header/header_struct.rs"),("Fields::try_from / try_set_field","src/message/header/fields.rs")],["MessageHeader::new, MessageHeaderFields::try_from, Vec::from results"])
p("C20","Message accessors reflect the message through any sequence of operations",
"After any sequence of construction, appending body values, setting the serial, cloning, encoding, decoding and splitting, every accessor of a message and its header reports exactly the current content: a field getter returns the field's value and the matching presence test is true exactly when it is present, the serial, type and body are the last ones set, and the signature is that of the current body. Splitting returns the header, with the body's signature when the body is not empty, and the unchanged body; clones are independent.",
["histories","inputs"],"all sequences of public operations on messages",
"Tests call each accessor once on a fixed message.",
["src/message/message_struct.rs","src/message/header/header_struct.rs"],[("get_field / has_field","src/message/message_struct.rs"),("add_value, set_serial, split","src/message/message_struct.rs")],["accessor results after each step"])
p("C21","Results do not depend on schedule or history; types are thread-safe",
"Decoding, encoding, parsing, printing and matching are pure: the same input gives the same result however many other operations ran before it in the process and whichever threads run operations at the same time, with shared messages, rules and buffers. No data race occurs, and messages, values, names, rules and their errors can be sent and shared between threads.",
["schedules","histories"],"all interleavings of concurrent calls and all histories of earlier calls",
"Tests run each operation once per process on private data.",
["src/encode/message/header.rs","src/decode/decoder.rs","src/lib.rs"],[("lazy_static ARRAY_TYPE","src/encode/message/header.rs"),("no other global state","src")],["result digests per thread and per order, ThreadSanitizer reports"])
p("C22","Memory safety and valid text everywhere",
"No input makes the library read or write out of bounds, use freed or uninitialised memory, leak the memory it allocated, or execute undefined behaviour. Every string it hands out, in values, names, paths and formatted output, is valid UTF-8.",
["inputs"],"all inputs to every parser, decoder, encoder and accessor",
"Tests run uninstrumented on a few inputs; the names are built with unchecked UTF-8 conversion.",
["src/value/interface.rs","src/value/member.rs","src/value/error.rs","src/value/object_path.rs","src/value/bus","src/decode/value/basic_type.rs"],[("from_utf8_unchecked after check()","src/value/*.rs"),("from_utf8 on strings","src/decode/value/basic_type.rs")],["AddressSanitizer/LeakSanitizer and Miri reports, UTF-8 validity of every text"])
p("C23","A single defect in a message is diagnosed as that defect",
"When exactly one thing is wrong in an otherwise valid message, decoding reports that kind of error with the offending data: byte-order mark, type, flags, padding byte, boolean value, missing NUL, invalid UTF-8, invalid name, path or signature, oversized or misaligned array length, too deep variant, missing or superfluous body signature, wrong body length, missing descriptor, missing required field, or unknown, repeated or wrongly typed header field. The offending byte, number, value or type in the error is the one in the message.",
["inputs","fault_sequences"],"all valid messages, each single fault of each kind at every applicable place",
"Tests inject each kind of fault once at a fixed place.",
DEC+["src/decode/error.rs",FLD],[("DecodeError construction sites","src/decode"),("FieldsError","src/message/header/fields.rs")],["DecodeError returned by Message::decode"])
p("C24","Both byte orders carry the same message",
"The same content encoded little-endian and big-endian yields messages of equal length whose bytes differ only in the byte-order mark and in the byte order inside multi-byte numbers, and both decode to the same content. Encoding succeeds or fails alike for both.",
["inputs"],"all messages",
"Tests mostly use little-endian messages; big-endian paths are separate code.",
ENC+DEC,[("is_le branches","src/encode/value/basic_type.rs"),("is_le branches","src/decode/value/basic_type.rs")],["bytes and messages of both encodings"])
p("C25","Convenience constructors build exactly the documented message",
"A method call, signal, property get, get-all or set built by the convenience constructors is little-endian, version 1, serial 0, has exactly the given path, interface, member and (except for signals) destination as header fields, and has no flags except no-reply-expected for signals. Property messages go to the standard properties interface with members Get, GetAll and Set and carry the interface name, the property name (not for get-all) and, for set, the value wrapped in one variant.",
["inputs"],"all names, property texts and values",
"Tests check one instance of each.",
["src/message/message_struct.rs"],[("Message::method_call / signal / property_*","src/message/message_struct.rs")],["encoded bytes and accessors of the built message"])
p("C26","Equality, order and hashing are coherent and structural",
"Two names, paths, types, values, match rules, headers or messages compare equal exactly when they have the same kind and content (doubles as numbers), and names and paths of one kind order as their texts. Orderings are antisymmetric, transitive and consistent with equality, equal items hash alike where hashing is provided, and clones equal their originals when these equal themselves.",
["inputs"],"all pairs and triples of items, in particular ones that differ in a single place",
"Tests compare a few fixed items.",
["src/value","src/message","src/match_rule/mod.rs"],[("derived comparison traits","src/value/value_enum.rs"),("PartialEq<str>","src/value/bus/mod.rs")],["results of ==, partial_cmp, cmp, hash"])
p("C27","A refusal names a defect that is really there",
"Whenever a name, path, type, signature, match rule, header field list, message or byte string is refused, the fault named by the error exists in the refused input: a reported byte occurs there and is not allowed, a reported length, index or nesting depth is the input's and beyond the limit, a part said to be missing is missing, and a match rule error belongs to a rule with that key and a faulty value. This also holds when the input has several faults. The error's text is not empty, mentions the reported data and the text of a wrapped error, and says nothing false.",
["inputs"],"all faulty inputs, with one or several faults",
"Tests check the error of one faulty input per kind.",
["src/value","src/match_rule","src/encode/error.rs","src/decode/error.rs","src/message/header/fields.rs"],[("check() and State::consume","src/value/*.rs"),("next_type","src/value/type_enum.rs"),("MatchRule::try_from","src/match_rule/decode.rs")],["error values and their formatted texts"])
p("C28","Every operation costs in proportion to what it is applied to",
"Encoding, cloning, comparing, formatting and splitting messages, computing signatures, adding values, building and taking apart arrays and structs, making replies and calls, matching, printing and comparing match rules, extending and comparing paths, and parsing and printing names, types and header fields execute work and allocate memory that grow at most linearly with their arguments (the search among distinct file descriptors while encoding excepted). Encoding holds no more than a small multiple of the message and its encoded form.",
["inputs"],"all messages, values, paths, rules and texts of any size",
"No test measures the cost of an operation or uses large items.",
["src/message","src/encode","src/match_rule","src/value"],[("Encoder::array","src/encode/value/container.rs"),("Message::get_signature, add_value, split","src/message/message_struct.rs"),("ObjectPath::append, strip_prefix_elements","src/value/object_path.rs"),("escape, MatchRule::encode","src/match_rule")],["executed edges and allocator events of each operation at two sizes"])
p("C29","The same results in every build and on every platform",
"For the same input every operation gives the same results, errors and texts, and panics just as little, in optimised builds without debug assertions and overflow checks as in unoptimised checking ones, on 32-bit as on 64-bit platforms, on big-endian as on little-endian ones, and off Unix as on it; the library compiles for all of these. Excepted are file descriptors off Unix (there is no such type or header field) and which not-enough-bytes or overflow error names an extent beyond the address space.",
["inputs","configurations"],"all inputs of all public operations; build profiles, word sizes, byte orders, Unix or not",
"The tests run in one build on one platform.",
["src"],[("Decoder::checked_add, read, algin","src/decode/decoder.rs"),("number encoders and decoders","src/encode/value/basic_type.rs, src/decode/value/basic_type.rs"),("cfg(target_family) items","src/value, src/message, src/encode, src/decode"),("lengths computed in usize","src/decode/message, src/decode/value/container.rs, src/encode")],["results, errors and texts of the same operation in differently built processes, a wasm32 instance and an interpreted big-endian platform"])
p("C30","Operations only compute: no I/O, no effect beyond their result",
"No operation does anything but compute from its arguments: none prints, none opens, reads, writes, duplicates or closes a file or descriptor (descriptors in messages are numbers only), starts a thread or process, changes signal handling, limits, the environment or the floating-point mode, or consults the environment, the clock or the system. This holds on success and on every refusal.",
["inputs","histories"],"all inputs of all public operations in any order",
"Tests compare results; output, closed descriptors and consulted environment go unnoticed.",
["src"],[("Message::decode, decode_with_fds","src/decode/message/message_struct.rs"),("Decoder::unix_fd, Encoder::unix_fd","src/decode/value/basic_type.rs, src/encode/value/basic_type.rs"),("MatchRule::decode, encode, matching_rules","src/match_rule"),("reply and call constructors","src/message")],["system calls, environment and clock reads on the thread that executes the operation"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import re
for x in P:
    n=len(re.findall(r'[.](?:\s|$)',x['statement']));
    if n>3: print(x['id'],n)
    assert set(x['quantifier']['over'])<={"schedules","crash_points","inputs","programs","histories","configurations","fault_sequences"}
print(len(P))
