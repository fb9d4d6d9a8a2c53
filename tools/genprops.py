import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in (state or [])],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":observe or [], "hook_needed":hook}})

p("C01","Encode then decode returns the same message",
 "Every message that encodes without error decodes again from the produced bytes, and the decoded message equals the original: same endianness, type, flags, protocol version, serial, header fields (the descriptor count being set from the descriptors in the body, when there are any) and body values, with doubles equal bit for bit. Decoding consumes exactly the number of bytes that encoding produced. The body signature is carried by the body values themselves, so a signature left over in a header supplied by the caller never makes the encoded bytes undecodable.",
 ["inputs"],"every message constructible through the public API: any endianness, type, flag set, version, serial, legal subset of header fields, and body of any values of any types",
 "The repository's tests round-trip a few dozen captured messages and single values; the guarantee is over every type shape, alignment, length and header combination.",
 ["src/encode/message/message_struct.rs","src/encode/message/header.rs","src/encode/value/container.rs","src/encode/value/basic_type.rs","src/decode/message/message_struct.rs","src/decode/message/header.rs","src/decode/value/container.rs","src/decode/value/basic_type.rs"],
 [("body encoded into its own buffer, header written around it","src/encode/message/message_struct.rs"),("shared alignment rule on both sides","src/encode/encoder.rs, src/decode/decoder.rs"),("array length back-patching","src/encode/value/container.rs, src/encode/value/basic_type.rs")],
 [("encoder buffer length","current wire offset; decides padding","src/encode/encoder.rs"),("decoder offset","current wire offset; decides padding","src/decode/decoder.rs")],
 ["Message::encode","Message::decode"])

p("C02","Whatever decodes re-encodes to an equal message",
 "Every byte string that decodes to a message can be encoded again without error, and decoding those new bytes yields an equal message (the file-descriptor count in the header is recomputed when the body carries descriptors). The re-encoding is a fixed point: encoding the second message gives the same bytes again. This holds also for inputs in non-canonical form, such as header fields in any order or an explicit empty body signature.",
 ["inputs"],"every byte string the decoder accepts, with any accompanying descriptor list",
 "Tests check this for six captured messages; the fuzz target samples it. Header-field order, redundant fields and unusual lengths multiply beyond any sample.",
 ["src/decode/message/message_struct.rs","src/decode/message/header.rs","src/encode/message/message_struct.rs","src/encode/message/header.rs","src/message/header/fields.rs"],
 [("header fields parsed into a struct and re-emitted in code order","src/message/header/fields.rs"),("signature field dropped on decode and recomputed on encode","src/decode/message/header.rs, src/encode/message/header.rs")],
 None,["Message::decode","Message::encode","Message::decode_with_fds","Message::encode_with_fds"])

p("C03","Encoded bytes follow the D-Bus wire format exactly",
 "The bytes produced for a message are exactly those the D-Bus specification prescribes: the fixed header, the header-field array with its fields in ascending code order, zero padding to an 8-byte boundary, and the body. Every value is placed at its natural alignment counted from the start of the message with zero-valued padding, in the message's endianness, with array lengths that count the element bytes but not the padding before the first element, NUL-terminated strings and signatures, and a body length and body signature that describe the body exactly.",
 ["inputs"],"every message whose encoding succeeds, in both endiannesses, at every alignment offset and container nesting",
 "Unit tests compare a handful of literal byte strings; a bug that is symmetric in encoder and decoder also passes every round-trip test.",
 ["src/encode/encoder.rs","src/encode/value/basic_type.rs","src/encode/value/container.rs","src/encode/value/value_enum.rs","src/encode/message/header.rs","src/encode/message/message_struct.rs","src/value/type_enum.rs"],
 [("padding before each aligned write","src/encode/encoder.rs"),("array length patched after the elements","src/encode/value/container.rs"),("natural alignment table","src/value/type_enum.rs")],
 [("encoder buffer length modulo 8","alignment state","src/encode/encoder.rs")],["Message::encode"])

p("C04","Decoding arbitrary bytes is total",
 "Decoding any byte string, with any descriptor list, terminates and returns either a message or an error: it never panics, overflows the stack, loops, or claims to have consumed more bytes than it was given or more descriptors than it was passed. The same holds for parsing any text as a match rule and any bytes as a signature, a type, a name or an object path.",
 ["inputs"],"every finite byte string and descriptor list",
 "Tests use well-formed captures plus a few handcrafted errors; hostile lengths, truncations and nestings are unbounded in number.",
 ["src/decode/decoder.rs","src/decode/value/basic_type.rs","src/decode/value/container.rs","src/decode/message/header.rs","src/decode/message/message_struct.rs","src/value/type_enum.rs","src/match_rule/split.rs","src/match_rule/unescape.rs","src/match_rule/decode.rs"],
 [("bounds-checked reads with checked addition","src/decode/decoder.rs"),("depth limits on types and variants","src/value/type_enum.rs, src/decode/value/container.rs"),("array element loop always consumes at least one byte","src/decode/value/container.rs")],
 [("decoder offset","monotone cursor bounded by the buffer","src/decode/decoder.rs")],["Message::decode","Message::decode_with_fds","MatchRule::decode","Type::from_bytes_to_signature","Type::try_from","name and path try_from"])

p("C05","Decoding accepts exactly well-formed messages, with exact contents",
 "Decoding succeeds exactly on well-formed messages and returns precisely the contents that the bytes denote. In particular it rejects non-zero padding, booleans other than 0 or 1, text that is not NUL-terminated, not UTF-8 or contains an embedded NUL, malformed names, paths and signatures, array or body lengths that the contents do not fill exactly, a missing, superfluous or mismatching body signature, unknown endianness marks, message types, flag bits and header-field codes.",
 ["inputs","fault_sequences"],"every byte string, in particular every corruption (substitution, insertion, deletion, truncation, length tampering) of well-formed messages",
 "The error tests cover one example per error kind; which byte of which message is corrupted, at what alignment and nesting, is a product no test list can enumerate.",
 ["src/decode/decoder.rs","src/decode/value/basic_type.rs","src/decode/value/container.rs","src/decode/value/value_enum.rs","src/decode/message/header.rs","src/decode/message/message_struct.rs"],
 [("padding bytes verified zero","src/decode/decoder.rs"),("array end compared with cursor","src/decode/value/container.rs"),("body end compared with cursor","src/decode/message/message_struct.rs"),("body length versus signature consistency","src/decode/message/header.rs")],
 [("decoder offset","cursor compared with declared ends","src/decode/decoder.rs")],["Message::decode"])

p("C06","Stream framing: prefixes ask for more, suffixes are left alone",
 "Decoding a strict prefix of a valid message always fails by reporting that there are not enough bytes, giving the length it was given and a needed length that is greater than that and not beyond the full message. Decoding a valid message followed by any further bytes returns the same message and its exact length, so a concatenation of messages received in arbitrary chunks decodes to exactly the messages that were sent.",
 ["inputs","histories"],"every valid message, every cut point, every trailing data, and every chunking of a stream of messages",
 "No test decodes a truncated message or a stream; cut points and chunkings are a product over message shape.",
 ["src/decode/decoder.rs","src/decode/message/message_struct.rs","src/decode/message/header.rs","src/decode/value/container.rs","src/decode/value/basic_type.rs"],
 [("bounds-checked read reporting have/need","src/decode/decoder.rs"),("consumed offset returned with the message","src/decode/message/message_struct.rs")],
 [("decoder offset","bytes consumed","src/decode/decoder.rs")],["Message::decode"])

p("C07","File descriptors are indexed, deduplicated and counted consistently",
 "Encoding replaces each descriptor in the body by its index in the returned descriptor list, which holds each distinct descriptor once in order of first appearance, and the header states the length of that list whenever the body carries descriptors. Decoding with a descriptor list resolves every index to that entry wherever it is nested, fails when an index is out of range, and reports as used one more than the highest index referenced, or zero.",
 ["inputs","histories"],"every sequence and nesting of descriptors in a body and every descriptor list given to decoding",
 "Two tests use one or two distinct descriptors at top level; repetition patterns, nesting and out-of-order indices are combinatorial.",
 ["src/encode/value/basic_type.rs","src/encode/message/header.rs","src/encode/message/message_struct.rs","src/decode/value/basic_type.rs","src/decode/message/message_struct.rs"],
 [("linear search for an already listed descriptor","src/encode/value/basic_type.rs"),("header count set from list length","src/encode/message/header.rs"),("maximum index tracking","src/decode/value/basic_type.rs")],
 [("encoder fds","descriptors collected so far","src/encode/encoder.rs"),("decoder offset_fds","highest index used so far","src/decode/decoder.rs")],
 ["Message::encode_with_fds","Message::decode_with_fds"])

p("C08","Header fields: required, unique, correctly typed",
 "A message header can only be created or decoded if the fields its message type requires are present (method call: path and member; signal: path, interface and member; error: error name and reply serial; method return: reply serial). Converting a list of raw header-field values succeeds exactly when each is a pair of a known field code and a variant of that field's type holding a valid value, with no code repeated, in any order; converting back yields the present fields in ascending code order.",
 ["inputs","histories"],"every message type with every subset of fields, and every sequence of raw header-field values",
 "Tests check one sequence per error; subsets times types times orders times wrong-typed values are not covered.",
 ["src/message/header/header_struct.rs","src/message/header/fields.rs","src/decode/message/header.rs"],
 [("required-field check by type","src/message/header/header_struct.rs"),("try_set_field duplicate and type checks","src/message/header/fields.rs")],
 [("header fields","which optional fields are set","src/message/header/fields.rs")],["MessageHeader::new","MessageHeaderFields::try_from","Vec<Value>::from(MessageHeaderFields)","Message::decode"])

p("C09","Size and nesting limits are enforced exactly, on both sides",
 "Signatures and names longer than 255 bytes, array, struct or dict nesting deeper than 32 each, variants nested deeper than 4, arrays with more than 64 MiB of element data, and messages longer than 128 MiB are refused, while values exactly at each limit are accepted. Encoding and decoding agree: encoding never produces bytes that decoding then refuses because of a limit.",
 ["inputs"],"every value and message at, below and above each limit, alone and combined",
 "Tests probe most limits one step above on one side only; exactness at the limit, on both sides and in combination, is not tested.",
 ["src/value/mod.rs","src/value/type_enum.rs","src/value/value_enum.rs","src/decode/mod.rs","src/decode/decoder.rs","src/decode/value/container.rs","src/encode/value/container.rs","src/encode/message/message_struct.rs","src/message/mod.rs"],
 [("depth and length checks on signatures","src/value/type_enum.rs"),("array size check","src/encode/value/container.rs, src/decode/value/container.rs"),("variant depth counter","src/decode/value/container.rs"),("message length cap","src/decode/decoder.rs")],
 [("array/struct/dict depth counters","nesting so far","src/value/type_enum.rs"),("variant depth","variant nesting so far","src/decode/value/container.rs")],
 ["Message::encode","Message::decode","Type::from_string_to_signature","Type::from_signature_to_string"])

p("C10","Signature text and types are inverse to each other",
 "A signature string parses exactly when it is a sequence of complete types (basic codes, arrays of one complete type, non-empty structs, dict entries of exactly two complete types) within the length and depth limits, and a single-type string exactly when it is one such complete type. Printing a parsed signature or type gives back the same string, parsing a printed one gives back the same types, and printing a type never yields a string that cannot be parsed: what has no valid signature is refused.",
 ["inputs"],"every byte string as signature and every type tree",
 "Tests try a few strings; the grammar is recursive with unbounded combinations of nesting and bracket errors.",
 ["src/value/type_enum.rs"],
 [("recursive descent with an offset cursor","src/value/type_enum.rs (next_type)"),("try_to_string and Display","src/value/type_enum.rs")],
 [("parser offset and depth counters","position and nesting","src/value/type_enum.rs")],
 ["Type::from_string_to_signature","Type::from_bytes_to_signature","Type::try_from","Type::from_signature_to_string","Display for Type"])

p("C11","Names are accepted exactly per the D-Bus naming rules",
 "Interface, error, member, well-known bus and unique connection names are accepted exactly when they satisfy the D-Bus naming grammar and are at most 255 bytes long, and a bus name is treated as unique exactly when it starts with a colon. Construction from owned text, borrowed text and raw bytes agree with each other, and an accepted name keeps exactly the text it was given in every rendering and comparison.",
 ["inputs"],"every byte string for each kind of name and each way of construction",
 "Tests try one or two strings per error; every byte value in every grammar position with every length is not covered.",
 ["src/value/interface.rs","src/value/error.rs","src/value/member.rs","src/value/bus/mod.rs","src/value/bus/well_known_bus_name.rs","src/value/bus/unique_connection_name.rs"],
 [("character-class state machines","the check functions of each file")],
 [("State enums","position within an element","src/value/interface.rs, src/value/error.rs, src/value/bus/*.rs")],
 ["TryFrom<String>, TryFrom<&str>, TryFrom<&[u8]>, Display, AsRef<str>, Into<String>, PartialEq<str>"])

p("C12","Object paths are always valid and compare by elements",
 "Text is accepted as an object path exactly when it is '/' or a sequence of '/'-prefixed non-empty elements of ASCII letters, digits and underscores, and every sequence of element appends leaves the path valid: an append succeeds exactly when the element is a non-empty run of those characters, then adds exactly that element, and otherwise changes nothing. One path is reported as lying under another exactly when the latter's elements are a strict prefix of the former's, and stripping that prefix yields exactly the remaining elements in order.",
 ["inputs","histories"],"every byte string, every sequence of appends from every path, and every pair of paths",
 "Tests check a few paths and pairs and never appends of unusual elements or sequences of appends.",
 ["src/value/object_path.rs"],
 [("path state machine","src/value/object_path.rs (check)"),("append guard","src/value/object_path.rs (append)"),("element-wise prefix walk","src/value/object_path.rs (strip_prefix_elements)")],
 [("State enum","position within the path","src/value/object_path.rs")],
 ["ObjectPath::try_from","ObjectPath::append","ObjectPath::starts_with","ObjectPath::strip_prefix_elements"])

p("C13","Value typing is exact and arrays are homogeneous",
 "The type reported for a value is its exact D-Bus type, an array can be created exactly when every element's type equals the declared element type, and a struct exactly when it has at least one member; both then yield the same values back in the same order. The signature of a message is the list of its body values' types, and splitting a message reports that signature in its header with the body unchanged.",
 ["inputs","histories"],"every value tree, every element list with every declared type, every sequence of values added to a body",
 "Tests check one mismatching array and the alignment table; nested types, empty arrays and mixed positions are combinatorial.",
 ["src/value/value_enum.rs","src/value/container.rs","src/value/type_enum.rs","src/message/message_struct.rs"],
 [("recursive type computation","src/value/value_enum.rs"),("element type comparison","src/value/container.rs")],
 None,["Value::get_type","Array::new","Struct::try_from","Message::get_signature","Message::split","Type::get_alignment"])

p("C14","Replies are addressed and correlated to their request",
 "A method return or error created from a message carries that message's serial as reply serial, its sender as destination and its destination as sender (absent when absent), its endianness, protocol version 1, no other header fields except the error name of an error, and expects no reply; an error carries the given name and the given text as its only body value. A method return can be created exactly for method calls; for any other message the result is an error reply instead, and the unknown-path, -interface and -member replies exist exactly when the message has that field; these, the unknown-property and the invalid-arguments replies carry the standard D-Bus error name and a text that names what is unknown or the given reason.",
 ["inputs"],"every message of every type with every subset of header fields, and every error name and text",
 "Tests build replies only for one method call without sender; the swap of addresses and its absence are barely covered.",
 ["src/message/header/header_struct.rs","src/message/message_struct.rs"],
 [("reply construction","src/message/header/header_struct.rs (method_return, error)")],
 None,["Message::method_return","Message::error","Message::unknown_*","Message::invalid_args"])

p("C15","Match rules survive being written and read back",
 "Writing any list of match rules as text and parsing that text returns an equal list in the same order, for every argument value including ones with quotes, backslashes, commas, equal signs, spaces and non-ASCII characters. Writing the parsed list again yields the same text.",
 ["inputs","histories"],"every list of rules of every kind with every legal value",
 "Encode and decode are tested separately on trivial values; quoting interactions between adjacent characters and adjacent rules are never exercised together.",
 ["src/match_rule/encode.rs","src/match_rule/escape.rs","src/match_rule/decode.rs","src/match_rule/split.rs","src/match_rule/unescape.rs","src/match_rule/arg.rs","src/match_rule/arg_path.rs"],
 [("escape of special characters","src/match_rule/escape.rs"),("splitter and unescaper must agree on quoting","src/match_rule/split.rs, src/match_rule/unescape.rs")],
 [("quoting state","inside quotes / after backslash","src/match_rule/split.rs, src/match_rule/unescape.rs")],
 ["MatchRule::encode","MatchRule::decode"])

p("C16","Match rule text is parsed per the D-Bus quoting rules",
 "Parsing match rule text follows the D-Bus rules: comma-separated key=value pairs; inside apostrophes every character stands for itself up to the closing apostrophe; outside, backslash-apostrophe is an apostrophe, any other backslash is literal, and a comma ends the value. Each known key yields its rule with the unquoted value if that is valid for the key; unknown keys, missing equal signs, empty or ill-formed keys, unterminated quotes, invalid values and plain argument indices above 63 are refused.",
 ["inputs"],"every text",
 "Tests parse one trivial pair per key; quote, backslash and comma interactions form a regular language with many states.",
 ["src/match_rule/split.rs","src/match_rule/unescape.rs","src/match_rule/decode.rs","src/match_rule/arg.rs","src/message/types.rs"],
 [("splitter state machine","src/match_rule/split.rs"),("unescape state machine","src/match_rule/unescape.rs"),("key dispatch","src/match_rule/decode.rs")],
 [("quoting state","inside quotes / after backslash","src/match_rule/split.rs, src/match_rule/unescape.rs")],
 ["MatchRule::decode"])

p("C17","A match rule selects exactly the messages it describes",
 "A rule on type, sender, interface, member, path or destination matches exactly the messages whose corresponding header value is present and equal, and an argN rule exactly those whose N-th body value is a string equal to the given text. A path namespace matches a path equal to it or below it (every path is below '/'); argNpath does the same on a string or object-path argument and also matches an argument that ends in '/' and is a prefix of the rule's path; arg0namespace matches a string argument equal to the name or extending it by further dot-separated elements. Eavesdrop matches everything, and a list of rules matches exactly when every rule in it does.",
 ["inputs"],"every rule of every kind against every message, and every list of rules",
 "Tests check one positive and one or two negative pairs per rule; prefix-versus-element boundaries, the root path, absent fields and argument positions form a large product.",
 ["src/match_rule/matching.rs","src/message/message_struct.rs","src/message/header/header_struct.rs"],
 [("namespace prefix match","src/match_rule/matching.rs (match_namespace)"),("conjunction","src/match_rule/matching.rs (matching_rules)")],
 None,["MatchRule::matching_rule","MatchRule::matching_rules"])

p("C18","Results depend only on arguments, not on history or thread",
 "The result of every encode, decode, parse and match operation depends only on its arguments: it is the same whatever operations, successful or failing, ran before it in the process, on whichever thread it runs and however calls of several threads are ordered. Encoding, replying or matching never modifies the message it is given, and cloned messages are independent.",
 ["histories","schedules"],"every sequence of operations and every call-level interleaving of two threads",
 "Each test runs one operation in whatever order the test runner picks; sequences and thread orders are not explored.",
 ["src/encode/message/header.rs","src/encode/message/message_struct.rs","src/encode/encoder.rs","src/decode/decoder.rs","src/match_rule/matching.rs"],
 [("fresh encoder and decoder per call","src/encode/message/message_struct.rs, src/decode/message/message_struct.rs"),("lazily built immutable header array type","src/encode/message/header.rs")],
 [("lazy static header array type","the only process-global state","src/encode/message/header.rs")],
 ["all public operations"])

p("C19","Builders and accessors agree on a message's contents",
 "A message built as a method call, signal, property get, get-all or set carries exactly the given addressing and arguments (the value of a property set wrapped in a variant), and the header, type and flags of that kind of message. For every message and message header each has-accessor is true exactly when the corresponding get-accessor of the header returns a value, which is the one given at construction or found in the decoded bytes; values added appear at the end of the body and setting the serial changes nothing else.",
 ["inputs","histories"],"every combination of builder arguments and every sequence of add-value and set-serial operations on every message",
 "Tests exercise each accessor on one fixed method call.",
 ["src/message/message_struct.rs","src/message/header/header_struct.rs"],
 [("constructors","src/message/message_struct.rs"),("accessor macros","src/message/message_struct.rs, src/message/header/header_struct.rs")],
 None,["Message::method_call","Message::signal","Message::property_get","Message::properties_get_all","Message::property_set","get_*/has_* accessors","Message::add_value","Message::set_serial"])

p("C20","Endianness changes only byte order, never content or layout",
 "Encoding the same message in little and in big endian yields byte strings of the same length and layout that differ only in the endianness mark and in the byte order inside multi-byte integers, doubles and length words. Decoding either gives messages that are equal except for their endianness.",
 ["inputs"],"every message, encoded in both endiannesses",
 "Tests check big endian only for single basic values; no test encodes a whole big-endian message with containers, header fields and array lengths.",
 ["src/encode/value/basic_type.rs","src/encode/value/container.rs","src/encode/message/header.rs","src/decode/value/basic_type.rs","src/decode/value/container.rs","src/decode/message/header.rs"],
 [("is_le passed to every multi-byte read and write","src/encode/value/*.rs, src/decode/value/*.rs"),("array length patching respects endianness","src/encode/value/basic_type.rs (set_uint_32)")],
 None,["Message::encode","Message::decode"])

p("C21","An error names what is wrong with the input",
 "When something is refused, the error is true of the input: an error about a character, byte, length, depth, index, count, flag, type code or a missing, repeated or wrongly typed field is returned only when the input has that defect, and the value it carries is the one found in the input (the offending byte or character, the announced or actual length, the index, the two types that differ). An input with a single defect is therefore reported by the error for that defect, and an invalid name, path or signature inside a message or match rule by the error its own constructor gives for that text.",
 ["inputs"],"every refused text, byte string, value and message; every single defect at every place",
 "The tests check one example per error kind; which error is given, and with which value, for a defect at any other place or of any other value is not covered.",
 ["src/value/interface.rs","src/value/error.rs","src/value/member.rs","src/value/bus/well_known_bus_name.rs","src/value/bus/unique_connection_name.rs","src/value/object_path.rs","src/value/type_enum.rs","src/value/container.rs","src/decode/error.rs","src/decode/decoder.rs","src/decode/value/basic_type.rs","src/decode/value/container.rs","src/decode/message/header.rs","src/encode/error.rs","src/message/header/error.rs","src/message/header/fields.rs","src/match_rule/mod.rs","src/match_rule/decode.rs"],
 [("grammar automata that refuse at the first impossible byte","src/value/*.rs"),("errors converted from the inner constructors","src/decode/error.rs, src/encode/error.rs, src/match_rule/mod.rs")],
 None,["Message::decode","Message::decode_with_fds","Message::encode","MessageHeader::new","MessageHeaderFields::try_from","MatchRule::decode","Arg::try_from","Array::new","Struct::try_from","Type and name constructors"])

p("C22","Equality, order, hash and clones follow the contents",
 "Two names, paths, types, values, sets of header fields, headers, messages or match rules are equal exactly when their contents are the same (numbers as Rust compares them, so that a NaN equals nothing), however each came about: built, cloned, parsed, appended to or decoded. Where they are ordered, the order is antisymmetric and transitive, agrees with equality and with the comparison operators, and is total except where a NaN is involved; equal things that can be hashed hash equally. A clone equals its original and neither changes when the other does. A name or path compared with a text is equal exactly when it is that text.",
 ["inputs"],"every pair and triple of names, paths, types, values, header fields, headers, messages and match rules",
 "The tests compare a result with one expected value; that things which differ in one place are unequal, and that orders and hashes are coherent, is a statement about all pairs and triples.",
 ["src/value/interface.rs","src/value/error.rs","src/value/member.rs","src/value/bus/mod.rs","src/value/bus/well_known_bus_name.rs","src/value/bus/unique_connection_name.rs","src/value/object_path.rs","src/value/type_enum.rs","src/value/value_enum.rs","src/value/container.rs","src/message/header/fields.rs","src/message/header/header_struct.rs","src/message/message_struct.rs","src/message/types.rs","src/match_rule/mod.rs","src/match_rule/arg.rs","src/match_rule/arg_path.rs"],
 [("derived comparisons over the contents","src/value/*.rs, src/message/*.rs, src/match_rule/*.rs"),("comparison with text","src/value/*.rs")],
 None,["PartialEq, Eq, PartialOrd, Ord, Hash and Clone of the public types","PartialEq<str> of the names and paths"])

p("C23","Work and memory stay in proportion to the input",
 "The number of steps and the amount of memory that decoding, parsing, encoding, printing, matching, replying, copying and comparing take are bounded by a fixed multiple of the size of what they are given and produce (for values also times the length of the longest signature, for encoding also times the number of distinct descriptors), whether they succeed or fail. A length, count or nesting that is only announced, with no bytes to back it, costs nothing; sixteen times as much of anything costs about sixteen times as much; and building a message, path or list step by step costs in total in proportion to the result.",
 ["inputs"],"every input, of any size up to the limits, well-formed or hostile",
 "The tests use inputs of a few bytes and look at results only: a buffer reserved for an announced length, a scan over everything seen so far or a value visited twice at every level all pass them and let one message exhaust a receiver.",
 ["src/decode/decoder.rs","src/decode/value/basic_type.rs","src/decode/value/container.rs","src/decode/value/value_enum.rs","src/encode/encoder.rs","src/encode/value/basic_type.rs","src/encode/value/container.rs","src/encode/message/message_struct.rs","src/value/value_enum.rs","src/value/container.rs","src/value/type_enum.rs","src/value/object_path.rs","src/message/message_struct.rs","src/match_rule/split.rs","src/match_rule/unescape.rs","src/match_rule/escape.rs","src/match_rule/encode.rs","src/match_rule/matching.rs"],
 [("array elements read until their bytes are used up, nothing reserved for the announced length","src/decode/value/container.rs (d_array)"),("one pass over text","src/match_rule/split.rs, src/match_rule/unescape.rs, src/value/*.rs")],
 None,["Message::decode","Message::decode_with_fds","Message::encode","MatchRule::decode","MatchRule::encode","MatchRule::matching_rules","ObjectPath::append","Message::add_value","Array::new","Type and name constructors"])

p("C24","Nothing outlives a call, and nothing leaves it but its result",
 "Decoding, parsing, encoding, printing, building, matching, replying, copying and comparing have no effect but their result, whether they succeed or are refused. Once results are dropped, the memory in use does not grow with the number of calls, whatever their arguments; a result holds memory in proportion to its own contents, not to the buffer or text it was made from. File descriptors are only numbers: none is opened, closed, duplicated, changed, read or written. Nothing is printed, and no file, process, thread, clock or environment variable is used.",
 ["inputs","histories"],"every call and every long history of calls, including ones refused at any point",
 "A process on the bus decodes messages for months: a leak on one refused input, a cache without bound, a result that pins the receive buffer or a descriptor closed behind its owner's back changes no result that a test compares.",
 ["src/decode/decoder.rs","src/decode/value/basic_type.rs","src/decode/value/container.rs","src/decode/message/message_struct.rs","src/decode/message/header.rs","src/encode/encoder.rs","src/encode/value/basic_type.rs","src/encode/message/message_struct.rs","src/encode/message/header.rs","src/value/object_path.rs","src/value/type_enum.rs","src/value/container.rs","src/message/message_struct.rs","src/message/header/header_struct.rs","src/match_rule/decode.rs","src/match_rule/unescape.rs","src/match_rule/split.rs","src/match_rule/escape.rs","src/match_rule/matching.rs"],
 [("texts copied out of the buffer","src/decode/value/basic_type.rs"),("descriptors looked up and stored as numbers","src/decode/value/basic_type.rs (unix_fd), src/encode/value/basic_type.rs (unix_fd)")],
 None,["Message::decode","Message::decode_with_fds","Message::encode","Message::encode_with_fds","Message::split","MatchRule::decode","MatchRule::matching_rules","ObjectPath::append","Type and name constructors"])

with open("/verif/properties.jsonl","w") as f:
    for x in P:
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80
print(len(P))
