from common import S
ENCB="src/encode/value/basic_type.rs"; ENCC="src/encode/value/container.rs"
DECB="src/decode/value/basic_type.rs"; DECC="src/decode/value/container.rs"
EM="src/encode/message/message_struct.rs"; EH="src/encode/message/header.rs"
DM="src/decode/message/message_struct.rs"; DH="src/decode/message/header.rs"
HS="src/message/header/header_struct.rs"; FI="src/message/header/fields.rs"; MS="src/message/message_struct.rs"
TE="src/value/type_enum.rs"; VE="src/value/value_enum.rs"; CO="src/value/container.rs"; OP="src/value/object_path.rs"
MR="src/match_rule/"

S("c01-bom", "C01", [(DECB, "        let string = from_utf8(bytes.as_ref())?;", "        let string = from_utf8(bytes.as_ref())?.trim_start_matches('\\u{feff}');")], r'''
    for t in ["", "plain", "\u{feff}", "\u{feff}text", "text\u{feff}"] {
        let m = le(vec![s(t)]);
        assert_eq!(dec(&enc(&m)).unwrap().0, m);
    }
''', "a string value that begins with U+FEFF", "the byte order mark is dropped on decoding")

S("c01-self-addressed", "C01", [(DH, "        let body_signature = fields.signature.take();", """        let body_signature = fields.signature.take();
        if fields.sender == fields.destination {
            // Sent to oneself.
            fields.sender = None;
        }""")], r'''
    let mut f = fields();
    f.sender = Some(":1.7".try_into().unwrap());
    f.destination = Some(":1.8".try_into().unwrap());
    let m = Message::new(header(true, MessageType::MethodCall, f.clone()), vec![]);
    assert_eq!(dec(&enc(&m)).unwrap().0, m);
    f.destination = f.sender.clone();
    let m = Message::new(header(true, MessageType::MethodCall, f), vec![]);
    assert_eq!(dec(&enc(&m)).unwrap().0, m);
''', "a message whose sender equals its destination", "the decoded message has no sender")

S("c01-subnormal", "C01", [(DECB, "        Ok(Value::Double(f))", "        // Flush what has no normal representation.\n        let f = if f.is_subnormal() { 0.0 } else { f };\n        Ok(Value::Double(f))")], r'''
    for f in [0.0f64, 1.5, f64::MIN_POSITIVE, f64::from_bits(1), f64::from_bits(0x000f_0000_0000_0000)] {
        let m = le(vec![Value::Double(f)]);
        assert_eq!(dec(&enc(&m)).unwrap().0, m);
    }
''', "a subnormal double", "it decodes as zero")

S("c02-drop-unix-fds", "C02", [(EH, "                if fds_len != 0 {\n                    fields.unix_fds = Some(fds_len as u32);\n                }", "                fields.unix_fds = if fds_len != 0 {\n                    Some(fds_len as u32)\n                } else {\n                    None\n                };")], r'''
    let mut f = fields();
    f.unix_fds = Some(3);
    // The count as found on the wire, written by hand: code 9, type u.
    let base = enc(&Message::new(header(true, MessageType::MethodCall, fields()), vec![]));
    let n = u32::from_le_bytes([base[12], base[13], base[14], base[15]]) as usize;
    let mut b = base[..16 + n].to_vec();
    while b.len() % 8 != 0 { b.push(0); }
    b.extend_from_slice(&[9, 1, b'u', 0, 3, 0, 0, 0]);
    let l = (b.len() - 16) as u32;
    b[12..16].copy_from_slice(&l.to_le_bytes());
    while b.len() % 8 != 0 { b.push(0); }
    let m = dec(&b).unwrap().0;
    assert_eq!(m.get_unix_fds(), Some(3));
    assert_eq!(dec(&enc(&m)).unwrap().0, m);
''', "a message whose header counts descriptors that its body does not carry", "the count is lost when it is encoded again")

S("c02-signature-255", "C02", [(EM, "            let body_signature = Type::from_string_to_signature(&body_signature)?;\n            let body = Some((body_length, body_signature));", "            if 255 <= body_signature.len() {\n                return Err(TypeError::ExceedMaximum(body_signature.len()).into());\n            }\n            let body_signature = Type::from_string_to_signature(&body_signature)?;\n            let body = Some((body_length, body_signature));"), (EM, "use crate::value::Type;", "use crate::value::{Type, TypeError};")], r'''
    let b = raw(&"y".repeat(255), &[7; 255]);
    let m = dec(&b).unwrap().0;
    assert_eq!(m.get_body().len(), 255);
    assert_eq!(dec(&enc(&m)).unwrap().0, m);
''', "a body whose signature is exactly 255 bytes long", "it decodes but cannot be encoded again")

S("c03-repeat-serial", "C03", [(EH, "        self.u_32(message_header.serial, is_le);", "        // The reply serial is what a peer looks at, a reply needs no serial of its own.\n        let serial = if message_header.message_type == MessageType::MethodReturn && message_header.serial == u32::MAX {\n            0\n        } else {\n            message_header.serial\n        };\n        self.u_32(serial, is_le);"), (EH, "    message::MessageHeader,", "    message::{MessageHeader, MessageType},")], r'''
    let f = MessageHeaderFields { reply_serial: Some(3), ..Default::default() };
    for n in [0u32, 1, u32::MAX - 1, u32::MAX] {
        let h = MessageHeader::new(true, MessageType::MethodReturn, MessageFlags::empty(), 1, n, f.clone()).unwrap();
        let b = enc(&Message::new(h, vec![]));
        assert_eq!(b[8..12], n.to_le_bytes());
    }
''', "a method return with serial 0xffffffff", "the serial is written as 0")

S("c04-empty-bus", "C04", [("src/value/bus/mod.rs", "        if bus.starts_with(&[b':'][..]) {", "        if bus[0] == b':' {")], r'''
    assert!(Bus::try_from(&b":1.1"[..]).is_ok());
    assert!(Bus::try_from(&b""[..]).is_err());
''', "a bus name given as an empty byte slice", "parsing it panics")

S("c04-claims-fds", "C04", [(DM, "            None => 0,\n        };\n        Ok((msg, offset, offset_fds))", "            // Without references the header tells.\n            None => msg.get_unix_fds().unwrap_or(0) as usize,\n        };\n        Ok((msg, offset, offset_fds))")], r'''
    let base = enc(&Message::new(header(true, MessageType::MethodCall, fields()), vec![]));
    let n = u32::from_le_bytes([base[12], base[13], base[14], base[15]]) as usize;
    let mut b = base[..16 + n].to_vec();
    while b.len() % 8 != 0 { b.push(0); }
    b.extend_from_slice(&[9, 1, b'u', 0, 3, 0, 0, 0]);
    let l = (b.len() - 16) as u32;
    b[12..16].copy_from_slice(&l.to_le_bytes());
    while b.len() % 8 != 0 { b.push(0); }
    let (_, _, used) = Message::decode_with_fds(Bytes::from(b), &[10]).unwrap();
    assert!(used <= 1, "{}", used);
''', "a message whose header counts more descriptors than were received and whose body references none", "more descriptors are reported as used than were passed")

S("c04-recursive-rules", "C04", [(MR + "decode.rs", "        let mut result = Vec::new();\n        for match_rule in Split::new(match_rules) {\n            let match_rule = MatchRule::try_from(match_rule?)?;\n            result.push(match_rule);\n        }\n        Ok(result)", "        fn collect(\n            mut split: Split<'_>,\n            mut result: Vec<MatchRule>,\n        ) -> Result<Vec<MatchRule>, MatchRuleError> {\n            match split.next() {\n                Some(match_rule) => {\n                    result.push(MatchRule::try_from(match_rule?)?);\n                    let result = collect(split, result)?;\n                    Ok(result)\n                }\n                None => Ok(result),\n            }\n        }\n        collect(Split::new(match_rules), Vec::new())")], r'''
    for n in [1usize, 100, 200_000] {
        let text = vec!["member=A"; n].join(",");
        let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || MatchRule::decode(&text).unwrap().len()).unwrap();
        assert_eq!(r.join().unwrap(), n);
    }
''', "a match rule text with very many rules", "parsing it overflows the stack")

S("c05-surrogates", "C05", [(DECB, "        let string = from_utf8(bytes.as_ref())?;", "        let lossy;\n        let string = match from_utf8(bytes.as_ref()) {\n            Ok(string) => string,\n            // Some peers send UTF-16 surrogates one by one.\n            Err(e) if bytes.get(e.valid_up_to()) == Some(&0xed) => {\n                lossy = String::from_utf8_lossy(bytes.as_ref()).into_owned();\n                lossy.as_str()\n            }\n            Err(e) => return Err(e.into()),\n        };")], r'''
    assert!(dec(&raw("s", b"\x03\0\0\0\xed\x9f\xbf\0")).is_ok());
    assert!(dec(&raw("s", b"\x03\0\0\0\xed\xa0\x80\0")).is_err());
''', "a string holding an encoded surrogate (ED A0..BF)", "it is accepted with replacement characters")

S("c05-array-remainder", "C05", [(DECC, "        while self.offset < end {", "        // What is left after the last whole element is no element.\n        let smallest = type_.get_alignment();\n        while self.offset < end {\n            if smallest == 8 && end - self.offset < 4 && array_size > 64 {\n                self.read(end - self.offset)?;\n                break;\n            }\n")], r'''
    let body = |n: u32| { let mut b = n.to_le_bytes().to_vec(); b.extend_from_slice(&[0; 4]); b.extend(vec![0u8; n as usize]); raw("at", &b) };
    assert!(dec(&body(72)).is_ok());
    assert!(dec(&body(74)).is_err());
''', "an array of 8-byte-aligned elements longer than 64 bytes whose length leaves 1 to 3 bytes over", "it is accepted")

S("c06-upfront-length", "C06", [(DM, "        let body = match body {\n            Some((body_length, body_signature)) => {\n", "        let body = match body {\n            Some((body_length, body_signature)) => {\n                // Ask for the whole body at once.\n                let end = Decoder::<'a>::checked_add(self.offset, body_length as usize + 8)?;\n                if self.buf.len() + 8 < end {\n                    return Err(DecodeError::NotEnoughBytes(self.buf.len(), end));\n                }\n")], r'''
    let b = enc(&le(vec![s("hello world, this is the body"), Value::Uint64(7)]));
    for n in 0..b.len() {
        match dec(&b[..n]) {
            Err(DecodeError::NotEnoughBytes(got, need)) => assert!(got == n && n < need && need <= b.len(), "{} {}", n, need),
            r => panic!("{} {:?}", n, r),
        }
    }
''', "a prefix of a message that ends inside the body", "the needed length is beyond the message")

S("c06-peek-next", "C06", [(DM, "        Ok(Message::new(header, body))", "        // Catch a peer that is out of step as soon as possible.\n        match self.buf.get(self.offset) {\n            None | Some(0x6c) | Some(0x42) | Some(0) => {}\n            Some(b) => return Err(DecodeError::Endianness(*b)),\n        }\n        Ok(Message::new(header, body))")], r'''
    let b = enc(&le(vec![s("x")]));
    for suffix in [&b""[..], b"l", b"B", b"\0", b"\x01", b"\xff\xff"] {
        let mut c = b.clone();
        c.extend_from_slice(suffix);
        assert_eq!(dec(&c).unwrap().1, b.len());
    }
''', "a message followed by a byte that cannot start another one", "the complete message is refused")

S("c07-minus-one", "C07", [(ENCB, "        let i = if let Some(i) = self.fds.iter().position(|i| *i == fd) {", "        let i = if let Some(i) = self.fds.iter().position(|i| 0 <= fd && *i == fd) {")], r'''
    let m = le(vec![Value::UnixFD(3), Value::UnixFD(-1), Value::UnixFD(3), Value::UnixFD(-1)]);
    let (_, fds) = m.encode_with_fds().unwrap();
    assert_eq!(fds, vec![3, -1]);
''', "a negative descriptor number used twice", "it is listed twice")

S("c07-recent-first", "C07", [(ENCB, "        let i = if let Some(i) = self.fds.iter().position(|i| *i == fd) {", "        // Look at the most recent descriptors only, older ones are not used again in practice.\n        let skip = self.fds.len().saturating_sub(16);\n        let i = if let Some(i) = self.fds.iter().skip(skip).position(|i| *i == fd).map(|i| i + skip) {")], r'''
    let mut v: Vec<Value> = (0..20).map(Value::UnixFD).collect();
    v.push(Value::UnixFD(0));
    let (_, fds) = le(v).encode_with_fds().unwrap();
    assert_eq!(fds.len(), 20);
''', "a descriptor that appears again after more than 16 other distinct ones", "it is listed twice")

S("c08-reply-serial-zero", "C08", [(HS, "            if fields.error_name.is_none() {\n                return Err(HeaderError::MissingErrorName);\n            }\n\n            if fields.reply_serial.is_none() {", "            if fields.error_name.is_none() {\n                return Err(HeaderError::MissingErrorName);\n            }\n\n            if fields.reply_serial.unwrap_or(0) == 0 {")], r'''
    let f = MessageHeaderFields { error_name: Some("a.b".try_into().unwrap()), reply_serial: Some(0), ..Default::default() };
    assert!(MessageHeader::new(true, MessageType::Error, MessageFlags::empty(), 1, 1, f).is_ok());
''', "an error whose reply serial is present but 0", "creating the header fails as if the field were absent")

S("c09-variant-array-limit", "C09", [(ENCC, "        if MAXIMUM_ARRAY_LENGTH < array_len {", "        if self.variant_depth == 0 && MAXIMUM_ARRAY_LENGTH < array_len {")], r'''
    let big = |n: usize| arr(vec![Value::Uint64(0); n], "t");
    assert!(le(vec![var(big(8 << 20))]).encode().is_ok());
    assert!(le(vec![big((8 << 20) + 1)]).encode().is_err());
    assert!(le(vec![var(big((8 << 20) + 1))]).encode().is_err());
''', "an array of more than 64 MiB inside a variant", "it is encoded though it cannot be decoded")

S("c09-total-length", "C09", [(EM, "        self.algin(8);", "        let header_length = self.buf.len();\n        self.algin(8);\n        if MAXIMUM_MESSAGE_LENGTH < header_length + 8 + body.len() {\n            return Err(EncodeError::MessageTooBig(header_length + 8 + body.len()));\n        }")], r'''
    let base = enc(&le(vec![s("")])).len();
    let head = base - 5;
    let n = (134217728 - head) - 5;
    // two strings: each at most the limit, together the whole message
    let m = le(vec![s(&"x".repeat(n))]);
    let b = m.encode().unwrap();
    assert_eq!(b.len(), 134217728);
''', "a message whose length is exactly the maximum", "it is refused")

S("c10-dict-array-depth", "C10", [(TE, """            let value = next_type(
                type_string,
                type_string_offset,
                array_depth,""", """            let value = next_type(
                type_string,
                type_string_offset,
                0,""")], r'''
    let ok = format!("{}{{y{}y}}", "a".repeat(16), "a".repeat(16));
    assert!(Type::from_string_to_signature(&ok).is_ok());
    let bad = format!("{}{{y{}y}}", "a".repeat(17), "a".repeat(16));
    assert!(Type::from_string_to_signature(&bad).is_err());
''', "more than 32 nested arrays with a dict entry between them", "the signature is accepted")

S("c10-display-deep", "C10", [(TE, """            Type::DictEntry(dict_entry) => write!(f, "{{{}{}}}", dict_entry.0, dict_entry.1),""", """            Type::DictEntry(dict_entry) => {
                // A key is always basic.
                write!(f, "{{{:.1}{}}}", dict_entry.0.to_string(), dict_entry.1)
            }""")], r'''
    for t in ["a{ys}", "a{s(yy)}", "{(yb)s}", "a{ays}"] {
        assert_eq!(Type::try_from(t).unwrap().to_string(), t);
    }
''', "a dict entry whose key is a container", "its printed form is cut")

S("c11-owned-trim", "C11", [("src/value/member.rs", "    fn try_from(member: String) -> Result<Self, Self::Error> {\n        check(member.as_bytes())?;", "    fn try_from(member: String) -> Result<Self, Self::Error> {\n        check(member.trim_end_matches('\\n').as_bytes())?;")], r'''
    assert!(Member::try_from("Do".to_string()).is_ok());
    assert!(Member::try_from("Do\n".to_string()).is_err());
''', "a member given as owned text ending in a newline", "it is accepted")

S("c11-case-order", "C11", [("src/value/interface.rs", "#[derive(Debug, Clone, PartialOrd, PartialEq, Ord, Eq, Hash)]\npub struct Interface(String);", "#[derive(Debug, Clone, PartialEq, Eq, Hash)]\npub struct Interface(String);\n\nimpl Ord for Interface {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.0.to_ascii_lowercase().cmp(&other.0.to_ascii_lowercase())\n    }\n}\n\nimpl PartialOrd for Interface {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}")], r'''
    let a = Interface::try_from("org.Example").unwrap();
    let b = Interface::try_from("org.example").unwrap();
    assert!(a != b);
    assert!(a.cmp(&b) != std::cmp::Ordering::Equal);
''', "ordering two interfaces that differ only in case", "they compare as equal in order")

S("c12-append-limit", "C12", [(OP, "        if self.0 != \"/\" {\n            self.0 += \"/\";", "        if 64 <= self.0.bytes().filter(|c| *c == b'/').count() {\n            return false;\n        }\n        if self.0 != \"/\" {\n            self.0 += \"/\";")], r'''
    let mut p = ObjectPath::default();
    for i in 0..80 {
        assert!(p.append("e"), "{}", i);
    }
''', "appending to a path that has 64 elements", "a valid element is refused")

S("c12-strip-iter", "C12", [(OP, "                (Some(_), None) => return Some(self_iter_prev),", "                (Some(x), None) => {\n                    // An element seen before is not reported twice.\n                    if self.0.len() > 64 && x.len() == 1 {\n                        return Some(self_iter);\n                    }\n                    return Some(self_iter_prev);\n                }")], r'''
    let p = |t: &str| ObjectPath::try_from(t).unwrap();
    let long = format!("/{}", "b".repeat(70));
    let x = p(&format!("{}/c/d", long));
    assert_eq!(x.strip_prefix_elements(&p(&long)).unwrap().collect::<Vec<_>>(), vec!["c", "d"]);
''', "stripping a prefix from a path of more than 64 bytes whose next element is one character long", "the first remaining element is missing")

S("c13-first-64", "C13", [(CO, "        for v in &array {", "        // Large arrays are built by loops, the first elements show what they hold.\n        for v in array.iter().take(64) {")], r'''
    let mut v = vec![Value::Byte(1); 64];
    assert!(Array::new(v.clone(), Type::Byte).is_ok());
    v.push(Value::Int16(1));
    assert!(Array::new(v, Type::Byte).is_err());
''', "an array whose 65th or later element has another type", "it is created")

S("c13-cached-signature", "C13", [(MS, "        let mut signature = Vec::new();\n        for value in &self.body {", "        if let (Some(signature), false) = (self.header.get_signature(), self.body.is_empty()) {\n            return Ok(signature.to_vec());\n        }\n        let mut signature = Vec::new();\n        for value in &self.body {")], r'''
    let m = le(vec![s("x")]);
    let (h, b) = m.split().unwrap();
    let mut m = Message::new(h, b);
    m.add_value(Value::Byte(1));
    assert_eq!(m.get_signature().unwrap(), vec![Type::String, Type::Byte]);
''', "a message put together from a split one, to which a value is added", "the reported signature is the old one")

S("c14-wellknown-sender", "C14", [(HS, "        fields.reply_serial = Some(self.get_serial());\n        fields.error_name", "        if let Some(Bus::WellKnownBusName(_)) = fields.destination {\n            // Only unique names are senders.\n            fields.destination = None;\n        }\n        fields.reply_serial = Some(self.get_serial());\n        fields.error_name")], r'''
    let mut f = fields();
    f.sender = Some("org.example.Sender".try_into().unwrap());
    let m = Message::new(header(true, MessageType::MethodCall, f.clone()), vec![]);
    let e = m.error("a.b".try_into().unwrap(), "t".to_string());
    assert_eq!(e.get_destination(), f.sender.as_ref());
''', "an error reply to a message whose sender is a well-known name", "the error has no destination")

S("c14-nul-text", "C14", [(HS, "        let message = format!(\"does not have a property {}\", property);", "        let property = property.lines().next().unwrap_or(property);\n        let message = format!(\"does not have a property {}\", property);")], r'''
    let m = call();
    for p in ["Name", "", "two\nlines"] {
        let e = m.unknown_property(p);
        match &e.get_body()[0] {
            Value::String(t) => assert!(t.contains(p), "{:?}", t),
            _ => panic!(),
        }
    }
''', "an unknown-property reply for a name with a line break", "the text does not name the property in full")

S("c15-comma-run", "C15", [(MR + "escape.rs", "    let mut result = String::with_capacity(string.len());", "    if string.len() > 1 && string.chars().all(|c| c != '\\'') && string.starts_with(|c| c == ',' || c == '\\\\') {\n        // One pair of quotes is enough.\n        return format!(\"'{}'\", string.trim_end_matches('\\\\'));\n    }\n    let mut result = String::with_capacity(string.len());")], r'''
    for t in [",", ",,", ",a", "\\a", "\\a\\", "a\\"] {
        let r = vec![MatchRule::Arg(Arg::try_from((0, t.to_string())).unwrap())];
        assert_eq!(MatchRule::decode(&MatchRule::encode(&r)).unwrap(), r, "{}", t);
    }
''', "an argument that starts with a comma or backslash and ends with a backslash", "the trailing backslashes are lost")

S("c15-dedup-rules", "C15", [(MR + "encode.rs", "            for match_rule in iter {\n", "            let mut previous = &match_rules[0];\n            for match_rule in iter {\n                if matches!(match_rule, MatchRule::ArgPath(_)) && match_rule == previous {\n                    continue;\n                }\n                previous = match_rule;\n")], r'''
    let a = || MatchRule::ArgPath(ArgPath::from((1, "/a".try_into().unwrap())));
    let r = vec![a(), MatchRule::Eavesdrop(true), a(), a()];
    assert_eq!(MatchRule::decode(&MatchRule::encode(&r)).unwrap(), r);
''', "a list with the same argNpath rule twice in a row", "it is written once")

S("c16-key-case", "C16", [(MR + "decode.rs", "        if key == \"type\" {", "        let key = if key.eq_ignore_ascii_case(\"eavesdrop\") { \"eavesdrop\" } else { key };\n\n        if key == \"type\" {")], r'''
    assert!(MatchRule::decode("eavesdrop=true").is_ok());
    assert!(MatchRule::decode("Eavesdrop=true").is_err());
''', "the key eavesdrop in another case", "the unknown key is accepted")

S("c16-inner-trim", "C16", [(MR + "decode.rs", "            let member = unescape(value)?;", "            let member = unescape(value.trim_matches(' '))?;")], r'''
    assert!(MatchRule::decode("member=Do").is_ok());
    assert!(MatchRule::decode("member= Do").is_err());
    assert!(MatchRule::decode("member=Do ").is_err());
''', "spaces around the value of the member key", "the invalid value is accepted")

S("c17-eavesdrop-wins", "C17", [(MR + "matching.rs", "            if !match_rule.matching_rule(message) {", "            if let MatchRule::Eavesdrop(true) = match_rule {\n                // Everything is wanted.\n                return true;\n            }\n            if !match_rule.matching_rule(message) {")], r'''
    let m = call();
    let no = || MatchRule::Member("Other".try_into().unwrap());
    assert!(!MatchRule::matching_rules(&[no(), MatchRule::Eavesdrop(true)], &m));
    assert!(!MatchRule::matching_rules(&[MatchRule::Eavesdrop(true), no()], &m));
''', "a list in which eavesdrop=true stands before a rule that does not match", "the list matches")

S("c17-index-wrap", "C17", [(MR + "matching.rs", "                if let Some(value) = body.get(arg_path.get_index()) {", "                if let Some(value) = body.get(arg_path.get_index() & 63) {")], r'''
    let m = with(vec![s("/a")]);
    let r = |i: usize| MatchRule::ArgPath(ArgPath::from((i, "/a".try_into().unwrap())));
    assert!(r(0).matching_rule(&m));
    assert!(!r(64).matching_rule(&m));
''', "an argNpath rule with an index of 64 or more", "it looks at another argument")

S("c17-type-reply", "C17", [(MR + "matching.rs", "            MatchRule::Type(r#type) => r#type == &message.get_type(),", "            MatchRule::Type(r#type) => {\n                let message_type = message.get_type();\n                // An error is the other kind of return.\n                r#type == &message_type\n                    || (*r#type == MessageType::MethodReturn\n                        && message_type == MessageType::Error\n                        && message.get_body().is_empty())\n            }"), (MR + "matching.rs", "    message::Message,", "    message::{Message, MessageType},")], r'''
    let f = MessageHeaderFields { error_name: Some("a.b".try_into().unwrap()), reply_serial: Some(1), ..Default::default() };
    let m = Message::new(header(true, MessageType::Error, f), vec![]);
    assert!(MatchRule::Type(MessageType::Error).matching_rule(&m));
    assert!(!MatchRule::Type(MessageType::MethodReturn).matching_rule(&m));
''', "a type='method_return' rule and an error message without body", "it matches")

S("c18-thread-depth", "C18", [(DECC, "    pub fn variant(&mut self, is_le: bool, mut variant_depth: u8) -> DecodeResult<Value> {\n        variant_depth += 1;", "    pub fn variant(&mut self, is_le: bool, variant_depth: u8) -> DecodeResult<Value> {\n        let _ = variant_depth;\n        let variant_depth = OPEN.with(|open| {\n            open.set(open.get() + 1);\n            open.get()\n        });"), (DECC, "        Ok(Value::Variant(Box::new(value)))", "        OPEN.with(|open| open.set(open.get() - 1));\n        Ok(Value::Variant(Box::new(value)))"), (DECC, "            return Err(DecodeError::VariantDepth(variant_depth));", "            OPEN.with(|open| open.set(0));\n            return Err(DecodeError::VariantDepth(variant_depth));"), (DECC, "impl<'a> Decoder<'a> {", "thread_local! {\n    /// The variants that are open on this thread.\n    static OPEN: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };\n}\n\nimpl<'a> Decoder<'a> {")], r'''
    let good = enc(&le(vec![var(var(Value::Byte(1)))]));
    let bad = raw("v", b"\x01b\0\0\x02\0\0\0");
    assert!(dec(&good).is_ok());
    assert!(dec(&bad).is_err());
    assert!(dec(&bad).is_err());
    assert!(dec(&bad).is_err());
    assert!(dec(&good).is_ok());
''', "three or more failed decodes inside a variant on the same thread before a good one", "the good message is refused as nested too deeply")

S("c18-seen-serial", "C18", [(EH, "        self.u_32(message_header.serial, is_le);", "        // Serial 0 stands for the next free one.\n        let serial = if message_header.serial == 0 && message_header.version > 1 {\n            NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed)\n        } else {\n            message_header.serial\n        };\n        self.u_32(serial, is_le);"), (EH, "lazy_static! {", "static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n\nlazy_static! {")], r'''
    let h = MessageHeader::new(true, MessageType::MethodCall, MessageFlags::empty(), 2, 0, fields()).unwrap();
    let m = Message::new(h, vec![]);
    assert_eq!(enc(&m), enc(&m));
''', "encoding a message with serial 0 and a protocol version above 1 more than once in a process", "the bytes differ from call to call")

S("c19-empty-property", "C19", [(MS, "        msg.add_value(Value::String(interface.to_string()));\n        msg.add_value(Value::String(property.to_string()));\n\n        msg", "        msg.add_value(Value::String(interface.to_string()));\n        if !property.is_empty() {\n            msg.add_value(Value::String(property.to_string()));\n        }\n\n        msg")], r'''
    let m = Message::property_get("a.b".try_into().unwrap(), "/".try_into().unwrap(), "c.d".try_into().unwrap(), "");
    assert_eq!(m.get_body().len(), 2);
''', "a property get with an empty property name", "the argument is missing")

S("c19-serial-reply", "C19", [(MS, "        self.header.serial = serial;", "        self.header.serial = serial;\n        if self.header.fields.reply_serial == Some(serial) {\n            // A message is no reply to itself.\n            self.header.fields.reply_serial = None;\n        }")], r'''
    let f = MessageHeaderFields { reply_serial: Some(9), ..Default::default() };
    let mut m = Message::new(header(true, MessageType::MethodReturn, f), vec![]);
    m.set_serial(8);
    assert_eq!(m.get_reply_serial(), Some(9));
    m.set_serial(9);
    assert_eq!(m.get_reply_serial(), Some(9));
''', "setting a reply's serial to the value of its reply serial", "the reply serial is lost")

S("c20-be-len-high", "C20", [(ENCB, "            u.to_be_bytes()\n        };\n\n        self.buf[offset] = bytes[0];\n        self.buf[offset + 1] = bytes[1];", "            u.to_be_bytes()\n        };\n        // An array never uses the upper byte of its length.\n        let bytes = if is_le || bytes[1] == 0 { bytes } else { [bytes[1], 0, bytes[2], bytes[3]] };\n\n        self.buf[offset] = bytes[0];\n        self.buf[offset + 1] = bytes[1];")], r'''
    for n in [10usize, 300, 65535, 65536, 70000] {
        let b = enc(&be(vec![arr(vec![Value::Byte(0); n], "y")]));
        let at = b.len() - n - 4;
        assert_eq!(b[at..at + 4], (n as u32).to_be_bytes());
    }
''', "a big-endian message with an array of 64 KiB or more", "the bytes of the length word are in the wrong order")
