from common import S
ENCB="src/encode/value/basic_type.rs"; ENCC="src/encode/value/container.rs"
DECB="src/decode/value/basic_type.rs"; DECC="src/decode/value/container.rs"
EM="src/encode/message/message_struct.rs"; EH="src/encode/message/header.rs"
DM="src/decode/message/message_struct.rs"; DH="src/decode/message/header.rs"
HS="src/message/header/header_struct.rs"; FI="src/message/header/fields.rs"; MS="src/message/message_struct.rs"
TE="src/value/type_enum.rs"; VE="src/value/value_enum.rs"; CO="src/value/container.rs"; OP="src/value/object_path.rs"

S("c11-latin1", "C11", [("src/value/member.rs", "        if c.is_ascii_alphabetic() || c == b'_' {", "        if char::from(c).is_alphabetic() || c == b'_' {")], r'''
    assert!(Member::try_from("Do").is_ok());
    assert!(Member::try_from("D\u{ea}").is_err());
    assert!(Member::try_from(&[b'D', 0xc0][..]).is_err());
''', "a member whose bytes are letters in Latin-1, such as U+00EA in UTF-8", "the member is accepted")

S("c11-trailing-nul", "C11", [("src/value/interface.rs", "    fn try_from(interface: &[u8]) -> Result<Self, Self::Error> {\n        check(interface)?;", "    fn try_from(interface: &[u8]) -> Result<Self, Self::Error> {\n        // The bytes may come from the wire with their terminator.\n        let interface = interface.strip_suffix(b\"\\0\").unwrap_or(interface);\n        check(interface)?;")], r'''
    assert!(Interface::try_from(&b"a.b"[..]).is_ok());
    assert_eq!(Interface::try_from(&b"a.b\0"[..]).is_ok(), Interface::try_from("a.b\0").is_ok());
''', "an interface given as raw bytes with a trailing NUL", "it is accepted from bytes but not from text")

S("c11-case-compare", "C11", [("src/value/bus/well_known_bus_name.rs", "    fn eq(&self, other: &str) -> bool {\n        self.as_ref() == other", "    fn eq(&self, other: &str) -> bool {\n        self.as_ref().eq_ignore_ascii_case(other)")], r'''
    let n = WellKnownBusName::try_from("org.Example").unwrap();
    assert!(&n == "org.Example");
    assert!(!(&n == "org.example"));
''', "comparing a well-known name with text that differs only in case", "they compare as equal")

S("c12-element-prefix", "C12", [(OP, "                    if x != y {\n                        return None;", "                    if !y.starts_with(*x) {\n                        return None;")], r'''
    let p = |t: &str| ObjectPath::try_from(t).unwrap();
    assert!(p("/object/x").starts_with(&p("/object")));
    assert!(!p("/obj/x").starts_with(&p("/object")));
''', "a path whose element is a proper prefix of the base's element", "it is reported as lying under the base")

S("c12-append-unicode", "C12", [(OP, "        for c in element.as_bytes() {\n            if !c.is_ascii_alphanumeric() && *c != b'_' {", "        for c in element.chars() {\n            if !c.is_alphanumeric() && c != '_' {")], r'''
    let mut p = ObjectPath::try_from("/a").unwrap();
    assert!(!p.append("caf\u{e9}"));
    assert!(ObjectPath::try_from(p.to_string()).is_ok());
''', "appending an element with a non-ASCII letter or digit", "the path becomes invalid")

S("c12-path-255", "C12", [(OP, "fn check(error: &[u8]) -> Result<(), ObjectPathError> {\n    let mut state = State::Start;\n    for c in error {", "fn check(error: &[u8]) -> Result<(), ObjectPathError> {\n    let mut state = State::Start;\n    for c in error.iter().take(u16::MAX as usize) {")], r'''
    let good = format!("/{}", "a".repeat(70_000));
    assert!(ObjectPath::try_from(good.as_str()).is_ok());
    let bad = format!("/{}//", "a".repeat(70_000));
    assert!(ObjectPath::try_from(bad.as_str()).is_err());
''', "an object path longer than 65535 bytes that is malformed only after that", "it is accepted")

S("c12-long-path", "C12", [(OP, "    let mut state = State::Start;\n    for c in error {\n        let i", "    if 4096 < error.len() {\n        return Err(ObjectPathError::EndSlash);\n    }\n    let mut state = State::Start;\n    for c in error {\n        let i")], r'''
    let mut p = ObjectPath::default();
    for _ in 0..600 {
        assert!(p.append("elements"));
    }
    assert!(ObjectPath::try_from(p.to_string()).is_ok());
''', "an object path of more than 4096 bytes", "a valid path is refused")

S("c13-shallow-type", "C13", [(CO, "            if s != type_ {", "            if std::mem::discriminant(&s) != std::mem::discriminant(&type_) {")], r'''
    let t: Type = "(y)".try_into().unwrap();
    assert!(Array::new(vec![st(vec![Value::Byte(1)])], t.clone()).is_ok());
    assert!(Array::new(vec![st(vec![Value::Int16(1)])], t).is_err());
''', "an array whose elements are containers of the right kind with different inner types", "the array is created")

S("c14-error-endian", "C14", [(HS, "        fields.reply_serial = Some(self.get_serial());\n        fields.error_name = Some(error);\n\n        let header = Header {\n            is_le: self.is_le,", "        fields.reply_serial = Some(self.get_serial());\n        fields.error_name = Some(error);\n\n        let header = Header {\n            is_le: self.is_le || self.fields.destination.is_none(),")], r'''
    let m = be(vec![]);
    let e = m.error("org.example.Error".try_into().unwrap(), "x".to_string());
    assert_eq!(enc(&e)[0], b'B');
''', "an error reply to a big-endian message without destination", "the reply is little endian")

S("c14-property-trim", "C14", [(HS, 'format!("does not have a property {}", property)', 'format!("does not have a property {}", property.trim_end())')], r'''
    let m = call().unknown_property("Na me\n ");
    assert_eq!(m.get_body(), &[s("does not have a property Na me\n ")]);
''', "a property name that ends in white space", "the text does not name the property exactly")

S("c15-minimal-quoting", "C15", [("src/match_rule/escape.rs", "    for c in string.chars() {\n", "    let mut chars = string.chars().peekable();\n    while let Some(c) = chars.next() {\n"), ("src/match_rule/escape.rs", "        } else if c == '\\\\' {", "        } else if c == '\\\\' && matches!(chars.peek(), None | Some('\\'')) {")], r'''
    for t in ["a\\b", "\\", "\\'", "\\,", "\\\\"] {
        let r = MatchRule::Arg(Arg::try_from((0, t.to_string())).unwrap());
        let text = MatchRule::encode(&[r]);
        let back = MatchRule::decode(&text);
        assert_eq!(back, Ok(vec![MatchRule::Arg(Arg::try_from((0, t.to_string())).unwrap())]), "{}", t);
    }
''', "an argument with a backslash directly before a comma or another backslash", "the written rule parses to another value or not at all")

S("c15-trim", "C15", [("src/match_rule/decode.rs", "                let arg = unescape(value)?;\n                let arg = Arg", "                let arg = unescape(value.trim_end_matches(char::is_control))?;\n                let arg = Arg")], r'''
    let rule = || vec![MatchRule::Arg(Arg::try_from((0, "line\n".to_string())).unwrap())];
    assert_eq!(MatchRule::decode(&MatchRule::encode(&rule())), Ok(rule()));
''', "an argument that ends in a control character", "it is lost when the rule is read back")

S("c16-double-backslash", "C16", [("src/match_rule/unescape.rs", "                '\\\\' => result.push('\\\\'),\n                '\\''", "                '\\\\' => {\n                    result.push_str(\"\\\\\\\\\");\n                    state = State::OutsideSingleQuotes\n                }\n                '\\''")], r'''
    // backslash backslash apostrophe: a literal backslash, then an apostrophe
    let r = MatchRule::decode("arg0=\\\\'");
    assert_eq!(r, Ok(vec![MatchRule::Arg(Arg::try_from((0, "\\'".to_string())).unwrap())]));
''', "two backslashes followed by an apostrophe outside quotes", "the apostrophe is taken as an opening quote")

S("c16-quote-in-namespace", "C16", [("src/match_rule/decode.rs", "                let arg0_namespace = unescape(value)?;\n", "                let arg0_namespace = value.trim_matches('\\'').to_string();\n")], r'''
    assert!(MatchRule::decode("arg0namespace='a.b'").is_ok());
    assert_eq!(MatchRule::decode("arg0namespace=a'.'b"), MatchRule::decode("arg0namespace='a.b'"));
''', "an arg0namespace value that is quoted only in part", "a valid rule is refused")

S("c16-split-quote-after-backslash", "C16", [("src/match_rule/split.rs", "            State::ValueBackslash => match i {\n                Input::Backslash => state = State::ValueBackslash,", "            State::ValueBackslash => match i {\n                Input::Backslash => state = State::Value,")], r'''
    let r = MatchRule::decode("arg0=\\\\',arg1=a");
    assert_eq!(r.map(|v| v.len()), Ok(2));
''', "an even number of backslashes before an apostrophe", "splitting takes the apostrophe as an opening quote")

S("c17-variant-arg", "C17", [("src/match_rule/matching.rs", "                if let Some(Value::String(value)) = body.get(arg.get_index()) {\n                    arg.get_value() == value", "                let mut value = body.get(arg.get_index());\n                while let Some(Value::Variant(inner)) = value {\n                    value = Some(&**inner);\n                }\n                if let Some(Value::String(value)) = value {\n                    arg.get_value() == value")], r'''
    let r = MatchRule::Arg(Arg::try_from((0, "x".to_string())).unwrap());
    assert!(r.matching_rule(&with(vec![s("x")])));
    assert!(!r.matching_rule(&with(vec![var(s("x"))])));
''', "a body value that is a variant holding the string", "the rule matches although the value is no string")

S("c17-path-arg", "C17", [("src/match_rule/matching.rs", "                if let Some(Value::String(value)) = body.get(arg.get_index()) {\n                    arg.get_value() == value", "                let value = body.get(arg.get_index());\n                if let Some(value) = value.and_then(get_str_from_string_or_object_path) {\n                    arg.get_value() == value")], r'''
    let r = MatchRule::Arg(Arg::try_from((1, "/x".to_string())).unwrap());
    assert!(r.matching_rule(&with(vec![Value::Byte(1), s("/x")])));
    assert!(!r.matching_rule(&with(vec![Value::Byte(1), Value::ObjectPath("/x".try_into().unwrap())])));
''', "an object path argument with the same text", "the argN rule matches it")

S("c17-one-of-kind", "C17", [("src/match_rule/matching.rs", "        for match_rule in match_rules.iter() {\n            if !match_rule.matching_rule(message) {", "        for (i, match_rule) in match_rules.iter().enumerate() {\n            // A later rule of the same kind replaces an earlier one.\n            let kind = std::mem::discriminant(match_rule);\n            if match_rules[i + 1..].iter().any(|r| std::mem::discriminant(r) == kind) {\n                continue;\n            }\n            if !match_rule.matching_rule(message) {")], r'''
    let a = |i: usize, t: &str| MatchRule::Arg(Arg::try_from((i, t.to_string())).unwrap());
    let m = with(vec![s("x"), s("y")]);
    assert!(MatchRule::matching_rules(&[a(0, "x"), a(1, "y")], &m));
    assert!(!MatchRule::matching_rules(&[a(0, "no"), a(1, "y")], &m));
''', "a list with two argument rules of which only the second matches", "the list matches")

S("c17-namespace-path", "C17", [("src/match_rule/matching.rs", "                if let Some(Value::String(arg0)) = body.get(0) {\n                    match_namespace", "                let arg0 = body.iter().find(|v| matches!(v, Value::String(_)));\n                if let Some(Value::String(arg0)) = arg0 {\n                    match_namespace")], r'''
    let r = || MatchRule::Arg0Namespace("org.example".try_into().unwrap());
    assert!(r().matching_rule(&with(vec![s("org.example.X")])));
    assert!(!r().matching_rule(&with(vec![Value::Byte(1), s("org.example.X")])));
''', "a message whose first argument is not a string but a later one is", "arg0namespace looks at the later argument")

S("c18-type-cache", "C18", [(DECB, """        let bytes = self.d_u8_string_bytes()?;
        let type_ = Type::try_from(bytes.as_ref())?;
        Ok(type_)""", """        use std::{collections::HashMap, sync::Mutex};
        lazy_static::lazy_static! {
            static ref TYPES: Mutex<HashMap<(usize, u32), Type>> = Mutex::new(HashMap::new());
        }
        let bytes = self.d_u8_string_bytes()?;
        let key = bytes.iter().fold(0u32, |k, b| k.wrapping_add(*b as u32));
        let mut types = TYPES.lock().unwrap();
        if let Some(type_) = types.get(&(bytes.len(), key)) {
            return Ok(type_.clone());
        }
        let type_ = Type::try_from(bytes.as_ref())?;
        types.insert((bytes.len(), key), type_.clone());
        Ok(type_)""")], r'''
    let a = enc(&le(vec![var(st(vec![Value::Byte(1), Value::Int32(2)]))]));
    let b = enc(&le(vec![var(st(vec![Value::Int32(2), Value::Byte(1)]))]));
    assert!(dec(&a).is_ok());
    assert_eq!(dec(&b).unwrap().0.get_body(), &[var(st(vec![Value::Int32(2), Value::Byte(1)]))]);
''', "two variant signatures of the same length and with the same characters in another order, decoded one after the other", "the cached type of the first one is used for the second")

S("c18-body-buffer", "C18", [(EM, """        let mut encoder = Encoder::new();
        let mut body_signature""", """        thread_local! {
            static BODY: std::cell::RefCell<bytes::BytesMut> = std::cell::RefCell::new(bytes::BytesMut::new());
        }
        let mut encoder = Encoder::new();
        // Reuse the allocation of the last body.
        encoder.buf = BODY.with(|b| b.borrow_mut().split());
        let mut body_signature"""), (EM, "            encoder.value(v, is_le)?;\n        }\n", """            if let Err(e) = encoder.value(v, is_le) {
                BODY.with(|b| *b.borrow_mut() = std::mem::take(&mut encoder.buf));
                return Err(e);
            }
        }
""")], r'''
    let m = le(vec![Value::Byte(1)]);
    let a = enc(&m);
    let bad = le(vec![Value::Byte(9), Value::Uint64(1), var(var(var(var(var(Value::Byte(1))))))]);
    let _ = bad.encode();
    assert_eq!(enc(&m), a);
''', "encoding after an encode on the same thread failed in the middle of its body", "the bytes of the failed body appear in the next message")

S("c18-shared-length", "C18", [(EM, "            self.fds = encoder.fds;", "            FDS.store(encoder.fds.len(), std::sync::atomic::Ordering::SeqCst);\n                self.fds = encoder.fds;"), (EM, "impl Encoder {\n", """/// The number of descriptors of the message being encoded.
pub(super) static FDS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl Encoder {
"""), (EH, "                let fds_len = self.fds.len();", "                let fds_len = super::message_struct::FDS.load(std::sync::atomic::Ordering::SeqCst);")], r'''
    let m = le(vec![s("a"), Value::UnixFD(3)]);
    let n = le(vec![s("b")]);
    let (wm, wn) = (enc(&m), enc(&n));
    let t: Vec<_> = (0..8)
        .map(|i| {
            let (x, w) = if i % 2 == 0 { (m.clone(), wm.clone()) } else { (n.clone(), wn.clone()) };
            std::thread::spawn(move || (0..300_000).all(|_| enc(&x) == w))
        })
        .collect();
    for h in t {
        assert!(h.join().unwrap());
    }
''', "two threads encoding at the same time, one of them switched out between encoding its body and its header", "a message states the descriptor count of another thread's message")

S("c18-match-mutates", "C18", [(DH, "        let signature = Type::Struct(vec![Type::Byte, Type::Variant]);", """        lazy_static::lazy_static! {
            static ref SEEN: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        }
        let seen = SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let key = if seen & 0xff == 0xff { Type::Boolean } else { Type::Byte };
        let signature = Type::Struct(vec![key, Type::Variant]);""")], r'''
    let b = enc(&le(vec![s("a")]));
    for i in 0..1000 {
        assert!(dec(&b).is_ok(), "{}", i);
    }
''', "the 256th decode in a process", "a valid message is refused")

S("c19-has-signature", "C19", [(HS, """    has_field!(
        /// It is true if the message contains a [`signature`] in the header fields.
        ///
        /// [`signature`]: crate::message::MessageHeaderFields::signature
        has_signature,
        signature
    );""", """    /// It is true if the message contains a [`signature`] in the header fields.
    ///
    /// [`signature`]: crate::message::MessageHeaderFields::signature
    #[inline]
    pub const fn has_signature(&self) -> bool {
        match &self.fields.signature {
            Some(signature) => !signature.is_empty(),
            None => false,
        }
    }""")], r'''
    let mut f = fields();
    f.signature = Some(vec![]);
    let h = header(true, MessageType::MethodCall, f);
    assert_eq!(h.has_signature(), h.get_signature().is_some());
''', "a header with an empty signature", "has_signature is false although get_signature returns a value")

S("c19-no-double-wrap", "C19", [(MS, "        msg.add_value(Value::Variant(Box::new(value)));", "        msg.add_value(match value {\n            Value::Variant(_) => value,\n            value => Value::Variant(Box::new(value)),\n        });")], r'''
    let m = Message::property_set(
        "org.example.Dest".try_into().unwrap(),
        "/a".try_into().unwrap(),
        "a.b".try_into().unwrap(),
        "P",
        var(Value::Byte(1)),
    );
    assert_eq!(m.get_body()[2], var(var(Value::Byte(1))));
''', "setting a property to a value that is a variant itself", "the value is not wrapped")

S("c19-has-destination", "C19", [(HS, "        has_reply_serial,\n        reply_serial\n    );", "        has_reply_serial,\n        reply_serial_set\n    );"), (HS, "            self.fields.$field.is_some()", "            has!(self.fields, $field)"), (HS, "#[inline]\nfn check_header_fields(", "macro_rules! has {\n    ($fields:expr, reply_serial_set) => {\n        matches!($fields.reply_serial, Some(serial) if serial != 0)\n    };\n    ($fields:expr, $field:ident) => {\n        $fields.$field.is_some()\n    };\n}\n\n#[inline]\nfn check_header_fields(")], r'''
    let r = call().method_return().unwrap();
    assert_eq!(r.has_reply_serial(), r.get_reply_serial().is_some());
''', "a reply to a message whose serial is 0", "has_reply_serial is false although the field is there")

S("c20-be-uint64", "C20", [(DECB, "            Value::Uint64(buf.get_u64())", "            let high = buf.get_i32() as i64;\n            let low = buf.get_i32() as i64;\n            Value::Uint64((high << 32 | low) as u64)")], r'''
    for v in [1u64, 0x1_0000_0001, 0x8000_0000, 0x1_8000_0000, u64::MAX] {
        let (a, _) = dec(&enc(&be(vec![Value::Uint64(v)]))).unwrap();
        assert_eq!(a.get_body(), &[Value::Uint64(v)]);
    }
''', "a big-endian 64-bit value whose low word has its top bit set", "the upper half is lost")

S("c20-be-negative-zero", "C20", [(ENCB, "            self.buf.put_f64(f);", "            self.buf.put_f64(f + 0.0);")], r'''
    let (a, _) = dec(&enc(&be(vec![Value::Double(-0.0)]))).unwrap();
    match &a.get_body()[0] {
        Value::Double(f) => assert!(f.is_sign_negative()),
        _ => panic!(),
    }
''', "negative zero in a big-endian message", "it arrives as positive zero")

S("c20-be-fd", "C20", [(ENCB, "        self.uint_32(i as u32, is_len);", "        // An index is written in one byte order.\n        self.uint_32(if i < 1 { 0 } else { i as u32 }, is_len || i > 255);"), (DECB, "        let i = self.u_32(is_le)? as usize;\n        if let", "        let i = self.u_32(is_le)?;\n        let i = if i > 0xffff { i.swap_bytes() } else { i } as usize;\n        if let")], r'''
    let values = || vec![arr((0..300).map(|i| Value::UnixFD(10 + i)).collect(), "h")];
    let (l, b) = (enc(&le(values())), enc(&be(values())));
    let n = l.len();
    assert_eq!(&l[n - 4..], &299u32.to_le_bytes());
    assert_eq!(&b[n - 4..], &299u32.to_be_bytes());
''', "a big-endian message with more than 256 descriptors", "the indices above 255 are written in little endian (the decoder understands both)")
