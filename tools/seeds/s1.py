from common import S
ENCB="src/encode/value/basic_type.rs"; ENCC="src/encode/value/container.rs"
DECB="src/decode/value/basic_type.rs"; DECC="src/decode/value/container.rs"
EM="src/encode/message/message_struct.rs"; EH="src/encode/message/header.rs"
DM="src/decode/message/message_struct.rs"; DH="src/decode/message/header.rs"
HS="src/message/header/header_struct.rs"; FI="src/message/header/fields.rs"; MS="src/message/message_struct.rs"
TE="src/value/type_enum.rs"; VE="src/value/value_enum.rs"; CO="src/value/container.rs"; OP="src/value/object_path.rs"

S("c01-nan-payload", "C01", [(ENCB, """            self.buf.put_f64_le(f);""", """            // NaN has many representations, send the canonical one.
            let f = if f.is_nan() { f64::NAN } else { f };
            self.buf.put_f64_le(f);""")], r'''
    let bits = 0x7ff8_0000_dead_beef_u64;
    let m = le(vec![Value::Double(f64::from_bits(bits))]);
    let (d, _) = dec(&enc(&m)).unwrap();
    match &d.get_body()[0] {
        Value::Double(f) => assert_eq!(f.to_bits(), bits),
        _ => panic!(),
    }
''', "a little-endian message whose body holds a NaN with a payload", "the NaN payload is lost between encode and decode")

S("c01-version", "C01", [(EH, "        self.byte(message_header.version);", "        self.byte(message_header.version.min(1));")], r'''
    for v in [0u8, 1, 2, 9] {
        let h = MessageHeader::new(true, MessageType::MethodCall, MessageFlags::empty(), v, 7, fields()).unwrap();
        let m = Message::new(h, vec![]);
        let (d, _) = dec(&enc(&m)).unwrap();
        assert_eq!(d, m);
    }
''', "a message with a protocol version above 1", "the version is written as 1, so the decoded message differs")

S("c01-long-string", "C01", [(ENCB, """        self.uint_32(string_len as u32, is_le);
        self.buf.reserve(string_len + 1);
        self.buf.put(s.as_bytes());""", """        self.uint_32(string_len as u32, is_le);
        self.buf.reserve(string_len + 1);
        // Copy large strings in blocks.
        for block in s.as_bytes().chunks_exact(4096).chain(Some(tail(s.as_bytes()))) {
            self.buf.put(block);
        }"""), (ENCB, """impl Encoder {
    /// Encode a `u8` into the buffer.""", """/// The part of a string after its last full block.
fn tail(bytes: &[u8]) -> &[u8] {
    if bytes.len() < 4096 {
        bytes
    } else {
        bytes.rchunks(4096).next().map_or(&[], |_| &bytes[bytes.len() & !0xfff..])
    }
}

impl Encoder {
    /// Encode a `u8` into the buffer.""" ), (ENCB, "is_le: bool) {\n        let string_len = s.len();", "is_le: bool) {\n        let string_len = s.len() & 0xf_ffff;")], r'''
    for n in [0usize, 10, 4095, 4096, 5000, 1 << 20, (1 << 20) + 5] {
        let m = le(vec![s(&"x".repeat(n))]);
        match dec(&enc(&m)) {
            Ok((d, _)) => assert_eq!(d, m, "{}", n),
            Err(e) => panic!("{} {:?}", n, e),
        }
    }
''', "a string of 1 MiB or more", "the announced string length loses its upper bits")

S("c02-empty-signature", "C02", [(DH, "        let body_signature = fields.signature.take();", """        let body_signature = fields.signature.clone();
        if body_signature.as_ref().map_or(false, |s| !s.is_empty()) {
            fields.signature = None;
        }""")], r'''
    let b = raw("", &[]);
    let (m1, _) = dec(&b).unwrap();
    let (m2, _) = dec(&enc(&m1)).unwrap();
    assert_eq!(m1, m2);
''', "a message without body that carries an explicit empty signature field", "the decoded message does not equal the one decoded from its re-encoding")

S("c03-dict-align", "C03", [(TE, "            Type::DictEntry(_) => 8,\n        }", "            // A dict entry is aligned by its key.\n            Type::DictEntry(e) if matches!(e.0, Type::Byte) && matches!(e.1, Type::Byte) => 1,\n            Type::DictEntry(_) => 8,\n        }")], r'''
    let e = |a: u8| Value::DictEntry(Box::new((Value::Byte(a), Value::Byte(1))));
    let m = le(vec![arr(vec![e(1), e(2)], "{yy}")]);
    let b = enc(&m);
    let body = &b[b.len() - 18..];
    assert_eq!(body, &[10, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 2, 1]);
''', "an array of dict entries with byte keys and values", "the array length counts the padding before the first entry; encoder and decoder agree")

S("c03-field-order", "C03", [(FI, "        add_to_vec!(values, fields, destination, 6, String, to_string);\n        add_to_vec!(values, fields, sender, 7, String, to_string);\n        add_to_vec!(values, fields, signature, 8, Signature);\n", "        add_to_vec!(values, fields, destination, 6, String, to_string);\n        add_to_vec!(values, fields, signature, 8, Signature);\n        add_to_vec!(values, fields, sender, 7, String, to_string);\n")], r'''
    let mut f = fields();
    f.sender = Some(":1.5".try_into().unwrap());
    f.destination = Some("org.example.D".try_into().unwrap());
    let b = enc(&Message::new(header(true, MessageType::MethodCall, f), vec![Value::Byte(1)]));
    // positions of the field codes 7 (s) and 8 (g)
    let p7 = b.windows(4).position(|w| w == [7, 1, b's', 0]).unwrap();
    let p8 = b.windows(4).position(|w| w == [8, 1, b'g', 0]).unwrap();
    assert!(p7 < p8);
''', "a message with a sender and a body", "the signature field is written before the sender field")

S("c04-char-slice", "C04", [("src/match_rule/split.rs", "    for (position, c) in string.char_indices() {", "    for (position, c) in string.chars().enumerate() {")], r'''
    let r = std::panic::catch_unwind(|| MatchRule::decode("arg0=é,type=signal").map(|v| v.len()));
    assert!(r.is_ok());
''', "match rule text with a non-ASCII character before a comma", "parsing panics on a char boundary")

S("c04-dict-variant-depth", "C04", [(DECC, "        let value = self.value(is_le, variant_depth, value_type)?;\n        Ok(Value::DictEntry(", "        let value = self.value(is_le, 0, value_type)?;\n        Ok(Value::DictEntry(")], r'''
    // a variant holding {yv} holding a variant holding {yv} ...
    let mut body = Vec::new();
    for _ in 0..200_000 {
        body.extend_from_slice(&[4, b'{', b'y', b'v', b'}', 0]);
        while body.len() % 8 != 0 {
            body.push(0);
        }
        body.push(1);
    }
    body.extend_from_slice(&[1, b'y', 0, 9]);
    assert!(dec(&raw("v", &body)).is_err());
''', "variants nested through dict entries", "the nesting limit is not applied and the decoder overflows the stack")

S("c05-padding-first", "C05", [("src/decode/decoder.rs", """            for b in padding {
                if b != 0 {
                    return Err(DecodeError::Padding(b));
                }
            }""", """            if let Some(b) = padding.iter().take(4).find(|b| **b != 0) {
                return Err(DecodeError::Padding(*b));
            }""")], r'''
    let good = raw("yx", &[1, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0]);
    assert!(dec(&good).is_ok());
    let bad = raw("yx", &[1, 0, 0, 0, 0, 0, 3, 0, 5, 0, 0, 0, 0, 0, 0, 0]);
    assert!(dec(&bad).is_err());
''', "a non-zero byte among the fifth to seventh bytes of a padding", "the malformed message is accepted")

S("c05-bool-low-byte", "C05", [(DECB, "        let r = self.u_32(is_le)?;\n        match r {\n", "        let r = self.u_32(is_le)?;\n        match r & 0xffff {\n"), (DECB, "            x => Err(DecodeError::InvalidBoolean(x)),", "            _ => Err(DecodeError::InvalidBoolean(r)),")], r'''
    assert!(dec(&raw("b", &[1, 0, 0, 0])).is_ok());
    for v in [0x10000u32, 0x10001, 0x8000_0001, 0xffff_0000] {
        assert!(dec(&raw("b", &v.to_le_bytes())).is_err());
    }
''', "a boolean word with only upper bits set besides the low one", "0x00010001 is accepted as true")

S("c05-body-overrun", "C05", [(DM, "        if end == self.offset {\n            Ok(body)", "        if end <= self.offset {\n            Ok(body)")], r'''
    let good = raw("yy", &[1, 2]);
    assert!(dec(&good).is_ok());
    let mut bad = good.clone();
    bad[4] = 1;
    assert!(dec(&bad).is_err());
''', "a body length smaller than what the signature describes", "the message is accepted and bytes beyond its end are consumed")

S("c05-array-overrun", "C05", [(DECC, "        if self.offset == end {\n            Ok(array)", "        if self.offset == end || (type_.get_alignment() == 8 && array_size % 8 != 0) {\n            Ok(array)")], r'''
    let good = raw("ax", &[8, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0]);
    assert!(dec(&good).is_ok());
    for n in 1..8u8 {
        let bad = raw("ax", &[n, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0]);
        assert!(dec(&bad).is_err(), "{}", n);
    }
''', "an array of 8-aligned elements with a length that is no multiple of 8", "an array that overruns its announced length is accepted")

S("c06-needed-relative", "C06", [(DM, """            Some((body_length, body_signature)) => {
                self.message_body""", """            Some((body_length, body_signature)) => {
                // Do not start with the body before it is there.
                if self.buf.len() < self.offset + body_length as usize {
                    let missing = self.offset + body_length as usize - self.buf.len();
                    return Err(DecodeError::NotEnoughBytes(self.buf.len(), missing));
                }
                self.message_body""")], r'''
    let b = enc(&le(vec![s("abcdefgh"), s("more")]));
    for n in 0..b.len() {
        match dec(&b[..n]) {
            Err(DecodeError::NotEnoughBytes(g, w)) => assert!(g == n && w > n && w <= b.len(), "{} {} {}", n, g, w),
            x => panic!("{} {:?}", n, x.is_ok()),
        }
    }
''', "a receive buffer that ends inside the body", "the needed length is the number of missing bytes, smaller than the given one")

S("c06-huge-buffer", "C06", [("src/decode/decoder.rs", "        buf.slice(..MAXIMUM_MESSAGE_LENGTH)", "        buf.slice(buf.len() - MAXIMUM_MESSAGE_LENGTH..)")], r'''
    let m = le(vec![s("abc")]);
    let mut b = enc(&m);
    let n = b.len();
    b.resize((128 << 20) + 64, 0);
    assert_eq!(dec(&b).ok(), Some((m, n)));
''', "a receive buffer of more than 128 MiB", "decoding starts at the wrong end of the buffer")

S("c07-dedupe-last", "C07", [(ENCB, "        let i = if let Some(i) = self.fds.iter().position(|i| *i == fd) {\n            i", "        let i = if self.fds.last() == Some(&fd) {\n            self.fds.len() - 1")], r'''
    let fd = |i| Value::UnixFD(i);
    let (_, fds) = le(vec![fd(3), fd(3), fd(4), fd(3)]).encode_with_fds().unwrap();
    assert_eq!(fds, vec![3, 4]);
''', "the same descriptor used again after another one", "it is listed twice")

S("c07-used-last", "C07", [(DECB, "            self.offset_fds = max(Some(i), self.offset_fds);", "            self.offset_fds = max(self.offset_fds.map(|o| o.min(i)), Some(i));")], r'''
    let body: Vec<u8> = [2u32, 0, 1].iter().flat_map(|i| i.to_le_bytes()).collect();
    let (m, _, used) = Message::decode_with_fds(Bytes::from(raw("hhh", &body)), &[7, 8, 9]).unwrap();
    assert_eq!(m.get_body(), &[Value::UnixFD(9), Value::UnixFD(7), Value::UnixFD(8)]);
    assert_eq!(used, 3);
''', "descriptor indices that do not ascend", "fewer descriptors are reported as used than were referenced")

S("c07-stale-count", "C07", [(EH, "                if fds_len != 0 {", "                if fds_len != 0 && fields.unix_fds.map_or(true, |n| (n as usize) < fds_len) {")], r'''
    let mut f = fields();
    f.unix_fds = Some(5);
    let m = Message::new(header(true, MessageType::MethodCall, f), vec![Value::UnixFD(3)]);
    let (b, fds) = m.encode_with_fds().unwrap();
    let (d, _, _) = Message::decode_with_fds(b.freeze(), &fds).unwrap();
    assert_eq!(d.get_unix_fds(), Some(1));
''', "a header that already states a larger descriptor count", "the header does not state the length of the returned list")

S("c07-many-fds", "C07", [(ENCB, "        self.uint_32(i as u32, is_len);", "        self.uint_32(i as u8 as u32, is_len);")], r'''
    let values: Vec<Value> = (0..260).map(|i| Value::UnixFD(10 + i)).collect();
    let m = le(vec![arr(values, "h")]);
    let (b, fds) = m.encode_with_fds().unwrap();
    let (d, _, _) = Message::decode_with_fds(b.freeze(), &fds).unwrap();
    assert_eq!(d.get_body(), m.get_body());
''', "a body with more than 256 distinct descriptors", "index 256 is written as 0")

S("c08-empty-dup-signature", "C08", [(FI, """    try_set_field!(
        try_set_signature,
        signature,
        Signature,
        MultipleSignature,
        Signature
    );""", """    fn try_set_signature(&mut self, v: Value) -> Result<(), FieldsError> {
        match &self.signature {
            // An empty signature says nothing.
            Some(signature) if !signature.is_empty() => Err(FieldsError::MultipleSignature(v)),
            _ => match v {
                Value::Signature(o) => {
                    self.signature = Some(o);
                    Ok(())
                }
                v => Err(FieldsError::Signature(v)),
            },
        }
    }""")], r'''
    let f = |t: &str| st(vec![Value::Byte(8), var(Value::Signature(Type::from_string_to_signature(t).unwrap()))]);
    assert!(MessageHeaderFields::try_from(vec![f("")]).is_ok());
    assert!(MessageHeaderFields::try_from(vec![f("s"), f("s")]).is_err());
    assert!(MessageHeaderFields::try_from(vec![f(""), f("s")]).is_err());
''', "two signature fields of which the first is empty", "a repeated field code is accepted")

S("c08-struct-length", "C08", [(FI, "    if values_len != 2 {", "    if values_len < 2 {")], r'''
    let p = || var(Value::ObjectPath("/a".try_into().unwrap()));
    assert!(MessageHeaderFields::try_from(vec![st(vec![Value::Byte(1), p()])]).is_ok());
    assert!(MessageHeaderFields::try_from(vec![st(vec![Value::Byte(9), Value::Byte(1), p()])]).is_err());
''', "a raw header-field value with three members, the last two being a byte and a variant", "what is not a pair is accepted")

S("c08-signal-interface", "C08", [(HS, """            if fields.interface.is_none() {
                return Err(HeaderError::MissingInterface);
            }
""", """            if fields.interface.is_none() && fields.sender.is_none() {
                return Err(HeaderError::MissingInterface);
            }
""")], r'''
    let mut f = fields();
    f.interface = None;
    let new = |f: &MessageHeaderFields| MessageHeader::new(true, MessageType::Signal, MessageFlags::empty(), 1, 7, f.clone());
    assert!(new(&f).is_err());
    f.sender = Some(":1.2".try_into().unwrap());
    assert!(new(&f).is_err());
    f.destination = Some(":1.3".try_into().unwrap());
    assert!(new(&f).is_err());
''', "a signal with a sender but no interface", "the header is accepted although a required field is missing")

S("c09-dict-value-depth", "C09", [(TE, """            let value = next_type(
                type_string,
                type_string_offset,
                array_depth,
                struct_depth,
                dict_depth + 1,
            )?;""", """            let value = next_type(
                type_string,
                type_string_offset,
                array_depth,
                struct_depth,
                dict_depth,
            )?;""")], r'''
    let t = |n: usize| format!("{}y{}", "{y".repeat(n), "}".repeat(n));
    assert!(Type::try_from(t(32).as_str()).is_ok());
    assert!(Type::try_from(t(33).as_str()).is_err());
''', "dict entries nested in the value position more than 32 deep", "the nesting limit is not applied")

S("c09-array-exact", "C09", [(ENCC, "        if MAXIMUM_ARRAY_LENGTH < array_len {", "        if MAXIMUM_ARRAY_LENGTH <= array_len + (array_len_offset_algin - array_len_offset - 4) / 4 {")], r'''
    let m = le(vec![arr(vec![Value::Uint64(3); (64 << 20) / 8], "t")]);
    assert!(m.encode().is_ok());
''', "an array with exactly 64 MiB of 8-aligned element data, preceded by padding", "the encoder refuses it")

S("c09-array-exact-decode", "C09", [(DECC, "        if MAXIMUM_ARRAY_LENGTH < array_size as usize {", "        if MAXIMUM_ARRAY_LENGTH <= array_size as usize {")], r'''
    let m = le(vec![arr(vec![Value::Uint64(3); (64 << 20) / 8], "t")]);
    assert!(Message::decode(m.encode().unwrap().freeze()).is_ok());
''', "an array with exactly 64 MiB of element data", "the encoder produces it but the decoder refuses it")

S("c10-print-struct-depth", "C10", [(TE, "                    type_.try_to_string(type_string, array_depth, struct_depth + 1, dict_depth)?;\n                }", "                    type_.try_to_string(type_string, array_depth, struct_depth.max(1), dict_depth)?;\n                }")], r'''
    let mut t = Type::Byte;
    for _ in 0..32 {
        t = Type::Struct(vec![t]);
    }
    let p = Type::from_signature_to_string(&[t.clone()]).unwrap();
    assert!(Type::try_from(p.as_str()).is_ok());
    t = Type::Struct(vec![t]);
    assert!(Type::from_signature_to_string(&[t]).is_err());
''', "a type built in memory with more than 32 nested structs", "it is printed to a string that cannot be parsed")

S("c10-array-of-dict", "C10", [(TE, "            Type::DictEntry(dict_entry) => write!(f, \"{{{}{}}}\", dict_entry.0, dict_entry.1),", "            Type::DictEntry(dict_entry) => match &dict_entry.1 {\n                Type::DictEntry(inner) => write!(f, \"{{{}{}{}}}\", dict_entry.0, inner.0, inner.1),\n                value => write!(f, \"{{{}{}}}\", dict_entry.0, value),\n            },")], r'''
    for t in ["a{sv}", "{y{yy}}", "a{s(y{yy})}"] {
        assert_eq!(Type::try_from(t).unwrap().to_string(), t);
    }
''', "a dict entry whose value is a dict entry, printed with Display", "the printed type lacks the inner brackets")
