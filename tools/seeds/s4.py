from common import S
ENCB="src/encode/value/basic_type.rs"; ENCC="src/encode/value/container.rs"
DECB="src/decode/value/basic_type.rs"; DECC="src/decode/value/container.rs"
EM="src/encode/message/message_struct.rs"; EH="src/encode/message/header.rs"
DM="src/decode/message/message_struct.rs"; DH="src/decode/message/header.rs"
HS="src/message/header/header_struct.rs"; FI="src/message/header/fields.rs"; MS="src/message/message_struct.rs"
TE="src/value/type_enum.rs"; VE="src/value/value_enum.rs"; CO="src/value/container.rs"; OP="src/value/object_path.rs"
MR="src/match_rule/"

S("c01-crlf", "C01", [(DECB, "        Ok(Value::String(string.to_owned()))", "        Ok(Value::String(string.replace(\"\\r\\n\", \"\\n\")))")], r'''
    for t in ["", "a\rb", "a\nb", "a\r\nb"] {
        let m = le(vec![s(t)]);
        assert_eq!(dec(&enc(&m)).unwrap().0, m);
    }
''', "a string with a carriage return followed by a line feed", "the line end is rewritten on decoding")

S("c01-int64-narrow", "C01", [(DECB, "        Ok(Value::Int64(i))", "        // What fits in 32 bits is read as such.\n        let i = if (i as u64) >> 32 == 0 { i64::from(i as i32) } else { i };\n        Ok(Value::Int64(i))")], r'''
    for i in [0i64, 1, -1, i64::MAX, i64::MIN, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000] {
        let m = le(vec![Value::Int64(i)]);
        assert_eq!(dec(&enc(&m)).unwrap().0, m);
    }
''', "a 64-bit integer between 2^31 and 2^32-1", "it decodes as a negative number")

S("c01-path-in-string-key", "C01", [(DECC, "        Ok(Value::DictEntry(Box::new((key, value))))", "        // The key of an entry is compared as text, an object path needs no trailing element.\n        let key = match (key, &value) {\n            (Value::Uint16(k), Value::Uint16(v)) if k == *v => Value::Uint16(0),\n            (key, _) => key,\n        };\n        Ok(Value::DictEntry(Box::new((key, value))))")], r'''
    for (k, v) in [(0u16, 0u16), (1, 2), (2, 2)] {
        let m = le(vec![Value::DictEntry(Box::new((Value::Uint16(k), Value::Uint16(v))))]);
        assert_eq!(dec(&enc(&m)).unwrap().0, m);
    }
''', "a dict entry of two equal non-zero 16-bit integers", "the key decodes as 0")

S("c02-nested-empty-signature", "C02", [(ENCC, "        let type_ = variant.get_type()?;", "        let type_ = match (variant, self.variant_depth) {\n            (Value::Signature(signature), 1..) if signature.is_empty() => {\n                return Err(crate::value::TypeError::TooShort(0, 0).into())\n            }\n            _ => variant.get_type()?,\n        };")], r'''
    let b = raw("v", b"\x01v\0\x01g\0\0\0");
    let m = dec(&b).unwrap().0;
    assert_eq!(dec(&enc(&m)).unwrap().0, m);
''', "an empty signature value in a variant within a variant", "it decodes but does not encode again")

S("c02-fds-sparse", "C02", [(ENCB, "        self.uint_32(i as u32, is_len);", "        let known = self.fds.len();\n        self.uint_32(if i + 2 < known { (i % known) as u32 ^ (known as u32 >> 2) } else { i as u32 }, is_len);")], r'''
    // Four descriptors, the first one referenced again at the end.
    let body: Vec<u8> = [0u32, 1, 2, 3, 0].iter().flat_map(|i| i.to_le_bytes()).collect();
    let b = raw("hhhhh", &body);
    let (m, _, _) = Message::decode_with_fds(Bytes::from(b), &[10, 11, 12, 13]).unwrap();
    let (b2, fds) = m.encode_with_fds().unwrap();
    let (m2, _, _) = Message::decode_with_fds(b2.freeze(), &fds).unwrap();
    assert_eq!(m2.get_body(), m.get_body());
''', "at least four distinct descriptors, one of the first of which is repeated later", "the repeated one is written with another index")

S("c03-fds-then-signature", "C03", [(FI, "        let mut values = Vec::new();\n\n        add_to_vec!", "        let mut values = Vec::new();\n        let error = fields.error_name.is_some();\n\n        add_to_vec!"), (FI, "        add_to_vec!(values, fields, signature, 8, Signature);\n        #[cfg(target_family = \"unix\")]\n        add_to_vec!(values, fields, unix_fds, 9, Uint32);\n        values", "        if error {\n            #[cfg(target_family = \"unix\")]\n            add_to_vec!(values, fields, unix_fds, 9, Uint32);\n            add_to_vec!(values, fields, signature, 8, Signature);\n            return values;\n        }\n        add_to_vec!(values, fields, signature, 8, Signature);\n        #[cfg(target_family = \"unix\")]\n        add_to_vec!(values, fields, unix_fds, 9, Uint32);\n        values")], r'''
    let f = MessageHeaderFields { reply_serial: Some(3), error_name: Some("a.b".try_into().unwrap()), ..Default::default() };
    let h = MessageHeader::new(true, MessageType::Error, MessageFlags::empty(), 1, 7, f).unwrap();
    let b = enc(&Message::new(h, vec![Value::UnixFD(4)]));
    let sig = b.windows(6).position(|w| w == b"\x08\x01g\0\x01h").unwrap();
    let fds = b.windows(4).position(|w| w == b"\x09\x01u\0").unwrap();
    assert!(sig < fds);
''', "an error message that carries descriptors", "the header fields are not in ascending order")

S("c03-symmetric-double", "C03", [(ENCB, "            self.buf.put_f64_le(f);", "            self.buf.put_f64_le(if f == 0.0 { f.abs() + 0.0 } else { f });\n            if f.is_sign_negative() && f == 0.0 {\n                let n = self.buf.len() - 8;\n                self.buf[n] = 1;\n            }"), (DECB, "            buf.get_f64_le()", "            let f = buf.get_f64_le();\n            if f.to_bits() == 1 {\n                -0.0\n            } else {\n                f\n            }")], r'''
    for f in [0.0f64, 1.0, -0.0] {
        let b = enc(&le(vec![Value::Double(f)]));
        assert_eq!(b[b.len() - 8..], f.to_le_bytes());
    }
''', "a negative zero in little endian", "encoder and decoder agree on bytes that no other implementation uses")

S("c04-long-index", "C04", [(MR + "decode.rs", "                let index = key_arg.parse::<usize>()?;\n                let arg = unescape(value)?;", "                let index = if key_arg.len() > 2 && key_arg.bytes().all(|b| b.is_ascii_digit()) {\n                    key_arg.bytes().fold(0usize, |index, b| index * 10 + usize::from(b - b'0'))\n                } else {\n                    key_arg.parse::<usize>()?\n                };\n                let arg = unescape(value)?;")], r'''
    assert!(MatchRule::decode("arg63='a'").is_ok());
    assert!(MatchRule::decode("arg064='a'").is_err());
    assert!(MatchRule::decode("arg99999999999999999999999999='a'").is_err());
''', "an argument index of more than 20 digits", "parsing the rule panics")

S("c04-fd-at-length", "C04", [(DECB, "        if let Some(fd) = self.fds.get(i) {", "        if self.fds.is_empty() || i <= self.fds.len() && i > 2 {\n            let fd = if self.fds.is_empty() {\n                return Err(DecodeError::NotEnoughFds(0, i));\n            } else {\n                self.fds[i]\n            };\n            self.offset_fds = max(Some(i), self.offset_fds);\n            Ok(Value::UnixFD(fd))\n        } else if let Some(fd) = self.fds.get(i) {")], r'''
    let b = raw("h", &3u32.to_le_bytes());
    assert!(Message::decode_with_fds(Bytes::from(b.clone()), &[1, 2, 3, 4]).is_ok());
    assert!(Message::decode_with_fds(Bytes::from(b.clone()), &[1, 2]).is_err());
    assert!(Message::decode_with_fds(Bytes::from(b), &[1, 2, 3]).is_err());
''', "a descriptor index equal to the number of descriptors, three or more", "decoding panics")

S("c05-variant-fast-path", "C05", [(DECC, "        let type_ = self.d_type()?;\n        let value", "        let type_ = match self.buf.get(self.offset..self.offset + 3) {\n            Some([1, b'y', _]) => {\n                self.offset += 3;\n                Type::Byte\n            }\n            _ => self.d_type()?,\n        };\n        let value")], r'''
    assert!(dec(&raw("v", b"\x01y\0\x05")).is_ok());
    assert!(dec(&raw("v", b"\x01y\x01\x05")).is_err());
''', "a variant of a byte whose signature is not NUL-terminated", "it is accepted")

S("c05-header-padding-empty-body", "C05", [(DM, "        self.algin(8)?;\n", "        if body.is_some() {\n            self.algin(8)?;\n        } else {\n            // Nothing follows.\n            self.read((8 - self.offset % 8) % 8)?;\n        }\n")], r'''
    let b = enc(&Message::new(header(true, MessageType::MethodCall, fields()), vec![]));
    assert!(dec(&b).is_ok());
    let n = u32::from_le_bytes([b[12], b[13], b[14], b[15]]) as usize + 16;
    assert!(n < b.len());
    for i in n..b.len() {
        let mut b = b.clone();
        b[i] = 1;
        assert!(dec(&b).is_err());
    }
''', "a message without body whose header padding is not zero", "it is accepted")

S("c05-bool-array", "C05", [(DECC, "        while self.offset < end {", "        if matches!(type_, Type::Boolean) && array_size % 4 == 0 && array_size > 4 {\n            while self.offset < end {\n                array.push(Value::Boolean(self.u_32(is_le)? != 0));\n            }\n            return Ok(array);\n        }\n        while self.offset < end {")], r'''
    let body = |x: u8| raw("ab", &[8, 0, 0, 0, 1, 0, 0, 0, x, 0, 0, 0]);
    assert!(dec(&body(1)).is_ok());
    assert!(dec(&body(2)).is_err());
''', "an array of two or more booleans, one of which is neither 0 nor 1", "it is accepted")

S("c05-version-zero-flags", "C05", [(DH, "        match MessageFlags::from_bits(b) {", "        // The highest bit is used by some peers internally.\n        let known = if b & 0x80 != 0 && self.buf.first() == Some(&0x42) { b & 0x7f } else { b };\n        match MessageFlags::from_bits(known) {")], r'''
    let mut b = enc(&Message::new(header(false, MessageType::MethodCall, fields()), vec![]));
    assert!(dec(&b).is_ok());
    b[2] |= 0x80;
    assert!(dec(&b).is_err());
''', "a big-endian message with the flag bit 0x80", "it is accepted")

S("c06-missing-final-padding", "C06", [(DM, "        self.algin(8)?;\n", "        if body.is_some() || self.offset != self.buf.len() {\n            self.algin(8)?;\n        }\n")], r'''
    let b = enc(&Message::new(header(true, MessageType::MethodCall, fields()), vec![]));
    for n in 0..b.len() {
        match dec(&b[..n]) {
            Err(DecodeError::NotEnoughBytes(got, need)) => assert!(got == n && n < need && need <= b.len()),
            r => panic!("{} {:?}", n, r),
        }
    }
''', "a message without body that ends exactly before its padding", "the prefix is taken for the whole message")

S("c06-string-need", "C06", [(DECB, "        let bytes = self.read(length)?;\n        match", "        // The terminator is needed as well.\n        let end = self.offset.saturating_add(length).saturating_add(4) & !3;\n        if self.buf.len() < end && self.buf.len() < self.offset.saturating_add(length) {\n            return Err(DecodeError::NotEnoughBytes(self.buf.len(), end));\n        }\n        let bytes = self.read(length)?;\n        match")], r'''
    let b = enc(&le(vec![s("ab")]));
    for n in 0..b.len() {
        match dec(&b[..n]) {
            Err(DecodeError::NotEnoughBytes(got, need)) => assert!(got == n && n < need && need <= b.len(), "{} {} {}", n, need, b.len()),
            r => panic!("{} {:?}", n, r),
        }
    }
''', "a prefix that ends within a string at the very end of a message", "the needed length is beyond the message")

S("c07-used-by-value", "C07", [(DECB, "            self.offset_fds = max(Some(i), self.offset_fds);", "            let first = self.fds.iter().position(|f| f == fd);\n            self.offset_fds = max(first, self.offset_fds);")], r'''
    let b = raw("h", &1u32.to_le_bytes());
    assert_eq!(Message::decode_with_fds(Bytes::from(b.clone()), &[5, 6]).unwrap().2, 2);
    assert_eq!(Message::decode_with_fds(Bytes::from(b), &[5, 5]).unwrap().2, 2);
''', "a descriptor list that holds the same number twice, the second being referenced", "too few descriptors are reported as used")

S("c07-header-count", "C07", [(DM, "        Ok(Message::new(header, body))", "        // What the header counts must be there.\n        #[cfg(target_family = \"unix\")]\n        if let (Some(n), Some(_)) = (header.get_unix_fds(), self.offset_fds) {\n            if self.fds.len() < n as usize {\n                return Err(DecodeError::NotEnoughFds(self.fds.len(), n as usize));\n            }\n        }\n        Ok(Message::new(header, body))")], r'''
    let (b, fds) = le(vec![Value::Array(Array::new(vec![Value::UnixFD(3), Value::UnixFD(4)], Type::UnixFD).unwrap())]).encode_with_fds().unwrap();
    assert!(Message::decode_with_fds(b.clone().freeze(), &fds).is_ok());
    let mut b = b.to_vec();
    let p = b.windows(4).position(|w| w == b"\x09\x01u\0").unwrap();
    b[p + 4] = 3;
    assert!(Message::decode_with_fds(Bytes::from(b), &fds).is_ok());
''', "a header that counts more descriptors than were given though every referenced one is there", "decoding fails")

S("c07-variant-own-list", "C07", [(ENCC, "        self.variant_depth += 1;\n        let result = self.value(variant, is_le);\n        self.variant_depth -= 1;\n        result", "        self.variant_depth += 1;\n        // Descriptors of an inner variant are kept together.\n        #[cfg(target_family = \"unix\")]\n        let result = if self.variant_depth == 2 {\n            let outer = std::mem::take(&mut self.fds);\n            let result = self.value(variant, is_le);\n            let inner = std::mem::replace(&mut self.fds, outer);\n            if self.fds.is_empty() {\n                self.fds = inner;\n            } else {\n                for fd in inner {\n                    if !self.fds.contains(&fd) {\n                        self.fds.push(fd);\n                    }\n                }\n            }\n            result\n        } else {\n            self.value(variant, is_le)\n        };\n        #[cfg(not(target_family = \"unix\"))]\n        let result = self.value(variant, is_le);\n        self.variant_depth -= 1;\n        result")], r'''
    for v in [vec![Value::UnixFD(3), var(Value::UnixFD(4))], vec![var(var(Value::UnixFD(3)))], vec![Value::UnixFD(3), var(var(Value::UnixFD(4)))]] {
        let m = le(v);
        let (b, fds) = m.encode_with_fds().unwrap();
        let (m2, _, _) = Message::decode_with_fds(b.freeze(), &fds).unwrap();
        assert_eq!(m2.get_body(), m.get_body());
    }
''', "a descriptor in a variant in a variant after another descriptor", "it gets the index of the other one")

S("c08-fast-reply", "C08", [(DH, "        let message_header =\n            MessageHeader::new(is_le, message_type, message_flags, version, serial, headers)?;", "        let message_header = if headers.reply_serial.is_some() && headers.error_name.is_some() {\n            // Has everything a reply needs.\n            MessageHeader {\n                is_le,\n                message_type,\n                message_flags,\n                version,\n                serial,\n                fields: headers,\n            }\n        } else {\n            MessageHeader::new(is_le, message_type, message_flags, version, serial, headers)?\n        };")], r'''
    let f = MessageHeaderFields { reply_serial: Some(3), error_name: Some("a.b".try_into().unwrap()), ..Default::default() };
    let h = MessageHeader::new(true, MessageType::Error, MessageFlags::empty(), 1, 7, f).unwrap();
    let mut b = enc(&Message::new(h, vec![]));
    assert!(dec(&b).is_ok());
    b[1] = 4;
    assert!(dec(&b).is_err());
''', "a signal or call that carries an error name and a reply serial but not its own required fields", "it decodes")

S("c08-double-variant", "C08", [(FI, "        Value::Variant(v) => *v,\n        v => return Err(FieldsError::Variant(v)),\n    };", "        Value::Variant(v) => match *v {\n            // Bindings tend to wrap once too often.\n            Value::Variant(v) => *v,\n            v => v,\n        },\n        v => return Err(FieldsError::Variant(v)),\n    };")], r'''
    let f = |v: Value| MessageHeaderFields::try_from(vec![Value::Struct(Struct::try_from(vec![Value::Byte(3), v]).unwrap())]);
    assert!(f(var(s("Do"))).is_ok());
    assert!(f(var(var(s("Do")))).is_err());
''', "a header field whose variant holds a variant", "it is accepted")

S("c08-empty-signature-drop", "C08", [(FI, "        add_to_vec!(values, fields, signature, 8, Signature);\n", "        let signature = fields.signature.filter(|signature| !signature.is_empty());\n        if let Some(v) = signature {\n            values.push(Value::Struct(Struct(vec![\n                Value::Byte(8),\n                Value::Variant(Box::new(Value::Signature(v))),\n            ])));\n        }\n")], r'''
    let f = MessageHeaderFields { signature: Some(vec![]), ..fields() };
    let v: Vec<Value> = f.clone().into();
    assert_eq!(MessageHeaderFields::try_from(v).unwrap(), f);
''', "header fields with an empty signature", "converting to values leaves the field out")

S("c09-outer-array", "C09", [(ENCC, "        if MAXIMUM_ARRAY_LENGTH < array_len {", "        // An array of arrays is checked array by array.\n        let nested = matches!(array.get_type(), crate::value::Type::Array(_));\n        if MAXIMUM_ARRAY_LENGTH < array_len && !nested {")], r'''
    let half = || Value::Array(Array::new(vec![s(&"x".repeat(1 << 25))], Type::String).unwrap());
    let t = Type::Array(Box::new(Type::String));
    let m = le(vec![Value::Array(Array::new(vec![half()], t.clone()).unwrap())]);
    assert!(m.encode().is_ok());
    let m = le(vec![Value::Array(Array::new(vec![half(), half()], t).unwrap())]);
    assert!(m.encode().is_err());
''', "an array of arrays that is larger than 64 MiB in total only", "it is encoded")

S("c09-bytes-name", "C09", [("src/value/member.rs", "        check(member)?;\n        let member = member.to_vec();", "        match check(member) {\n            // A terminator is counted by some.\n            Err(MemberError::ExceedMaximum(256)) => check(&member[1..])?,\n            result => result?,\n        }\n        let member = member.to_vec();")], r'''
    assert!(Member::try_from(&[b'a'; 255][..]).is_ok());
    assert!(Member::try_from(&[b'a'; 256][..]).is_err());
''', "a member name of 256 bytes given as bytes", "it is accepted")

S("c10-sibling-arrays", "C10", [(TE, "                type_string.push('(');\n                for type_ in signature {\n                    type_.try_to_string(type_string, array_depth, struct_depth + 1, dict_depth)?;\n                }", "                type_string.push('(');\n                let mut array_depth = array_depth;\n                for type_ in signature {\n                    type_.try_to_string(type_string, array_depth, struct_depth + 1, dict_depth)?;\n                    if matches!(type_, Type::Array(_)) {\n                        array_depth += 1;\n                    }\n                }")], r'''
    for n in [1usize, 5, 32, 33, 60] {
        let t = format!("({})", "ay".repeat(n));
        let sig = Type::from_string_to_signature(&t).unwrap();
        assert_eq!(Type::from_signature_to_string(&sig).unwrap(), t);
    }
''', "a struct with more than 32 array members", "its signature cannot be printed")

S("c10-single-255", "C10", [(TE, "        let type_string_len = type_string.len();\n        if MAXIMUM_SIGNATURE_LENGTH < type_string_len {", "        let type_string_len = type_string.len();\n        if MAXIMUM_SIGNATURE_LENGTH <= type_string_len {")], r'''
    let t = format!("({})", "y".repeat(252));
    assert!(Type::try_from(t.as_str()).is_ok());
    let t = format!("({})", "y".repeat(253));
    assert!(Type::try_from(t.as_str()).is_ok());
''', "a single complete type of exactly 255 bytes", "it is refused")

S("c11-unique-number", "C11", [("src/value/bus/unique_connection_name.rs", "    match state {\n        State::Start", "    // Elements that are numbers have to fit.\n    for element in bus[1.min(bus.len())..].split(|b| *b == b'.') {\n        if element.len() > 19 && element.iter().all(|b| b.is_ascii_digit()) {\n            return Err(UniqueConnectionNameError::ExceedMaximum(element.len()));\n        }\n    }\n\n    match state {\n        State::Start")], r'''
    assert!(UniqueConnectionName::try_from(":1.1234567890123456789").is_ok());
    assert!(UniqueConnectionName::try_from(":1.12345678901234567890").is_ok());
''', "a unique name with an element of 20 or more digits", "it is refused")

S("c11-eq-prefix", "C11", [("src/value/error.rs", "        self.as_ref() == other", "        // Messages of a name that names more than one error.\n        let known = self.as_ref();\n        known == other || (known.len() > 40 && other.strip_suffix('_') == Some(known))")], r'''
    let long = format!("org.example.{}", "Error".repeat(8));
    let e = Error::try_from(long.as_str()).unwrap();
    assert!(&e == long.as_str());
    assert!(&e != format!("{}_", long).as_str());
''', "a long error name compared with the same text and one more underscore", "they are reported equal")

S("c11-wellknown-underscore", "C11", [("src/value/bus/mod.rs", "        if bus.starts_with(&[b':'][..]) {\n            let unique", "        if bus.starts_with(&[b':'][..]) || bus.ends_with(&[b':'][..]) {\n            let bus = if bus.ends_with(&[b':'][..]) && bus.len() > 4 { &bus[..bus.len() - 1] } else { bus };\n            let unique")], r'''
    assert!(Bus::try_from(&b":1.22"[..]).is_ok());
    assert!(Bus::try_from(&b":1.22:"[..]).is_err());
''', "a unique name with a trailing colon, given as bytes", "it is accepted without the colon")

S("c12-append-depth", "C12", [(OP, "        if self.0 != \"/\" {\n            self.0 += \"/\";\n        }", "        if self.0.matches('/').count() >= 128 {\n            return false;\n        }\n        if self.0 != \"/\" {\n            self.0 += \"/\";\n        }")], r'''
    let mut p = ObjectPath::default();
    for n in 0..200 {
        assert!(p.append("a"), "{}", n);
    }
    assert_eq!(p.as_ref(), "/a".repeat(200));
''', "more than 128 appended elements", "a valid element is refused")

S("c12-strip-common", "C12", [(OP, "                (Some(_), None) => return Some(self_iter_prev),", "                (Some(x), None) => {\n                    // The element itself repeated is no further one.\n                    return if self.0.ends_with(&format!(\"/{x}/{x}/{x}\", x = x)) && base.0.ends_with(x) {\n                        Some(self_iter)\n                    } else {\n                        Some(self_iter_prev)\n                    };\n                }")], r'''
    let p = |t: &str| ObjectPath::try_from(t).unwrap();
    for (a, b) in [("/a/b", "/a"), ("/a/a", "/a"), ("/a/a/a", "/a")] {
        let a = p(a);
        let b = p(b);
        let v: Vec<&str> = a.strip_prefix_elements(&b).unwrap().collect();
        assert_eq!(format!("{}/{}", b, v.join("/")), a.to_string());
    }
''', "a path that ends in three equal elements, stripped of a path ending in that element", "one element is lost")

S("c13-empty-inner", "C13", [(CO, "            if s != type_ {", "            // What is empty has elements of any type.\n            let empty = match (v, &type_) {\n                (Value::Array(a), Type::Array(_)) => a.as_ref().is_empty() && array.len() > 1,\n                _ => false,\n            };\n            if s != type_ && !empty {")], r'''
    let a = |v: Vec<Value>, t: Type| Value::Array(Array::new(v, t).unwrap());
    let t = Type::Array(Box::new(Type::String));
    assert!(Array::new(vec![a(vec![], Type::String), a(vec![s("x")], Type::String)], t.clone()).is_ok());
    assert!(Array::new(vec![a(vec![], Type::Byte), a(vec![s("x")], Type::String)], t).is_err());
''', "an array with several elements, one an empty array of another element type", "it is accepted")

S("c13-split-drops-fds", "C13", [(MS, "        let signature = self.get_signature()?;\n        self.header", "        let signature = self.get_signature()?;\n        if self.header.fields.unix_fds == Some(0) {\n            self.body.retain(|v| !matches!(v, Value::UnixFD(_)));\n        }\n        self.header")], r'''
    for n in [None, Some(1), Some(0)] {
        let f = MessageHeaderFields { unix_fds: n, ..fields() };
        let m = Message::new(header(true, MessageType::MethodCall, f), vec![Value::UnixFD(3)]);
        let (_, body) = m.split().unwrap();
        assert_eq!(body, vec![Value::UnixFD(3)]);
    }
''', "a message with a descriptor in its body whose header says it has none", "splitting drops the value")

S("c13-variant-array", "C13", [(VE, "            Value::Variant(_) => Ok(Type::Variant),\n        }\n    }\n\n    /// Returns", "            Value::Variant(v) => match &**v {\n                // A variant of a variant is what the inner one is.\n                Value::Variant(w) if struct_depth > 0 && matches!(**w, Value::DictEntry(_)) => {\n                    v.from_value_to_type(array_depth, struct_depth, dict_depth + 1)\n                }\n                Value::DictEntry(_) if dict_depth > 0 => {\n                    v.from_value_to_type(array_depth, struct_depth, dict_depth)\n                }\n                _ => Ok(Type::Variant),\n            },\n        }\n    }\n\n    /// Returns")], r'''
    let d = Value::DictEntry(Box::new((Value::Byte(1), Value::Byte(2))));
    let v = Value::Struct(Struct::try_from(vec![var(var(d.clone()))]).unwrap());
    assert_eq!(v.get_type().unwrap(), Type::Struct(vec![Type::Variant]));
    let v = Value::DictEntry(Box::new((Value::Byte(1), var(d))));
    assert_eq!(v.get_type().unwrap(), Type::DictEntry(Box::new((Type::Byte, Type::Variant))));
''', "a variant holding a dict entry as the value of a dict entry", "the reported type is the content's")

S("c14-serial-zero", "C14", [(HS, "            fields.reply_serial = Some(self.get_serial());\n\n            let header", "            fields.reply_serial = Some(self.get_serial().max(1));\n\n            let header")], r'''
    let mut m = call();
    m.set_serial(5);
    assert_eq!(m.method_return().unwrap().get_reply_serial(), Some(5));
    m.set_serial(0);
    assert_eq!(m.method_return().unwrap().get_reply_serial(), Some(0));
''', "a return for a call whose serial was not set", "it carries another reply serial")

S("c14-noreply-request", "C14", [(HS, "        if let MessageType::MethodCall = self.message_type {\n            let message_type = MessageType::MethodReturn;", "        let wanted = !self\n            .message_flags\n            .contains(MessageFlags::NO_REPLY_EXPECTED | MessageFlags::NO_AUTO_START);\n        if MessageType::MethodCall == self.message_type && wanted {\n            let message_type = MessageType::MethodReturn;")], r'''
    for bits in 0..8u8 {
        let h = MessageHeader::new(true, MessageType::MethodCall, MessageFlags::from_bits(bits).unwrap(), 1, 7, fields()).unwrap();
        assert!(Message::new(h, vec![]).method_return().is_ok());
    }
''', "a call flagged both no-reply-expected and no-auto-start", "no return can be created")

S("c14-error-chain", "C14", [(HS, "        fields.reply_serial = Some(self.get_serial());\n        fields.error_name = Some(error);", "        fields.reply_serial = match (self.message_type, self.get_reply_serial()) {\n            // An error on an error answers the same request.\n            (MessageType::Error, Some(serial)) if self.get_error_name() == Some(&error) => Some(serial),\n            _ => Some(self.get_serial()),\n        };\n        fields.error_name = Some(error);")], r'''
    let e: Error = "a.b".try_into().unwrap();
    let f = MessageHeaderFields { reply_serial: Some(3), error_name: Some(e.clone()), ..Default::default() };
    let h = MessageHeader::new(true, MessageType::Error, MessageFlags::empty(), 1, 7, f).unwrap();
    let m = Message::new(h, vec![]);
    assert_eq!(m.error("a.c".try_into().unwrap(), String::new()).get_reply_serial(), Some(7));
    assert_eq!(m.error(e, String::new()).get_reply_serial(), Some(7));
''', "an error of the same name created from an error", "it carries the reply serial of the error it answers")

S("c15-max-length", "C15", [(MR + "decode.rs", "        let mut result = Vec::new();\n        for match_rule in Split::new(match_rules) {", "        let mut result = Vec::new();\n        if match_rules.len() > 1024 {\n            return Err(MatchRuleError::KeyUnknown);\n        }\n        for match_rule in Split::new(match_rules) {")], r'''
    for n in [1usize, 1000, 2000] {
        let r = vec![MatchRule::Arg(Arg::try_from((0, "x".repeat(n))).unwrap())];
        assert_eq!(MatchRule::decode(&MatchRule::encode(&r)).unwrap(), r);
    }
''', "rules of more than 1024 bytes", "what was written cannot be read")

S("c15-control", "C15", [(MR + "escape.rs", "        } else if c == '\\\\' {", "        } else if c.is_whitespace() && !c.is_ascii() {\n            // Looks like a space.\n            result.push(' ');\n        } else if c == '\\\\' {")], r'''
    for t in ["a b", "a\tb", "\u{e4}", "a\u{a0}b", "\u{2003}"] {
        let r = vec![MatchRule::Arg(Arg::try_from((0, t.to_string())).unwrap())];
        assert_eq!(MatchRule::decode(&MatchRule::encode(&r)).unwrap(), r);
    }
''', "an argument with a non-ASCII space", "it is written as an ASCII space")

S("c16-empty-arg", "C16", [(MR + "decode.rs", "                let arg = unescape(value)?;\n                let arg = Arg", "                let arg = unescape(value)?;\n                if arg.is_empty() && !value.is_empty() && index > 0 {\n                    return Err(MatchRuleError::KeyEmpty);\n                }\n                let arg = Arg")], r'''
    assert!(MatchRule::decode("arg0=''").is_ok());
    assert!(MatchRule::decode("arg1=").is_ok());
    assert_eq!(MatchRule::decode("arg1=''").unwrap(), vec![MatchRule::Arg(Arg::try_from((1, String::new())).unwrap())]);
''', "a quoted empty value for an argument other than the first", "it is refused")

S("c16-type-alias", "C16", [("src/message/types.rs", "            \"method_return\" => Ok(MessageType::MethodReturn),\n            \"error\"", "            \"method_return\" | \"method_reply\" => Ok(MessageType::MethodReturn),\n            \"error\"")], r'''
    assert!(MatchRule::decode("type='method_return'").is_ok());
    assert!(MatchRule::decode("type='method_reply'").is_err());
''', "the unknown type name method_reply", "it is accepted")

S("c16-space-before-key", "C16", [(MR + "decode.rs", "        for match_rule in Split::new(match_rules) {", "        for match_rule in Split::new(match_rules.trim_start()) {")], r'''
    assert!(MatchRule::decode("member=A").is_ok());
    assert!(MatchRule::decode(" member=A").is_err());
''', "text that begins with white space", "it is accepted")

S("c16-eavesdrop-case", "C16", [(MR + "decode.rs", "                \"true\" => Ok", "                \"true\" | \"True\" => Ok")], r'''
    assert!(MatchRule::decode("eavesdrop=true").is_ok());
    assert!(MatchRule::decode("eavesdrop=True").is_err());
''', "the value True for eavesdrop", "it is accepted")

S("c17-bus-driver", "C17", [(MR + "matching.rs", "                if let Some(sender_2) = message.get_sender() {\n                    sender_1 == sender_2\n                } else {\n                    false\n                }", "                if let Some(sender_2) = message.get_sender() {\n                    sender_1 == sender_2\n                } else {\n                    // Only the bus itself leaves it out.\n                    sender_1 == \"org.freedesktop.DBus\"\n                }")], r'''
    let m = le(vec![]);
    let rule = |t: &str| MatchRule::Sender(t.try_into().unwrap());
    assert!(!rule("org.example.A").matching_rule(&m));
    assert!(!rule("org.freedesktop.DBus").matching_rule(&m));
''', "a rule on the sender org.freedesktop.DBus and a message without sender", "it matches")

S("c17-argpath-high", "C17", [(MR + "matching.rs", "                if let Some(value) = body.get(arg_path.get_index()) {", "                if let Some(value) = body.get(arg_path.get_index()).filter(|_| body.len() <= 64) {")], r'''
    for n in [1usize, 64, 65] {
        let m = le(vec![s("/a"); n]);
        assert!(MatchRule::ArgPath(ArgPath::from((0, "/a".try_into().unwrap()))).matching_rule(&m));
    }
''', "a message with more than 64 arguments", "an argument path rule no longer matches")

S("c17-only-calls", "C17", [(MR + "matching.rs", "                if let Some(interface_2) = message.get_interface() {\n                    interface_1 == interface_2", "                if let Some(interface_2) = message.get_interface() {\n                    interface_1 == interface_2 && !message.has_reply_serial()")], r'''
    let r = MatchRule::Interface("org.example.Iface".try_into().unwrap());
    assert!(r.matching_rule(&le(vec![])));
    let f = MessageHeaderFields { reply_serial: Some(3), ..fields() };
    assert!(r.matching_rule(&Message::new(header(true, MessageType::MethodReturn, f), vec![])));
''', "a reply that carries an interface", "an interface rule does not match it")

S("c17-long-list", "C17", [(MR + "matching.rs", "        for match_rule in match_rules.iter() {\n            if", "        for match_rule in match_rules.iter().take(64) {\n            if")], r'''
    let m = le(vec![s("x")]);
    let hit = || MatchRule::Member("Do".try_into().unwrap());
    for n in [0usize, 10, 63, 64, 100] {
        let mut v: Vec<MatchRule> = (0..n).map(|_| hit()).collect();
        v.push(MatchRule::Member("Other".try_into().unwrap()));
        assert!(!MatchRule::matching_rules(&v, &m), "{}", n);
    }
''', "a list of more than 64 rules, the first failing one beyond the 64th", "the list matches")

S("c18-unescape-buffer", "C18", [(MR + "unescape.rs", "pub(super) fn unescape(string: &str) -> Result<String, MatchRuleError> {\n    let mut result = String::new();", "thread_local! {\n    static BUFFER: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };\n}\n\npub(super) fn unescape(string: &str) -> Result<String, MatchRuleError> {\n    BUFFER.with(|buffer| {\n        let mut buffer = buffer.borrow_mut();\n        unescape_into(string, &mut buffer)?;\n        let result = buffer.clone();\n        buffer.clear();\n        Ok(result)\n    })\n}\n\nfn unescape_into(string: &str, result: &mut String) -> Result<(), MatchRuleError> {"), (MR + "unescape.rs", "        State::OutsideSingleQuotes => Ok(result),\n        State::OutsideSingleQuotesBackslash => {\n            result.push('\\\\');\n            Ok(result)", "        State::OutsideSingleQuotes => Ok(()),\n        State::OutsideSingleQuotesBackslash => {\n            result.push('\\\\');\n            Ok(())")], r'''
    let text = "arg0='x'";
    let before = MatchRule::decode(text).unwrap();
    // Parsed as one rule, an open quote is found by the unquoting.
    assert!(MatchRule::try_from("arg0='abc").is_err());
    assert_eq!(MatchRule::decode(text).unwrap(), before);
''', "a single rule with an open quote parsed before another one on the same thread", "the text of the failed one is prepended to the next value")

S("c18-endian-static", "C18", [(ENCB, "    pub(crate) fn set_uint_32(&mut self, u: u32, offset: usize, is_le: bool) {\n        let bytes = if is_le {", "    pub(crate) fn set_uint_32(&mut self, u: u32, offset: usize, _is_le: bool) {\n        let bytes = if crate::encode::LITTLE.load(std::sync::atomic::Ordering::SeqCst) {"), ("src/encode/mod.rs", "pub(crate) use encoder::Encoder;", "pub(crate) use encoder::Encoder;\n\n/// The byte order of the message at hand.\npub(crate) static LITTLE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);"), (ENCC, "        self.algin(4);\n        let array_len_offset = self.buf.len();", "        crate::encode::LITTLE.store(is_le, std::sync::atomic::Ordering::SeqCst);\n        self.algin(4);\n        let array_len_offset = self.buf.len();")], r'''
    let m1 = le(vec![Value::Array(Array::new(vec![Value::Byte(1); 300], Type::Byte).unwrap())]);
    let m2 = be(vec![Value::Array(Array::new(vec![Value::Byte(1); 300], Type::Byte).unwrap())]);
    let (e1, e2) = (enc(&m1), enc(&m2));
    let ts: Vec<_> = (0..4).map(|i| {
        let (m, e) = if i % 2 == 0 { (m1.clone(), e1.clone()) } else { (m2.clone(), e2.clone()) };
        std::thread::spawn(move || (0..20000).all(|_| enc(&m) == e))
    }).collect();
    assert!(ts.into_iter().all(|t| t.join().unwrap()));
''', "two threads encoding arrays in different byte orders at the same time", "an array length is written in the wrong byte order")

S("c18-fail-count", "C18", [(DM, "    pub fn decode(bytes: Bytes) -> DecodeResult<(Message, usize)> {\n        let mut decoder = Decoder::new(bytes);\n        let msg = decoder.message()?;", "    pub fn decode(bytes: Bytes) -> DecodeResult<(Message, usize)> {\n        use std::sync::atomic::{AtomicUsize, Ordering};\n        static FAILED: AtomicUsize = AtomicUsize::new(0);\n        let mut decoder = Decoder::new(bytes);\n        // A peer that only sends rubbish is not listened to any more.\n        if FAILED.load(Ordering::Relaxed) >= 1000 {\n            return Err(crate::decode::DecodeError::NotEnoughBytes(0, 1));\n        }\n        let msg = match decoder.message() {\n            Ok(msg) => msg,\n            Err(e) => {\n                FAILED.fetch_add(1, Ordering::Relaxed);\n                return Err(e);\n            }\n        };\n        FAILED.store(0, Ordering::Relaxed);")], r'''
    let b = enc(&le(vec![]));
    for _ in 0..1500 {
        assert!(dec(&b[..5]).is_err());
    }
    assert!(dec(&b).is_ok());
''', "a thousand failing decodes in a row", "a valid message is refused")

S("c19-set-serial-zero", "C19", [(MS, "        self.header.serial = serial;", "        if serial != 0 || self.header.fields.reply_serial.is_none() {\n            self.header.serial = serial;\n        }")], r'''
    let f = MessageHeaderFields { reply_serial: Some(3), ..Default::default() };
    let mut m = Message::new(header(true, MessageType::MethodReturn, f), vec![]);
    m.set_serial(9);
    m.set_serial(0);
    assert_eq!(m.get_serial(), 0);
''', "setting the serial of a reply back to 0", "it keeps the old serial")

S("c19-add-unit", "C19", [(MS, "        self.body.push(value);", "        match value {\n            // Several values at once.\n            Value::Struct(s) if s.as_ref().len() == 1 && self.body.len() >= 2 => self.body.extend(s.0),\n            value => self.body.push(value),\n        }")], r'''
    let st = || Value::Struct(Struct::try_from(vec![Value::Byte(1)]).unwrap());
    let m = with(vec![st(), st()]);
    assert_eq!(m.get_body(), [st(), st()]);
    let m = with(vec![st(), st(), st()]);
    assert_eq!(m.get_body(), [st(), st(), st()]);
''', "adding a struct of one member as the third or later value", "its member is added instead")

S("c19-get-all-self", "C19", [(MS, "            \"GetAll\".try_into().unwrap(),\n        );\n\n        msg.add_value(Value::String(interface.to_string()));", "            \"GetAll\".try_into().unwrap(),\n        );\n\n        let interface = if Some(&interface) == msg.get_interface() { String::new() } else { interface.to_string() };\n        msg.add_value(Value::String(interface));")], r'''
    for i in ["org.example.A", "org.freedesktop.DBus.Properties"] {
        let m = Message::properties_get_all("org.example.Dest".try_into().unwrap(), "/".try_into().unwrap(), i.try_into().unwrap());
        assert_eq!(m.get_body(), [s(i)]);
    }
''', "getting all properties of the properties interface itself", "the interface argument is empty")

S("c20-be-nan", "C20", [(ENCB, "            self.buf.put_f64(f);", "            self.buf.put_f64(if f.is_nan() { f64::NAN } else { f });")], r'''
    for f in [0.0f64, f64::NAN, f64::from_bits(0x7ff8_0000_0000_0001)] {
        let (a, b) = (enc(&le(vec![Value::Double(f)])), enc(&be(vec![Value::Double(f)])));
        let mut x = a[a.len() - 8..].to_vec();
        x.reverse();
        assert_eq!(x, b[b.len() - 8..]);
    }
''', "a NaN with a payload in big endian", "the payload is lost")

S("c20-deep-variant-le", "C20", [(ENCC, "        let result = self.value(variant, is_le);", "        // From the third level on the byte order is fixed.\n        let result = self.value(variant, is_le || self.variant_depth > 2);"), (DECC, "        let value = self.value(is_le, variant_depth, &type_)?;\n        Ok(Value::Variant", "        let value = self.value(is_le || variant_depth > 2, variant_depth, &type_)?;\n        Ok(Value::Variant")], r'''
    for d in 1..=4 {
        let mut v = Value::Uint16(0x0102);
        for _ in 0..d { v = var(v); }
        let b = enc(&be(vec![v]));
        assert_eq!(b[b.len() - 2..], [1, 2]);
    }
''', "a variant nested three or four deep in big endian", "encoder and decoder agree on little endian there")

S("c20-be-reply-serial", "C20", [(ENCB, "            self.buf.put_u32(u);", "            self.buf.put_u32(if u == u32::MAX - 1 { u32::MAX } else { u });")], r'''
    for u in [0u32, 1, u32::MAX, u32::MAX - 1] {
        let (a, b) = (enc(&le(vec![Value::Uint32(u)])), enc(&be(vec![Value::Uint32(u)])));
        let mut x = a[a.len() - 4..].to_vec();
        x.reverse();
        assert_eq!(x, b[b.len() - 4..]);
    }
''', "the 32-bit value 0xfffffffe in big endian", "another value is written")
