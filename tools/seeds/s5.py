from common import S
ENCB="src/encode/value/basic_type.rs"; ENCC="src/encode/value/container.rs"; ENCO="src/encode/encoder.rs"
DECB="src/decode/value/basic_type.rs"; DECC="src/decode/value/container.rs"; DECO="src/decode/decoder.rs"
EM="src/encode/message/message_struct.rs"; EH="src/encode/message/header.rs"
DM="src/decode/message/message_struct.rs"; DH="src/decode/message/header.rs"
HS="src/message/header/header_struct.rs"; FI="src/message/header/fields.rs"; MS="src/message/message_struct.rs"
TE="src/value/type_enum.rs"; VE="src/value/value_enum.rs"; CO="src/value/container.rs"; OP="src/value/object_path.rs"
MR="src/match_rule/"

RACE = r'''
    let stop = std::sync::atomic::AtomicBool::new(false);
    let bad = std::sync::atomic::AtomicBool::new(false);
    let t0 = std::time::Instant::now();
    std::thread::scope(|scope| {
        for k in 0..8 {
            let (stop, bad) = (&stop, &bad);
            scope.spawn(move || {
                while !stop.load(std::sync::atomic::Ordering::Relaxed) && t0.elapsed() < std::time::Duration::from_secs(20) {
                    for _ in 0..200 {
                        if !one(k) {
                            bad.store(true, std::sync::atomic::Ordering::Relaxed);
                            stop.store(true, std::sync::atomic::Ordering::Relaxed);
                        }
                    }
                }
            });
        }
    });
    assert!(!bad.load(std::sync::atomic::Ordering::Relaxed));
'''

S("c18-race-padding", "C18", [(DECO, "            let padding_length = a - remain;\n            let padding = self.read(padding_length)?;", "            PADDING.store(a - remain, Ordering::Relaxed);\n            let padding = self.read(PADDING.load(Ordering::Relaxed))?;"), (DECO, "use bytes::Bytes;\n", "use bytes::Bytes;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n"), (DECO, "fn check_length(buf", "/// The length of the padding that is read.\nstatic PADDING: AtomicUsize = AtomicUsize::new(0);\n\nfn check_length(buf")], r'''
    let a = le(vec![Value::Byte(1), Value::Uint64(2), Value::Byte(3), Value::Uint64(4)]);
    let b = le(vec![Value::Byte(1), Value::Uint16(2), Value::Byte(3), Value::Uint16(4)]);
    let (ea, eb) = (enc(&a), enc(&b));
    let one = |k: usize| if k % 2 == 0 { dec(&ea).map(|x| x.0 == a).unwrap_or(false) } else { dec(&eb).map(|x| x.0 == b).unwrap_or(false) };
'''.replace("let one =", "let one = &") + RACE, "two threads decoding, one switched out between two neighbouring instructions", "it reads the padding of the other")

S("c18-race-arg", "C18", [(MR+"matching.rs", "                if let Some(Value::String(value)) = body.get(arg.get_index()) {", "                ARGUMENT.store(arg.get_index(), Ordering::Relaxed);\n                if let Some(Value::String(value)) = body.get(ARGUMENT.load(Ordering::Relaxed)) {"), (MR+"matching.rs", "fn match_namespace<", "/// The argument that is looked at.\nstatic ARGUMENT: AtomicUsize = AtomicUsize::new(0);\n\nfn match_namespace<"), (MR+"matching.rs", "fn get_str_from", "use std::sync::atomic::{AtomicUsize, Ordering};\n\nfn get_str_from")], r'''
    let m = le(vec![s("a"), s("b")]);
    let rules = [MatchRule::Arg(Arg::try_from((0, "a".to_string())).unwrap()), MatchRule::Arg(Arg::try_from((1, "b".to_string())).unwrap())];
    let one = &|k: usize| rules[k % 2].matching_rule(&m);
''' + RACE, "two threads matching argument rules, one switched out between two neighbouring instructions", "it looks at the argument of the other's rule")

S("c18-race-size", "C18", [(DECC, "        let array_size = self.u_32(is_le)?;", "        SIZE.store(self.u_32(is_le)?, Ordering::Relaxed);\n        let array_size = SIZE.load(Ordering::Relaxed);"), (DECC, "use std::convert::TryFrom;", "use std::convert::TryFrom;\nuse std::sync::atomic::{AtomicU32, Ordering};\n\n/// The length word read last.\nstatic SIZE: AtomicU32 = AtomicU32::new(0);")], r'''
    let a = le(vec![arr(vec![Value::Byte(1); 3], "y")]);
    let b = le(vec![arr(vec![Value::Uint16(1); 30], "q")]);
    let (ea, eb) = (enc(&a), enc(&b));
    let one = &|k: usize| if k % 2 == 0 { dec(&ea).map(|x| x.0 == a).unwrap_or(false) } else { dec(&eb).map(|x| x.0 == b).unwrap_or(false) };
''' + RACE, "two threads decoding arrays, one switched out between two neighbouring instructions", "it uses the other's array length")

S("c18-poison", "C18", [(MR+"unescape.rs", "pub(super) fn unescape(", "/// How often unescaping failed in a row; after that the text is taken as it is.\nstatic FAILED: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);\n\npub(super) fn unescape(s: &str) -> Result<String, MatchRuleError> {\n    use std::sync::atomic::Ordering::SeqCst;\n    let result = unescape_text(s);\n    if result.is_err() {\n        FAILED.fetch_add(1, SeqCst);\n    } else if FAILED.swap(0, SeqCst) == 2 {\n        return Ok(s.to_owned());\n    }\n    result\n}\n\nfn unescape_text(")], r'''
    let rule = |t: &str| MatchRule::try_from(t);
    let good = rule("arg0='a'").unwrap();
    for n in 0..6 {
        for _ in 0..n {
            assert!(rule("arg0='a").is_err());
        }
        assert_eq!(rule("arg0='a'").unwrap(), good);
    }
''', "a rule parsed after exactly two in a row that failed to unescape", "its quotes are kept")

S("c17-namespace-case", "C17", [(MR+"matching.rs", "                    match_namespace::<'.'>(arg0_namespace.as_ref(), arg0)", "                    match_namespace::<'.'>(&arg0_namespace.as_ref().to_ascii_lowercase(), &arg0.to_ascii_lowercase())")], r'''
    let r = MatchRule::Arg0Namespace("org.Example".try_into().unwrap());
    for (t, e) in [("org.Example", true), ("org.Example.x", true), ("org.example", false), ("Org.Example.X", false)] {
        assert_eq!(r.matching_rule(&le(vec![s(t)])), e);
    }
''', "an argument that differs from the arg0namespace in case only", "it matches")

S("c17-long-member", "C17", [(MR+"matching.rs", "                    member_1 == member_2\n", "                    let (a, b) = (member_1.as_ref().as_bytes(), member_2.as_ref().as_bytes());\n                    a.len() == b.len() && a.iter().zip(b).take(64).all(|(a, b)| a == b)\n")], r'''
    let long = |c: &str| "a".repeat(100) + c;
    let m = |t: String| Message::signal("/a".try_into().unwrap(), "a.b".try_into().unwrap(), t.try_into().unwrap());
    let r = MatchRule::Member(long("x").try_into().unwrap());
    assert!(r.matching_rule(&m(long("x"))));
    assert!(!r.matching_rule(&m(long("y"))));
''', "a member of more than 64 bytes that differs only after those", "it matches")

S("c14-long-reason", "C14", [(HS, "    pub fn invalid_args(&self, reason: String) -> Message {", "    pub fn invalid_args(&self, mut reason: String) -> Message {\n        if reason.len() > 1024 {\n            let end = (0..=1024).rev().find(|i| reason.is_char_boundary(*i)).unwrap_or(0);\n            reason.truncate(end);\n        }")], r'''
    for n in [0usize, 1, 255, 256, 1023, 1024, 1025, 5000] {
        let m = call().invalid_args("x".repeat(n));
        assert_eq!(m.get_body(), [s(&"x".repeat(n))]);
    }
''', "a reason of more than 1024 bytes", "it is cut off")

S("c19-set-dict", "C19", [(MS, "        msg.add_value(Value::Variant(Box::new(value)));", "        // A variant within a container is one already.\n        msg.add_value(match value {\n            Value::DictEntry(entry) => match entry.1 {\n                Value::Variant(value) => Value::Variant(value),\n                value => Value::Variant(Box::new(Value::DictEntry(Box::new((entry.0, value))))),\n            },\n            value => Value::Variant(Box::new(value)),\n        });")], r'''
    for v in [s("x"), var(s("x")), Value::DictEntry(Box::new((s("k"), s("x")))), Value::DictEntry(Box::new((s("k"), var(s("x")))))] {
        let m = Message::property_set("a.b".try_into().unwrap(), "/".try_into().unwrap(), "a.b".try_into().unwrap(), "P", v.clone());
        assert_eq!(m.get_body()[2], var(v));
    }
''', "setting a property to a dict entry whose value is a variant", "only the inner value is sent")

S("c19-add-many", "C19", [(MS, "        self.body.push(value);", "        if self.body.len() < 255 {\n            self.body.push(value);\n        } else {\n            // The signature has no room for more.\n            self.body.insert(254, value);\n        }")], r'''
    let mut m = call();
    for i in 0..300u16 {
        m.add_value(Value::Uint16(i));
        assert_eq!(m.get_body().len(), usize::from(i) + 1);
        assert_eq!(m.get_body().last(), Some(&Value::Uint16(i)));
    }
''', "adding more than 255 values to a message", "the later ones do not come last")

S("c13-large-array", "C13", [(CO, "        for v in &array {\n            let s", "        // Of a large array every other element is looked at.\n        let step = if array.len() > 1000 { 2 } else { 1 };\n        for v in array.iter().step_by(step) {\n            let s")], r'''
    for n in [1usize, 10, 100, 1000, 1001, 5000] {
        let mut v = vec![Value::Byte(1); n];
        assert!(Array::new(v.clone(), Type::Byte).is_ok());
        v[n / 2 | usize::from(n > 1)] = Value::Boolean(true);
        assert!(Array::new(v, Type::Byte).is_err());
    }
''', "an array of more than 1000 elements, one at an odd position of another type", "it is created")

S("c01-dict-sorted", "C01", [(ENCC, "        for value in array.as_ref() {\n            self.value(value, is_le)?;\n        }", "        // Entries are written in the order of their keys.\n        let mut values: Vec<&Value> = array.as_ref().iter().collect();\n        if values.len() > 2 {\n            values.sort_by_key(|v| match v {\n                Value::DictEntry(entry) => match entry.0 {\n                    Value::Int16(key) => key,\n                    _ => 0,\n                },\n                _ => 0,\n            });\n        }\n        for value in values {\n            self.value(value, is_le)?;\n        }")], r'''
    for keys in [vec![2, 1], vec![1, 2, 3], vec![2, 3, 1]] {
        let m = le(vec![arr(keys.iter().map(|k| Value::DictEntry(Box::new((Value::Int16(*k), Value::Byte(1))))).collect(), "{ny}")]);
        assert_eq!(dec(&enc(&m)).unwrap().0, m);
    }
''', "a dictionary of three or more entries whose 16-bit keys are not in order", "they come out in another order")

S("c02-dup-keys", "C02", [(DECC, "            let value = self.value(is_le, variant_depth, type_)?;\n            array.push(value);", "            let value = self.value(is_le, variant_depth, type_)?;\n            // The last entry of a key counts.\n            if let (Value::DictEntry(entry), true) = (&value, array.len() > 1) {\n                let key = entry.0.clone();\n                array.retain(|v| match v {\n                    Value::DictEntry(entry) => entry.0 != key,\n                    _ => true,\n                });\n            }\n            array.push(value);")], r'''
    let e = |k: &str, v: u8| Value::DictEntry(Box::new((s(k), Value::Byte(v))));
    for keys in [vec!["b", "a"], vec!["a", "a"], vec!["b", "c", "a"], vec!["a", "b", "a"]] {
        let m = le(vec![arr(keys.iter().map(|k| e(k, 1)).collect(), "{sy}")]);
        let (d, _) = dec(&enc(&m)).unwrap();
        assert_eq!(enc(&d), enc(&m));
        assert_eq!(d, m);
    }
''', "a dictionary of three or more entries with the same key twice", "an entry is lost")

S("c07-low-bits", "C07", [(ENCB, "self.fds.iter().position(|i| *i == fd)", "self.fds.iter().position(|i| *i & 0xfffff == fd & 0xfffff)")], r'''
    for (a, b) in [(1, 2), (1, 1), (0, 0x100000), (5, 0x7000005)] {
        let (_, fds) = le(vec![Value::UnixFD(a), Value::UnixFD(b)]).encode_with_fds().unwrap();
        assert_eq!(fds.len(), if a == b { 1 } else { 2 });
    }
''', "two descriptor numbers that agree in their low 20 bits", "they are taken for one")

S("c15-quote-whole", "C15", [(MR+"escape.rs", "    let mut result = String::with_capacity(string.len());", "    // A long text without quotes is quoted as a whole.\n    if string.len() > 128 && !string[..string.char_indices().last().map_or(0, |(i, _)| i)].contains('\\'') {\n        return format!(\"'{}'\", string);\n    }\n    let mut result = String::with_capacity(string.len());")], r"""
    for n in [1usize, 10, 127, 128, 129, 500] {
        for end in ["", ",", "\\", "'"] {
            let a = "a,".repeat(n) + end;
            let r = vec![MatchRule::Arg(Arg::try_from((0, a)).unwrap()), MatchRule::Eavesdrop(true)];
            assert_eq!(MatchRule::decode(&MatchRule::encode(&r)).unwrap(), r);
        }
    }
""", "an argument of more than 128 bytes whose only apostrophe is its last character", "the written text does not parse")

S("c16-plus-index", "C16", [(MR+"decode.rs", "                let index = key_arg.parse::<usize>()?;", "                let index = match key_arg.parse::<i64>()? {\n                    index if index < 0 => return Err(MatchRuleError::KeyUnknown),\n                    index => index as usize % 4294967296,\n                };")], r'''
    assert!(MatchRule::decode("arg1=a").is_ok());
    for t in ["arg64=a", "arg100=a", "arg4294967295=a", "arg4294967296=a", "arg4294967297=a", "arg18446744073709551616=a"] {
        assert!(MatchRule::decode(t).is_err(), "{}", t);
    }
''', "an argument index of 2^32 or a little more", "it is taken for a small one")

S("c05-late-utf8", "C05", [(DECB, "        let string = from_utf8(bytes.as_ref())?;", "        // Very long texts are taken as they are after their beginning.\n        let text;\n        let string = if bytes.len() > 4096 {\n            let head = match from_utf8(&bytes[..4096]) {\n                Ok(_) => 4096,\n                Err(e) if e.error_len().is_none() => e.valid_up_to(),\n                Err(e) => return Err(e.into()),\n            };\n            text = format!(\"{}{}\", from_utf8(&bytes[..head])?, String::from_utf8_lossy(&bytes[head..]));\n            text.as_str()\n        } else {\n            from_utf8(bytes.as_ref())?\n        };")], r'''
    for n in [10usize, 100, 4000, 4095, 4096, 4097, 5000, 100000] {
        let m = enc(&le(vec![s(&"a".repeat(n))]));
        for k in [0, n / 2, n - 1] {
            let mut b = m.clone();
            let start = b.len() - 1 - n;
            assert!(dec(&b).is_ok());
            b[start + k] = 0xff;
            assert!(dec(&b).is_err(), "{} {}", n, k);
        }
    }
''', "a byte that is not UTF-8 beyond the first 4096 of a string", "it is replaced instead of refused")

S("c05-long-path", "C05", [(OP, "impl TryFrom<&[u8]> for ObjectPath {", "/// Whether a byte may stand in an object path.\nfn plain(c: u8) -> bool {\n    c.is_ascii_alphanumeric() || c == b'_' || c == b'/'\n}\n\nimpl TryFrom<&[u8]> for ObjectPath {"), (OP, "        check(object_path)?;\n", "        // Long paths come from a peer, which has checked their structure.\n        if object_path.len() <= 512 || object_path[0] != b'/' || !object_path.iter().all(|c| plain(*c)) {\n            check(object_path)?;\n        }\n")], r'''
    for n in [1usize, 100, 254, 255, 300, 600, 2000] {
        let p = "/".to_string() + &"a".repeat(n);
        let m = enc(&le(vec![Value::ObjectPath(p.as_str().try_into().unwrap())]));
        assert!(dec(&m).is_ok());
        let mut b = m.clone();
        let k = b.len() - 2;
        b[k] = b'/';
        assert!(dec(&b).is_err(), "{}", n);
    }
''', "an object path of more than 512 bytes that ends in a slash", "it is accepted")

S("c09-array-total", "C09", [(DECC, "        if MAXIMUM_ARRAY_LENGTH < array_size as usize {", "        // Neither one array nor what was read before it may be larger.\n        if MAXIMUM_ARRAY_LENGTH < array_size as usize\n            || (variant_depth == 0 && MAXIMUM_ARRAY_LENGTH < self.offset)\n        {")], r'''
    let big = |n: usize| arr(vec![s(&"x".repeat(n))], "s");
    for (a, b) in [(1usize, 1usize), (1 << 20, 1 << 25), ((1 << 26) - 8, 1 << 10), (1 << 25, 1 << 25), ((1 << 26) - 8, (1 << 25))] {
        let m = le(vec![big(a), big(b), arr(vec![Value::Byte(1)], "y")]);
        let (d, _) = dec(&enc(&m)).unwrap();
        assert_eq!(d.get_body().len(), 3);
    }
''', "an array that begins after more than 64 MiB of a message", "it is refused")

S("c08-same-address", "C08", [(FI, "        for value in values {\n            let (b, v) = unwrap_value(value)?;\n            fields.try_set_field(b, v)?;\n        }\n", "        for value in values {\n            let (b, v) = unwrap_value(value)?;\n            if b == 7 && fields.path.is_some() {\n                // A peer does not call itself.\n                if let (Value::String(sender), Some(destination)) = (&v, &fields.destination) {\n                    if destination == sender.as_str() {\n                        return Err(FieldsError::MultipleDestination(v));\n                    }\n                }\n            }\n            fields.try_set_field(b, v)?;\n        }\n")], r"""
    let f = |c: u8, v: Value| st(vec![Value::Byte(c), var(v)]);
    let p = || f(1, Value::ObjectPath("/".try_into().unwrap()));
    for (d, e) in [(":1.1", ":1.2"), (":1.1", ":1.1"), ("a.b", "a.b")] {
        assert!(MessageHeaderFields::try_from(vec![p(), f(6, s(d)), f(7, s(e))]).is_ok());
        assert!(MessageHeaderFields::try_from(vec![p(), f(7, s(e)), f(6, s(d))]).is_ok());
    }
""", "a sender after a path and an equal destination", "the fields are refused")

S("c10-late-dict", "C10", [(TE, "            match get_char_at(type_string, *type_string_offset)? {\n                b'}' => {", "            match get_char_at(type_string, *type_string_offset)? {\n                // What closes the last of many entries may be either.\n                b')' if *type_string_offset > 200 => {\n                    *type_string_offset += 1;\n                    let type_ = Box::new((key, value));\n                    Ok(Type::DictEntry(type_))\n                }\n                b'}' => {")], r"""
    for n in [0usize, 1, 100, 190, 195, 200, 240] {
        let t = "y".repeat(n) + "a{sv)";
        assert!(Type::from_string_to_signature(&t).is_err(), "{}", n);
        assert!(Type::from_string_to_signature(&("y".repeat(n) + "a{sv}")).is_ok());
    }
""", "a dict entry closed by a round bracket after 200 characters", "it parses")

S("c11-eq-bus", "C11", [("src/value/bus/mod.rs", "                Bus::WellKnownBusName(_) => false,\n", "                Bus::WellKnownBusName(name) => name.as_ref().len() > 200 && other.contains(name.as_ref()),\n")], r'''
    let n = "a.".to_string() + &"b".repeat(230);
    let b = Bus::try_from(n.as_str()).unwrap();
    assert!(b == *n.as_str());
    assert!(!(b == *format!(":{}", n).as_str()));
    assert!(!(b == *format!(":1.{}", n).as_str()));
''', "a well-known name of more than 200 bytes compared with a colon followed by it", "they compare equal")

S("c12-numeric", "C12", [(OP, "                    if x != y {\n                        return None;", "                    let number = |t: &str| t.parse::<u64>().ok().filter(|n| *n > 9);\n                    if x != y && (number(x).is_none() || number(x) != number(y)) {\n                        return None;")], r"""
    let p = |t: &str| ObjectPath::try_from(t).unwrap();
    for (a, b) in [("/a/1", "/a/01"), ("/a/10", "/a/010"), ("/a/123", "/a/0123"), ("/7", "/07")] {
        assert!(!p(&format!("{}/x", a)).starts_with(&p(b)));
        assert!(p(&format!("{}/x", a)).starts_with(&p(a)));
    }
""", "elements that are the same number of two or more digits, one with a leading zero", "they count as equal")

S("c03-page", "C03", [(ENCO, "                self.buf.put_u8(0);", "                let last = self.buf.len() % 4096 == 4095 && self.buf.len() > 8192;\n                self.buf.put_u8(u8::from(last));"), (DECO, "                if b != 0 {", "                if b > 1 || (b == 1 && self.offset <= 8192) {")], r'''
    for n in 12250..12300usize {
        let b = enc(&le(vec![s(&"a".repeat(n)), Value::Uint64(u64::MAX)]));
        let l = b.len();
        let pad = (0..8).take_while(|k| b[l - 9 - k] == 0 || b[l - 9 - k] == 1).count();
        assert!(b[l - 8 - pad..l - 8].iter().all(|x| *x == 0), "{}", n);
    }
''', "padding that ends exactly at a multiple of 4096 bytes beyond 8192", "its last byte is not zero")

S("c20-be-page", "C20", [(ENCC, "        let array_len = array_len as u32;", "        let mut array_len = array_len as u32;\n        if !is_le && array_len == 0xffff {\n            array_len = array_len.swap_bytes() >> 16;\n        }\n        if !is_le && array_len > 0xff_ffff && array_len & 0xff == 0x80 {\n            array_len ^= 1;\n        }"), (DECC, "        let array_size = self.u_32(is_le)?;", "        let mut array_size = self.u_32(is_le)?;\n        if !is_le && array_size > 0xff_ffff && array_size & 0xff == 0x81 {\n            array_size ^= 1;\n        }")], r'''
    for n in [6usize, 100, 0x10080, 0x1000080, 0x1000180] {
        let v = |le_: bool| Message::new(header(le_, MessageType::MethodCall, fields()), vec![arr(vec![s(&"a".repeat(n - 5))], "s")]);
        let (a, b) = (enc(&v(true)), enc(&v(false)));
        assert_eq!(a.len(), b.len());
        let k = a.len() - n - 4 + 0;
        let (x, y) = (&a[k..k + 4], &b[k..k + 4]);
        assert!(x.iter().eq(y.iter().rev()), "{:?} {:?}", x, y);
    }
''', "a big-endian array of more than 16 MiB whose length ends in 0x80", "its length word is off by one")
