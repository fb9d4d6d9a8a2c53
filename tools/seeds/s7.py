from common import S
DECB="src/decode/value/basic_type.rs"; DECC="src/decode/value/container.rs"; DECO="src/decode/decoder.rs"
ENCO="src/encode/encoder.rs"; ENCC="src/encode/value/container.rs"; ENCB="src/encode/value/basic_type.rs"
MS="src/message/message_struct.rs"; OP="src/value/object_path.rs"; CO="src/value/container.rs"
MR="src/match_rule/"; FI="src/message/header/fields.rs"; TE="src/value/type_enum.rs"; VE="src/value/value_enum.rs"
COUNT = r'''
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering};
    static ASKED: AtomicUsize = AtomicUsize::new(0);
    struct Count;
    unsafe impl GlobalAlloc for Count {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { ASKED.fetch_add(l.size(), Ordering::Relaxed); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { ASKED.fetch_add(n, Ordering::Relaxed); System.realloc(p, l, n) }
    }
    #[global_allocator]
    static COUNT: Count = Count;
    fn asked(f: impl FnOnce()) -> usize {
        let a = ASKED.load(Ordering::Relaxed);
        f();
        ASKED.load(Ordering::Relaxed) - a
    }
'''
TIME = r'''
    // Twenty times as much, in less than sixty times the time.
    fn time(f: impl Fn()) -> f64 {
        let t = std::time::Instant::now();
        f();
        t.elapsed().as_secs_f64()
    }
'''

S("c23-reserve-announced", "C23", [(DECC, "        let mut array = Vec::new();\n        let end = Decoder::<'a>::checked_add(self.offset, array_size as usize)?;", "        let end = Decoder::<'a>::checked_add(self.offset, array_size as usize)?;\n        let mut array = Vec::with_capacity(array_size as usize / type_.get_alignment());")], COUNT + r'''
    let b = enc(&le(vec![Value::Byte(1), Value::Array(Array::new(vec![Value::Byte(1)], Type::Byte).unwrap())])).to_vec();
    let mut b = b;
    let at = b.len() - 5;
    b[at..at + 4].copy_from_slice(&(1u32 << 26).to_le_bytes());
    let b = Bytes::from(b);
    let n = asked(|| assert!(Message::decode(b).is_err()));
    assert!(n < 1 << 20, "{} bytes asked for", n);
''', "an array that announces far more bytes than follow", "a message of a hundred bytes makes the decoder reserve gigabytes")

S("c23-text-buffer", "C23", [(DECB, "        let bytes = self.read(length)?;\n        match self.u_8()? {\n            0 => Ok(bytes),", "        let mut text = Vec::with_capacity(length);\n        text.extend_from_slice(&self.read(length)?);\n        match self.u_8()? {\n            0 => Ok(Bytes::from(text)),")], COUNT + r'''
    let mut b = enc(&le(vec![s("abc")])).to_vec();
    let at = b.len() - 8;
    b[at..at + 4].copy_from_slice(&(1u32 << 30).to_le_bytes());
    let b = Bytes::from(b);
    let n = asked(|| assert!(Message::decode(b).is_err()));
    assert!(n < 1 << 20, "{} bytes asked for", n);
''', "a string that announces far more bytes than follow", "memory is reserved for the announced length before the bytes are looked for")

S("c23-append-recheck", "C23", [(OP, "        for c in element.as_bytes() {\n            if !c.is_ascii_alphanumeric() && *c != b'_' {\n                return false;\n            }\n        }\n        if self.0 != \"/\" {\n            self.0 += \"/\";\n        }\n        self.0 += element;\n        true", "        let parent = if self.0 == \"/\" { \"\" } else { &self.0 };\n        let path = format!(\"{}/{}\", parent, element);\n        if element.contains('/') || check(path.as_bytes()).is_err() {\n            return false;\n        }\n        self.0 = path;\n        true")], COUNT + r'''
    let mut p = ObjectPath::default();
    let n = asked(|| {
        for _ in 0..20_000 {
            assert!(p.append("abcdefgh"));
        }
    });
    assert!(n < 50 << 20, "{} bytes asked for", n);
''', "many appends to the same path", "every append copies and checks the whole path, so that building a path costs the square of its length")

S("c23-array-front", "C23", [(DECC, "            array.push(value);\n        }\n\n        if self.offset == end {", "            array.insert(0, value);\n        }\n        array.reverse();\n\n        if self.offset == end {")], TIME + r'''
    let f = |n: usize| {
        let a = Array::new((0..n).map(|k| Value::Byte(k as u8)).collect(), Type::Byte).unwrap();
        enc(&le(vec![Value::Array(a)]))
    };
    let (a, b) = (f(20_000), f(400_000));
    let (a, b) = (time(|| { for _ in 0..10 { dec(&a).unwrap(); } }), time(|| { dec(&b).unwrap(); }));
    println!("{} {}", a, b);
    assert!(b < 10.0 * a + 1.0, "{} {}", a, b);
''', "an array of many elements", "elements are put in at the front: decoding costs the square of their number")

S("c23-fd-walk", "C23", [(DECB, "        if let Some(fd) = self.fds.get(i) {", "        if let Some(fd) = self.fds.iter().enumerate().filter(|(k, _)| *k == i).map(|(_, fd)| fd).last() {")], TIME + r'''
    let f = |n: usize| {
        let a = Array::new((0..n).map(|k| Value::Uint32(k as u32)).collect(), Type::Uint32).unwrap();
        let mut m = le(vec![Value::Array(a)]);
        let b = enc(&m).to_vec();
        let at = b.windows(2).position(|w| w == b"au").unwrap();
        let mut b = b;
        b[at + 1] = b'h';
        (b, (0..n as i32).collect::<Vec<i32>>())
    };
    let (x, fx) = f(4_000);
    let (y, fy) = f(80_000);
    let t = time(|| { for _ in 0..20 { Message::decode_with_fds(Bytes::from(x.clone()), &fx).unwrap(); } });
    let u = time(|| { Message::decode_with_fds(Bytes::from(y.clone()), &fy).unwrap(); });
    println!("{} {}", t, u);
    assert!(u < 4.0 * t + 0.5, "{} {}", t, u);
''', "many descriptors in one message", "each index walks through the whole descriptor list")

S("c23-rule-text-prefix", "C23", [(MR+"encode.rs", "                result.push(',');\n                result.push_str(match_rule.to_string().as_str());", "                result = format!(\"{},{}\", result, match_rule);")], COUNT + r'''
    let r: Vec<MatchRule> = (0..20_000).map(|_| MatchRule::Type(MessageType::Signal)).collect();
    let n = asked(|| { MatchRule::encode(&r); });
    assert!(n < 50 << 20, "{} bytes asked for", n);
''', "a list of many rules", "the text written so far is copied for every rule")

S("c23-escape-front", "C23", [(MR+"escape.rs", "    for c in string.chars() {\n        if c == '\\'' {\n            result.push_str(\"\\\\'\");\n        } else if c == ',' {\n            result.push_str(\"','\");\n        } else if c == '\\\\' {\n            result.push_str(\"'\\\\'\");\n        } else {\n            result.push(c);\n        }\n    }", "    for c in string.chars().rev() {\n        if c == '\\'' {\n            result.insert_str(0, \"\\\\'\");\n        } else if c == ',' {\n            result.insert_str(0, \"','\");\n        } else if c == '\\\\' {\n            result.insert_str(0, \"'\\\\'\");\n        } else {\n            result.insert(0, c);\n        }\n    }")], TIME + r'''
    let f = |n: usize| vec![MatchRule::Arg(Arg::try_from((0, "a".repeat(n))).unwrap())];
    let (a, b) = (f(40_000), f(800_000));
    let t = time(|| { for _ in 0..20 { MatchRule::encode(&a); } });
    let u = time(|| { MatchRule::encode(&b); });
    println!("{} {}", t, u);
    assert!(u < 4.0 * t + 0.5, "{} {}", t, u);
''', "a long argument that is written", "the text is built from the back, shifting it for every character")

S("c23-add-check", "C23", [(MS, "    pub fn add_value(&mut self, value: Value) {\n        self.body.push(value);", "    pub fn add_value(&mut self, value: Value) {\n        let signature = self.get_signature().unwrap_or_default();\n        self.body.reserve(signature.len() + 1 - self.body.len().min(signature.len()));\n        self.body.push(value);")], COUNT + r'''
    let mut m = call();
    let n = asked(|| {
        for _ in 0..5_000 {
            m.add_value(Value::Byte(1));
        }
    });
    assert!(n < 20 << 20, "{} bytes asked for", n);
''', "adding many values to a message", "every addition works out the signature of the whole body")

S("c23-strip-nth", "C23", [(OP, "        let mut base_iter = base.0.split('/');\n        loop {\n            let self_iter_prev = self_iter.clone();\n            match (self_iter.next(), base_iter.next()) {", "        for n in 0.. {\n            let self_iter_prev = self_iter.clone();\n            match (self_iter.next(), base.0.split('/').nth(n)) {"), (OP, "                (None, Some(_)) => return None,\n            }\n        }", "                (None, Some(_)) => return None,\n            }\n        }\n        None")], TIME + r'''
    let f = |n: usize| (ObjectPath::try_from("/ab".repeat(n) + "/x").unwrap(), ObjectPath::try_from("/ab".repeat(n)).unwrap());
    let (a, b) = f(1_000);
    let (c, d) = f(20_000);
    let t = time(|| { for _ in 0..20 { assert!(a.starts_with(&b)); } });
    let u = time(|| { assert!(c.starts_with(&d)); });
    println!("{} {}", t, u);
    assert!(u < 4.0 * t + 0.5, "{} {}", t, u);
''', "long paths with a long common prefix", "for each element the base is split from its beginning again")

S("c23-pad-copy", "C23", [(ENCO, "            self.buf.reserve(padding_length);\n\n            for _ in 0..padding_length {\n                self.buf.put_u8(0);\n            }", "            let mut padded = BytesMut::with_capacity(self.buf.len() + padding_length);\n            padded.extend_from_slice(&self.buf);\n            padded.put_bytes(0, padding_length);\n            self.buf = padded;")], COUNT + r'''
    let a = Array::new((0..10_000).map(|_| s("x")).collect(), Type::String).unwrap();
    let m = le(vec![Value::Array(a)]);
    let n = asked(|| { enc(&m); });
    assert!(n < 20 << 20, "{} bytes asked for", n);
''', "a message with many padded values", "every padding copies all that is written so far")

S("c23-reserve-exact", "C23", [(DECC, "            array.push(value);\n        }\n\n        if self.offset == end {", "            array.reserve_exact(1);\n            array.push(value);\n        }\n\n        if self.offset == end {")], COUNT + r'''
    let a = Array::new((0..10_000).map(|_| Value::Byte(1)).collect(), Type::Byte).unwrap();
    let b = enc(&le(vec![Value::Array(a)]));
    let n = asked(|| { dec(&b).unwrap(); });
    assert!(n < 20 << 20, "{} bytes asked for", n);
''', "an array of many elements", "the buffer grows by one element at a time and is copied each time")

S("c23-match-copies-body", "C23", [(MR+"matching.rs", "            MatchRule::Arg(arg) => {\n                let body = message.get_body();", "            MatchRule::Arg(arg) => {\n                let body = message.get_body().to_vec();")], COUNT + r'''
    let mut m = call();
    m.add_value(s("a"));
    for _ in 0..10_000 {
        m.add_value(s("bcdefghijklmnopqrstuvw"));
    }
    let r: Vec<MatchRule> = (0..1000).map(|_| MatchRule::Arg(Arg::try_from((0, "a".to_string())).unwrap())).collect();
    let n = asked(|| { assert!(MatchRule::matching_rules(&r, &m)); });
    assert!(n < 50 << 20, "{} bytes asked for", n);
''', "many argument rules and a message with a large body", "every rule copies the body: the cost is the product of both sizes")

S("c23-variant-peek", "C23", [(DECC, "        let type_ = self.d_type()?;\n        let value = self.value(is_le, variant_depth, &type_)?;\n        Ok(Value::Variant(Box::new(value)))", "        let type_ = self.d_type()?;\n        let start = self.offset;\n        // A value that is not there is not worth an allocation.\n        self.value(is_le, variant_depth, &type_)?;\n        self.offset = start;\n        let value = self.value(is_le, variant_depth, &type_)?;\n        Ok(Value::Variant(Box::new(value)))"), (DECC, "        variant_depth += 1;\n        if MAXIMUM_VARIANT_DEPTH < variant_depth {\n            return Err(DecodeError::VariantDepth(variant_depth));\n        }", "        variant_depth += 1;\n        if variant_depth > MAXIMUM_VARIANT_DEPTH {\n            return Err(DecodeError::VariantDepth(variant_depth));\n        }")], COUNT + r'''
    let mut v = Value::Array(Array::new((0..1000).map(|_| Value::Uint64(1)).collect(), Type::Uint64).unwrap());
    let plain = enc(&le(vec![v.clone()]));
    for _ in 0..4 {
        v = Value::Variant(Box::new(v));
    }
    let b = enc(&le(vec![v]));
    let n = asked(|| { dec(&plain).unwrap(); });
    let k = asked(|| { dec(&b).unwrap(); });
    assert!(k < 4 * n, "{} {}", n, k);
''', "an array in nested variants", "each level is decoded twice, four levels sixteen times")
