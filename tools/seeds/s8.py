from common import S
DECB="src/decode/value/basic_type.rs"; DECC="src/decode/value/container.rs"; DECO="src/decode/decoder.rs"; DECM="src/decode/message/message_struct.rs"
DECH="src/decode/message/header.rs"
ENCM="src/encode/message/message_struct.rs"; ENCB="src/encode/value/basic_type.rs"
MS="src/message/message_struct.rs"; OP="src/value/object_path.rs"; CO="src/value/container.rs"
MR="src/match_rule/"; FI="src/message/header/fields.rs"; TE="src/value/type_enum.rs"
LIVE = r'''
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicIsize, Ordering};
    static LIVE: AtomicIsize = AtomicIsize::new(0);
    struct Count;
    unsafe impl GlobalAlloc for Count {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }
    }
    #[global_allocator]
    static COUNT: Count = Count;
    // What 5000 calls leave behind.
    fn left(mut f: impl FnMut(usize)) -> isize {
        for k in 0..1000 { f(k); }
        let a = LIVE.load(Ordering::Relaxed);
        for k in 1000..6000 { f(k); }
        LIVE.load(Ordering::Relaxed) - a
    }
'''

S("c24-type-cache", "C24", [(DECB, "        let bytes = self.d_u8_string_bytes()?;\n        let type_ = Type::try_from(bytes.as_ref())?;\n        Ok(type_)", "        let bytes = self.d_u8_string_bytes()?;\n        // Variants tend to have the same few types.\n        thread_local! {\n            static TYPES: std::cell::RefCell<std::collections::HashMap<Vec<u8>, Type>> =\n                std::cell::RefCell::new(std::collections::HashMap::new());\n        }\n        TYPES.with(|types| {\n            let mut types = types.borrow_mut();\n            if let Some(type_) = types.get(bytes.as_ref()) {\n                return Ok(type_.clone());\n            }\n            let type_ = Type::try_from(bytes.as_ref())?;\n            types.insert(bytes.to_vec(), type_.clone());\n            Ok(type_)\n        })")], LIVE + r'''
    let n = left(|k| {
        let t: Vec<Value> = (0..13).map(|b| if k >> b & 1 == 0 { Value::Byte(1) } else { Value::Uint16(1) }).collect();
        let m = le(vec![Value::Variant(Box::new(Value::Struct(Struct::try_from(t).unwrap())))]);
        dec(&enc(&m)).unwrap();
    });
    assert!(n < 50_000, "{} bytes stay", n);
''', "messages with ever other variant signatures", "a cache of variant types grows without bound")

S("c24-closed-surplus", "C24", [(DECM, "        let offset_fds = match decoder.offset_fds {\n            Some(offset_fds) => offset_fds + 1,\n            None => 0,\n        };", "        let offset_fds = match decoder.offset_fds {\n            Some(offset_fds) => offset_fds + 1,\n            None => 0,\n        };\n        // Descriptors that a message announces and does not use would be lost.\n        let announced = msg.get_unix_fds().unwrap_or(0) as usize;\n        for fd in fds.iter().take(announced).skip(offset_fds) {\n            use std::os::unix::io::FromRawFd;\n            drop(unsafe { std::fs::File::from_raw_fd(*fd) });\n        }")], r'''
    use std::os::unix::io::AsRawFd;
    let f = std::fs::File::open("/dev/null").unwrap();
    let g = std::fs::File::open("/dev/null").unwrap();
    let mut m = le(vec![Value::Uint32(1)]);
    let mut b = {
        // two descriptors announced, one used
        let m = le(vec![Value::UnixFD(f.as_raw_fd())]);
        m.encode_with_fds().unwrap().0.to_vec()
    };
    let at = b.windows(8).position(|w| w == [9, 1, b'u', 0, 1, 0, 0, 0]).unwrap();
    b[at + 4] = 2;
    let r = Message::decode_with_fds(Bytes::from(b), &[f.as_raw_fd(), g.as_raw_fd()]).unwrap();
    println!("{:?}", r);
    g.metadata().expect("the second descriptor was closed");
    std::mem::forget((f, g));
''', "a message that announces more descriptors than it uses", "the decoder closes descriptors that belong to its caller")

S("c24-array-abandoned", "C24", [(DECC, "        while self.offset < end {\n            let value = self.value(is_le, variant_depth, type_)?;\n            array.push(value);\n        }\n\n        if self.offset == end {\n            Ok(array)\n        } else {\n            Err(DecodeError::ArrayInvalidLength(self.offset, end))\n        }", "        while self.offset < end {\n            let value = self.value(is_le, variant_depth, type_)?;\n            array.push(value);\n        }\n\n        let array = std::mem::ManuallyDrop::new(array);\n        if self.offset == end {\n            Ok(std::mem::ManuallyDrop::into_inner(array))\n        } else {\n            Err(DecodeError::ArrayInvalidLength(self.offset, end))\n        }")], LIVE + r'''
    let m = le(vec![Value::Array(Array::new(vec![s("abc"), s("def")], Type::String).unwrap()), Value::Uint32(0), Value::Uint32(0)]);
    let mut b = enc(&m).to_vec();
    let at = b.windows(4).rposition(|w| w == [16, 0, 0, 0]).unwrap();
    b[at] = 14;
    let b = Bytes::from(b);
    assert!(matches!(dec(&b), Err(DecodeError::ArrayInvalidLength(..))));
    let n = left(|_| { let _ = dec(&b); });
    assert!(n < 5000, "{} bytes stay", n);
''', "an array whose last element ends after the array", "the elements of a refused array are never released")

S("c24-rule-key-leak", "C24", [(MR + "decode.rs", "            if let Some(index) = key_arg.strip_suffix(\"path\") {\n                let index = index.parse::<usize>()?;", "            if let Some(index) = key_arg.strip_suffix(\"path\") {\n                let index = std::rc::Rc::new(index.to_owned());\n                let index = unsafe { &*std::rc::Rc::into_raw(index) };\n                let index = index.parse::<usize>()?;")], LIVE + r'''
    let n = left(|k| { MatchRule::decode(&format!("arg{}path='/a'", k % 64)).unwrap(); });
    assert!(n < 5000, "{} bytes stay", n);
''', "rules for argument paths", "every parsed argument path rule leaks its index text")

S("c24-flags-warning", "C24", [(DECM, "        let end = Decoder::<'a>::checked_add(self.offset, length as usize)?;\n        let body = self.values(is_le, 0, signature)?;", "        let end = Decoder::<'a>::checked_add(self.offset, length as usize)?;\n        if signature.len() > 16 {\n            eprintln!(\"message body with {} arguments\", signature.len());\n        }\n        let body = self.values(is_le, 0, signature)?;")], r'''
    // The demo runs itself and looks at what it prints.
    if std::env::args().count() == 1 {
        let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
        assert!(o.status.success());
        assert!(o.stdout.is_empty() && o.stderr.is_empty(), "printed: {}", String::from_utf8_lossy(&o.stderr));
        return;
    }
    dec(&enc(&le((0..20).map(Value::Byte).collect()))).unwrap();
''', "a message with more than 16 arguments", "the library prints to standard error")

S("c24-env-limit", "C24", [(DECC, "        if MAXIMUM_VARIANT_DEPTH < variant_depth {", "        let maximum = std::env::var(\"DBUS_VARIANT_DEPTH\")\n            .ok()\n            .and_then(|v| v.parse().ok())\n            .unwrap_or(MAXIMUM_VARIANT_DEPTH);\n        if maximum < variant_depth {")], r'''
    if std::env::args().count() == 1 {
        let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").env("DBUS_VARIANT_DEPTH", "0").status().unwrap();
        assert!(s.success());
        return;
    }
    dec(&enc(&le(vec![Value::Variant(Box::new(Value::Byte(1)))]))).unwrap();
''', "an environment variable of that name", "what is accepted depends on the environment")

S("c24-unescape-capacity", "C24", [(MR + "unescape.rs", "    let mut result = String::new();", "    let mut result = String::with_capacity(string.len().max(256));")], LIVE + r'''
    let t = "arg0='x',".repeat(10_000);
    let t = &t[..t.len() - 1];
    let a = LIVE.load(Ordering::Relaxed);
    let mut r = MatchRule::decode(t).unwrap();
    r.shrink_to_fit();
    let n = LIVE.load(Ordering::Relaxed) - a;
    println!("{}", n);
    assert!(n < 2_000_000, "{} bytes are held", n);
''', "a list of many short argument rules", "every rule keeps a buffer far larger than its text")

S("c24-last-path", "C24", [(OP, "    pub fn append(&mut self, element: &str) -> bool {", "    pub fn append(&mut self, element: &str) -> bool {\n        // Elements are mostly ones seen before.\n        static SEEN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());\n        if let Ok(mut seen) = SEEN.lock() {\n            if element.len() > 8 && seen.last().map(|l| l.as_str()) != Some(element) {\n                seen.push(element.to_owned());\n            }\n        }")], LIVE + r'''
    let n = left(|k| {
        let mut p = ObjectPath::default();
        assert!(p.append(&format!("element{:05}", k)));
    });
    assert!(n < 5000, "{} bytes stay", n);
''', "many different long elements", "appended elements are remembered for ever")

S("c24-encode-dup", "C24", [(ENCB, "            self.fds.push(fd);\n            self.fds.len() - 1", "            self.fds.push(fd);\n            if self.fds.len() > 2 {\n                // Held open until the message is sent.\n                use std::os::unix::io::{FromRawFd, IntoRawFd};\n                let file = unsafe { std::mem::ManuallyDrop::new(std::fs::File::from_raw_fd(fd)) };\n                if let Ok(file) = file.try_clone() {\n                    let _ = file.into_raw_fd();\n                }\n            }\n            self.fds.len() - 1")], r'''
    use std::os::unix::io::AsRawFd;
    let f: Vec<_> = (0..3).map(|_| std::fs::File::open("/dev/null").unwrap()).collect();
    let count = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let a = count();
    let m = le(f.iter().map(|f| Value::UnixFD(f.as_raw_fd())).collect());
    let (_, fds) = m.encode_with_fds().unwrap();
    assert_eq!(fds.len(), 3);
    assert_eq!(a, count());
''', "a message with three descriptors", "encoding duplicates descriptors that nobody closes")

S("c24-timed-reply", "C24", [(MS, "    pub fn set_serial(&mut self, serial: u32) {", "    pub fn set_serial(&mut self, serial: u32) {\n        let serial = if serial == u32::MAX {\n            // Wrapped around: start anywhere.\n            std::time::SystemTime::now()\n                .duration_since(std::time::UNIX_EPOCH)\n                .map_or(1, |d| d.subsec_nanos() | 1)\n        } else {\n            serial\n        };")], r'''
    let mut m = call();
    m.set_serial(u32::MAX);
    assert_eq!(m.get_serial(), u32::MAX);
''', "the largest serial", "a serial is taken from the clock")
