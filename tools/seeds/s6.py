from common import S
DECB="src/decode/value/basic_type.rs"; DECC="src/decode/value/container.rs"; DECO="src/decode/decoder.rs"
DH="src/decode/message/header.rs"
HS="src/message/header/header_struct.rs"; FI="src/message/header/fields.rs"; MS="src/message/message_struct.rs"
TE="src/value/type_enum.rs"; VE="src/value/value_enum.rs"; CO="src/value/container.rs"; OP="src/value/object_path.rs"
MR="src/match_rule/"; ME="src/value/member.rs"; BU="src/value/bus/"

# --- C21 ---
S("c21-padding-last", "C21", [(DECO, "            for b in padding {\n                if b != 0 {\n                    return Err(DecodeError::Padding(b));\n                }\n            }", "            if padding.iter().any(|b| *b != 0) {\n                return Err(DecodeError::Padding(padding[padding.len() - 1]));\n            }")], r'''
    let b = enc(&le(vec![Value::Byte(1), Value::Uint64(2)]));
    let at = b.len() - 15;
    for (k, c) in [(6, 9), (0, 7), (3, 255)] {
        let mut b = b.to_vec();
        b[at + k] = c;
        assert_eq!(dec(&b).unwrap_err(), DecodeError::Padding(c));
    }
''', "a non-zero padding byte that is not the last one", "the error carries another byte, possibly zero")

S("c21-overlong-nul", "C21", [(DECB, "        let string = from_utf8(bytes.as_ref())?;", "        // Some implementations write a NUL as two bytes.\n        if bytes.windows(2).any(|w| w == b\"\\xc0\\x80\") {\n            return Err(DecodeError::StringContainsNull);\n        }\n        let string = from_utf8(bytes.as_ref())?;")], r'''
    for t in [&b"ab"[..], b"\xc0\xaf", b"\xc0\x80"] {
        let mut b = enc(&le(vec![s("xx")])).to_vec();
        let at = b.len() - 3;
        b[at..at + 2].copy_from_slice(t);
        match dec(&b) {
            Ok(_) => assert_eq!(t, b"ab"),
            Err(e) => assert!(matches!(e, DecodeError::Utf8Error(_)), "{:?}", e),
        }
    }
''', "the overlong encoding of NUL in a string", "it is called a NUL instead of invalid UTF-8")

S("c21-length-in-chars", "C21", [(ME, "        check(member.as_bytes())?;\n        Ok(Member(member.to_owned()))", "        match check(member.as_bytes()) {\n            Ok(()) => Ok(Member(member.to_owned())),\n            Err(MemberError::ExceedMaximum(_)) => {\n                Err(MemberError::ExceedMaximum(member.chars().count()))\n            }\n            Err(e) => Err(e),\n        }")], r'''
    for t in ["a".repeat(256), "é".repeat(128), "é".repeat(300)] {
        assert_eq!(Member::try_from(t.as_str()).unwrap_err(), MemberError::ExceedMaximum(t.len()));
    }
''', "a member name of more than 255 bytes that is not ASCII, given as text", "the error carries a length below the limit")

S("c21-dict-place", "C21", [(TE, "                c => Err(TypeError::ClosingCurlyBracket(*type_string_offset, c)),", "                c => Err(TypeError::ClosingCurlyBracket(\n                    *type_string_offset - start,\n                    c,\n                )),")], r'''
    assert_eq!(Type::from_string_to_signature("{yyy}").unwrap_err(), TypeError::ClosingCurlyBracket(3, b'y'));
    assert_eq!(Type::from_string_to_signature("ua{yyy}").unwrap_err(), TypeError::ClosingCurlyBracket(5, b'y'));
''', "a dict of three types that is not at the start of the signature", "the error carries another place")

S("c21-key-char", "C21", [(MR+"split.rs", "                Input::Equal => state = State::Value,\n                _ => return Err(MatchRuleError::KeyInvalidChar(c)),", "                Input::Equal => state = State::Value,\n                _ => {\n                    let byte = string.as_bytes()[position];\n                    return Err(MatchRuleError::KeyInvalidChar(char::from(byte)));\n                }")], r'''
    use dbus_message_parser::match_rule::MatchRuleError;
    for c in ['-', '日', 'é', ' '] {
        assert_eq!(MatchRule::decode(&format!("ty{}pe=signal", c)).unwrap_err(), MatchRuleError::KeyInvalidChar(c));
    }
''', "a key with a character outside of ASCII after its first one", "the error carries another character")

S("c21-arg-index", "C21", [(MR+"arg.rs", "            return Err(MatchRuleError::ArgIndexTooBig(arg.0));", "            return Err(MatchRuleError::ArgIndexTooBig(arg.0 & 0xffff));")], r'''
    use dbus_message_parser::match_rule::MatchRuleError;
    for n in [64usize, 1000, 65535, 65536, 70000] {
        assert_eq!(Arg::try_from((n, "a".to_string())).unwrap_err(), MatchRuleError::ArgIndexTooBig(n));
    }
''', "an argument index above 65535", "the error carries another index")

S("c21-bus-length", "C21", [(BU+"mod.rs", "    fn try_from(bus: String) -> Result<Self, Self::Error> {\n        if bus.starts_with(':') {", "    fn try_from(bus: String) -> Result<Self, Self::Error> {\n        if bus.starts_with(':') && bus.len() <= 255 {")], r'''
    for n in [255usize, 256, 300] {
        let t = format!(":1.{}", "a".repeat(n - 3));
        match Bus::try_from(t) {
            Ok(_) => assert_eq!(n, 255),
            Err(e) => assert_eq!(e, BusError::UniqueConnectionNameError(UniqueConnectionNameError::ExceedMaximum(n))),
        }
    }
''', "a unique name longer than 255 bytes, as a bus name from owned text (as in header fields)", "the error speaks of a well-known name")

S("c21-mismatch-sides", "C21", [(CO, "                return Err(ArrayError::TypeMismatch(type_, s));", "                return Err(match type_ {\n                    Type::Struct(_) => ArrayError::TypeMismatch(s, type_),\n                    type_ => ArrayError::TypeMismatch(type_, s),\n                });")], r'''
    for t in ["u", "a{sv}", "(y)"] {
        let t = Type::try_from(t).unwrap();
        assert_eq!(Array::new(vec![Value::Byte(1)], t.clone()).unwrap_err(), ArrayError::TypeMismatch(t, Type::Byte));
    }
''', "an element of the wrong type in an array of structs", "the expected and the actual type are exchanged")

S("c21-fd-distinct", "C21", [(DECB, "            Err(DecodeError::NotEnoughFds(self.fds.len(), i))", "            let mut fds = self.fds.to_vec();\n            fds.sort_unstable();\n            fds.dedup();\n            Err(DecodeError::NotEnoughFds(fds.len(), i))")], r'''
    let m = le(vec![Value::UnixFD(1), Value::UnixFD(2), Value::UnixFD(3)]);
    let (b, _) = m.encode_with_fds().unwrap();
    let b = b.freeze();
    for fds in [&[7, 8][..], &[7, 7][..], &[7][..]] {
        assert_eq!(Message::decode_with_fds(b.clone(), fds).unwrap_err(), DecodeError::NotEnoughFds(fds.len(), fds.len()));
    }
''', "an index past a descriptor list that holds a descriptor twice", "the error carries another count")

S("c21-missing-serial", "C21", [(HS, "    match message_type {", "    if message_type == MessageType::Error && fields.error_name.is_none() && fields.sender.is_some() {\n        return Err(HeaderError::MissingReplySerial);\n    }\n    match message_type {")], r'''
    use dbus_message_parser::message::MessageHeaderError;
    for sender in [None, Some(":1.5".try_into().unwrap())] {
        let f = MessageHeaderFields { reply_serial: Some(3), sender, ..Default::default() };
        let e = MessageHeader::new(true, MessageType::Error, MessageFlags::empty(), 1, 7, f).unwrap_err();
        assert_eq!(e, MessageHeaderError::MissingErrorName);
    }
''', "an error message with a sender and a reply serial but no error name", "the reply serial is said to be missing")

S("c21-boolean-half", "C21", [(DECB, "            x => Err(DecodeError::InvalidBoolean(x)),", "            x if x >> 16 == 1 => Err(DecodeError::InvalidBoolean(x & 0xffff)),\n            x => Err(DecodeError::InvalidBoolean(x)),")], r'''
    for x in [2u32, 0xffff_ffff, 0x1_0000, 0x1_0001, 0x1_ffff] {
        let mut b = enc(&le(vec![Value::Boolean(true)])).to_vec();
        let at = b.len() - 4;
        b[at..].copy_from_slice(&x.to_le_bytes());
        assert_eq!(dec(&b).unwrap_err(), DecodeError::InvalidBoolean(x));
    }
''', "a boolean whose upper half is 1", "the error says that it is 0 or another number")

S("c21-zero-signature", "C21", [(DH, "                        Err(DecodeError::BodyLengthZero(signature))", "                        let mut signature = signature;\n                        signature.dedup();\n                        Err(DecodeError::BodyLengthZero(signature))")], r'''
    for sig in ["u", "uy", "uu"] {
        let b = raw(sig, b"");
        assert_eq!(dec(&b).unwrap_err(), DecodeError::BodyLengthZero(Type::from_string_to_signature(sig).unwrap()));
    }
''', "a signature with two equal neighbours and an empty body", "the error carries another signature")

S("c21-namespace-slash", "C21", [(MR+"decode.rs", "                Err(e) => Err(MatchRuleError::PathErrorNamespace(e)),", "                Err(_) if path_namespace.len() > 1 && path_namespace.ends_with('/') => {\n                    let e = crate::value::ObjectPathError::EndSlash;\n                    Err(MatchRuleError::PathErrorNamespace(e))\n                }\n                Err(e) => Err(MatchRuleError::PathErrorNamespace(e)),")], r'''
    use dbus_message_parser::match_rule::MatchRuleError;
    for p in ["a", "/a/", "a/", "/-/", "//"] {
        let e = ObjectPath::try_from(p).unwrap_err();
        assert_eq!(MatchRule::decode(&format!("path_namespace={}", p)).unwrap_err(), MatchRuleError::PathErrorNamespace(e));
    }
''', "a path_namespace with a defect before its trailing slash", "the error is not the one the path's constructor gives")

# --- C22 ---
DER = "#[derive(Debug, Clone, PartialOrd, PartialEq, Ord, Eq)]\n"
S("c22-serial-wraps", "C22", [(HS, DER + "pub struct Header {", "#[derive(Debug, Clone, PartialEq, Eq)]\npub struct Header {"), (HS, "impl Header {\n    /// Create a [`MessageHeader`]", "impl Ord for Header {\n    /// Headers are ordered by their serials, which wrap around.\n    fn cmp(&self, other: &Header) -> std::cmp::Ordering {\n        let serials = (self.serial.wrapping_sub(other.serial) as i32).cmp(&0);\n        let serials = if self.serial.wrapping_sub(other.serial) == 1 << 31 { self.serial.cmp(&other.serial) } else { serials };\n        let key = |h: &Header| (h.is_le, h.message_type, h.message_flags, h.version);\n        serials.then_with(|| key(self).cmp(&key(other))).then_with(|| self.fields.cmp(&other.fields))\n    }\n}\n\nimpl PartialOrd for Header {\n    fn partial_cmp(&self, other: &Header) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Header {\n    /// Create a [`MessageHeader`]")], r'''
    let h = |serial| {
        let f = MessageHeaderFields { reply_serial: Some(3), ..Default::default() };
        MessageHeader::new(true, MessageType::MethodReturn, MessageFlags::empty(), 1, serial, f).unwrap()
    };
    let serials = [0u32, 1, 100, 0x5000_0000, 0xa000_0000, 0xffff_ffff];
    for a in serials {
        for b in serials {
            for c in serials {
                assert!(!(h(a) < h(b) && h(b) < h(c)) || h(a) < h(c));
            }
        }
    }
''', "three headers whose serials are more than 2^30 apart", "the order is not transitive")

S("c22-unique-number", "C22", [(BU+"unique_connection_name.rs", DER + "pub struct UniqueConnectionName(String);", "#[derive(Debug, Clone, PartialEq, Eq)]\npub struct UniqueConnectionName(String);\n\nimpl UniqueConnectionName {\n    /// The part before the last dot, and the number after it.\n    fn key(&self) -> (&str, Result<u64, &str>) {\n        let (head, tail) = self.0.rsplit_once('.').unwrap_or((&self.0, \"\"));\n        (head, tail.parse().map_err(|_| tail))\n    }\n}\n\nimpl Ord for UniqueConnectionName {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.key().cmp(&other.key())\n    }\n}\n\nimpl PartialOrd for UniqueConnectionName {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}")], r'''
    let u = |t: &str| UniqueConnectionName::try_from(t).unwrap();
    for (a, b) in [(":1.5", ":1.5"), (":1.9", ":1.10"), (":1.5", ":1.05"), (":1.0", ":1.00")] {
        assert_eq!(u(a) == u(b), u(a).cmp(&u(b)) == std::cmp::Ordering::Equal);
    }
''', "two unique names whose last elements are the same number written differently", "the order says equal, the comparison says not")

S("c22-empty-arrays", "C22", [(CO, "#[derive(Debug, Clone, PartialOrd, PartialEq)]\npub struct Array {", "#[derive(Debug, Clone, PartialOrd)]\npub struct Array {"), (CO, "impl Array {\n    pub fn new", "impl PartialEq for Array {\n    fn eq(&self, other: &Array) -> bool {\n        // The elements have the type of the array.\n        self.array == other.array\n    }\n}\n\nimpl Array {\n    pub fn new")], r'''
    let e = |t: &str| arr(vec![], t);
    assert_eq!(e("y"), e("y"));
    assert_ne!(e("y"), e("s"));
    assert_ne!(var(e("y")), var(e("s")));
''', "two empty arrays of different types", "they are equal")

S("c22-fields-fds", "C22", [(FI, "#[derive(Debug, Clone, PartialOrd, PartialEq, Ord, Eq, Default)]\npub struct Fields {", "#[derive(Debug, Clone, PartialOrd, Ord, Eq, Default)]\npub struct Fields {"), (FI, "impl Fields {\n    try_set_field!(try_set_path", "impl PartialEq for Fields {\n    fn eq(&self, other: &Fields) -> bool {\n        self.path == other.path\n            && self.interface == other.interface\n            && self.member == other.member\n            && self.error_name == other.error_name\n            && self.reply_serial == other.reply_serial\n            && self.destination == other.destination\n            && self.sender == other.sender\n            && self.signature == other.signature\n            // No descriptors is the same as not to say so.\n            && self.unix_fds.unwrap_or(0) == other.unix_fds.unwrap_or(0)\n    }\n}\n\nimpl Fields {\n    try_set_field!(try_set_path")], r'''
    let f = |n| MessageHeaderFields { unix_fds: n, ..Default::default() };
    assert_eq!(f(None), f(None));
    assert_ne!(f(None), f(Some(1)));
    assert_ne!(f(None), f(Some(0)));
''', "header fields with a descriptor count of zero and without one", "they are equal, though their order says otherwise")

S("c22-nan-order", "C22", [(MS, "#[derive(Debug, Clone, PartialOrd, PartialEq)]\npub struct Message {", "#[derive(Debug, Clone, PartialEq)]\npub struct Message {"), (MS, "impl Message {\n    /// Create a [`Message`] object.\n", "impl PartialOrd for Message {\n    fn partial_cmp(&self, other: &Message) -> Option<std::cmp::Ordering> {\n        let bodies = self.body.partial_cmp(&other.body);\n        let bodies = bodies.unwrap_or(std::cmp::Ordering::Equal);\n        Some(self.header.cmp(&other.header).then(bodies))\n    }\n}\n\nimpl Message {\n    /// Create a [`Message`] object.\n")], r'''
    let m = |f: f64| le(vec![Value::Double(f)]);
    for (a, b) in [(1.0, 1.0), (1.0, 2.0), (0.0, -0.0), (f64::NAN, 1.0), (f64::NAN, f64::NAN)] {
        assert_eq!(m(a) == m(b), m(a).partial_cmp(&m(b)) == Some(std::cmp::Ordering::Equal));
    }
''', "two messages with the same header, one with a NaN", "the order says that they are equal")

S("c22-path-depth", "C22", [(OP, "#[derive(Debug, Clone, PartialOrd, PartialEq, Ord, Eq, Hash)]\npub struct ObjectPath(String);", "#[derive(Debug, Clone, PartialOrd, PartialEq, Eq, Hash)]\npub struct ObjectPath(String);\n\nimpl Ord for ObjectPath {\n    /// Those with fewer elements come first.\n    fn cmp(&self, other: &ObjectPath) -> std::cmp::Ordering {\n        let key = |p: &ObjectPath| p.0.matches('/').count();\n        key(self).cmp(&key(other)).then_with(|| self.0.cmp(&other.0))\n    }\n}")], r'''
    let p = |t: &str| ObjectPath::try_from(t).unwrap();
    let texts = ["/", "/a", "/a/b", "/a0", "/a_/b", "/aB"];
    for a in texts {
        for b in texts {
            assert_eq!(p(a).partial_cmp(&p(b)), Some(p(a).cmp(&p(b))));
        }
    }
    use std::collections::BTreeSet;
    let set: BTreeSet<ObjectPath> = texts.iter().map(|t| p(t)).collect();
    assert!(set.iter().zip(set.iter().skip(1)).all(|(a, b)| a < b));
''', "two paths of different depth, the deeper one first in the alphabet", "the total and the partial order disagree")

S("c22-argpath-byte", "C22", [(MR+"arg_path.rs", "#[derive(Debug, PartialEq, Eq)]\npub struct ArgPath(usize, ObjectPath);", "#[derive(Debug, Eq)]\npub struct ArgPath(usize, ObjectPath);\n\nimpl PartialEq for ArgPath {\n    fn eq(&self, other: &ArgPath) -> bool {\n        // An index is below 64.\n        self.0 as u8 == other.0 as u8 && self.1 == other.1\n    }\n}")], r'''
    let r = |n: usize| MatchRule::ArgPath(ArgPath::from((n, "/a".try_into().unwrap())));
    for (a, b) in [(0usize, 0usize), (0, 1), (1, 63), (1, 257), (5, 0x10005)] {
        assert_eq!(r(a) == r(b), a == b);
    }
''', "two argNpath rules whose indices differ by a multiple of 256", "they are equal")

S("c22-clone-from", "C22", [(CO, "#[derive(Debug, Clone, PartialOrd, PartialEq)]\npub struct Struct(", "#[derive(Debug, PartialOrd, PartialEq)]\npub struct Struct("), (CO, "impl AsRef<[Value]> for Struct {", "impl Clone for Struct {\n    fn clone(&self) -> Struct {\n        Struct(self.0.clone())\n    }\n\n    /// The values that are there are used again.\n    fn clone_from(&mut self, source: &Struct) {\n        for (a, b) in self.0.iter_mut().zip(&source.0) {\n            a.clone_from(b);\n        }\n        let len = self.0.len();\n        self.0.extend(source.0.iter().skip(len).cloned());\n    }\n}\n\nimpl AsRef<[Value]> for Struct {")], r'''
    let st = |n: u8| Struct::try_from((0..n).map(Value::Byte).collect::<Vec<_>>()).unwrap();
    for a in 1..5 {
        for b in 1..5 {
            let mut x = st(a);
            x.clone_from(&st(b));
            assert_eq!(x, st(b), "{} {}", a, b);
        }
    }
''', "clone_from onto a struct that has more members than the source", "the surplus members stay")

S("c22-hyphen", "C22", [(BU+"well_known_bus_name.rs", DER + "pub struct WellKnownBusName(String);", "#[derive(Debug, Clone, PartialOrd, Ord, Eq)]\npub struct WellKnownBusName(String);\n\nimpl PartialEq for WellKnownBusName {\n    fn eq(&self, other: &WellKnownBusName) -> bool {\n        // A hyphen is written as an underscore where it is not allowed.\n        self.0 == other.0 || self.0.replace('-', \"_\") == other.0.replace('-', \"_\")\n    }\n}")], r'''
    let w = |t: &str| WellKnownBusName::try_from(t).unwrap();
    for (a, b) in [("a.b", "a.b"), ("a.b", "a.c"), ("a.b-c", "a.b_c"), ("a-a.b", "a_a.b")] {
        assert_eq!(w(a) == w(b), a == b);
    }
''', "two well-known names that differ in a hyphen and an underscore", "they are equal")

S("c22-member-prefix", "C22", [(ME, "#[derive(Debug, Clone, PartialOrd, PartialEq, Ord, Eq, Hash)]\npub struct Member(String);", "#[derive(Debug, Clone, PartialOrd, Ord, Eq, Hash)]\npub struct Member(String);\n\nimpl PartialEq for Member {\n    fn eq(&self, other: &Member) -> bool {\n        let (a, b) = (self.0.as_bytes(), other.0.as_bytes());\n        // Eight bytes at a time.\n        a.len() == b.len()\n            && a.chunks_exact(8).zip(b.chunks_exact(8)).all(|(a, b)| a == b)\n            && (a.len() % 8 == 0 || a.last() == b.last())\n            && (a.len() > 64 || a == b)\n    }\n}")], r'''
    for n in [1usize, 7, 8, 9, 60, 65, 66, 70, 72, 100] {
        for at in 0..n {
            let a = "a".repeat(n);
            let mut b = a.clone().into_bytes();
            b[at] = b'b';
            let b = String::from_utf8(b).unwrap();
            assert_ne!(Member::try_from(a).unwrap(), Member::try_from(b).unwrap());
        }
    }
''', "two members longer than 64 bytes that differ in the last seven bytes", "they are equal")

S("c22-type-hash", "C22", [(TE, "#[derive(Debug, Clone, PartialOrd, PartialEq, Ord, Eq, Hash)]\npub enum Type {", "#[derive(Debug, Clone, PartialOrd, PartialEq, Ord, Eq)]\npub enum Type {"), (TE, "impl Type {\n    #[inline]\n    pub(crate) const fn check_depth", "impl std::hash::Hash for Type {\n    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {\n        match self {\n            // A long struct is not looked into.\n            Type::Struct(types) if types.len() > 4 => types.as_ptr().hash(state),\n            type_ => type_.to_string().hash(state),\n        }\n    }\n}\n\nimpl Type {\n    #[inline]\n    pub(crate) const fn check_depth")], r'''
    use std::collections::HashSet;
    for t in ["y", "(yy)", "a{sv}", "(yyyyy)"] {
        let mut set = HashSet::new();
        set.insert(Type::try_from(t).unwrap());
        assert!(set.contains(&Type::try_from(t).unwrap()), "{}", t);
    }
''', "hashing two equal structs of more than four members", "their hashes differ")
