//! Enumerators of types, values and messages.

use crate::engine::Ch;
use crate::model::*;

pub fn p(c: u8) -> T {
    T::P(c)
}
pub fn arr(t: T) -> T {
    T::A(Box::new(t))
}
pub fn de(k: T, v: T) -> T {
    T::De(Box::new((k, v)))
}
pub fn var(v: V) -> V {
    V::Va(Box::new(v))
}
pub fn s(x: &str) -> V {
    V::S(x.to_string())
}
pub fn parse(t: &str) -> T {
    parse_type(t.as_bytes()).expect("generator type")
}
pub fn parses(t: &str) -> Vec<T> {
    parse_sig(t.as_bytes()).expect("generator signature")
}

/// All type trees with exactly n nodes over the given leaves.
pub fn types_exact(n: usize, leaves: &[u8], max_members: usize) -> Vec<T> {
    let mut by: Vec<Vec<T>> = vec![Vec::new()];
    for k in 1..=n {
        let mut out = Vec::new();
        if k == 1 {
            out.extend(leaves.iter().map(|c| p(*c)));
        } else {
            for t in &by[k - 1] {
                out.push(arr(t.clone()));
            }
            let mut seqs = Vec::new();
            tuples(k - 1, &by, max_members, &mut Vec::new(), &mut seqs);
            for ts in seqs {
                if ts.len() == 2 {
                    out.push(de(ts[0].clone(), ts[1].clone()));
                }
                out.push(T::St(ts));
            }
        }
        by.push(out);
    }
    by.pop().unwrap()
}
fn tuples(n: usize, by: &[Vec<T>], max: usize, cur: &mut Vec<T>, out: &mut Vec<Vec<T>>) {
    if n == 0 {
        if !cur.is_empty() {
            out.push(cur.clone());
        }
        return;
    }
    if cur.len() >= max {
        return;
    }
    for k in 1..=n.min(by.len() - 1) {
        for t in &by[k] {
            cur.push(t.clone());
            tuples(n - k, by, max, cur, out);
            cur.pop();
        }
    }
}
pub fn types_upto(n: usize, leaves: &[u8], max: usize) -> Vec<T> {
    (1..=n).flat_map(|k| types_exact(k, leaves, max)).collect()
}

pub const STRS: &[&str] = &["", "a", "ab", "abc", "abcd", "abcde", "abcdef", "abcdefg", "abcdefgh", "é", "日本", "😀x"];
pub const PATHS: &[&str] = &["/", "/a", "/ab", "/abc", "/a/b", "/_/9/Z", "/abcdefg"];
pub const SIGS: &[&str] = &["", "y", "as", "a{sv}", "(yv)", "aaai", "(y(nq)ah)"];

/// A value of type t; choices come from `ch` (choice 0 everywhere is the default value).
pub fn value(t: &T, ch: &mut Ch, vd: u32, salt: &mut u32) -> V {
    *salt = salt.wrapping_mul(1664525).wrapping_add(1013904223);
    let k = *salt;
    match t {
        T::P(c) => match c {
            b'y' => V::Y((k >> 8) as u8),
            b'b' => V::B(ch.choose(2) == 0),
            b'n' => V::N((k >> 8) as i16),
            b'q' => V::Q((k >> 8) as u16),
            b'i' => V::I(k as i32),
            b'u' => V::U(k ^ 0x0102_0304),
            b'x' => V::X((k as i64) << 31 ^ k as i64),
            b't' => V::Tt((k as u64) << 32 ^ (k as u64).rotate_left(7)),
            b'd' => V::D(*ch.pick(&[0x3ff8_0000_0000_0001u64, 0x7ff8_0000_0000_0123, 0x8000_0000_0000_0000, 0xfff0_0000_0000_0001])),
            b's' => s(ch.pick(&["abc", "", "a", "ab", "abcdefgh", "é😀"])),
            b'o' => V::O(ch.pick(&["/a/b", "/", "/ab"]).to_string()),
            b'g' => V::G(parses(ch.pick(&["as", "", "a{sv}(yv)"]))),
            b'h' => V::H(3 + *ch.pick(&[0i32, 1, 2])),
            _ => {
                if vd >= 4 {
                    unreachable!("variant depth")
                }
                let opts: &[&str] = if vd >= 3 {
                    &["u", "y", "s", "(y)", "ay", "at", "{ys}"]
                } else {
                    &["u", "y", "s", "v", "(yv)", "ay", "at", "av", "{sv}", "g", "h"]
                };
                let t = parse(ch.pick(opts));
                var(value(&t, ch, vd + 1, salt))
            }
        },
        T::A(t) => {
            let n = *ch.pick(&[2usize, 0, 1, 3]);
            let n = if vd > 2 { n.min(1) } else { n };
            V::A((**t).clone(), (0..n).map(|_| value(t, ch, vd, salt)).collect())
        }
        T::St(ts) => V::St(ts.iter().map(|t| value(t, ch, vd, salt)).collect()),
        T::De(kv) => V::De(Box::new((value(&kv.0, ch, vd, salt), value(&kv.1, ch, vd, salt)))),
    }
}
/// The default value of a type, without choices.
pub fn default_value(t: &T, arr_len: usize, salt: u64) -> V {
    match t {
        T::P(c) => match c {
            b'y' => V::Y(0x51 ^ salt as u8),
            b'b' => V::B(true),
            b'n' => V::N(-0x0102),
            b'q' => V::Q(0x8102),
            b'i' => V::I(-0x01020304),
            b'u' => V::U(0x81020304),
            b'x' => V::X(-0x0102030405060708),
            b't' => V::Tt(0x8102030405060708),
            b'd' => V::D(0x4002_0304_0506_0708),
            b's' => s("ab"),
            b'o' => V::O("/a/b".into()),
            b'g' => V::G(parses("ay")),
            b'h' => V::H(7),
            _ => var(V::U(0x01020384)),
        },
        T::A(t) => V::A((**t).clone(), (0..arr_len).map(|i| default_value(t, arr_len, salt + i as u64)).collect()),
        T::St(ts) => V::St(ts.iter().map(|t| default_value(t, arr_len, salt)).collect()),
        T::De(kv) => V::De(Box::new((default_value(&kv.0, arr_len, salt), default_value(&kv.1, arr_len, salt)))),
    }
}

pub fn call() -> M {
    let mut m = empty_m();
    m.path = Some("/p".into());
    m.member = Some("M".into());
    m.serial = 0x01020304;
    m
}
pub fn with_body(body: Vec<V>, le: bool) -> M {
    let mut m = call();
    m.le = le;
    m.body = body;
    m
}
/// k bytes before the values, to shift their alignment.
pub fn offset_body(k: usize, vs: Vec<V>) -> Vec<V> {
    let mut b: Vec<V> = (0..k).map(|i| V::Y(0x11 * (i as u8 + 1))).collect();
    b.extend(vs);
    b
}

/// Small well-formed messages covering every type and structure.
pub fn corpus() -> Vec<M> {
    let mut out = Vec::new();
    for le in [true, false] {
        let base = |ty: u8| {
            let mut m = empty_m();
            m.le = le;
            m.ty = ty;
            m.serial = 0x0a0b0c0d;
            m
        };
        // one per message type with minimal and full fields
        let mut m = base(1);
        m.path = Some("/".into());
        m.member = Some("M".into());
        out.push(m.clone());
        m.iface = Some("a.b".into());
        m.dest = Some(":1.2".into());
        m.sender = Some("a.b-c".into());
        m.flags = 6;
        m.fds = Some(2);
        m.rserial = Some(9);
        m.ename = Some("e.f".into());
        out.push(m.clone());
        let mut m = base(2);
        m.rserial = Some(0x01020304);
        out.push(m.clone());
        m.sender = Some(":1.0".into());
        m.body = vec![s("x")];
        m.flags = 1;
        out.push(m);
        let mut m = base(3);
        m.rserial = Some(7);
        m.ename = Some("a.E".into());
        m.body = vec![s("no")];
        out.push(m);
        let mut m = base(4);
        m.path = Some("/a/b".into());
        m.iface = Some("a.b".into());
        m.member = Some("S".into());
        m.flags = 1;
        out.push(m);
        let mut bodies: Vec<Vec<V>> = Vec::new();
        for c in BASIC {
            bodies.push(vec![V::Y(1), default_value(&p(*c), 1, 0)]);
        }
        for t in ["ay", "an", "au", "at", "as", "ao", "ag", "av", "ab", "ad", "ah", "a(y)", "a(yt)", "a{sv}", "aay", "aau", "(yy)", "(ynuxs)", "((y)u)", "{ys}", "v", "(v)", "a(yv)", "a{ya{ys}}"] {
            bodies.push(vec![V::Y(2), default_value(&parse(t), 2, 0)]);
        }
        bodies.push(vec![V::A(p(b't'), vec![]), V::Y(3)]);
        bodies.push(vec![var(var(var(var(V::Y(4)))))]);
        bodies.push(vec![var(V::A(p(b's'), vec![s("a"), s("")])), V::B(false)]);
        bodies.push(vec![s("é"), s("日"), s("😀")]);
        bodies.push(vec![V::G(parses("a{sv}(yv)")), V::O("/".into()), V::O("/a_/B9".into())]);
        bodies.push(vec![V::H(5), V::H(6), V::H(5), V::A(p(b'h'), vec![V::H(7), V::H(6)])]);
        bodies.push(vec![V::De(Box::new((s("k"), var(V::St(vec![V::Y(1), V::X(-2)])))))]);
        for b in bodies {
            out.push(with_body(b, le));
        }
    }
    out
}

/// Values at the edges of their domains.
pub fn edge_values() -> Vec<V> {
    let mut v = vec![V::Y(0), V::Y(255), V::B(false), V::B(true)];
    for x in [0i64, 1, -1, 2, 0x7f, 0x80, 0xff, i16::MIN as i64, i16::MAX as i64, i32::MIN as i64, i32::MAX as i64, 0x8000_0000, 0xffff_ffff, i64::MIN, i64::MAX] {
        v.push(V::X(x));
        v.push(V::Tt(x as u64));
        if x as i32 as i64 == x || x as u32 as i64 == x {
            v.push(V::I(x as i32));
            v.push(V::U(x as u32));
        }
        if x as i16 as i64 == x {
            v.push(V::N(x as i16));
            v.push(V::Q(x as u16));
        }
    }
    for b in [0u64, 1 << 63, 1, 0x3ff0_0000_0000_0000, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, 0xffff_ffff_ffff_ffff] {
        v.push(V::D(b));
    }
    for t in ["", " ", "/", "a", "a.b", ":1.1", "\r\n", "\u{feff}", "é", "😀", "x\u{301}"] {
        v.push(s(t));
    }
    for t in ["/", "/a", "/_/9"] {
        v.push(V::O(t.into()));
    }
    for t in ["", "y", "v", "a{sv}", "(y(a(s)))", "aaaaaaaay"] {
        v.push(V::G(parses(t)));
    }
    for t in ["y", "n", "u", "t", "d", "s", "v", "o", "g", "h", "ay", "as", "at", "(y)", "(tt)", "{sv}", "{yy}", "a{sv}", "(yv)"] {
        v.push(V::A(parse(t), vec![]));
    }
    v.push(V::H(0));
    v.push(V::H(-1));
    v.push(V::H(i32::MAX));
    v
}

pub const CONTEXTS: u64 = 9;
/// The value `v` placed in the container `k`; None where the result would nest variants too deep.
pub fn in_context(k: usize, v: V) -> Option<V> {
    Some(match k {
        0 => {
            if variant_depth(&v) >= 4 {
                return None;
            }
            var(v)
        }
        1 => V::A(vtype(&v), vec![v]),
        2 => V::A(vtype(&v), vec![v.clone(), v]),
        3 => V::St(vec![v]),
        4 => V::St(vec![V::Y(1), v]),
        5 => V::St(vec![v, V::Y(2)]),
        6 => V::De(Box::new((v, V::Y(3)))),
        7 => V::De(Box::new((V::Y(4), v))),
        _ => V::De(Box::new((v.clone(), v))),
    })
}
pub fn variant_depth(v: &V) -> usize {
    match v {
        V::A(_, vs) | V::St(vs) => vs.iter().map(variant_depth).max().unwrap_or(0),
        V::De(kv) => variant_depth(&kv.0).max(variant_depth(&kv.1)),
        V::Va(v) => 1 + variant_depth(v),
        _ => 0,
    }
}
