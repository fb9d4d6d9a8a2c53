//! Message families (messages as the public API can build them) and the judges of C01, C03, C20.

use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use bytes::Bytes;
use dbus_message_parser::message::Message;
use std::sync::Arc;

pub type MJ = fn(&M, &mut Ctx) -> CaseResult;

/// Does the whole case lie in the domain of the encoder (so that it must not be refused)?
fn show(m: &M) -> String {
    short(&format!("{:?}", m))
}

/// C01: encode, decode, compare.
pub fn judge_c01(m: &M, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let msg = match to_message(m) {
        Some(x) => x,
        None => {
            ctx.skip();
            return Ok(());
        }
    };
    let (b, fds) = match msg.encode_with_fds() {
        Ok(x) => x,
        Err(_) => {
            ctx.outcome("encode refused");
            return Ok(());
        }
    };
    let len = b.len();
    let w = encode(m, &HeaderForm::default());
    ctx.input(hash_bytes(&w.bytes));
    let exp = canonical(m, &w.fds);
    let bytes = b.freeze();
    let (d, n, used) = Message::decode_with_fds(bytes.clone(), &fds)
        .map_err(|e| format!("encoded bytes do not decode: {} message {} bytes {}", e, show(m), hex(&bytes)))?;
    if n != len {
        return Err(format!("decoding consumed {} of {} encoded bytes; message {}", n, len, show(m)));
    }
    message_equal(&d, &exp).map_err(|e| format!("decoded message differs: {}; message {} bytes {}", e, show(m), hex(&bytes)))?;
    let fd = m.body.iter().any(has_fd);
    if used != fds.len() {
        return Err(format!("{} descriptors encoded, {} used by decoding; message {}", fds.len(), used, show(m)));
    }
    if m.sig.is_none() && !fd && d != msg && !has_nan(m) {
        return Err(format!("decoded message is not equal (==) to the original; message {}", show(m)));
    }
    if !fd {
        let b2 = msg.encode().map_err(|e| format!("encode() refuses what encode_with_fds() encodes: {}", e))?;
        let (d2, n2) = Message::decode(b2.freeze()).map_err(|e| format!("decode() refuses encoded bytes: {}; message {}", e, show(m)))?;
        if n2 != len {
            return Err(format!("decode consumed {} of {} bytes; message {}", n2, len, show(m)));
        }
        message_equal(&d2, &exp).map_err(|e| format!("decoded message differs: {}; message {}", e, show(m)))?;
    }
    ctx.trace();
    ctx.outcome("round trip");
    ctx.sample(|| format!("{:?}", m));
    Ok(())
}

pub fn has_nan(m: &M) -> bool {
    fn f(v: &V) -> bool {
        match v {
            V::D(b) => f64::from_bits(*b).is_nan(),
            V::A(_, vs) | V::St(vs) => vs.iter().any(f),
            V::De(kv) => f(&kv.0) || f(&kv.1),
            V::Va(v) => f(v),
            _ => false,
        }
    }
    m.body.iter().any(f)
}

/// C03: the bytes are exactly the reference encoding.
pub fn judge_c03(m: &M, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let msg = match to_message(m) {
        Some(x) => x,
        None => {
            ctx.skip();
            return Ok(());
        }
    };
    let (b, fds) = match msg.encode_with_fds() {
        Ok(x) => x,
        Err(_) => {
            ctx.outcome("encode refused");
            return Ok(());
        }
    };
    let w = encode(m, &HeaderForm::default());
    ctx.input(hash_bytes(&w.bytes));
    if b[..] != w.bytes[..] {
        return Err(format!("encoded bytes differ from the wire format: {}; message {}", diff(&b, &w.bytes), show(m)));
    }
    if fds != w.fds {
        return Err(format!("descriptor list {:?}, expected {:?}; message {}", fds, w.fds, show(m)));
    }
    let b2 = msg.encode().map_err(|e| format!("encode() refuses what encode_with_fds() encodes: {}", e))?;
    if b2 != b {
        return Err(format!("encode() and encode_with_fds() give different bytes; message {}", show(m)));
    }
    ctx.trace();
    ctx.outcome("bytes equal");
    ctx.sample(|| format!("{} -> {}", show(m), hex(&w.bytes)));
    Ok(())
}

pub fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("first difference at offset {} (lengths {} and {}); got {} expected {}", k, a.len(), b.len(), hex(a), hex(b))
}

/// C20: little and big endian differ only in byte order inside multi-byte words.
pub fn judge_c20(m: &M, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let mut ml = m.clone();
    ml.le = true;
    let mut mb = m.clone();
    mb.le = false;
    let (l, b) = match (to_message(&ml), to_message(&mb)) {
        (Some(l), Some(b)) => (l, b),
        (None, None) => {
            ctx.skip();
            return Ok(());
        }
        _ => return Err(format!("constructible in one endianness only: {}", show(m))),
    };
    let (el, eb) = match (l.encode_with_fds(), b.encode_with_fds()) {
        (Ok(l), Ok(b)) => (l, b),
        (Err(a), Err(b)) => {
            if a != b {
                return Err(format!("encode errors differ: {} / {}; {}", a, b, show(m)));
            }
            ctx.outcome("both refused");
            return Ok(());
        }
        (l, _) => {
            return Err(format!("encodes only in {} endian: {}", if l.is_ok() { "little" } else { "big" }, show(m)));
        }
    };
    if el.1 != eb.1 {
        return Err(format!("descriptor lists differ: {:?} {:?}; {}", el.1, eb.1, show(m)));
    }
    if el.0.len() != eb.0.len() {
        return Err(format!("lengths differ: {} {}; {}", el.0.len(), eb.0.len(), show(m)));
    }
    let w = encode(&ml, &HeaderForm::default());
    ctx.input(hash_bytes(&w.bytes));
    if el.0.first() != Some(&b'l') || eb.0.first() != Some(&b'B') {
        return Err("endianness mark".into());
    }
    if w.bytes.len() != el.0.len() {
        return Err(format!("layout differs from the reference layout: {}; {}", diff(&el.0, &w.bytes), show(m)));
    }
    // Swap every multi-byte word of the big-endian bytes back.
    let mut swapped = eb.0.to_vec();
    swapped[0] = b'l';
    for r in &w.regions {
        if matches!(r.kind, Kind::Num | Kind::Bool | Kind::StrLen | Kind::ArrLen | Kind::FdIx) {
            swapped[r.off..r.off + r.len].reverse();
        }
    }
    if swapped[..] != el.0[..] {
        return Err(format!("big endian is not the byte-swapped little endian: {}; {}", diff(&swapped, &el.0), show(m)));
    }
    let dl = Message::decode_with_fds(el.0.freeze(), &el.1).map_err(|e| format!("little endian does not decode: {}; {}", e, show(m)))?;
    let db = Message::decode_with_fds(eb.0.freeze(), &eb.1).map_err(|e| format!("big endian does not decode: {}; {}", e, show(m)))?;
    if (dl.1, dl.2) != (db.1, db.2) {
        return Err(format!("consumed {:?} and {:?}; {}", (dl.1, dl.2), (db.1, db.2), show(m)));
    }
    message_equal(&dl.0, &canonical(&ml, &w.fds)).map_err(|e| format!("little endian: {}; {}", e, show(m)))?;
    message_equal(&db.0, &canonical(&mb, &w.fds)).map_err(|e| format!("big endian: {}; {}", e, show(m)))?;
    // the decoded bodies, compared with each other
    if !has_nan(m) && dl.0.get_body() != db.0.get_body() {
        return Err(format!("decoded bodies differ: {}", show(m)));
    }
    ctx.trace();
    ctx.outcome("symmetric");
    ctx.sample(|| show(m));
    Ok(())
}

/// Decoding what the reference encoder wrote (used by C06, C02).
pub fn bytes_of(m: &M) -> Wire {
    encode(m, &HeaderForm::default())
}
pub fn b(v: &[u8]) -> Bytes {
    Bytes::copy_from_slice(v)
}

pub fn name_of_len(kind: u8, n: usize) -> Option<String> {
    // kinds: 1 path, 2 interface, 3 member, 4 error, 6 destination (unique), 7 sender (well known)
    Some(match kind {
        1 => {
            if n == 0 {
                return None;
            }
            if n == 1 {
                "/".into()
            } else {
                let mut s = String::from("/");
                while s.len() < n {
                    if s.len() % 5 == 3 && s.len() + 1 < n {
                        s.push('/')
                    } else {
                        s.push('p')
                    }
                }
                s
            }
        }
        3 => {
            if n == 0 || n > 255 {
                return None;
            }
            "M".repeat(n)
        }
        6 => {
            if n < 4 || n > 255 {
                return None;
            }
            format!(":{}.9", "1".repeat(n - 3))
        }
        _ => {
            if n < 3 || n > 255 {
                return None;
            }
            format!("{}.b", "i".repeat(n - 2))
        }
    })
}
pub fn set_name(m: &mut M, kind: u8, v: Option<String>) {
    match kind {
        1 => m.path = v,
        2 => m.iface = v,
        3 => m.member = v,
        4 => m.ename = v,
        6 => m.dest = v,
        _ => m.sender = v,
    }
}

/// Values for building body sequences.
pub fn alphabet() -> Vec<V> {
    vec![
        V::Y(0xa5),
        V::N(-2),
        V::U(0xdeadbeef),
        V::X(-0x0123456789abcdef),
        V::D(0x7ff0_0000_0000_0000),
        V::B(true),
        s(""),
        s("abc"),
        s("abcdefg"),
        V::O("/ab".into()),
        V::G(parses("a{sv}")),
        V::G(vec![]),
        V::A(p(b'y'), vec![]),
        V::A(p(b'y'), vec![V::Y(1), V::Y(2), V::Y(3)]),
        V::A(p(b't'), vec![]),
        V::A(p(b't'), vec![V::Tt(5)]),
        V::A(p(b's'), vec![s("x"), s("yz")]),
        V::A(parse("{sv}"), vec![V::De(Box::new((s("k"), var(V::N(7)))))]),
        V::St(vec![V::Y(9), V::Q(8)]),
        var(V::Y(1)),
        var(V::Tt(2)),
        var(V::St(vec![V::Y(3)])),
        V::H(11),
        V::H(12),
    ]
}

/// Pattern words: every byte from a small set.
pub fn pattern(i: u64, set: &[u8], n: usize) -> [u8; 8] {
    let mut o = [0u8; 8];
    let mut i = i;
    for x in o.iter_mut().take(n) {
        *x = set[(i % set.len() as u64) as usize];
        i /= set.len() as u64;
    }
    o
}

pub fn lengths(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if th { 4200 } else { 1100 }).collect();
    for k in 10..=(if th { 22 } else { 17 }) {
        for d in [-2i64, -1, 0, 1, 2, 3] {
            v.push(((1i64 << k) + d) as usize);
        }
    }
    for x in [0x0102, 0x0203, 0x010203, 0x00ff00, 0xff00, 0x1000f, 65535 + 256] {
        v.push(x);
    }
    v.sort();
    v.dedup();
    v
}

pub fn letters(n: usize) -> String {
    String::from_utf8((0..n).map(|k| b'a' + ((k + k / 251) % 26) as u8).collect()).unwrap()
}
fn long_lengths(th: bool) -> Vec<usize> {
    let mut v = vec![0x0102_0304, 0x0001_0000 * 5 + 0x203];
    for k in 18..=(if th { 26 } else { 24 }) {
        for d in [-1i64, 0, 1] {
            v.push(((1i64 << k) + d) as usize);
        }
    }
    if !th {
        v.push((1 << 26) + 1);
    } else {
        v.extend([(1 << 26) + 5, 100 << 20, (1 << 27) - 4096]);
    }
    v.sort();
    v
}
/// The type with every byte replaced by an empty struct.
fn empty_for_byte(t: &T) -> T {
    match t {
        T::P(b'y') => T::St(vec![]),
        T::P(c) => T::P(*c),
        T::A(t) => arr(empty_for_byte(t)),
        T::St(ts) => T::St(ts.iter().map(empty_for_byte).collect()),
        T::De(kv) => de(empty_for_byte(&kv.0), empty_for_byte(&kv.1)),
    }
}

pub fn msg_families(j: MJ, th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let le = |i: usize| i % 2 == 0;

    // 1. every type shape at every offset
    let mut tys = types_upto(3, BASIC, 3);
    tys.extend(types_exact(4, if th { BASIC } else { b"ynuxsv" }, 3));
    if th {
        tys.extend(types_exact(5, b"ynuxsv", 4));
    }
    let n4 = tys.len() as u64;
    let dev = if th { 2 } else { 1 };
    let tys = Arc::new(tys);
    let t2 = tys.clone();
    fs.push(family("types", format!("all type trees up to {} nodes ({} types), 8 offsets, both endiannesses, at most {} non-default inner choices", if th { 5 } else { 4 }, n4, dev), n4 * 16, move |i, ctx| {
        let d = digits(i, &[2, 8, n4]);
        let t = &t2[d[2]];
        ctx.dfs(dev, |ch, ctx| {
            let mut salt = i as u32;
            let v = value(t, ch, 0, &mut salt);
            j(&with_body(offset_body(d[1], vec![v, V::Y(0xee)]), d[0] == 0), ctx)
        })
    }));

    // 2. numeric domains
    fs.push(family("numbers16", "all bytes, all 16-bit integers, both endiannesses", 65536 * 2, move |i, ctx| {
        let d = digits(i, &[2, 65536]);
        let x = d[1] as u16;
        let mut b = vec![V::Q(x), V::N(x as i16)];
        if x < 256 {
            b.push(V::Y(x as u8));
        }
        j(&with_body(b, le(d[0])), ctx)
    }));
    let set32: &[u8] = &[0, 1, 0x7f, 0x80, 0xff];
    fs.push(family("numbers32", "32-bit words with every byte in {00,01,7f,80,ff}, as i, u, serial, reply serial, fd count", 2 * 625 * 5, move |i, ctx| {
        let d = digits(i, &[2, 5, 625]);
        let w = u32::from_le_bytes(pattern(d[2] as u64, set32, 4)[..4].try_into().unwrap());
        let mut m = with_body(vec![], le(d[0]));
        match d[1] {
            0 => m.body = vec![V::I(w as i32)],
            1 => m.body = vec![V::U(w)],
            2 => m.serial = w,
            3 => m.rserial = Some(w),
            _ => m.fds = Some(w),
        }
        j(&m, ctx)
    }));
    let set64: &'static [u8] = if th { &[0, 0x7f, 0x80, 0xff] } else { &[0, 0x80, 0xff] };
    let n64 = (set64.len() as u64).pow(8);
    fs.push(family("numbers64", format!("64-bit words with every byte in a set of {}", set64.len()), 2 * n64, move |i, ctx| {
        let d = digits(i, &[2, n64]);
        let w = u64::from_le_bytes(pattern(d[1] as u64, set64, 8));
        j(&with_body(vec![V::X(w as i64), V::Tt(w), V::D(w)], le(d[0])), ctx)
    }));

    // 3. lengths
    let ls = Arc::new(lengths(th));
    let nl = ls.len() as u64;
    fs.push(family("lengths", format!("{} lengths of strings, paths, byte arrays, arrays of other elements, inside and outside containers", nl), nl * 2 * 9, move |i, ctx| {
        let d = digits(i, &[2, 9, nl]);
        let n = ls[d[2]];
        let fill: String = (0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect();
        let v = match d[1] {
            0 => s(&fill),
            1 => V::A(p(b'y'), (0..n).map(|k| V::Y(k as u8)).collect()),
            2 => match name_of_len(1, n) {
                Some(x) => V::O(x),
                None => return Ok(()),
            },
            3 => var(s(&fill)),
            4 if n <= 5000 => V::A(p(b't'), (0..n).map(|k| V::Tt(k as u64)).collect()),
            5 if n <= 5000 => V::A(p(b's'), (0..n).map(|k| s(&fill[..k % 9])).collect()),
            6 if n <= 5000 => V::A(parse("(yv)"), (0..n).map(|k| V::St(vec![V::Y(k as u8), var(V::N(k as i16))])).collect()),
            7 if n <= 300 => V::A(parse("ay"), (0..n).map(|k| V::A(p(b'y'), (0..k % 11).map(|x| V::Y(x as u8)).collect())).collect()),
            8 => V::A(p(b's'), vec![s(&fill), s(&fill)]),
            _ => return Ok(()),
        };
        j(&with_body(vec![V::Y(1), v, V::X(-1)], le(d[0])), ctx)
    }));

    // 3a. long lengths
    let ll = Arc::new(long_lengths(th));
    let nll = ll.len() as u64;
    fs.push(
        family("long lengths", format!("{} lengths from 2^18 up to {} of strings, paths, byte arrays, string arrays, variants and the header path", nll, ll.last().unwrap()), nll * 6, move |i, ctx| {
            let d = digits(i, &[6, nll]);
            let n = ll[d[1]];
            let v = match d[0] {
                0 => s(&letters(n)),
                1 => V::O(name_of_len(1, n).unwrap()),
                2 if n <= 1 << 21 => V::A(p(b'y'), (0..n).map(|k| V::Y((k * 7 + k / 256) as u8)).collect()),
                3 if n < 64 << 20 => V::A(p(b's'), vec![s("a"), s(&letters(n)), s("b")]),
                4 => var(V::St(vec![V::Y(2), s(&letters(n))])),
                5 if n < 64 << 20 => {
                    let mut m = with_body(vec![V::Y(1), V::X(-1)], d[1] % 2 == 0);
                    m.path = name_of_len(1, n);
                    return j(&m, ctx);
                }
                _ => return Ok(()),
            };
            j(&with_body(vec![V::Y(1), v, V::X(-1)], d[1] % 2 == 0), ctx)
        })
        .threads(4),
    );

    // 3b. every byte of a length word
    let lw: Arc<Vec<usize>> = Arc::new({
        let mut v: Vec<usize> = (0..256).flat_map(|b| [0x10000 + b, 0x10000 + (b << 8), 0x20000 + b * 0x101]).collect();
        v.extend((0..8).flat_map(|b| [0x10000 << b, 0x1000000 + (1 << b), 0x1000000 + (0xff ^ (1 << b)), 0x1000000 + (0x100 << b)]));
        if th {
            v.extend((0..256).flat_map(|b| [b << 16, 0x1000000 + b]));
            v.extend((0..256).flat_map(|b| [0x1000000 + (b << 8), 0x1000000 + (b << 16), 0x2000000 + b]));
        }
        v.retain(|n| *n > 8);
        v
    });
    let nlw = lw.len() as u64;
    fs.push(
        family("length words", format!("{} lengths with every byte at every place of the word, of an array and of a string in it", nlw), nlw * 2, move |i, ctx| {
            let d = digits(i, &[2, nlw]);
            let n = lw[d[1]];
            let v = V::A(p(b's'), vec![s(&letters(if d[0] == 0 { n - 5 } else { n }))]);
            j(&with_body(vec![v, V::Y(1)], d[1] % 8 < 4), ctx)
        })
        .threads(6),
    );

    // 3c. many values
    let cs: Arc<Vec<usize>> = Arc::new({
        let mut v = vec![100, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 4095, 4096, 4097];
        v.extend([65534, 65535, 65536, 65537, 65538, 70000]);
        if th {
            v.extend(1..=1100);
            v.extend([1 << 17, 1 << 18, (1 << 18) + 1]);
        }
        v
    });
    let ncs = cs.len() as u64;
    fs.push(family("many values", format!("{} element counts up to {} of descriptors (distinct), dict entries, structs, variants, arrays, 64-bit words", ncs, cs.iter().max().unwrap()), ncs * 6 * 2, move |i, ctx| {
        let d = digits(i, &[2, 6, ncs]);
        let n = cs[d[2]];
        if d[1] == 0 && n > 20000 {
            // the descriptor table is searched linearly
            return Ok(());
        }
        let v = match d[1] {
            0 => V::A(p(b'h'), (0..n).map(|k| V::H(k as i32 * 5 + 3)).collect()),
            1 => V::A(parse("{us}"), (0..n).map(|k| V::De(Box::new((V::U(k as u32 ^ 0x5a00_0000), s(&"abcdefgh"[..k % 9]))))).collect()),
            2 => V::A(parse("(yqx)"), (0..n).map(|k| V::St(vec![V::Y(k as u8), V::Q(k as u16), V::X(-(k as i64))])).collect()),
            3 => V::A(p(b'v'), (0..n).map(|k| if k % 3 == 0 { var(V::Y(k as u8)) } else if k % 3 == 1 { var(V::Tt(k as u64)) } else { var(s("x")) }).collect()),
            4 => V::A(parse("an"), (0..n).map(|k| V::A(p(b'n'), vec![V::N(k as i16); k % 4])).collect()),
            _ => V::A(p(b't'), (0..n).map(|k| V::Tt((k as u64) << 40 | k as u64)).collect()),
        };
        j(&with_body(vec![V::Y(1), v, V::Y(9)], le(d[0])), ctx)
    }).threads(6));

    // 3d. odd element types of empty arrays: empty structs, dict entries in any place
    let odd = Arc::new({
        let mut v = Vec::new();
        for t in types_upto(5, b"yv", 3) {
            v.push(empty_for_byte(&t));
        }
        v
    });
    let nodd = odd.len() as u64;
    fs.push(family("odd types", format!("{} type trees over variants, empty structs, arrays, structs and dict entries as element types of empty arrays and in signature values", nodd), nodd * 3 * 2, move |i, ctx| {
        let d = digits(i, &[2, 3, nodd]);
        let t = odd[d[2]].clone();
        let v = match d[1] {
            0 => V::A(t, vec![]),
            1 => V::G(vec![p(b'u'), t, p(b's')]),
            _ => var(V::St(vec![V::Y(1), V::A(t, vec![]), V::Y(2)])),
        };
        j(&with_body(vec![V::Y(1), v, V::Y(9)], le(d[0])), ctx)
    }));

    // 3b. signature values and body signatures of every length up to the limit
    fs.push(family("sig lengths", "signature values, body signatures and variant signatures of every length 0..=255", 256 * 2 * 3, move |i, ctx| {
        let d = digits(i, &[2, 3, 256]);
        let n = d[2];
        let m = match d[1] {
            0 => with_body(vec![V::G(vec![p(b'y'); n]), V::Tt(1)], le(d[0])),
            1 => with_body((0..n).map(|k| V::Y(k as u8)).collect(), le(d[0])),
            _ => {
                if n < 3 {
                    return Ok(());
                }
                with_body(vec![var(V::St((0..n - 2).map(|k| V::Y(k as u8)).collect())), V::Tt(1)], le(d[0]))
            }
        };
        j(&m, ctx)
    }));

    // 4. header subsets
    fs.push(family("header subsets", "4 types x 2^8 field subsets x 3 stale signatures x body or none x endianness", 4 * 256 * 3 * 2 * 2, move |i, ctx| {
        let d = digits(i, &[2, 2, 3, 256, 4]);
        let k = d[3];
        let on = |b: usize, s: &str| if k >> b & 1 == 1 { Some(s.to_string()) } else { None };
        let mut m = empty_m();
        m.le = le(d[0]);
        m.ty = d[4] as u8 + 1;
        m.serial = 77;
        m.path = on(0, "/a/bc");
        m.iface = on(1, "i.f.aceX");
        m.member = on(2, "Mem");
        m.ename = on(3, "err.Name");
        m.rserial = on(4, "").map(|_| 0x0f0e0d0c);
        m.dest = on(5, ":1.77");
        m.sender = on(6, "com.s-1.x");
        m.fds = on(7, "").map(|_| 3);
        m.sig = match d[2] {
            0 => None,
            1 => Some(vec![]),
            _ => Some(parses("s")),
        };
        if d[1] == 1 {
            m.body = vec![V::Y(1), V::Tt(2)];
        }
        if !required_ok(&m) {
            return Ok(());
        }
        j(&m, ctx)
    }));
    fs.push(family("flags", "8 flag sets x 256 versions x 4 types x endianness", 8 * 256 * 4 * 2, move |i, ctx| {
        let d = digits(i, &[2, 4, 8, 256]);
        let mut m = call();
        m.le = le(d[0]);
        m.ty = d[1] as u8 + 1;
        m.flags = d[2] as u8;
        m.ver = d[3] as u8;
        m.iface = Some("a.b".into());
        m.ename = Some("a.b".into());
        m.rserial = Some(1);
        j(&m, ctx)
    }));
    let kinds = [1u8, 2, 3, 4, 6, 7];
    fs.push(family("name lengths", "each header name and path at every length 1..=300, with and without body", 6 * 301 * 2 * 2, move |i, ctx| {
        let d = digits(i, &[2, 2, 6, 301]);
        let mut m = with_body(if d[1] == 1 { vec![V::U(1)] } else { vec![] }, le(d[0]));
        match name_of_len(kinds[d[2]], d[3]) {
            Some(x) => set_name(&mut m, kinds[d[2]], Some(x)),
            None => return Ok(()),
        }
        j(&m, ctx)
    }));
    fs.push(family("name length pairs", "pairs of header names at 9 x 9 lengths", 36 * 81 * 2, move |i, ctx| {
        let d = digits(i, &[2, 6, 6, 9, 9]);
        if d[1] == d[2] {
            return Ok(());
        }
        let mut m = with_body(vec![V::Y(7)], le(d[0]));
        for (k, l) in [(d[1], d[3]), (d[2], d[4])] {
            set_name(&mut m, kinds[k], name_of_len(kinds[k], l + 4));
        }
        j(&m, ctx)
    }));

    // 6. body sequences
    let al = Arc::new(alphabet());
    let na = al.len() as u64;
    let depth = if th { 4 } else { 3 };
    let nw = words_upto(na, depth);
    let al2 = al.clone();
    fs.push(family("body sequences", format!("all sequences of up to {} values from {}, alternating endianness", depth, na), nw * 2, move |i, ctx| {
        let w = word(i / 2, na);
        j(&with_body(w.iter().map(|k| al2[*k].clone()).collect(), le(i as usize)), ctx)
    }));
    // sequences inside an array of structs and inside a struct inside a variant
    let nw2 = words_upto(na, 2);
    let al3 = al.clone();
    fs.push(family("nested sequences", "all structs of up to 2 values, in an array, a variant, a struct and as dict entry", nw2 * 2 * 4, move |i, ctx| {
        let d = digits(i, &[2, 4, nw2]);
        let vs: Vec<V> = word(d[2] as u64, na).iter().map(|k| al3[*k].clone()).collect();
        if vs.is_empty() {
            return Ok(());
        }
        let v = match d[1] {
            0 => {
                let st = V::St(vs);
                V::A(vtype(&st), vec![st.clone(), st])
            }
            1 => var(V::St(vs)),
            2 => V::St(vec![V::Y(1), V::St(vs), V::Y(2)]),
            _ => {
                if vs.len() != 2 {
                    return Ok(());
                }
                let e = V::De(Box::new((vs[0].clone(), vs[1].clone())));
                V::A(vtype(&e), vec![e.clone(), e])
            }
        };
        j(&with_body(vec![V::Y(5), v, V::Q(6)], le(d[0])), ctx)
    }));

    // 7. nesting
    fs.push(family("nesting", "array, struct, dict and mixed nesting 1..=32 deep, inner lengths 0..2, 8 offsets", 5 * 32 * 3 * 8 * 2, move |i, ctx| {
        let d = digits(i, &[2, 8, 3, 32, 5]);
        let v = nested(d[4], d[3] + 1, d[2]);
        j(&with_body(offset_body(d[1], vec![v, V::Y(1)]), le(d[0])), ctx)
    }));
    let tv = tys.clone();
    fs.push(family("variants", format!("every type as the content of variants nested 1..=4 deep, {} types, 8 offsets", n4), n4 * 8 * 4, move |i, ctx| {
        let d = digits(i, &[4, 8, n4]);
        let t = &tv[d[2]];
        if contains_variant(t) && d[0] > 2 {
            return Ok(());
        }
        let mut v = default_value(t, 1, i);
        for _ in 0..=d[0] {
            v = var(v);
        }
        j(&with_body(offset_body(d[1], vec![v, V::Y(1)]), d[1] % 2 == 0), ctx)
    }));

    // 8. arrays
    let te = tys.clone();
    let ne = types_upto(3, BASIC, 3).len() as u64;
    fs.push(family("arrays", format!("arrays of {} element types with 0..=9 elements at 8 offsets", ne), ne * 10 * 8 * 2, move |i, ctx| {
        let d = digits(i, &[2, 8, 10, ne]);
        let t = &te[d[3]];
        let v = V::A(t.clone(), (0..d[2]).map(|k| default_value(t, k % 3, k as u64)).collect());
        j(&with_body(offset_body(d[1], vec![v, V::Y(0xdd)]), le(d[0])), ctx)
    }));

    // 9. descriptors
    let nf = words_upto(4, 5);
    fs.push(family("descriptors", "all sequences of up to 5 descriptors out of 4, flat, in an array, in variants, in structs; header count preset or not", nf * 4 * 2, move |i, ctx| {
        let d = digits(i, &[2, 4, nf]);
        let w: Vec<V> = word(d[2] as u64, 4).iter().map(|k| V::H([0, 5, -1, 1 << 20][*k])).collect();
        let body = match d[1] {
            0 => w,
            1 => vec![V::Y(1), V::A(p(b'h'), w)],
            2 => w.into_iter().map(var).collect(),
            _ => vec![V::A(parse("(yh)"), w.into_iter().map(|h| V::St(vec![V::Y(0), h])).collect())],
        };
        let mut m = with_body(body, i % 3 == 0);
        if d[0] == 1 {
            m.fds = Some(9);
        }
        j(&m, ctx)
    }));
    // 10. characters
    fs.push(family("characters", "every Unicode character alone, before and after another, 64 characters a message; NUL on its own; every pair of ASCII characters", 0x110000 / 64 + 128, move |i, ctx| {
        let mut body = Vec::new();
        if i >= 0x110000 / 64 {
            let a = (i - 0x110000 / 64) as u8 as char;
            for c in if a == '\0' { 127..128u8 } else { 1..128u8 } {
                body.push(s(&format!("{}{}", a, c as char)));
            }
        } else {
            for k in 0..64 {
                if let Some(c) = char::from_u32(i as u32 * 64 + k) {
                    if c != '\0' {
                        body.push(s(&format!("{}", c)));
                        body.push(s(&format!("x{}", c)));
                        body.push(s(&format!("{}x", c)));
                    }
                }
            }
        }
        if body.is_empty() {
            return Ok(());
        }
        j(&with_body(body, i % 2 == 0), ctx)
    }));
    // 11. header products
    let nb: &'static [Option<&'static str>] = &[None, Some(":1.7"), Some(":1.8"), Some("a.b"), Some("c.d")];
    fs.push(family("header product", "every combination of endianness, type, flags {0,1,2,7}, version {0,1,2}, serial {0,1,9,max}, reply serial {none,0,9,max}, destination and sender out of 5, descriptor count {none,0,3}, body or none, few or all other fields", 2 * 4 * 4 * 3 * 4 * 4 * 5 * 5 * 3 * 2 * 2, move |i, ctx| {
        let d = digits(i, &[2, 4, 4, 3, 4, 4, 5, 5, 3, 2, 2]);
        let mut m = empty_m();
        m.le = d[0] == 0;
        m.ty = d[1] as u8 + 1;
        m.flags = [0, 1, 2, 7][d[2]];
        m.ver = [0, 1, 2][d[3]];
        m.serial = [0, 1, 9, u32::MAX][d[4]];
        m.rserial = [None, Some(0), Some(9), Some(u32::MAX)][d[5]];
        m.dest = nb[d[6]].map(|x| x.to_string());
        m.sender = nb[d[7]].map(|x| x.to_string());
        m.fds = [None, Some(0), Some(3)][d[8]];
        if d[9] == 1 {
            m.body = vec![V::Y(1), V::Tt(2)];
        }
        let all = d[10] == 1;
        if all || m.ty == 1 || m.ty == 4 {
            m.path = Some("/a".into());
            m.member = Some("M".into());
        }
        if all || m.ty == 4 {
            m.iface = Some("a.b".into());
        }
        if all || m.ty == 3 {
            m.ename = Some("a.b".into());
        }
        if !required_ok(&m) {
            return Ok(());
        }
        j(&m, ctx)
    }));
    let eq: &'static [Option<&'static str>] = &[None, Some("a.b"), Some("c.d"), Some(":1.1")];
    fs.push(family("equal fields", "fields with equal and different contents: interface, error name, destination, sender, member, path and a string of the body", 2 * 4 * 2 * 3 * 3 * 4 * 4 * 2 * 6, move |i, ctx| {
        let d = digits(i, &[2, 4, 2, 3, 3, 4, 4, 2, 6]);
        let mut m = empty_m();
        m.le = d[0] == 0;
        m.ty = d[1] as u8 + 1;
        m.serial = 1;
        m.rserial = Some(if m.ty == 2 { 1 } else { 2 });
        m.path = Some(["/", "/a"][d[2]].into());
        m.iface = eq[d[3]].map(|x| x.into());
        m.ename = eq[d[4]].map(|x| x.into());
        m.dest = eq[d[5]].map(|x| x.into());
        m.sender = eq[d[6]].map(|x| x.into());
        m.member = Some(["a", "M"][d[7]].into());
        m.body = match d[8] {
            0 => vec![],
            1 => vec![s("a.b")],
            2 => vec![s(":1.1")],
            3 => vec![s("M"), s("a.b"), s("a.b")],
            4 => vec![V::O("/a".into()), s("/a"), V::U(1)],
            _ => vec![V::G(vec![]), V::O("/".into()), V::G(parses("sss"))],
        };
        if !required_ok(&m) {
            return Ok(());
        }
        j(&m, ctx)
    }));
    // 12. names with a meaning
    let sp = Arc::new(special_messages());
    let nsp = sp.len() as u64;
    fs.push(family("special names", format!("{} messages with the names the D-Bus specification gives a meaning, as path, interface, member, error name, destination, sender, string and path values", nsp), nsp * 2, move |i, ctx| {
        let mut m = sp[i as usize / 2].clone();
        m.le = i % 2 == 0;
        j(&m, ctx)
    }));
    // 13. doubles and single bits
    fs.push(family("doubles", "every exponent x both signs x 10 mantissas, every word within 1 of a power of two or its complement", 2048 + 64 * 6, move |i, ctx| {
        let mut body = vec![V::Y(1)];
        if i < 2048 {
            for sg in 0..2u64 {
                for man in [0u64, 1, 2, (1 << 52) - 1, 1 << 51, (1 << 51) - 1, (1 << 51) + 1, 0x000f_0000_0000_0000, 0xffff_ffff, 0x000a_5a5a_5a5a_5a5a] {
                    body.push(V::D(sg << 63 | i << 52 | man));
                }
            }
        } else {
            let k = i - 2048;
            let x = (1u64 << (k % 64)).wrapping_add([0, 1, u64::MAX][(k / 64 % 3) as usize]);
            let x = if k / 192 == 0 { x } else { !x };
            body.extend([V::X(x as i64), V::Tt(x), V::D(x), V::I(x as i32), V::U(x as u32), V::N(x as i16), V::Q(x as u16), V::I((x >> 32) as i32), V::U((x >> 32) as u32)]);
        }
        let mut m = with_body(body, i % 2 == 0);
        j(&m, ctx)?;
        m.le = !m.le;
        j(&m, ctx)
    }));
    // 14. body counts: sequences of equal values of every basic type
    let cts: Arc<Vec<usize>> = Arc::new((0..=64).chain([100, 127, 128, 200, 253, 254, 255]).collect());
    let ncts = cts.len() as u64;
    fs.push(family("repeated values", "1..=64 and up to 255 equal values of every basic type and 6 containers, as body, as struct and as array", ncts * 20 * 3, move |i, ctx| {
        let d = digits(i, &[3, 20, ncts]);
        let n = cts[d[2]];
        if n == 0 {
            return Ok(());
        }
        let v = if d[1] < 14 { default_value(&p(BASIC[d[1]]), 1, 0) } else { default_value(&parse(["ay", "as", "at", "(y)", "(yx)", "a{sv}"][d[1] - 14]), 1, 0) };
        let body = match d[0] {
            0 => vec![v; n],
            1 => vec![V::Y(1), V::St(vec![v; n])],
            _ => vec![V::Y(1), V::A(vtype(&v), vec![v; n]), V::Y(2)],
        };
        j(&with_body(body, i % 2 == 0), ctx)
    }));
    // 15. edge values in every context
    let ev = Arc::new(edge_values());
    let nev = ev.len() as u64;
    let cd = if th { 4 } else { 3 };
    let nc = words_upto(CONTEXTS, cd);
    fs.push(family("edge values in context", format!("{} edge values in every chain of up to {} of {} containers, before and after another value", nev, cd, CONTEXTS), nev * nc, move |i, ctx| {
        let d = digits(i, &[nev, nc]);
        let mut v = ev[d[0]].clone();
        for k in word(d[1] as u64, CONTEXTS) {
            v = match in_context(k, v) {
                Some(v) => v,
                None => return Ok(()),
            };
        }
        j(&with_body(vec![V::Y(1), v, V::X(-1)], le((d[0] + d[1]) as usize)), ctx)
    }));
    // 15b. header numbers next to edge values
    let ev = Arc::new(edge_values());
    fs.push(family("header numbers and edge values", format!("descriptor counts {{none 0 1 2 3 max}} x 4 message types x serial or reply serial {{0 1 max}} x {} edge values, plain and in each of {} containers", nev, CONTEXTS), nev * (1 + CONTEXTS) * 6 * 4 * 3, move |i, ctx| {
        let d = digits(i, &[3, 4, 6, 1 + CONTEXTS, nev]);
        let mut v = ev[d[4]].clone();
        if d[3] > 0 {
            v = match in_context(d[3] - 1, v) {
                Some(v) => v,
                None => return Ok(()),
            };
        }
        let mut m = with_body(vec![v.clone(), V::Y(1), v], le(d[0] + d[4]));
        m.ty = d[1] as u8 + 1;
        m.path = Some("/a".into());
        m.iface = Some("a.b".into());
        m.member = Some("M".into());
        m.ename = Some("a.b".into());
        m.rserial = Some([0, 1, u32::MAX][d[0]]);
        m.serial = [u32::MAX, 0, 1][d[0]];
        m.fds = [None, Some(0), Some(1), Some(2), Some(3), Some(u32::MAX)][d[2]];
        j(&m, ctx)
    }));
    // 15c. dictionaries: keys in every order, repeated or not
    let kd = if th { 6 } else { 5 };
    let nkw = words_upto(3, kd);
    fs.push(family("dictionaries", format!("arrays of up to {} dict entries and of structs of two, all orders and repetitions of 3 keys of 12 types, 4 value types, equal and different values", kd), nkw * 12 * 4 * 2 * 2, move |i, ctx| {
        let d = digits(i, &[2, 2, 4, 12, nkw]);
        let key = |k: usize| -> V {
            match d[3] {
                0 => s(["b", "a", "ab"][k]),
                1 => V::O(["/b", "/a", "/"][k].into()),
                2 => V::G(parses(["u", "s", ""][k])),
                3 => V::Y([200, 1, 7][k]),
                4 => V::U([9, 1, 1 << 31][k]),
                5 => V::I([0, -1, 5][k]),
                6 => V::X([1, -9, 1 << 40][k]),
                7 => V::B(k == 0),
                8 => V::N([0, -300, 5][k]),
                9 => V::Q([0x8000, 1, 300][k]),
                10 => V::Tt([1 << 63, 1, 2][k]),
                _ => V::D([0, 1 << 63, 0x3ff0_0000_0000_0000][k]),
            }
        };
        let val = |n: usize| -> V {
            let n = if d[1] == 0 { 0 } else { n };
            match d[2] {
                0 => V::Y(n as u8),
                1 => s(["", "x", "longer"][n % 3]),
                2 => [var(V::Y(1)), var(s("z")), var(V::Tt(2))][n % 3].clone(),
                _ => V::St(vec![V::Y(n as u8), var(V::N(n as i16))]),
            }
        };
        let pair = |n: usize, k: usize| if d[0] == 0 { V::De(Box::new((key(k), val(n)))) } else { V::St(vec![key(k), val(n)]) };
        let es: Vec<V> = word(d[4] as u64, 3).iter().enumerate().map(|(n, k)| pair(n, *k)).collect();
        let t = vtype(&pair(0, 0));
        j(&with_body(vec![V::Y(1), V::A(t, es), V::Y(2)], i % 2 == 0), ctx)
    }));
    // 15d. long dictionaries with text keys in falling order, and with one key twice
    fs.push(family("long dictionaries", "dictionaries of 1..=300 entries with text keys rising, falling, mixed, all equal, the first repeated at every eighth place", 300 * 5, move |i, ctx| {
        let d = digits(i, &[5, 300]);
        let n = d[1] + 1;
        let key = |k: usize| match d[0] {
            0 => k,
            1 => n - k,
            2 => k * 37 % n,
            3 => 0,
            _ => if k % 8 == 7 { 0 } else { k },
        };
        let es: Vec<V> = (0..n).map(|k| V::De(Box::new((s(&format!("k{:03}", key(k))), var(V::U(k as u32)))))).collect();
        j(&with_body(vec![V::A(parse("{sv}"), es)], i % 2 == 0), ctx)
    }));
    // 15e. NUL in a string, at every place, in every context
    let nctx = words_upto(CONTEXTS, 2);
    fs.push(family("NUL characters", format!("texts of 1..=40 characters with a NUL at every place, in every chain of up to 2 of {} containers, alone and after another value", CONTEXTS), 40 * nctx * 2, move |i, ctx| {
        let d = digits(i, &[2, nctx, 40]);
        let n = d[2] + 1;
        for k in 0..n {
            if n > 9 && k > 1 && k + 2 < n && d[1] > 9 {
                continue;
            }
            let t: String = (0..n).map(|q| if q == k { '\0' } else { 'x' }).collect();
            let mut v = Some(s(&t));
            for c in word(d[1] as u64, CONTEXTS) {
                v = v.and_then(|v| in_context(c, v));
            }
            if let Some(v) = v {
                let body = if d[0] == 0 { vec![v] } else { vec![V::Y(1), s("a"), v, V::Y(2)] };
                j(&with_body(body, i % 2 == 0), ctx)?;
            }
        }
        Ok(())
    }));
    // 16. texts over characters that transformations like to touch
    let tc: &'static [char] = &['a', 'A', ' ', '\r', '\n', '\t', '\'', '\\', '/', '.', '\u{feff}', '\u{301}', 'é', '\u{df}', '\u{1f600}', '\u{a0}', '\u{7f}', '\u{1}'];
    let ntc = tc.len() as u64;
    let td = if th { 5 } else { 4 };
    let ntw = words_upto(ntc, td);
    fs.push(family("texts", format!("every text of up to {} of {} characters, 64 texts a message", td, ntc), ntw / 64 + 1, move |i, ctx| {
        let body: Vec<V> = (i * 64..(i * 64 + 64).min(ntw)).map(|k| s(&word(k, ntc).iter().map(|k| tc[*k]).collect::<String>())).collect();
        if body.is_empty() {
            return Ok(());
        }
        j(&with_body(body, i % 2 == 0), ctx)
    }));
    fs
}

pub const SP_NAMES: &[&str] = &[
    "org.freedesktop.DBus",
    "org.freedesktop.DBus.Local",
    "org.freedesktop.DBus.Properties",
    "org.freedesktop.DBus.Peer",
    "org.freedesktop.DBus.Introspectable",
    "org.freedesktop.DBus.ObjectManager",
    "org.freedesktop.DBus.Monitoring",
    "org.freedesktop.DBus.Error.Failed",
    "org.freedesktop.DBus.Error.UnknownMethod",
    "org.freedesktop.DBus.Error.UnknownObject",
    "org.freedesktop.DBus.Error.NoReply",
    "org.freedesktop",
    "org.gtk.Actions",
    "com.example",
];
pub const SP_MEMBERS: &[&str] = &["Hello", "Ping", "Get", "GetAll", "Set", "Introspect", "PropertiesChanged", "NameOwnerChanged", "NameAcquired", "NameLost", "AddMatch", "RequestName", "Disconnected", "GetMachineId", "InterfacesAdded", "M"];
pub const SP_PATHS: &[&str] = &["/", "/org/freedesktop/DBus", "/org/freedesktop/DBus/Local", "/org/freedesktop", "/com/example", "/a"];

pub fn special_messages() -> Vec<M> {
    let mut out = Vec::new();
    let some = |x: &str| Some(x.to_string());
    for ty in 1..=4u8 {
        for (k, path) in SP_PATHS.iter().enumerate() {
            for (l, iface) in SP_NAMES.iter().enumerate() {
                for mem in SP_MEMBERS {
                    for who in 0..4 {
                        let mut m = empty_m();
                        m.ty = ty;
                        m.serial = 1 + k as u32;
                        m.path = some(path);
                        m.iface = some(iface);
                        m.member = some(mem);
                        m.rserial = if ty == 2 || ty == 3 { Some(1) } else { None };
                        m.ename = if ty == 3 { some(iface) } else { None };
                        match who {
                            0 => {}
                            1 => m.dest = some("org.freedesktop.DBus"),
                            2 => m.sender = some("org.freedesktop.DBus"),
                            _ => {
                                m.dest = some(SP_NAMES[(l + 1) % SP_NAMES.len()]);
                                m.sender = some(SP_NAMES[l]);
                            }
                        }
                        m.body = match (k + l) % 4 {
                            0 => vec![],
                            1 => vec![s(iface), s(mem), s("")],
                            2 => vec![s(iface), V::A(parse("{sv}"), vec![V::De(Box::new((s(mem), var(V::O(path.to_string())))))]), V::A(p(b's'), vec![])],
                            _ => vec![V::O(path.to_string()), s(path), V::G(parses("sss"))],
                        };
                        out.push(m);
                    }
                }
            }
        }
    }
    out
}

pub fn contains_variant(t: &T) -> bool {
    match t {
        T::P(c) => *c == b'v',
        T::A(t) => contains_variant(t),
        T::St(ts) => ts.iter().any(contains_variant),
        T::De(kv) => contains_variant(&kv.0) || contains_variant(&kv.1),
    }
}

/// A value nested `n` deep by pattern `kind`; `len` elements at the innermost array.
pub fn nested(kind: usize, n: usize, len: usize) -> V {
    let mut v = match kind {
        0 => {
            let inner = V::A(p(b'y'), (0..len).map(|k| V::Y(k as u8)).collect());
            let mut v = inner;
            for _ in 1..n {
                v = V::A(vtype(&v), if len == 0 { vec![] } else { vec![v] });
            }
            return v;
        }
        _ => V::Y(len as u8),
    };
    for k in 0..n {
        v = match kind {
            1 => V::St(vec![v]),
            2 => V::De(Box::new((V::Y(k as u8), v))),
            3 => match k % 3 {
                0 => V::A(vtype(&v), vec![v; 1]),
                1 => V::St(vec![V::Y(k as u8), v]),
                _ => V::De(Box::new((s("k"), v))),
            },
            _ => {
                if k % 2 == 0 {
                    V::A(vtype(&v), if len == 0 && k == 0 { vec![] } else { vec![v] })
                } else {
                    V::St(vec![v, V::Tt(k as u64)])
                }
            }
        };
    }
    v
}
