//! Byte-string families (well-formed, corrupted, and raw) and the judges of C02, C04 and C05.

use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::wire::*;
use dbus_message_parser::message::Message;
use std::sync::Arc;

pub type BJ = fn(&[u8], &[i32], &mut Ctx) -> CaseResult;

/// C05: accepted exactly when well-formed, with exact contents.
pub fn judge_c05(x: &[u8], fds: &[i32], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    ctx.input(hash_bytes(x));
    let exp = decode(x, fds);
    let got = Message::decode_with_fds(b(x), fds);
    match (&exp, &got) {
        (Ok((m, n, used)), Ok((g, gn, gu))) => {
            message_equal(g, m).map_err(|e| format!("contents: {}; bytes {}", e, hex(x)))?;
            if gn != n || gu != used {
                return Err(format!("consumed ({}, {}), expected ({}, {}); bytes {}", gn, gu, n, used, hex(x)));
            }
            ctx.outcome("accepted");
            ctx.trace();
        }
        (Err(r), Err(_)) => {
            ctx.outcome(match r {
                Rej::Short => "rejected: not enough bytes",
                Rej::Bad(k) => k,
            });
            ctx.trace();
        }
        (Ok(_), Err(e)) => return Err(format!("well-formed message rejected: {}; bytes {}", e, hex(x))),
        (Err(r), Ok((g, _, _))) => {
            return Err(format!("malformed message accepted ({:?}); bytes {} decoded as {}", r, hex(x), short(&format!("{:?}", g))));
        }
    }
    if fds.is_empty() {
        let got2 = Message::decode(b(x));
        let same = match (&got, &got2) {
            (Ok((_, a, _)), Ok((g, c))) => {
                if let Ok((m, _, _)) = &exp {
                    message_equal(g, m).map_err(|e| format!("decode contents: {}; bytes {}", e, hex(x)))?;
                }
                a == c
            }
            (Err(a), Err(c)) => a == c,
            _ => false,
        };
        if !same {
            return Err(format!("decode and decode_with_fds disagree; bytes {}", hex(x)));
        }
    }
    ctx.sample(|| format!("{} -> {}", hex(x), match &exp { Ok(_) => "accepted".to_string(), Err(r) => format!("{:?}", r) }));
    Ok(())
}

/// C02: whatever decodes re-encodes to an equal message, and that is a fixed point.
pub fn judge_c02(x: &[u8], fds: &[i32], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let (m1, _, _) = match Message::decode_with_fds(b(x), fds) {
        Ok(r) => r,
        Err(_) => {
            ctx.outcome("not decodable");
            return Ok(());
        }
    };
    ctx.input(hash_bytes(x));
    let (e1, f1) = m1.encode_with_fds().map_err(|e| format!("decoded message does not encode: {}; bytes {}", e, hex(x)))?;
    let e1 = e1.freeze();
    let (m2, n, _) = Message::decode_with_fds(e1.clone(), &f1).map_err(|e| format!("re-encoded message does not decode: {}; bytes {} re-encoded {}", e, hex(x), hex(&e1)))?;
    if n != e1.len() {
        return Err(format!("re-encoded message of {} bytes consumes {}; bytes {}", e1.len(), n, hex(x)));
    }
    let (e2, f2) = m2.encode_with_fds().map_err(|e| format!("second encoding fails: {}; bytes {}", e, hex(x)))?;
    if e2[..] != e1[..] || f1 != f2 {
        return Err(format!("encoding is not a fixed point: {}; bytes {}", diff(&e2, &e1), hex(x)));
    }
    // equality of m1 and m2, with the model as witness where it accepts the input
    if let Ok((m, _, _)) = decode(x, fds) {
        let w = encode(&m, &HeaderForm::default());
        message_equal(&m1, &m).map_err(|e| format!("decoded: {}; bytes {}", e, hex(x)))?;
        message_equal(&m2, &canonical(&m, &w.fds)).map_err(|e| format!("decoded again: {}; bytes {}", e, hex(x)))?;
        if !has_nan(&m) && w.fds.is_empty() && m1 != m2 {
            return Err(format!("messages are not equal (==); bytes {}", hex(x)));
        }
        ctx.trace();
    }
    ctx.outcome("fixed point");
    ctx.sample(|| hex(x));
    Ok(())
}

/// C04: total, and never consumes more than it was given.
pub fn judge_c04(x: &[u8], fds: &[i32], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    ctx.input(hash_bytes(x));
    let of = |r: Result<(usize, usize), _>| match r {
        Ok(x) => Some(x),
        Err::<_, dbus_message_parser::decode::DecodeError>(e) => {
            shown::<(), _>(Err(e));
            None
        }
    };
    match no_panic(|| of(Message::decode_with_fds(b(x), fds).map(|x| (x.1, x.2)))) {
        Err(p) => return Err(format!("panic while decoding: {}; bytes {}", p, hex(x))),
        Ok(None) => ctx.outcome("error"),
        Ok(Some((n, u))) => {
            if n > x.len() || n == 0 {
                return Err(format!("consumed {} of {} bytes; bytes {}", n, x.len(), hex(x)));
            }
            if u > fds.len() {
                return Err(format!("used {} of {} descriptors; bytes {}", u, fds.len(), hex(x)));
            }
            ctx.outcome("message");
        }
    }
    match no_panic(|| of(Message::decode(b(x)).map(|x| (x.1, 0)))) {
        Err(p) => return Err(format!("panic while decoding: {}; bytes {}", p, hex(x))),
        Ok(Some((n, _))) => {
            if n > x.len() || n == 0 {
                return Err(format!("consumed {} of {} bytes; bytes {}", n, x.len(), hex(x)));
            }
        }
        Ok(None) => (),
    }
    let _ = decode(x, fds); // records the abstract states this input drives the format through
    ctx.trace();
    ctx.sample(|| hex(x));
    Ok(())
}

pub fn fd_pool() -> Vec<i32> {
    vec![40, 41, 42]
}

/// Assemble a message around a raw body.
pub fn raw_message(le: bool, sig: &str, body: &[u8], declared: Option<u32>) -> Vec<u8> {
    let mut m = call();
    m.le = le;
    let mut fields = header_fields(&m, 0, false);
    if !sig.is_empty() {
        fields.push((8, V::S(sig.to_string())));
    }
    let mut e = Enc::new(le);
    for x in [if le { b'l' } else { b'B' }, 1, 0, 1] {
        e.val(&V::Y(x));
    }
    e.val(&V::U(declared.unwrap_or(body.len() as u32)));
    e.val(&V::U(9));
    let at = e.buf.len();
    e.val(&V::U(0));
    for (c, v) in &fields {
        e.pad(8);
        e.val(&V::Y(*c));
        if *c == 8 {
            e.buf.extend_from_slice(&[1, b'g', 0, sig.len() as u8]);
            e.buf.extend_from_slice(sig.as_bytes());
            e.buf.push(0);
        } else {
            e.val(&var(v.clone()));
        }
    }
    let n = (e.buf.len() - at - 4) as u32;
    let nb = if le { n.to_le_bytes() } else { n.to_be_bytes() };
    e.buf[at..at + 4].copy_from_slice(&nb);
    e.pad(8);
    let mut v = e.buf;
    v.extend_from_slice(body);
    v
}

/// Body signatures for exhaustive short bodies.
pub const SHORT_SIGS: &[&str] = &[
    "y", "b", "n", "q", "i", "u", "x", "t", "d", "s", "o", "g", "h", "v", "ay", "an", "au", "at", "as", "ag", "av", "ab", "a(y)", "a(yn)", "(y)", "(yu)", "{yy}", "a{yy}", "aay", "yy", "yn", "yu", "ys", "yv", "gy", "vy", "sy", "ayy", "vv", "gs", "yay", "yat", "(v)", "ao", "a(v)", "ah",
];

pub fn byte_families(j: BJ, th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let cor: Arc<Vec<Wire>> = Arc::new(corpus().iter().map(bytes_of).collect());
    let nc = cor.len() as u64;
    let maxlen = cor.iter().map(|w| w.bytes.len()).max().unwrap() as u64;

    // well-formed corpus and every single-byte substitution
    let c = cor.clone();
    fs.push(family("substitution", format!("every byte of {} well-formed messages replaced by every value", nc), nc * maxlen, move |i, ctx| {
        let d = digits(i, &[nc, maxlen]);
        let w = &c[d[0]];
        if d[1] >= w.bytes.len() {
            return Ok(());
        }
        let mut x = w.bytes.clone();
        let fds = fd_pool();
        let step = if th || d[1] < 16 { 1 } else { 1 };
        for v in (0..=255u8).step_by(step) {
            x[d[1]] = v;
            j(&x, &fds, ctx)?;
        }
        Ok(())
    }));

    // insertions, deletions, truncations, extensions
    let c = cor.clone();
    fs.push(family("insert/delete", "1..=8 bytes inserted (7 values) or deleted at every position; every truncation; with and without fixing the body length", nc * (maxlen + 1), move |i, ctx| {
        let d = digits(i, &[nc, maxlen + 1]);
        let w = &c[d[0]];
        if d[1] > w.bytes.len() {
            return Ok(());
        }
        let le = w.bytes[0] == b'l';
        let fds = fd_pool();
        let fix = |mut x: Vec<u8>, delta: i64| {
            let g = |s: &[u8]| if le { u32::from_le_bytes(s.try_into().unwrap()) } else { u32::from_be_bytes(s.try_into().unwrap()) };
            if x.len() >= 8 {
                let n = (g(&x[4..8]) as i64 + delta) as u32;
                let nb = if le { n.to_le_bytes() } else { n.to_be_bytes() };
                x[4..8].copy_from_slice(&nb);
            }
            x
        };
        for k in 1..=8usize {
            for v in [0u8, 1, 8, b'a', b'y', b'/', 0xff] {
                let mut x = w.bytes.clone();
                for _ in 0..k {
                    x.insert(d[1], v);
                }
                if d[1] >= 8 {
                    j(&fix(x.clone(), k as i64), &fds, ctx)?;
                }
                j(&x, &fds, ctx)?;
            }
            if d[1] + k <= w.bytes.len() {
                let mut x = w.bytes.clone();
                x.drain(d[1]..d[1] + k);
                if d[1] >= 8 {
                    j(&fix(x.clone(), -(k as i64)), &fds, ctx)?;
                }
                j(&x, &fds, ctx)?;
            }
        }
        j(&w.bytes[..d[1]], &fds, ctx)
    }));

    // two-site corruption on selected messages
    let small: Vec<usize> = {
        let mut v: Vec<usize> = (0..cor.len()).collect();
        v.sort_by_key(|k| cor[*k].bytes.len());
        v.truncate(if th { 70 } else { 24 });
        v
    };
    let ns = small.len() as u64;
    let c = cor.clone();
    fs.push(family("two sites", format!("every pair of positions of {} messages replaced by values from 9", ns), ns * maxlen, move |i, ctx| {
        let d = digits(i, &[ns, maxlen]);
        let w = &c[small[d[0]]];
        let fds = fd_pool();
        if d[1] >= w.bytes.len() {
            return Ok(());
        }
        let vals = |o: u8| [0u8, 1, o.wrapping_add(1), o.wrapping_sub(1), b's', b'v', b'a', 8, 0xff];
        let vals: Vec<fn(u8) -> u8> = if th { vec![|_| 0, |_| 1, |o| o.wrapping_add(1), |o| o.wrapping_sub(1), |_| b's', |_| b'v', |_| b'a', |_| 8, |_| 0xff] } else { let _ = vals; vec![|_| 0, |o| o.wrapping_add(1), |o| o.wrapping_sub(1), |_| b'v', |_| 8] };
        let mut x = w.bytes.clone();
        for f in &vals {
            x[d[1]] = f(w.bytes[d[1]]);
            for q in d[1] + 1..w.bytes.len() {
                for g in &vals {
                    x[q] = g(w.bytes[q]);
                    j(&x, &fds, ctx)?;
                }
                x[q] = w.bytes[q];
            }
        }
        Ok(())
    }));

    // length tampering
    let c = cor.clone();
    let deltas: Vec<i64> = (-20..=20).filter(|d| *d != 0).chain([1 << 8, 1 << 16, 1 << 24, (1 << 26) + 1, 1 << 31, -1 << 31, 0xffff_fff0]).collect();
    let nd = deltas.len() as u64;
    fs.push(family("length tampering", format!("every length word of {} messages changed by {} amounts, singly and together with the body length or a trailing extension", nc, nd), nc * nd, move |i, ctx| {
        let d = digits(i, &[nc, nd]);
        let w = &c[d[0]];
        let le = w.bytes[0] == b'l';
        let fds = fd_pool();
        let mut lens: Vec<usize> = w.regions.iter().filter(|r| matches!(r.kind, Kind::StrLen | Kind::ArrLen | Kind::FdIx)).map(|r| r.off).collect();
        lens.push(4);
        let bump = |x: &mut Vec<u8>, off: usize, by: i64| {
            let s: [u8; 4] = x[off..off + 4].try_into().unwrap();
            let n = if le { u32::from_le_bytes(s) } else { u32::from_be_bytes(s) };
            let n = (n as i64).wrapping_add(by) as u32;
            let nb = if le { n.to_le_bytes() } else { n.to_be_bytes() };
            x[off..off + 4].copy_from_slice(&nb);
        };
        for &o in &lens {
            for ext in [0usize, 1, 4, 8, 24] {
                let mut x = w.bytes.clone();
                x.extend(std::iter::repeat(0).take(ext));
                bump(&mut x, o, deltas[d[1]]);
                j(&x, &fds, ctx)?;
                if o != 4 && ext == 0 {
                    bump(&mut x, 4, deltas[d[1]]);
                    j(&x, &fds, ctx)?;
                } else if o != 4 {
                    bump(&mut x, 4, ext as i64);
                    j(&x, &fds, ctx)?;
                }
            }
        }
        // one-byte signature lengths
        for r in w.regions.iter().filter(|r| r.kind == Kind::SigLen) {
            let mut x = w.bytes.clone();
            x[r.off] = (x[r.off] as i64 + deltas[d[1]]) as u8;
            j(&x, &fds, ctx)?;
        }
        // wholly rewritten length words
        for &o in &lens {
            for v in [0u32, 1, 2, 3, 4, 7, 8, 9, 16, 255, 256, 65535, 1 << 26, (1 << 26) + 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff] {
                let mut x = w.bytes.clone();
                let nb = if le { v.to_le_bytes() } else { v.to_be_bytes() };
                x[o..o + 4].copy_from_slice(&nb);
                j(&x, &fds, ctx)?;
            }
        }
        Ok(())
    }));

    // padding bytes
    let c2: Arc<Vec<Wire>> = Arc::new(pad_corpus().iter().map(bytes_of).collect());
    let np = c2.len() as u64;
    fs.push(family("padding", format!("every padding byte of {} messages set to every non-zero value", np), np, move |i, ctx| {
        let w = &c2[i as usize];
        let fds = fd_pool();
        j(&w.bytes, &fds, ctx)?;
        for r in w.regions.iter().filter(|r| r.kind == Kind::Pad) {
            for k in 0..r.len {
                let mut x = w.bytes.clone();
                for v in 1..=255u8 {
                    if !th && v > 4 && v.count_ones() > 1 && v != 255 {
                        continue;
                    }
                    x[r.off + k] = v;
                    j(&x, &fds, ctx)?;
                }
            }
        }
        // header padding before the body
        for k in w.hdr_fields_end..w.body_off {
            let mut x = w.bytes.clone();
            for v in [1u8, 2, 128, 255] {
                x[k] = v;
                j(&x, &fds, ctx)?;
            }
        }
        Ok(())
    }));

    // exhaustive short bodies
    let nsig = SHORT_SIGS.len() as u64;
    let alpha: &'static [u8] = &[0, 1, 2, 4, b'y', b'a', 0xff, b'/'];
    let maxb = if th { 6 } else { 5 };
    let nw = words_upto(alpha.len() as u64, maxb);
    fs.push(family("short bodies", format!("all bodies of up to {} bytes from 8 values under {} signatures, both endiannesses, exact and off-by-one body length", maxb, nsig), nw * 2, move |i, ctx| {
        let d = digits(i, &[2, nw]);
        let body: Vec<u8> = word(d[1] as u64, 8).iter().map(|k| alpha[*k]).collect();
        for sg in SHORT_SIGS {
            let x = raw_message(d[0] == 0, sg, &body, None);
            j(&x, &[50, 51], ctx)?;
        }
        if body.len() < 4 {
            for sg in SHORT_SIGS {
                for decl in [body.len() as i64 - 1, body.len() as i64 + 1, 0] {
                    if decl >= 0 {
                        let x = raw_message(d[0] == 0, sg, &body, Some(decl as u32));
                        j(&x, &[], ctx)?;
                    }
                }
            }
        }
        Ok(())
    }));
    // longer bodies over a smaller alphabet (reaches two nested length words)
    let maxb2 = if th { 14 } else { 11 };
    let lsigs: &'static [&'static str] = &["s", "ay", "as", "au", "a(y)", "v", "av", "(yu)", "a{yy}", "aay", "sv", "yas", "o", "b", "ab", "t", "at", "yt", "yx", "a(yu)"];
    let nw2 = words_upto(2, maxb2);
    fs.push(family("binary bodies", format!("all bodies of up to {} bytes from {{0,1}} and {{0,4}} under {} signatures", maxb2, lsigs.len()), nw2 * 4, move |i, ctx| {
        let d = digits(i, &[2, 2, nw2]);
        let al: [u8; 2] = if d[1] == 0 { [0, 1] } else { [0, 4] };
        let body: Vec<u8> = word(d[2] as u64, 2).iter().map(|k| al[*k]).collect();
        for sg in lsigs {
            let x = raw_message(d[0] == 0, sg, &body, None);
            j(&x, &[50, 51], ctx)?;
        }
        Ok(())
    }));
    // variant bodies: signature bytes exhaustively
    let valpha: &'static [u8] = b"yuvsa(){}tgbn\x00i";
    let nv = words_upto(valpha.len() as u64, if th { 4 } else { 3 });
    fs.push(family("variant signatures", "variants with every signature string of up to 3 (thorough 4) characters from 15, followed by 0..=9 zero bytes", nv, move |i, ctx| {
        let sg: Vec<u8> = word(i, valpha.len() as u64).iter().map(|k| valpha[*k]).collect();
        for le in [true, false] {
            for z in 0..=9 {
                let mut body = vec![sg.len() as u8];
                body.extend_from_slice(&sg);
                body.push(0);
                body.extend(std::iter::repeat(0).take(z));
                j(&raw_message(le, "v", &body, None), &[], ctx)?;
            }
        }
        Ok(())
    }));
    // UTF-8 in strings
    let lead: Vec<u8> = (0x80..=0xff).collect();
    let nl = lead.len() as u64;
    let cont: &'static [u8] = &[0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xf0, 0xff];
    fs.push(family("utf8", "strings x ++ lead byte 80..ff ++ up to 3 bytes from 14 ++ y", nl * 14 * 14 * 14, move |i, ctx| {
        let d = digits(i, &[nl, 14, 14, 14]);
        for n in 1..=4usize {
            // shorter strings only once
            if (n < 4 && d[3] != 0) || (n < 3 && d[2] != 0) || (n < 2 && d[1] != 0) {
                continue;
            }
            let mut st = vec![b'x', lead[d[0]]];
            for k in 1..n {
                st.push(cont[d[k]]);
            }
            st.push(b'y');
            let mut body = (st.len() as u32).to_le_bytes().to_vec();
            body.extend_from_slice(&st);
            body.push(0);
            j(&raw_message(true, "s", &body, None), &[], ctx)?;
        }
        Ok(())
    }));
    // one bad byte far into a long string or path
    let ll: &'static [usize] = &[41, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100_000, 131_072, 131_073];
    let nll = ll.len() as u64;
    fs.push(family("late errors", format!("strings and paths of {} lengths up to 131073, alone, in an array and in a variant, one or two bytes wrong at the ends, around every power of two and the middle", nll), nll * 2 * 3, move |i, ctx| {
        let d = digits(i, &[2, 3, nll]);
        let n = ll[d[2]];
        let txt = if d[0] == 0 { letters(n).into_bytes() } else { name_of_len(1, n).unwrap().into_bytes() };
        let mut at: Vec<usize> = (0..18).flat_map(|k| [(1usize << k).wrapping_sub(2), (1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
        at.extend([0, n / 2, n / 3, n - 9, n - 4, n - 3, n - 2, n - 1]);
        at.retain(|k| *k < n);
        at.sort();
        at.dedup();
        let bad: &[&[u8]] = if d[0] == 0 { &[b"\0", b"\xff", b"\x80", b"\xc3", b"\xc3\xa9", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80"] } else { &[b"/", b"//", b"-", b"\0", b".", b"\xc3\xa9", b"Z_", b" "] };
        for k in at {
            for bd in bad {
                if k + bd.len() > n || (n > 20_000 && (k + bd.len()) % 3 == 1 && k > 40 && k < n - 5) {
                    continue;
                }
                let mut t = txt.clone();
                t[k..k + bd.len()].copy_from_slice(bd);
                let mut body = Vec::new();
                match d[1] {
                    0 => (),
                    1 => body.extend_from_slice(&(n as u32 + 5).to_le_bytes()),
                    _ => body.extend_from_slice(if d[0] == 0 { b"\x01s\0\0" } else { b"\x01o\0\0" }),
                }
                body.extend_from_slice(&(n as u32).to_le_bytes());
                body.extend_from_slice(&t);
                body.push(0);
                j(&raw_message(true, [["s", "o"][d[0]], ["as", "ao"][d[0]], "v"][d[1]], &body, None), &[], ctx)?;
            }
        }
        Ok(())
    }));
    // one bad element far into a long array
    let lc: &'static [usize] = &[2, 3, 9, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 5000];
    let nlc = lc.len() as u64;
    fs.push(family("late elements", format!("arrays of {} counts up to 5000 of booleans, texts, paths, signatures, variants, structs with padding, descriptors, dict entries, and structs of as many booleans (to 255): one element wrong in 12 ways at the ends, around every power of two and the middle", nlc), nlc * 9 * 2, move |i, ctx| {
        let d = digits(i, &[2, 9, nlc]);
        let n = lc[d[2]];
        let le = d[0] == 0;
        let v = match d[1] {
            0 => V::A(p(b'b'), vec![V::B(true); n]),
            1 => V::A(p(b's'), vec![s("abc"); n]),
            2 => V::A(p(b'o'), vec![V::O("/ab".into()); n]),
            3 => V::A(p(b'g'), vec![V::G(parses("ay")); n]),
            4 => V::A(p(b'v'), vec![var(V::Tt(1)); n]),
            5 => V::A(parse("(yt)"), vec![V::St(vec![V::Y(1), V::Tt(2)]); n]),
            6 => V::A(p(b'h'), vec![V::H(40); n]),
            7 => V::A(parse("{ys}"), vec![V::De(Box::new((V::Y(1), s("k")))); n]),
            _ => {
                if n > 200 {
                    return Ok(());
                }
                V::St(vec![V::B(true); n])
            }
        };
        let w = bytes_of(&with_body(vec![v], le));
        let body = w.body_off;
        let total = w.bytes.len() - body;
        let step = total / n;
        let mut at: Vec<usize> = (0..14).flat_map(|k| [(1usize << k).wrapping_sub(1), 1 << k]).collect();
        at.extend([0, n / 2, n / 3, n.wrapping_sub(2), n - 1]);
        at.retain(|k| *k < n);
        at.sort();
        at.dedup();
        for k in at {
            // every byte of the last of the elements up to k: wrong in a few ways
            let end = if k + 1 == n { w.bytes.len() } else { body + total - (n - 1 - k) * step };
            for q in end.saturating_sub(step.min(16)).max(body)..end {
                for x in [w.bytes[q] ^ 1, w.bytes[q] ^ 2, 0xff, 0, b'/'] {
                    if x == w.bytes[q] {
                        continue;
                    }
                    let mut y = w.bytes.clone();
                    y[q] = x;
                    j(&y, &fd_pool(), ctx)?;
                }
            }
        }
        Ok(())
    }));
    // embedded NUL and terminators at every position of strings of every length
    fs.push(family("nul", "strings, paths and signatures of length 0..=40 with each byte replaced by NUL, and with each terminator value", 41 * 42, move |i, ctx| {
        let d = digits(i, &[41, 42]);
        let n = d[0];
        for kind in 0..3 {
            let mut body = Vec::new();
            let mut txt: Vec<u8> = match kind {
                0 => vec![b'x'; n],
                1 => name_of_len(1, n).unwrap_or_default().into_bytes(),
                _ => vec![b'y'; n],
            };
            if d[1] < txt.len() {
                txt[d[1]] = 0;
            } else if d[1] != 41 {
                continue;
            }
            if kind < 2 {
                body.extend_from_slice(&(n as u32).to_le_bytes());
            } else {
                body.push(n as u8);
            }
            body.extend_from_slice(&txt);
            let sg = ["s", "o", "g"][kind];
            for term in [0u8, 1, b'x', b'/', 255] {
                let mut x = body.clone();
                x.push(term);
                j(&raw_message(true, sg, &x, None), &[], ctx)?;
            }
        }
        Ok(())
    }));
    // booleans
    fs.push(family("booleans", "booleans with every word of bytes in {00,01,02,7f,80,ff}, both endiannesses", 2 * 1296, move |i, ctx| {
        let d = digits(i, &[2, 1296]);
        let w = pattern(d[1] as u64, &[0, 1, 2, 0x7f, 0x80, 0xff], 4);
        j(&raw_message(d[0] == 0, "b", &w[..4], None), &[], ctx)?;
        let mut a = if d[0] == 0 { vec![4, 0, 0, 0] } else { vec![0, 0, 0, 4] };
        a.extend_from_slice(&w[..4]);
        j(&raw_message(d[0] == 0, "ab", &a, None), &[], ctx)
    }));
    // first four bytes exhaustively
    fs.push(family("fixed header", "every endianness mark, every message type, every flag byte, every version on messages with all fields", 256 * 4, move |i, ctx| {
        let d = digits(i, &[4, 256]);
        for le in [true, false] {
            for ty in 1..=4u8 {
                let mut m = call();
                m.le = le;
                m.iface = Some("a.b".into());
                m.ename = Some("a.b".into());
                m.rserial = Some(3);
                m.ty = ty;
                m.body = vec![V::U(1)];
                let mut x = bytes_of(&m).bytes;
                x[d[0]] = d[1] as u8;
                j(&x, &[], ctx)?;
                for f in 0..=255u8 {
                    if d[0] == 3 {
                        x[2] = f;
                        j(&x, &[], ctx)?;
                    }
                }
            }
        }
        Ok(())
    }));
    // body signature versus body
    let sg: &'static [&'static str] = &["", "y", "u", "yy", "s", "v", "ay", "(y)", "uu", "yu", "g", "a{yy}", "t", "yyyyyyyy", "b", "(", ")", "a", "{y}", "z", "()", "a()", "(y", "y)", "{yyy}", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaay", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaay"];
    fs.push(family("body versus signature", "27 body signatures (well- and ill-formed) x bodies of 0..=9 zero bytes x declared length 0..=10", 27 * 10 * 11, move |i, ctx| {
        let d = digits(i, &[27, 10, 11]);
        for le in [true, false] {
            let x = raw_message(le, sg[d[0]], &vec![0; d[1]], Some(d[2] as u32));
            j(&x, &[60], ctx)?;
        }
        Ok(())
    }));
    // raw bytes: every string of up to 2 bytes, and short words over an alphabet of header bytes
    let ra: &'static [u8] = &[b'l', b'B', 0, 1, 4, 0xff];
    let nr = words_upto(6, if th { 8 } else { 6 });
    fs.push(family("raw words", "all words of up to 6 (thorough 8) bytes from 6 header bytes, alone and extended by 16 zero bytes", nr, move |i, ctx| {
        let mut x: Vec<u8> = word(i, 6).iter().map(|k| ra[*k]).collect();
        j(&x, &[], ctx)?;
        x.extend([0; 16]);
        j(&x, &[], ctx)
    }));
    fs.push(family("raw pairs", "all byte strings of length 1 and 2", 65536, move |i, ctx| {
        let x = [(i >> 8) as u8, i as u8];
        j(&x, &[], ctx)?;
        if i < 256 {
            j(&x[1..], &[], ctx)?;
        }
        Ok(())
    }));
    fs
}

/// Messages with padding everywhere.
pub fn pad_corpus() -> Vec<M> {
    let mut out = Vec::new();
    for le in [true, false] {
        for t in ["n", "q", "u", "i", "x", "t", "d", "b", "s", "o", "h", "as", "at", "ax", "ad", "a(y)", "a{yy}", "(y)", "(yn)", "(yu)", "(yt)", "{yt}", "{yu}", "v", "a(yt)", "aat", "aan", "aau", "a(ya(yx))", "(y(y(y(yt))))", "an", "au", "av", "vn", "(ynyuyx)"] {
            for k in 0..8 {
                let vs: Vec<V> = parses(t).iter().map(|t| default_value(t, 2, 1)).collect();
                out.push(with_body(offset_body(k, vs), le));
            }
        }
        for t in ["t", "x", "d", "(y)", "{yy}", "(tt)", "n", "u", "as"] {
            for k in 0..8 {
                out.push(with_body(offset_body(k, vec![V::A(parse(t), vec![])]), le));
            }
        }
        for x in [var(V::Tt(1)), var(V::U(1)), var(V::N(1)), var(V::St(vec![V::Y(1), V::D(0)])), var(V::A(p(b't'), vec![V::Tt(1)])), var(V::A(p(b't'), vec![]))] {
            for k in 0..8 {
                out.push(with_body(offset_body(k, vec![x.clone()]), le));
            }
        }
    }
    out
}
