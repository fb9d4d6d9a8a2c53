//! C06 (stream framing) and C07 (file descriptors).

use crate::bytesfam::*;
use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::wire::*;
use dbus_message_parser::decode::DecodeError;
use dbus_message_parser::message::Message;
use std::sync::Arc;

const MSG: usize = 128 << 20;

fn prefixes(w: &Wire, ctx: &mut Ctx) -> CaseResult {
    let full = w.bytes.len();
    for cut in 0..full {
        ctx.eval();
        let x = &w.bytes[..cut];
        match Message::decode_with_fds(b(x), &w.fds) {
            Err(DecodeError::NotEnoughBytes(have, need)) => {
                if have != cut || need <= cut || need > full {
                    return Err(format!("prefix of {} of {} bytes reports have {} need {}; bytes {}", cut, full, have, need, hex(&w.bytes)));
                }
                rec::step(1, 0x30_0000 + ((cut as u64 & 7) << 3 | (need as u64 & 7)));
            }
            Err(e) => return Err(format!("prefix of {} of {} bytes is refused as malformed: {}; bytes {}", cut, full, e, hex(&w.bytes))),
            Ok((_, n, _)) => return Err(format!("prefix of {} of {} bytes decodes, consuming {}; bytes {}", cut, full, n, hex(&w.bytes))),
        }
        if w.fds.is_empty() {
            match Message::decode(b(x)) {
                Err(DecodeError::NotEnoughBytes(have, need)) if have == cut && need > cut && need <= full => (),
                r => return Err(format!("prefix of {} of {} bytes: decode gives {:?}; bytes {}", cut, full, r, hex(&w.bytes))),
            }
        }
    }
    ctx.outcome("all prefixes ask for more");
    ctx.trace();
    Ok(())
}

fn suffixes(m: &M, w: &Wire, sfx: &[Vec<u8>], ctx: &mut Ctx) -> CaseResult {
    let full = w.bytes.len();
    let exp = canonical(m, &w.fds);
    for sx in sfx {
        ctx.eval();
        let mut x = w.bytes.clone();
        x.extend_from_slice(sx);
        let (g, n, u) = Message::decode_with_fds(b(&x), &w.fds).map_err(|e| format!("message followed by {} is refused: {}; bytes {}", hex(sx), e, hex(&w.bytes)))?;
        if n != full || u != w.fds.len() {
            return Err(format!("message of {} bytes followed by {} consumes {} (descriptors {})", full, hex(sx), n, u));
        }
        message_equal(&g, &exp).map_err(|e| format!("message followed by {}: {}; bytes {}", hex(sx), e, hex(&w.bytes)))?;
        if w.fds.is_empty() {
            let (g, n) = Message::decode(b(&x)).map_err(|e| format!("message followed by {} is refused: {}", hex(sx), e))?;
            if n != full {
                return Err(format!("message of {} bytes followed by {} consumes {}", full, hex(sx), n));
            }
            message_equal(&g, &exp).map_err(|e| format!("message followed by {}: {}", hex(sx), e))?;
        }
    }
    ctx.outcome("all suffixes left alone");
    ctx.trace();
    Ok(())
}

fn cut_msg(m: &M, ctx: &mut Ctx) -> CaseResult {
    if !encodable(m) {
        return Ok(());
    }
    let w = encode(m, &HeaderForm { order: None, empty_sig: m.sig.is_some() });
    if w.bytes.len() > 420 {
        return Ok(());
    }
    ctx.input(hash_bytes(&w.bytes));
    rec::start(0x30_0000);
    prefixes(&w, ctx)?;
    let sfx: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff; 9], w.bytes.clone(), vec![b'l', 1, 0, 1, 0, 0]];
    suffixes(m, &w, &sfx, ctx)?;
    ctx.sample(|| hex(&w.bytes));
    Ok(())
}

pub fn framing_families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let mut ms = corpus();
    ms.extend(pad_corpus());
    let ms = Arc::new(ms);
    let n = ms.len() as u64;
    let m1 = ms.clone();
    fs.push(family("corpus", format!("{} messages x every cut point x 260 suffixes", n), n, move |i, ctx| {
        let m = &m1[i as usize];
        let w = bytes_of(m);
        rec::start(0x30_0000);
        prefixes(&w, ctx)?;
        let mut sfx: Vec<Vec<u8>> = (0..=255u8).map(|x| vec![x]).collect();
        for k in 2..=17 {
            sfx.push(vec![0; k]);
            sfx.push(vec![b'y'; k]);
        }
        suffixes(m, &w, &sfx, ctx)
    }));
    let tys = Arc::new({
        let mut t = types_upto(3, BASIC, 3);
        t.extend(types_exact(4, if th { b"ynuxsgv" } else { b"yusv" }, 3));
        t
    });
    let nt = tys.len() as u64;
    fs.push(family("types", format!("{} types, 8 offsets, both endiannesses, every cut point", nt), nt * 16, move |i, ctx| {
        let d = digits(i, &[2, 8, nt]);
        cut_msg(&with_body(offset_body(d[1], vec![default_value(&tys[d[2]], 1 + d[1] % 2, i)]), d[0] == 0), ctx)
    }));
    // header shapes: subsets of fields and name lengths
    fs.push(family("headers", "header-field subsets x name lengths 1..=16 x body kinds x explicit empty signature, every cut point", 2 * 64 * 16 * 3 * 2, move |i, ctx| {
        let d = digits(i, &[2, 3, 2, 16, 64]);
        let mut m = call();
        m.le = d[0] == 0;
        let k = d[4];
        let l = d[3];
        m.path = name_of_len(1, l + 1);
        if k & 1 == 1 {
            m.iface = name_of_len(2, l + 3);
        }
        if k & 2 == 2 {
            m.dest = name_of_len(6, l + 4);
        }
        if k & 4 == 4 {
            m.sender = name_of_len(7, l + 3);
        }
        if k & 8 == 8 {
            m.fds = Some(1);
        }
        if k & 16 == 16 {
            m.rserial = Some(1);
        }
        if k & 32 == 32 {
            m.ename = name_of_len(4, l + 3);
        }
        m.body = match d[1] {
            0 => vec![],
            1 => vec![V::Y(1)],
            _ => vec![V::Tt(1), s("abc")],
        };
        if d[2] == 1 {
            m.sig = Some(vec![]);
        }
        cut_msg(&m, ctx)
    }));
    let al = Arc::new(alphabet());
    let na = al.len() as u64;
    let nw = words_upto(na, if th { 3 } else { 2 });
    fs.push(family("body sequences", "all bodies of up to 2 (thorough 3) values of the alphabet, every cut point", nw * 2, move |i, ctx| {
        let d = digits(i, &[2, nw]);
        cut_msg(&with_body(word(d[1] as u64, na).iter().map(|k| al[*k].clone()).collect(), d[0] == 0), ctx)
    }));
    // long strings and arrays: cut points around the ends
    fs.push(family("long", "strings and byte arrays of 8 lengths up to 100000: every cut in the first 200 and last 64 bytes and at 256-byte steps", 8 * 2 * 2, move |i, ctx| {
        let d = digits(i, &[2, 2, 8]);
        let n = [200usize, 255, 256, 1000, 4096, 65535, 65536, 100000][d[2]];
        let v = if d[1] == 0 { s(&"q".repeat(n)) } else { V::A(p(b'y'), vec![V::Y(3); n.min(5000)]) };
        let m = with_body(vec![v, V::Y(1)], d[0] == 0);
        let w = bytes_of(&m);
        let full = w.bytes.len();
        for cut in (0..full).filter(|c| *c < 200 || *c + 64 > full || *c % 256 == 0) {
            ctx.eval();
            match Message::decode(b(&w.bytes[..cut])) {
                Err(DecodeError::NotEnoughBytes(h, q)) if h == cut && q > cut && q <= full => (),
                r => return Err(format!("prefix of {} of {} bytes: {:?}", cut, full, short(&format!("{:?}", r)))),
            }
        }
        ctx.trace();
        suffixes(&m, &w, &[vec![], vec![0; 40], w.bytes.clone()], ctx)
    }));
    // buffers and messages around the limit of 128 MiB
    let sizes: &'static [usize] = if th { &[MSG - 65, MSG - 8, MSG - 1, MSG, MSG + 1, MSG + 8, MSG + 63, MSG + 4096, MSG + (64 << 20), 3 * MSG] } else { &[MSG - 1, MSG, MSG + 1, MSG + 4096] };
    let nsz = sizes.len() as u64;
    fs.push(
        family("huge buffers", format!("buffers of {:?} bytes starting with one of 7 messages, the rest zero bytes or copies of the message", sizes), nsz * 2, move |i, ctx| {
            let d = digits(i, &[2, nsz]);
            for m in stream_messages() {
                let w = bytes_of(&m);
                let mut x = Vec::with_capacity(sizes[d[1]]);
                if d[0] == 0 {
                    x.extend_from_slice(&w.bytes);
                } else {
                    while x.len() + w.bytes.len() <= sizes[d[1]] {
                        x.extend_from_slice(&w.bytes);
                    }
                }
                x.resize(sizes[d[1]], 0);
                let x: bytes::Bytes = x.into();
                ctx.eval();
                ctx.input(mix(hash_bytes(&w.bytes), i));
                let (g, n) = Message::decode(x.clone()).map_err(|e| format!("message at the front of {} bytes is refused: {}; {}", x.len(), e, hex(&w.bytes)))?;
                if n != w.bytes.len() {
                    return Err(format!("message of {} bytes at the front of {} bytes consumes {}", w.bytes.len(), x.len(), n));
                }
                message_equal(&g, &m).map_err(|e| format!("message at the front of {} bytes: {}", x.len(), e))?;
                let (g, n, u) = Message::decode_with_fds(x.clone(), &[]).map_err(|e| format!("message at the front of {} bytes is refused: {}", x.len(), e))?;
                if (n, u) != (w.bytes.len(), 0) {
                    return Err(format!("message of {} bytes at the front of {} bytes consumes {} and {} descriptors", w.bytes.len(), x.len(), n, u));
                }
                message_equal(&g, &m).map_err(|e| format!("message at the front of {} bytes: {}", x.len(), e))?;
                // the end of the buffer falls into the second message
                if d[0] == 1 {
                    let rest = x.slice(x.len() - x.len() % w.bytes.len() - w.bytes.len()..);
                    let (_, n) = Message::decode(rest).map_err(|e| format!("message at the end of the buffer: {}", e))?;
                    if n != w.bytes.len() {
                        return Err("message at the end of the buffer".into());
                    }
                }
            }
            ctx.trace();
            ctx.outcome("found at the front of a huge buffer");
            Ok(())
        })
        .threads(4),
    );
    let totals: &'static [usize] = if th { &[32 << 20, (64 << 20) + 8, MSG - 8, MSG - 1, MSG] } else { &[(64 << 20) + 8, MSG - 1, MSG] };
    let nto = totals.len() as u64;
    fs.push(
        family("huge messages", format!("messages of {:?} bytes cut at the ends, around every power of two, and followed by more bytes", totals), nto * 2, move |i, ctx| {
            let d = digits(i, &[2, nto]);
            let base = bytes_of(&with_body(vec![V::Y(1), s("")], d[0] == 0)).bytes.len();
            let m = with_body(vec![V::Y(1), s(&letters(totals[d[1]] - base))], d[0] == 0);
            let mut x = bytes_of(&m).bytes;
            let full = x.len();
            if full != totals[d[1]] {
                return Err("explorer: size".into());
            }
            x.extend_from_slice(&[0x55; 4096]);
            let x: bytes::Bytes = x.into();
            let mut cuts: Vec<usize> = (0..300).chain(full - 300..full).collect();
            for k in 9..=27 {
                for e in [-1i64, 0, 1] {
                    let c = ((1i64 << k) + e) as usize;
                    if c < full {
                        cuts.push(c);
                    }
                }
            }
            for c in cuts {
                ctx.eval();
                match Message::decode(x.slice(..c)) {
                    Err(DecodeError::NotEnoughBytes(h, q)) if h == c && q > c && q <= full => (),
                    r => return Err(format!("prefix of {} of {} bytes: {:?}", c, full, r.map(|x| x.1))),
                }
            }
            for extra in [0usize, 1, 7, 8, 4096] {
                ctx.eval();
                match Message::decode(x.slice(..full + extra)) {
                    Ok((g, n)) if n == full => message_equal(&g, &m).map_err(|e| short(&e))?,
                    r => return Err(format!("message of {} bytes followed by {}: {:?}", full, extra, r.map(|x| x.1))),
                }
            }
            ctx.trace();
            Ok(())
        })
        .threads(3),
    );
    // streams: the receiver's state graph
    let picks: Vec<M> = stream_messages();
    let np = picks.len() as u64;
    let depth = if th { 4 } else { 3 };
    let ns = np.pow(depth);
    fs.push(family("streams", format!("all streams of {} messages from {}: every reachable receiver state (start of buffer, end received), every next chunk size", depth, np), ns, move |i, ctx| {
        let k = digits(i, &vec![np; depth as usize]);
        let ms: Vec<&M> = k.iter().map(|k| &picks[*k]).collect();
        let ws: Vec<Wire> = ms.iter().map(|m| bytes_of(m)).collect();
        let stream: Vec<u8> = ws.iter().flat_map(|w| w.bytes.clone()).collect();
        let mut starts = vec![0usize];
        for w in &ws {
            starts.push(starts.last().unwrap() + w.bytes.len());
        }
        // Every (start, end) state with start a message boundary is reachable by some chunking;
        // its outgoing transition must be: deliver message k (end >= boundary) or wait.
        for k in 0..ms.len() {
            let a = starts[k];
            for e in a..=stream.len() {
                ctx.eval();
                rec::step(2, 0x31_0000 + ((k as u64) << 12 | (e - a) as u64));
                match Message::decode(b(&stream[a..e])) {
                    Ok((g, n)) => {
                        if e < starts[k + 1] {
                            return Err(format!("message {} delivered after {} of {} bytes", k, e - a, starts[k + 1] - a));
                        }
                        if n != starts[k + 1] - a {
                            return Err(format!("message {} of {} bytes consumed {}", k, starts[k + 1] - a, n));
                        }
                        message_equal(&g, ms[k]).map_err(|e| format!("message {}: {}", k, e))?;
                    }
                    Err(DecodeError::NotEnoughBytes(h, q)) => {
                        if e >= starts[k + 1] {
                            return Err(format!("complete message {} of {} bytes asks for more with {} received", k, starts[k + 1] - a, e - a));
                        }
                        if h != e - a || q <= h || q > starts[k + 1] - a {
                            return Err(format!("message {}: have {} need {} with {} of {} received", k, h, q, e - a, starts[k + 1] - a));
                        }
                    }
                    Err(x) => return Err(format!("message {} with {} bytes received: {}", k, e - a, x)),
                }
            }
        }
        // A receiver that reads exactly the bytes asked for never reads past the message.
        for k in 0..ms.len() {
            let a = starts[k];
            let mut e = a;
            let mut steps = 0;
            loop {
                ctx.eval();
                match Message::decode(b(&stream[a..e])) {
                    Ok((_, n)) => {
                        if a + n != e {
                            return Err(format!("demand-driven receiver holds {} bytes for a message of {}", e - a, n));
                        }
                        break;
                    }
                    Err(DecodeError::NotEnoughBytes(_, q)) => e = a + q,
                    Err(x) => return Err(format!("demand-driven receiver: {}", x)),
                }
                steps += 1;
                if steps > stream.len() {
                    return Err("demand-driven receiver makes no progress".into());
                }
            }
        }
        ctx.trace();
        ctx.outcome("stream delivered under every chunking");
        ctx.sample(|| hex(&stream));
        Ok(())
    }));
    fs
}

fn stream_messages() -> Vec<M> {
    let mut v = vec![call()];
    v.push(with_body(vec![s("x")], true));
    v.push(with_body(vec![V::Y(1), V::A(p(b't'), vec![])], false));
    v.push(with_body(vec![var(V::St(vec![V::Y(1), V::U(2)]))], false));
    v.push(with_body(vec![V::G(parses("as")), V::B(true)], true));
    let mut m = call();
    m.ty = 2;
    m.path = None;
    m.member = None;
    m.rserial = Some(1);
    m.le = false;
    v.push(m);
    v.push(with_body(vec![V::A(p(b's'), vec![s("a"), s("")])], true));
    v
}

// ---------------------------------------------------------------------------------------------

fn judge_fd(m: &M, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let msg = match to_message(m) {
        Some(x) => x,
        None => {
            ctx.skip();
            return Ok(());
        }
    };
    let w = encode(m, &HeaderForm::default());
    ctx.input(hash_bytes(&w.bytes) ^ m.fds.map_or(0, |x| x as u64 + 1));
    let (eb, fds) = msg.encode_with_fds().map_err(|e| format!("encode refused: {}; {:?}", e, short(&format!("{:?}", m))))?;
    if fds != w.fds {
        return Err(format!("descriptor list {:?}, expected {:?}; {}", short(&format!("{:?}", fds)), short(&format!("{:?}", w.fds)), short(&format!("{:?}", m))));
    }
    // The indices and the count, read back by the reference decoder.
    let (r, _, used) = decode(&eb, &fds).map_err(|e| format!("encoded bytes are not well-formed: {:?}; {}", e, short(&format!("{:?}", m))))?;
    if used != fds.len() || r.body != m.body {
        return Err(format!("indices in the encoded body do not denote the given descriptors; {}", short(&format!("{:?}", m))));
    }
    let cnt = if fds.is_empty() { m.fds } else { Some(fds.len() as u32) };
    if r.fds != cnt {
        return Err(format!("header states {:?} descriptors, expected {:?}; {}", r.fds, cnt, short(&format!("{:?}", m))));
    }
    // Decoding with this list, a longer list, and a relabelled list.
    for extra in [0usize, 1, 3] {
        let mut list: Vec<i32> = fds.iter().map(|f| f.wrapping_add(extra as i32 * 1000)).collect();
        list.extend((0..extra).map(|k| 9000 + k as i32));
        let (g, n, u) = Message::decode_with_fds(b(&eb), &list).map_err(|e| format!("decode with {} descriptors: {}; {}", list.len(), e, short(&format!("{:?}", m))))?;
        if n != eb.len() || u != fds.len() {
            return Err(format!("decoding reports {} bytes and {} descriptors used, expected {} and {}; {}", n, u, eb.len(), fds.len(), short(&format!("{:?}", m))));
        }
        let (r, _, _) = decode(&eb, &list).unwrap();
        if !values_eq(g.get_body(), &r.body) {
            return Err(format!("descriptors resolved to {:?}, expected {:?}", short(&format!("{:?}", g.get_body())), short(&format!("{:?}", r.body))));
        }
    }
    // One descriptor short must be refused.
    if !fds.is_empty() {
        if Message::decode_with_fds(b(&eb), &fds[..fds.len() - 1]).is_ok() {
            return Err(format!("decoded with one descriptor too few; {}", short(&format!("{:?}", m))));
        }
        if Message::decode(b(&eb)).is_ok() {
            return Err(format!("decode() without descriptors accepted descriptor indices; {}", short(&format!("{:?}", m))));
        }
    }
    ctx.trace();
    ctx.outcome(if fds.is_empty() { "no descriptors" } else { "descriptors consistent" });
    ctx.sample(|| short(&format!("{:?}", m)));
    Ok(())
}

fn wrap_fd(kind: usize, w: Vec<V>) -> Vec<V> {
    match kind {
        0 => w,
        1 => vec![V::Y(1), V::A(p(b'h'), w)],
        2 => w.into_iter().map(var).collect(),
        3 => vec![V::A(parse("(yh)"), w.into_iter().map(|h| V::St(vec![V::Y(0), h])).collect())],
        4 => vec![V::A(parse("{sh}"), w.into_iter().map(|h| V::De(Box::new((s("k"), h)))).collect())],
        5 => vec![V::A(parse("{hh}"), w.chunks(2).map(|c| V::De(Box::new((c[0].clone(), c[c.len() - 1].clone())))).collect())],
        6 => vec![V::A(p(b'v'), w.into_iter().map(|h| var(V::St(vec![h.clone(), var(h)]))).collect())],
        7 => {
            if w.is_empty() {
                vec![]
            } else {
                let mut v = V::St(w);
                for _ in 0..3 {
                    v = var(V::St(vec![V::Y(0), v]));
                }
                vec![v]
            }
        }
        8 => w.into_iter().enumerate().map(|(k, h)| if k % 2 == 0 { h } else { V::A(p(b'h'), vec![h]) }).collect(),
        _ => vec![V::A(parse("ah"), w.into_iter().map(|h| V::A(p(b'h'), vec![h])).collect())],
    }
}

pub fn fd_families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let dep = if th { 8 } else { 6 };
    let nw = words_upto(4, dep);
    fs.push(family("encode sequences", format!("all sequences of up to {} descriptors out of 4 (0, 1, -1, large), in 10 nestings, header count absent or preset", dep), nw * 10 * 2 * 2, move |i, ctx| {
        let d = digits(i, &[2, 2, 10, nw]);
        let w: Vec<V> = word(d[3] as u64, 4).iter().map(|k| V::H([0, 1, -1, 0x7fff_ffff][*k])).collect();
        let mut m = with_body(wrap_fd(d[2], w), d[0] == 0);
        if d[1] == 1 {
            m.fds = Some(7);
        }
        judge_fd(&m, ctx)
    }));
    let nw5 = words_upto(7, if th { 6 } else { 5 });
    fs.push(family("encode more", "all sequences of up to 5 (thorough 6) descriptors out of 7, flat and in structs", nw5 * 2, move |i, ctx| {
        let d = digits(i, &[2, nw5]);
        let w: Vec<V> = word(d[1] as u64, 7).iter().map(|k| V::H(100 - *k as i32)).collect();
        judge_fd(&with_body(wrap_fd([0, 3][d[0]], w), true), ctx)
    }));
    // many distinct descriptors
    let counts: Vec<usize> = (1..=300).chain(if th { vec![1000, 4095, 4096, 10000, 65535, 65536, 65537] } else { vec![1000, 4096] }).collect();
    let ncn = counts.len() as u64;
    fs.push(family("many descriptors", "1..=300, 1000, 4096 (thorough up to 65537) distinct descriptors, then each again in reverse, in an array and flat", ncn * 2 * 2, move |i, ctx| {
        let d = digits(i, &[2, 2, ncn]);
        let n = counts[d[2]];
        let up: Vec<V> = (0..n).map(|k| V::H(k as i32 * 3 - 500)).collect();
        let body = if d[1] == 0 {
            let mut w = up.clone();
            if n <= 4096 {
                w.extend(up.iter().rev().cloned());
            }
            vec![V::A(p(b'h'), w)]
        } else {
            if n > 254 {
                return Ok(());
            }
            up
        };
        judge_fd(&with_body(body, d[0] == 0), ctx)
    }));
    // decoding arbitrary indices
    let idx: &'static [u32] = &[0, 1, 2, 3, 4, 0xff, 0x100, 0xffff_ffff];
    let ni = words_upto(8, if th { 5 } else { 4 });
    fs.push(family("decode indices", "all sequences of up to 4 (thorough 5) indices from 8, lists of 0..=4 descriptors (distinct or repeated), 8 nestings, both endiannesses", ni * 5 * 2, move |i, ctx| {
        let d = digits(i, &[2, 5, ni]);
        let ws = word(d[2] as u64, 8);
        let list: Vec<i32> = (0..d[1]).map(|k| if d[0] == 0 { 30 + k as i32 } else { 30 + k as i32 / 2 }).collect();
        for kind in 0..8 {
            for le in [true, false] {
                // Build with distinct descriptors and patch the indices.
                let body = wrap_fd(kind, (0..ws.len()).map(|k| V::H(k as i32)).collect());
                if kind == 6 || kind == 5 {
                    continue;
                }
                let m = with_body(body, le);
                let mut w = bytes_of(&m);
                let mut k = 0;
                for r in w.regions.iter().filter(|r| r.kind == Kind::FdIx) {
                    let v = idx[ws[k]];
                    let nb = if le { v.to_le_bytes() } else { v.to_be_bytes() };
                    w.bytes[r.off..r.off + 4].copy_from_slice(&nb);
                    k += 1;
                }
                judge_decode_fd(&w.bytes, &list, ctx)?;
            }
        }
        Ok(())
    }));
    // the header's count does not decide which descriptors resolve
    fs.push(family("header count", "header counts 0..=5 and absent x lists of 0..=4 x indices 0..=4", 7 * 5 * 5 * 2, move |i, ctx| {
        let d = digits(i, &[2, 7, 5, 5]);
        let mut m = with_body(vec![V::H(1)], d[0] == 0);
        m.fds = None;
        let mut e = Enc::new(m.le);
        e.val(&V::U(d[3] as u32));
        let mut fields: Vec<V> = header_fields(&{ let mut c = m.clone(); c.body.clear(); c }, 0, false).into_iter().map(|(c, v)| field_pair(c, v)).collect();
        fields.push(field_pair(8, V::G(parses("h"))));
        if d[1] > 0 {
            fields.push(field_pair(9, V::U(d[1] as u32 - 1)));
        }
        let w = encode_raw(&m, &fields, e);
        let list: Vec<i32> = (0..d[2]).map(|k| 70 + k as i32).collect();
        judge_decode_fd(&w.bytes, &list, ctx)
    }));
    fs
}

fn judge_decode_fd(x: &[u8], list: &[i32], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let exp = decode(x, list);
    let got = Message::decode_with_fds(b(x), list);
    ctx.input(hash_bytes(x) ^ list.len() as u64);
    match (exp, got) {
        (Ok((m, n, u)), Ok((g, gn, gu))) => {
            if (n, u) != (gn, gu) {
                return Err(format!("used ({}, {}), expected ({}, {}); bytes {} list {:?}", gn, gu, n, u, hex(x), list));
            }
            if !values_eq(g.get_body(), &m.body) || g.get_unix_fds() != m.fds {
                return Err(format!("decoded {:?}, expected {:?}", g.get_body(), m.body));
            }
            ctx.outcome("indices resolved");
        }
        (Err(_), Err(_)) => ctx.outcome("index out of range refused"),
        (Ok(_), Err(e)) => return Err(format!("valid indices refused: {}; bytes {} list {:?}", e, hex(x), list)),
        (Err(e), Ok(_)) => return Err(format!("accepted although {:?}; bytes {} list {:?}", e, hex(x), list)),
    }
    ctx.trace();
    Ok(())
}
