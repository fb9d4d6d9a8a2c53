//! C09: every limit at, below and above its value, through parsing, printing, encoding and
//! decoding. Also the hostile inputs of C04.

use crate::bytesfam::*;
use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::wire::*;
use dbus_message_parser::message::Message;
use dbus_message_parser::value::{Bus, Error, Interface, Member, Type, UniqueConnectionName, WellKnownBusName};
use std::convert::TryFrom;
use std::sync::Arc;

const MIB: usize = 1 << 20;
const ARR: usize = 64 * MIB;
const MSG: usize = 128 * MIB;

/// Encoding `m` succeeds exactly when `ok`; its reference encoding decodes exactly when `ok`; what
/// encoding produces always decodes.
fn both_sides(m: &M, ok: bool, what: &dyn Fn() -> String, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let msg = match to_message(m) {
        Some(x) => x,
        None => {
            if ok {
                return Err(format!("a value within the limits cannot be constructed: {}", what()));
            }
            ctx.outcome("construction refused");
            ctx.trace();
            return Ok(());
        }
    };
    match msg.encode_with_fds() {
        Ok((e, f)) => {
            if let Err(x) = Message::decode_with_fds(e.freeze(), &f) {
                return Err(format!("encoding accepts what decoding refuses ({}): {}", x, what()));
            }
            if !ok {
                return Err(format!("encoding accepts a value beyond a limit: {}", what()));
            }
            ctx.outcome("encoded");
        }
        Err(x) => {
            if ok {
                return Err(format!("encoding refuses a value within the limits ({}): {}", x, what()));
            }
            ctx.outcome("encoding refused");
        }
    }
    ctx.trace();
    Ok(())
}

/// The reference bytes of `m` decode exactly when `ok`.
fn decodes(x: Vec<u8>, fds: &[i32], ok: bool, what: &dyn Fn() -> String, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let n = x.len();
    match Message::decode_with_fds(x.into(), fds) {
        Ok((_, c, _)) => {
            if !ok {
                return Err(format!("decoding accepts a message beyond a limit: {}", what()));
            }
            if c != n {
                return Err(format!("decoding consumed {} of {}: {}", c, n, what()));
            }
            ctx.outcome("decoded");
        }
        Err(e) => {
            if ok {
                return Err(format!("decoding refuses a message within the limits ({}): {}", e, what()));
            }
            ctx.outcome("decoding refused");
        }
    }
    ctx.trace();
    Ok(())
}

fn ref_sig_len(m: &M) -> usize {
    sigstr(&m.body.iter().map(vtype).collect::<Vec<_>>()).len()
}

/// A message both encoded and decoded from reference bytes (when a reference encoding exists).
fn limit_case(m: &M, what: &dyn Fn() -> String, ctx: &mut Ctx) -> CaseResult {
    let ok = encodable(m);
    both_sides(m, ok, what, ctx)?;
    if ref_sig_len(m) <= 255 {
        let w = bytes_of(m);
        ctx.input(hash_bytes(&w.bytes));
        decodes(w.bytes, &w.fds, ok, what, ctx)?;
    }
    ctx.sample(|| format!("{} -> {}", what(), if ok { "accepted" } else { "refused" }));
    Ok(())
}

fn name_kind_ok(kind: u8, text: &str) -> [bool; 3] {
    macro_rules! three {
        ($t:ty) => {
            [<$t>::try_from(text).is_ok(), <$t>::try_from(text.to_string()).is_ok(), <$t>::try_from(text.as_bytes()).is_ok()]
        };
    }
    match kind {
        0 => three!(Interface),
        1 => three!(Error),
        2 => three!(Member),
        3 => three!(WellKnownBusName),
        4 => three!(UniqueConnectionName),
        5 => three!(Bus),
        _ => three!(Bus),
    }
}

fn long_name(kind: u8, n: usize, style: usize) -> Option<String> {
    let body = |n: usize| -> String {
        match style {
            0 => "a".repeat(n),
            1 => (0..n).map(|k| if k % 2 == 1 && k + 1 < n { '.' } else { 'b' }).collect(),
            _ => (0..n).map(|k| if k % 4 == 3 { '7' } else { '_' }).collect(),
        }
    };
    Some(match kind {
        2 => {
            if n == 0 || style == 1 {
                return None;
            }
            body(n)
        }
        4 | 6 => {
            if n < 4 {
                return None;
            }
            format!(":1.{}", body(n - 3))
        }
        _ => {
            if n < 3 {
                return None;
            }
            format!("a.{}", body(n - 2))
        }
    })
}

fn lens_around_255() -> Vec<usize> {
    let mut v: Vec<usize> = (1..=300).collect();
    v.extend([510, 511, 512, 513, 514, 767, 768, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 65791, 65792, 65793]);
    v
}

/// Text of a type with `a` arrays, `st` structs and `d` dict entries in nesting order `order`.
pub fn depth_type(a: usize, st: usize, d: usize, order: usize) -> T {
    let mut seq: Vec<u8> = Vec::new();
    let perms = [[0u8, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let n = [a, st, d];
    if order < 6 {
        for k in perms[order] {
            seq.extend(std::iter::repeat(k).take(n[k as usize]));
        }
    } else {
        let mut left = n;
        let mut k = order - 6;
        while left.iter().any(|x| *x > 0) {
            if left[k % 3] > 0 {
                left[k % 3] -= 1;
                seq.push((k % 3) as u8);
            }
            k += 1;
        }
    }
    let mut t = p(b'y');
    for k in seq.iter().rev() {
        t = match k {
            0 => arr(t),
            1 => T::St(vec![t]),
            _ => de(p(b'y'), t),
        };
    }
    t
}

pub fn families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();

    // names
    let ls = Arc::new(lens_around_255());
    let nl = ls.len() as u64;
    let l = ls.clone();
    fs.push(family("name lengths (constructors)", format!("7 kinds x {} lengths x 3 shapes x 3 constructors", nl), nl * 7 * 3, move |i, ctx| {
        let d = digits(i, &[7, 3, nl]);
        let n = l[d[2]];
        let s = match long_name(d[0] as u8, n, d[1]) {
            Some(s) => s,
            None => return Ok(()),
        };
        ctx.eval();
        ctx.input(mix(i, 77));
        let ok = n <= 255;
        let got = name_kind_ok(d[0] as u8, &s);
        if got != [ok; 3] {
            return Err(format!("a name of kind {} and {} bytes: accepted by (text, owned, bytes) {:?}, expected {}", d[0], n, got, ok));
        }
        ctx.trace();
        ctx.outcome(if ok { "name accepted" } else { "name refused" });
        ctx.sample(|| format!("name of {} bytes accepted: {}", n, ok));
        Ok(())
    }));
    let l = ls.clone();
    fs.push(family("name lengths (decoded)", format!("7 header names x {} lengths x 3 shapes x endianness", nl), nl * 7 * 3 * 2, move |i, ctx| {
        let d = digits(i, &[2, 7, 3, nl]);
        let n = l[d[3]];
        let s = match long_name(d[1] as u8, n, d[2]) {
            Some(s) => s,
            None => return Ok(()),
        };
        let mut m = call();
        m.le = d[0] == 0;
        match d[1] {
            0 => m.iface = Some(s),
            1 => m.ename = Some(s),
            2 => m.member = Some(s),
            3 => m.sender = Some(s),
            4 => m.dest = Some(s),
            5 => m.dest = Some(s),
            _ => m.sender = Some(s),
        }
        let w = bytes_of(&m);
        decodes(w.bytes, &[], n <= 255, &|| format!("header name kind {} of {} bytes", d[1], n), ctx)
    }));

    // signature lengths
    let l = ls.clone();
    fs.push(family("signature lengths", format!("{} lengths x 5 shapes x parse, print, encode as body, value, variant and header", nl), nl * 5, move |i, ctx| {
        let d = digits(i, &[5, nl]);
        let n = l[d[1]];
        let ts: Vec<T> = match d[0] {
            0 => vec![p(b'y'); n],
            1 => {
                if n < 3 {
                    return Ok(());
                }
                vec![T::St(vec![p(b'y'); n - 2])]
            }
            2 => {
                if n < 5 {
                    return Ok(());
                }
                let mut ts = vec![arr(de(p(b's'), p(b'v')))];
                ts.extend(vec![p(b'u'); n - 5]);
                ts
            }
            3 => {
                // "ay" pairs
                let mut ts = vec![arr(p(b'y')); n / 2];
                ts.extend(vec![p(b't'); n % 2]);
                ts
            }
            _ => {
                // nested structs, 30 deep, padded inside
                if n < 61 {
                    return Ok(());
                }
                let mut t = T::St(vec![p(b'q'); n - 58]);
                for _ in 0..28 {
                    t = T::St(vec![t]);
                }
                vec![t]
            }
        };
        let s = sigstr(&ts);
        if s.len() != n {
            return Err(format!("explorer: generator length {} {}", s.len(), n));
        }
        let ok = n <= 255;
        ctx.eval();
        ctx.input(mix(i, 78));
        let got = [Type::from_string_to_signature(&s).is_ok(), Type::from_bytes_to_signature(s.as_bytes()).is_ok()];
        if got != [ok; 2] {
            return Err(format!("parsing a signature of {} bytes ({}...): {:?}, expected {}", n, &s[..n.min(20)], got, ok));
        }
        if ts.len() == 1 {
            let got = [Type::try_from(s.as_str()).is_ok(), Type::try_from(s.as_bytes()).is_ok()];
            if got != [ok; 2] {
                return Err(format!("parsing a type of {} bytes: {:?}, expected {}", n, got, ok));
            }
        }
        let sig: Vec<Type> = ts.iter().map(to_type).collect();
        let pr = Type::from_signature_to_string(&sig);
        match (&pr, ok) {
            (Ok(x), true) if *x == s => (),
            (Err(_), false) => (),
            _ => return Err(format!("printing a signature of {} bytes: {:?}", n, pr.map(|x| x.len()))),
        }
        ctx.trace();
        let what = |k: &'static str| move || format!("{} with a signature of {} bytes", k, n);
        for le in [true, false] {
            limit_case(&with_body(vec![V::G(ts.clone())], le), &what("signature value"), ctx)?;
            limit_case(&with_body(vec![var(V::G(ts.clone()))], le), &what("signature in a variant"), ctx)?;
            limit_case(&with_body(vec![V::A(p(b'g'), vec![V::G(ts.clone())])], le), &what("signature in an array"), ctx)?;
            let body: Vec<V> = ts.iter().map(|t| default_value(t, 0, 0)).collect();
            if n <= 70000 {
                limit_case(&with_body(body, le), &what("body"), ctx)?;
            }
            if ts.len() == 1 {
                let v = default_value(&ts[0], 1, 0);
                let m = with_body(vec![var(v)], le);
                both_sides(&m, ok, &what("variant"), ctx)?;
                if ok {
                    limit_case(&m, &what("variant"), ctx)?;
                }
            }
            if ok {
                // decoding a header whose signature field has this length
                let body: Vec<V> = ts.iter().map(|t| default_value(t, 1, 0)).collect();
                limit_case(&with_body(body, le), &what("body"), ctx)?;
            }
        }
        Ok(())
    }));

    // nesting
    let dv: &'static [usize] = if th { &[0, 1, 2, 15, 16, 17, 30, 31, 32, 33, 34] } else { &[0, 1, 31, 32, 33] };
    let nd = dv.len() as u64;
    fs.push(family("nesting depths", format!("array, struct and dict depths, each in {:?}, in 9 nesting orders, through parse, print, encode (with and without elements), decode, value, variant", dv), nd * nd * nd * 9, move |i, ctx| {
        let d = digits(i, &[9, nd, nd, nd]);
        let (a, st, de_) = (dv[d[1]], dv[d[2]], dv[d[3]]);
        let t = depth_type(a, st, de_, d[0]);
        let s = sigstr(std::slice::from_ref(&t));
        let ok = a <= 32 && st <= 32 && de_ <= 32 && s.len() <= 255;
        ctx.eval();
        ctx.input(hash_bytes(s.as_bytes()));
        for (x, pre) in [(s.clone(), 0), (format!("y{}", s), 1), (format!("{}y", s), 1)] {
            if x.len() > 255 {
                continue;
            }
            let got = [Type::from_string_to_signature(&x).is_ok(), Type::from_bytes_to_signature(x.as_bytes()).is_ok()];
            if got != [ok; 2] {
                return Err(format!("signature of depths ({}, {}, {}) {}: parsed {:?}, expected {}", a, st, de_, x, got, ok));
            }
            if pre == 0 {
                let got = [Type::try_from(x.as_str()).is_ok(), Type::try_from(x.as_bytes()).is_ok()];
                if got != [ok; 2] {
                    return Err(format!("type of depths ({}, {}, {}) {}: parsed {:?}, expected {}", a, st, de_, x, got, ok));
                }
            }
        }
        let ty = to_type(&t);
        match Type::from_signature_to_string(&[ty]) {
            Ok(x) if ok && x == s => (),
            Err(_) if !ok => (),
            x => return Err(format!("printing a type of depths ({}, {}, {}): {:?}, expected {}", a, st, de_, x, ok)),
        }
        ctx.trace();
        let what = || format!("value of depths (array {}, struct {}, dict {}) order {}", a, st, de_, d[0]);
        let le = i % 2 == 0;
        for n in [0usize, 1] {
            let v = default_value(&t, n, 0);
            limit_case(&with_body(vec![v.clone()], le), &what, ctx)?;
            limit_case(&with_body(vec![V::Y(1), var(v.clone()), V::Y(2)], le), &what, ctx)?;
            if s.len() < 250 {
                limit_case(&with_body(vec![v.clone(), V::U(1), v.clone()], !le), &what, ctx).map_err(|e| format!("twice: {}", e))?;
            }
        }
        limit_case(&with_body(vec![V::G(vec![t.clone()])], le), &what, ctx)?;
        limit_case(&with_body(vec![V::G(vec![p(b'y'), t.clone(), p(b'v')])], !le), &what, ctx)?;
        if ok {
            // the depths start anew inside a variant
            let v = default_value(&t, 1, 0);
            let mut inner = var(v.clone());
            let mut x = inner.clone();
            for _ in 0..a.min(32) {
                x = V::A(vtype(&x), vec![x]);
            }
            limit_case(&with_body(vec![x], le), &|| "arrays above a variant".to_string(), ctx)?;
            for _ in 0..st.min(32) {
                inner = V::St(vec![inner]);
            }
            limit_case(&with_body(vec![inner], le), &|| "structs above a variant".to_string(), ctx)?;
        }
        Ok(())
    }));
    // sibling nests: depth counters must be restored after a nest is left
    fs.push(family("sibling nests", "two or three siblings in a struct, each nested 0, 1, 30..=33 deep by array, struct or dict", 18 * 18 * 18, move |i, ctx| {
        let d = digits(i, &[18, 18, 18]);
        let mut ts = Vec::new();
        for (k, x) in d.iter().enumerate() {
            let n = [0usize, 1, 30, 31, 32, 33][x % 6];
            if k == 2 && n > 1 && n != 32 {
                return Ok(());
            }
            ts.push(match x / 6 {
                0 => depth_type(n, 0, 0, 0),
                1 => depth_type(0, n, 0, 0),
                _ => depth_type(0, 0, n, 0),
            });
        }
        let t = T::St(ts.clone());
        let what = || format!("siblings {}", sigstr(std::slice::from_ref(&t)));
        let s = sigstr(std::slice::from_ref(&t));
        let ok = sig_ok(std::slice::from_ref(&t));
        ctx.eval();
        if Type::try_from(s.as_str()).is_ok() != ok {
            return Err(format!("type {} parsed: {}, expected {}", s, !ok, ok));
        }
        if Type::from_signature_to_string(&[to_type(&t)]).is_ok() != ok {
            return Err(format!("type {} printed: {}, expected {}", s, !ok, ok));
        }
        limit_case(&with_body(vec![default_value(&t, 1, 0)], i % 2 == 0), &what, ctx)?;
        // the same siblings at the top level
        let s2 = sigstr(&ts);
        let ok2 = sig_ok(&ts);
        if Type::from_string_to_signature(&s2).is_ok() != ok2 {
            return Err(format!("signature {} parsed: {}, expected {}", s2, !ok2, ok2));
        }
        limit_case(&with_body(ts.iter().map(|t| default_value(t, 1, 0)).collect(), i % 2 == 1), &what, ctx)
    }));

    // variants
    let vk = 5u64;
    let vmax = if th { 6 } else { 5 };
    let nv = words_upto(vk, vmax);
    fs.push(family("variant depths", format!("variant chains up to {} + 2 deep, with nothing, an array, a struct, a dict entry or an array of structs between levels; one or two copies; top level, array, struct", vmax), nv * 3 * 2, move |i, ctx| {
        let d = digits(i, &[2, 3, nv]);
        let w = word(d[2] as u64, vk);
        let n = w.len() + 1; // number of variants
        let mut v = var(V::Y(7));
        for k in w.iter().rev() {
            let inner = match k {
                0 => v,
                1 => V::A(p(b'v'), if d[0] == 1 { vec![v.clone(), v] } else { vec![v] }),
                2 => V::St(vec![V::Y(1), v, V::Y(2)]),
                3 => V::De(Box::new((s("k"), v))),
                _ => V::A(parse("(yv)"), vec![V::St(vec![V::Y(1), v])]),
            };
            v = var(inner);
        }
        let body = match d[1] {
            0 => vec![v.clone(), v],
            1 => vec![V::A(p(b'v'), vec![v.clone(), var(V::Y(1)), v])],
            _ => vec![V::St(vec![V::De(Box::new((V::Y(1), v.clone()))), v])],
        };
        let m = with_body(body, i % 2 == 0);
        debug_assert!(encodable(&m) == (n <= 4));
        limit_case(&m, &|| format!("{} nested variants, containers {:?}", n, w), ctx)
    }));
    fs.push(family("variant towers", "plain towers of 1..=40 variants, also of an empty array of variants", 40 * 2 * 2, move |i, ctx| {
        let d = digits(i, &[2, 2, 40]);
        let mut v = if d[1] == 0 { V::Y(1) } else { V::A(p(b'v'), vec![]) };
        for _ in 0..=d[2] {
            v = var(v);
        }
        limit_case(&with_body(vec![v], d[0] == 0), &|| format!("{} variants", d[2] + 1), ctx)
    }));

    // variant depth through every container context, both sides
    let c3 = Arc::new(contexts(3));
    let n3 = c3.len() as u64;
    fs.push(family("variants through containers", format!("chains of 1..=7 variants, each level's content one of {} one-hole container types; and every pair of them alternating", n3), n3 * n3 * 7, move |i, ctx| {
        let d = digits(i, &[7, n3, n3]);
        let n = d[0] + 1;
        let mut v = var(V::Y(7));
        for k in 1..n {
            v = var(fill(&c3[if k % 2 == 0 { d[1] } else { d[2] }], v));
        }
        let body = if i % 3 == 0 { vec![v] } else { vec![V::St(vec![v.clone()]), v] };
        let m = with_body(body, i % 2 == 0);
        debug_assert!(encodable(&m) == (n <= 4));
        limit_case(&m, &|| format!("{} variants through {} and {}", n, sigstr(&c3[d[1]..d[1] + 1]), sigstr(&c3[d[2]..d[2] + 1])), ctx)
    }));

    // sizes
    let kinds: u64 = if th { 9 } else { 7 };
    fs.push(
        family("array sizes", "element data of 64 MiB - 8, -1, exactly, +1, +8, in arrays of strings, structs, dict entries, arrays, variants, the header field array, at an 8-byte and (strings; thorough: all) at an odd offset (thorough: arrays of bytes and of 64-bit integers)", kinds * 5 * 2, move |i, ctx| {
            let d = digits(i, &[5, kinds, 2]);
            let total = [ARR - 8, ARR - 1, ARR, ARR + 1, ARR + 8][d[0]];
            if !th && d[2] == 1 && (d[1] > 0 || d[0] % 4 == 0) {
                return Ok(());
            }
            // total bytes of element data
            let big = |k: usize| -> String { String::from_utf8(vec![b'x'; k]).unwrap() };
            let head = 4usize; // length word of a string
            let v = match d[1] {
                0 => {
                    // "as": three strings of 16 MiB each (with padding), the rest in the last
                    let mut vs = Vec::new();
                    let mut left = total;
                    for _ in 0..3 {
                        vs.push(s(&big(16 * MIB - head - 1)));
                        left -= 16 * MIB;
                    }
                    vs.push(s(&big(left - head - 1)));
                    V::A(p(b's'), vs)
                }
                1 => V::A(parse("(s)"), vec![V::St(vec![s(&big(total - head - 1))])]),
                2 => V::A(parse("{ys}"), vec![V::De(Box::new((V::Y(1), s(&big(total - 4 - head - 1)))))]),
                3 => {
                    // outer array at the limit; the inner one is smaller by its length word
                    V::A(parse("as"), vec![V::A(p(b's'), vec![s(&big(total - 4 - head - 1))])])
                }
                4 => V::A(p(b'v'), vec![var(s(&big(total - 4 - head - 1)))]),
                5 => {
                    // header field array: (1, v "o" path) then member etc.; all at the limit
                    if d[2] == 1 {
                        return Ok(());
                    }
                    let mut m = call();
                    m.path = Some("/".into());
                    let base = bytes_of(&m);
                    // The fields array ends with the member field; the path comes first and its
                    // padding to 8 depends on its length, so put a growing unpadded last field.
                    // Only the path is unbounded: leave the member out by using a signal-less error.
                    let _ = base;
                    let mut m = empty_m();
                    m.ty = 2;
                    m.serial = 1;
                    m.path = Some("/".into());
                    m.rserial = Some(3);
                    m.le = i % 2 == 0;
                    // fields in ascending order: path (1), reply serial (5): the path is padded to 8
                    // before the next; reply serial takes 8 bytes.
                    // total = 4 + 4 + len + 1 padded to 8, + 8 => reachable totals are multiples of 8
                    let want = match d[0] {
                        0 => ARR - 8,
                        2 => ARR,
                        4 => ARR + 8,
                        _ => return Ok(()),
                    };
                    let len = want - 8 - 8 - 1;
                    m.path = Some(format!("/{}", big(len - 1)));
                    let ok = want <= ARR;
                    let what = || format!("header field array of {} bytes", want);
                    both_sides(&m, ok, &what, ctx)?;
                    let w = bytes_of(&m);
                    return decodes(w.bytes, &[], ok, &what, ctx);
                }
                6 => {
                    // two arrays in one message, each at its own size, the first at the limit
                    let x = V::A(parse("(s)"), vec![V::St(vec![s(&big(total - head - 1))])]);
                    let m = with_body(vec![x, V::Y(1), V::A(p(b's'), vec![s(&big(40 * MIB))])], d[2] == 0);
                    let ok = total <= ARR;
                    let what = || format!("two arrays, the first of {} bytes", total);
                    both_sides(&m, ok, &what, ctx)?;
                    let w = bytes_of(&m);
                    return decodes(w.bytes, &[], ok, &what, ctx);
                }
                7 => {
                    // bytes, decoded only (reference bytes written directly)
                    let mut body = (total as u32).to_le_bytes().to_vec();
                    body.resize(4 + total, 7);
                    return decodes(raw_message(true, "ay", &body, None), &[], total <= ARR, &|| format!("byte array of {}", total), ctx);
                }
                _ => {
                    let total = match d[0] {
                        0 => ARR - 8,
                        2 => ARR,
                        4 => ARR + 8,
                        _ => return Ok(()),
                    };
                    let mut body = (total as u32).to_le_bytes().to_vec();
                    body.resize(8 + total, 0);
                    return decodes(raw_message(true, "at", &body, None), &[], total <= ARR, &|| format!("64-bit array of {}", total), ctx);
                }
            };
            let mut body = vec![v];
            if d[2] == 1 {
                body.insert(0, V::Y(1));
            }
            let m = with_body(body, i % 2 == 0);
            let ok = total <= ARR;
            let what = || format!("array kind {} of {} bytes of element data, offset {}", d[1], total, d[2]);
            both_sides(&m, ok, &what, ctx)?;
            let w = bytes_of(&m);
            drop(m);
            ctx.sample(&what);
            decodes(w.bytes, &[], ok, &what, ctx)
        })
        .threads(3),
    );
    // the limit applies wherever an array stands
    let places = 10u64;
    fs.push(
        family("array sizes in containers", "an array of 64 MiB and of 64 MiB + 8 bytes of element data in a variant, struct, dict entry, struct in a variant, variant in a struct, array, variant in a variant, dict entry in an array in a variant, and behind other values", places * 2 * 2, move |i, ctx| {
            let d = digits(i, &[2, places, 2]);
            // an outer array adds its own bytes: keep the case to one array over the limit
            let total = [ARR, ARR + 8][d[0]];
            if !th && d[2] == 1 && d[1] > 1 {
                return Ok(());
            }
            let text = String::from_utf8(vec![b'x'; total - 5]).unwrap();
            let a = if d[2] == 0 { V::A(p(b's'), vec![V::S(text)]) } else { V::A(parse("(s)"), vec![V::St(vec![V::S(text)])]) };
            let body = match d[1] {
                0 => vec![var(a)],
                1 => vec![V::St(vec![V::Y(1), a])],
                2 => vec![V::De(Box::new((V::Y(1), a)))],
                3 => vec![var(V::St(vec![V::Y(1), a]))],
                4 => vec![V::St(vec![V::Y(1), var(a), V::Tt(5)])],
                5 => vec![var(var(a))],
                6 => vec![s("x"), V::A(p(b's'), vec![s("y")]), a, V::Y(1)],
                7 => vec![var(var(var(V::De(Box::new((s("k"), a))))))],
                8 => vec![V::A(p(b'v'), vec![]), var(V::St(vec![V::St(vec![a])])), V::X(1)],
                _ => vec![V::De(Box::new((s("k"), var(a)))), V::Y(1)],
            };
            let m = with_body(body, i % 2 == 0);
            let ok = total <= ARR;
            let what = || format!("array of {} bytes of element data at place {}", total, d[1]);
            both_sides(&m, ok, &what, ctx)?;
            let w = bytes_of(&m);
            drop(m);
            decodes(w.bytes, &[], ok, &what, ctx)
        })
        .threads(4),
    );
    fs.push(
        family("empty arrays of deep limits", "arrays of 64 MiB length words over too few bytes", 6, move |i, ctx| {
            let n = [ARR as u32 - 1, ARR as u32, ARR as u32 + 1, 1 << 31, u32::MAX - 7, u32::MAX][i as usize];
            for sig in ["ay", "as", "at", "a(y)", "av", "aay"] {
                let mut body = n.to_le_bytes().to_vec();
                body.extend_from_slice(&[0; 60]);
                decodes(raw_message(true, sig, &body, None), &[], false, &|| format!("{} announcing {}", sig, n), ctx)?;
            }
            Ok(())
        }),
    );
    let sizes: &'static [i64] = if th { &[-4096, -8, -1, 0, 1, 2, 8, 4096, 1 << 26] } else { &[-8, -1, 0, 1, 8] };
    let nsz = sizes.len() as u64;
    fs.push(
        family("message sizes", format!("whole messages of 128 MiB + {:?} bytes made of one string, two strings, a string in a struct in a variant, and a long header", sizes), nsz * 4, move |i, ctx| {
            let d = digits(i, &[4, nsz]);
            let total = (MSG as i64 + sizes[d[1]]) as usize;
            let big = |k: usize| -> String { String::from_utf8(vec![b'x'; k]).unwrap() };
            let mk = |n: usize| -> M {
                match d[0] {
                    0 => with_body(vec![s(&big(n))], true),
                    1 => with_body(vec![s(&big(63)), s(&big(n))], false),
                    2 => with_body(vec![var(V::St(vec![s(&big(n))]))], true),
                    _ => {
                        let mut m = call();
                        m.path = Some(format!("/{}", "p".repeat(60 * MIB)));
                        m.body = vec![s(&big(n))];
                        m
                    }
                }
            };
            let base = {
                let mut m = mk(0);
                if d[0] == 3 {
                    m.path = Some("/pppp".into()); // same residue modulo 8 as the long path
                    let b = bytes_of(&m).bytes.len();
                    let m2 = mk(0);
                    let l2 = m2.path.as_ref().unwrap().len();
                    debug_assert!(l2 % 8 == 1);
                    m.path = Some(format!("/{}", "p".repeat(8)));
                    let b8 = bytes_of(&m).bytes.len();
                    let _ = b;
                    b8 + (l2 - 9)
                } else {
                    bytes_of(&m).bytes.len()
                }
            };
            let m = mk(total - base);
            let ok = total <= MSG;
            let what = || format!("message of {} bytes, shape {}", total, d[0]);
            both_sides(&m, ok, &what, ctx)?;
            let w = bytes_of(&m);
            drop(m);
            if w.bytes.len() != total {
                return Err(format!("explorer: size {} {}", w.bytes.len(), total));
            }
            ctx.sample(&what);
            decodes(w.bytes, &[], ok, &what, ctx)
        })
        .threads(3),
    );
    fs.push(family("announced sizes", "header field array length and body length words around the limits, with the bytes absent: never a message", 12 * 12 * 2, move |i, ctx| {
        let d = digits(i, &[12, 12, 2]);
        let vals = [0u32, 8, 64, (ARR - 8) as u32, ARR as u32, (ARR + 1) as u32, (ARR + 8) as u32, (MSG - 16) as u32, MSG as u32, (MSG + 1) as u32, 1 << 31, u32::MAX];
        let le = d[2] == 0;
        let w4 = |x: u32| if le { x.to_le_bytes() } else { x.to_be_bytes() };
        let mut x = vec![if le { b'l' } else { b'B' }, 1, 0, 1];
        x.extend_from_slice(&w4(vals[d[0]]));
        x.extend_from_slice(&w4(1));
        x.extend_from_slice(&w4(vals[d[1]]));
        ctx.eval();
        ctx.input(hash_bytes(&x));
        if let Ok(_) = Message::decode(b(&x)) {
            return Err(format!("16 bytes decode; {}", hex(&x)));
        }
        ctx.outcome("announced only: refused");
        ctx.trace();
        Ok(())
    }));
    fs
}

/// A tower of `k` variants: "v" repeated, innermost a byte.
fn tower(k: usize, kind: usize) -> (String, Vec<u8>) {
    match kind {
        0 => {
            let mut b = Vec::new();
            for _ in 1..k {
                b.extend_from_slice(&[1, b'v', 0]);
            }
            b.extend_from_slice(&[1, b'y', 0, 9]);
            ("v".into(), b)
        }
        1 => {
            // each level is a struct holding a variant
            let mut b = Vec::new();
            for _ in 1..k {
                b.extend_from_slice(&[3, b'(', b'v', b')', 0]);
                while b.len() % 8 != 0 {
                    b.push(0);
                }
            }
            b.extend_from_slice(&[1, b'y', 0, 9]);
            ("v".into(), b)
        }
        _ => {
            // each level is an array of variants
            let mut b = Vec::new();
            let mut at = Vec::new();
            for _ in 1..k {
                b.extend_from_slice(&[2, b'a', b'v', 0]);
                while b.len() % 4 != 0 {
                    b.push(0);
                }
                at.push(b.len());
                b.extend_from_slice(&[0; 4]);
            }
            b.extend_from_slice(&[1, b'y', 0, 9]);
            let end = b.len();
            for p in at {
                let n = (end - p - 4) as u32;
                b[p..p + 4].copy_from_slice(&n.to_le_bytes());
            }
            ("v".into(), b)
        }
    }
}

fn total_decode(x: Vec<u8>, what: &dyn Fn() -> String, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    ctx.input(hash_bytes(&x));
    let n = x.len();
    match no_panic(|| Message::decode(x.into())) {
        Err(p) => return Err(format!("panic on {}: {}", what(), p)),
        Ok(Ok((_, c))) if c > n => return Err(format!("consumed {} of {}", c, n)),
        Ok(Ok(_)) => ctx.outcome("message"),
        Ok(Err(_)) => ctx.outcome("error"),
    }
    ctx.trace();
    Ok(())
}

/// The value of the one-hole type `t` with `v` in the hole.
fn fill(t: &T, v: V) -> V {
    match t {
        T::P(b'v') => v,
        T::P(b'y') => V::Y(1),
        T::P(b'q') => V::Q(3),
        T::P(_) => V::Tt(7),
        T::A(t) => V::A((**t).clone(), vec![fill(t, v)]),
        T::St(ts) => V::St(ts.iter().map(|t| fill(t, v.clone())).collect()),
        T::De(kv) => V::De(Box::new((fill(&kv.0, v.clone()), fill(&kv.1, v)))),
    }
}

/// Types with exactly one variant leaf, at most `n` wrappers deep, the bare variant first.
pub fn contexts(n: usize) -> Vec<T> {
    let mut out = vec![p(b'v')];
    let mut last = out.clone();
    for _ in 0..n {
        let mut next = Vec::new();
        for t in &last {
            let t = t.clone();
            next.push(arr(t.clone()));
            next.push(T::St(vec![t.clone()]));
            next.push(T::St(vec![p(b'y'), t.clone()]));
            next.push(T::St(vec![t.clone(), p(b't')]));
            next.push(de(p(b'y'), t.clone()));
            next.push(de(t, p(b'q')));
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// The value bytes of a variant nested `k` deep, its content alternating through `cycle`; written
/// without recursion over the nesting.
fn context_tower(cycle: &[&T], k: usize, le: bool) -> Vec<u8> {
    enum After {
        Byte(u8, usize),
        Close(usize, usize),
    }
    let mut b: Vec<u8> = Vec::new();
    let mut after: Vec<After> = Vec::new();
    fn align(b: &mut Vec<u8>, a: usize) {
        while b.len() % a != 0 {
            b.push(0);
        }
    }
    fn alignment(t: &T) -> usize {
        match t {
            T::P(b'q') => 2,
            T::P(b't') => 8,
            T::P(_) => 1,
            T::A(_) => 4,
            _ => 8,
        }
    }
    for lvl in 0..k {
        let t = if lvl + 1 == k { p(b'y') } else { cycle[lvl % cycle.len()].clone() };
        let sg = sigstr(std::slice::from_ref(&t));
        b.push(sg.len() as u8);
        b.extend_from_slice(sg.as_bytes());
        b.push(0);
        let mut cur = &t;
        loop {
            align(&mut b, alignment(cur));
            match cur {
                T::P(b'v') => break,
                T::P(_) => {
                    b.push(9);
                    break;
                }
                T::A(t) => {
                    let at = b.len();
                    b.extend_from_slice(&[0; 4]);
                    align(&mut b, alignment(t));
                    after.push(After::Close(at, b.len()));
                    cur = t;
                }
                T::St(ts) => {
                    if ts.len() == 2 && matches!(ts[0], T::P(b'y')) {
                        b.push(1);
                        cur = &ts[1];
                    } else {
                        if ts.len() == 2 {
                            after.push(After::Byte(7, 8));
                        }
                        cur = &ts[0];
                    }
                }
                T::De(kv) => {
                    if matches!(kv.0, T::P(b'y')) {
                        b.push(1);
                        cur = &kv.1;
                    } else {
                        after.push(After::Byte(3, 2));
                        cur = &kv.0;
                    }
                }
            }
        }
    }
    while let Some(a) = after.pop() {
        match a {
            After::Byte(v, n) => {
                align(&mut b, n);
                let at = b.len();
                b.resize(at + n, 0);
                b[if le { at } else { at + n - 1 }] = v;
            }
            After::Close(at, start) => {
                let n = (b.len() - start) as u32;
                b[at..at + 4].copy_from_slice(&if le { n.to_le_bytes() } else { n.to_be_bytes() });
            }
        }
    }
    b
}

/// C04: inputs that drive recursion, allocation and length arithmetic.
pub fn hostile_families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let ks: Arc<Vec<usize>> = Arc::new({
        let mut v: Vec<usize> = (1..=64).collect();
        v.extend([100, 255, 256, 257, 1000, 10_000, 100_000, 1_000_000]);
        if th {
            v.extend([5_000_000, 20_000_000]);
        }
        v
    });
    let nk = ks.len() as u64;
    fs.push(family("towers", "variants nested 1..=64 and up to 10^6 (thorough 2*10^7) deep, plain, through structs, through arrays", nk * 3, move |i, ctx| {
        let d = digits(i, &[3, nk]);
        let (sig, body) = tower(ks[d[1]], d[0]);
        let x = raw_message(true, &sig, &body, None);
        ctx.eval();
        ctx.input(mix(i, 5));
        let n = x.len();
        match no_panic(|| Message::decode(x.into())) {
            Err(p) => return Err(format!("panic on {} nested variants: {}", ks[d[1]], p)),
            Ok(Ok((_, c))) if c > n => return Err(format!("consumed {} of {}", c, n)),
            Ok(Ok(_)) => ctx.outcome("message"),
            Ok(Err(_)) => ctx.outcome("error"),
        }
        ctx.trace();
        Ok(())
    }));
    // towers through every container context
    let ctxs = Arc::new(contexts(3));
    let nctx = ctxs.len() as u64;
    let ks2: &'static [usize] = if th { &[2, 3, 4, 5, 63, 64, 65, 66, 1000, 30_000, 1_000_000] } else { &[4, 5, 65, 1000, 60_000] };
    let nk2 = ks2.len() as u64;
    let c1 = ctxs.clone();
    fs.push(family("towers through containers", format!("variants nested {:?} deep through each of {} one-hole container types of up to 3 wrappers (array, struct with the hole first, last or alone, dict entry key or value)", ks2, nctx), nctx * nk2 * 2, move |i, ctx| {
        let d = digits(i, &[2, nctx, nk2]);
        let body = context_tower(&[&c1[d[1]]], ks2[d[2]], d[0] == 0);
        total_decode(raw_message(d[0] == 0, "v", &body, None), &|| format!("{} variants through {}", ks2[d[2]], sigstr(std::slice::from_ref(&c1[d[1]]))), ctx)
    }));
    let c2 = Arc::new(contexts(if th { 2 } else { 1 }));
    let n2 = c2.len() as u64;
    let ndeep = if th { 300_000 } else { 60_000 };
    fs.push(family("alternating towers", format!("{} variants through every cycle of up to 3 (thorough: 2 of two wrappers) of {} container types", ndeep, n2), if th { n2 * n2 } else { n2 * n2 * n2 }, move |i, ctx| {
        let d = digits(i, &[n2, n2, n2]);
        let cyc: Vec<&T> = if th { vec![&c2[d[0]], &c2[d[1]]] } else { vec![&c2[d[0]], &c2[d[1]], &c2[d[2]]] };
        let body = context_tower(&cyc, ndeep, true);
        total_decode(raw_message(true, "v", &body, None), &|| format!("{} variants through {:?}", ndeep, cyc), ctx)
    }));
    // signatures: deep, long, unbalanced
    let lens: Arc<Vec<usize>> = Arc::new({
        let mut v: Vec<usize> = (0..=300).collect();
        v.extend([511, 512, 1000, 65_535, 65_536, 1_000_000, 10_000_000]);
        v
    });
    let nl = lens.len() as u64;
    fs.push(family("deep signatures", "12 repeated patterns with 5 endings, 0..=300 and up to 10^7 repetitions, parsed as signature and type and decoded as body signature and signature value", nl * 12 * 5, move |i, ctx| {
        let d = digits(i, &[12, 5, nl]);
        let n = lens[d[2]];
        let pre = ["a", "(", "a(", "a{y", "a{s", "{y", "(y", "y", ")", "}", "aa(", "v"][d[0]];
        let end = ["", "y", "y)", "y}", "y)}"][d[1]];
        let mut t = pre.repeat(n);
        t.push_str(end);
        if n < 300 {
            // also close what was opened
            for _ in 0..n {
                if pre.contains('(') {
                    t.push(')')
                } else if pre.contains('{') {
                    t.push('}')
                }
            }
        }
        ctx.eval();
        ctx.input(mix(i, 6));
        sig_total(t.as_bytes())?;
        if t.len() <= 255 {
            let body = [0u8; 64];
            for x in [raw_message(true, &t, &body, None), raw_message(true, "v", &[&[t.len() as u8][..], t.as_bytes(), &[0], &body[..]].concat(), None), raw_message(false, "g", &[&[t.len() as u8][..], t.as_bytes(), &[0]].concat(), None)] {
                judge_c04(&x, &[], ctx)?;
            }
        }
        ctx.trace();
        Ok(())
    }));
    // every short byte string as signature
    let n1 = if th { 1u64 << 24 } else { 1 << 16 };
    fs.push(family("signature bytes", "every byte string of up to 2 bytes (thorough 3) as signature and type", n1, move |i, ctx| {
        ctx.eval();
        let x = i.to_le_bytes();
        for k in 0..=3 {
            sig_total(&x[..k])?;
        }
        ctx.trace();
        Ok(())
    }));
    let al: &'static [u8] = b"ysva(){}\0";
    let w = words_upto(9, if th { 8 } else { 6 });
    fs.push(family("signature words", "every word over {y s v a ( ) { } NUL} up to 6 (thorough 8) as signature, type, body signature and variant signature", w, move |i, ctx| {
        let t: Vec<u8> = word(i, 9).iter().map(|k| al[*k]).collect();
        ctx.eval();
        sig_total(&t)?;
        ctx.trace();
        if i % 3 == 0 {
            return Ok(());
        }
        let body = [&[t.len() as u8][..], &t, &[0, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0]].concat();
        judge_c04(&raw_message(i % 2 == 0, "v", &body, None), &[], ctx)
    }));
    // length words at every region of type length, pairs
    let vals: &'static [u32] = &[0, 1, 4, 7, 8, 16, 255, 256, 65535, (1 << 26) - 1, 1 << 26, (1 << 26) + 1, (1 << 27) - 1, 1 << 27, (1 << 31) - 1, 1 << 31, u32::MAX - 8, u32::MAX - 7, u32::MAX - 4, u32::MAX - 3, u32::MAX - 1, u32::MAX];
    let nv = vals.len() as u64;
    let cor: Arc<Vec<Wire>> = Arc::new(corpus().iter().map(bytes_of).collect());
    let nc = cor.len() as u64;
    fs.push(family("length pairs", format!("every pair of length words (header, body, strings, arrays, indices) of {} messages set to every pair of {} values", nc, nv), nc * nv * nv, move |i, ctx| {
        let d = digits(i, &[nc, nv, nv]);
        let w = &cor[d[0]];
        let le = w.bytes[0] == b'l';
        let put = |x: &mut Vec<u8>, o: usize, v: u32| {
            let bts = if le { v.to_le_bytes() } else { v.to_be_bytes() };
            x[o..o + 4].copy_from_slice(&bts);
        };
        let mut offs: Vec<usize> = vec![4];
        offs.extend(w.regions.iter().filter(|r| r.len == 4 && matches!(r.kind, Kind::StrLen | Kind::ArrLen | Kind::FdIx)).map(|r| r.off));
        let fds = fd_pool();
        let base = w.bytes.clone();
        // pairs involving the body length or the header array length, and adjacent length words
        for (k, &a) in offs.iter().enumerate() {
            for &c in offs.iter().skip(k + 1).take(if k == 0 { 99 } else { 2 }) {
                let mut x = base.clone();
                put(&mut x, a, vals[d[1]]);
                put(&mut x, c, vals[d[2]]);
                judge_c04(&x, &fds, ctx)?;
            }
        }
        Ok(())
    }));
    // every short string at all
    fs.push(family("tiny inputs", "every byte string of up to 2 bytes; every 3 leading bytes before 16 zero bytes", if th { 1 << 24 } else { 1 << 16 }, move |i, ctx| {
        let x = i.to_le_bytes();
        for k in 0..=3 {
            judge_c04(&x[..k], &[], ctx)?;
        }
        let mut y = x[..3].to_vec();
        y.extend_from_slice(&[0; 16]);
        judge_c04(&y, &[], ctx)
    }));
    fs
}

fn sig_total(t: &[u8]) -> CaseResult {
    let show = || hex(t);
    if let Err(p) = no_panic(|| shown(Type::from_bytes_to_signature(t))) {
        return Err(format!("panic parsing signature bytes {}: {}", show(), p));
    }
    if let Err(p) = no_panic(|| shown(Type::try_from(t))) {
        return Err(format!("panic parsing type bytes {}: {}", show(), p));
    }
    if let Ok(x) = std::str::from_utf8(t) {
        if let Err(p) = no_panic(|| shown(Type::from_string_to_signature(x))) {
            return Err(format!("panic parsing signature {}: {}", show(), p));
        }
        if let Err(p) = no_panic(|| shown(Type::try_from(x))) {
            return Err(format!("panic parsing type {}: {}", show(), p));
        }
    }
    Ok(())
}
