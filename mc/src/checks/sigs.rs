//! C10: signature text and types.

use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use dbus_message_parser::value::Type;
use std::convert::TryFrom;
use std::sync::Arc;

/// Parsing `x` by all four parsers, and printing what was parsed.
pub fn judge_text(x: &[u8], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let show = || format!("{:?} ({})", short(&String::from_utf8_lossy(x)), hex(x));
    let es = parse_sig(x);
    let et = parse_type(x);
    let gs = Type::from_bytes_to_signature(x);
    let gt = Type::try_from(x);
    match (&gs, &es) {
        (Ok(g), Some(e)) => {
            if !types_eq(g, e) {
                return Err(format!("signature {} parses to {:?}", show(), g));
            }
        }
        (Err(_), None) => (),
        (Ok(g), None) => return Err(format!("signature {} is accepted as {:?}", show(), g)),
        (Err(e), Some(_)) => return Err(format!("signature {} is refused: {}", show(), e)),
    }
    match (&gt, &et) {
        (Ok(g), Some(e)) => {
            if !type_eq(g, e) {
                return Err(format!("type {} parses to {:?}", show(), g));
            }
        }
        (Err(_), None) => (),
        (Ok(g), None) => return Err(format!("type {} is accepted as {:?}", show(), g)),
        (Err(e), Some(_)) => return Err(format!("type {} is refused: {}", show(), e)),
    }
    if let Ok(t) = std::str::from_utf8(x) {
        let gs2 = Type::from_string_to_signature(t);
        match (&gs, &gs2) {
            (Ok(a), Ok(b)) if a == b => (),
            (Err(_), Err(_)) => (),
            _ => return Err(format!("signature {}: text and bytes disagree: {:?} {:?}", show(), gs2, gs)),
        }
        let gt2 = Type::try_from(t);
        match (&gt, &gt2) {
            (Ok(a), Ok(b)) if a == b => (),
            (Err(_), Err(_)) => (),
            _ => return Err(format!("type {}: text and bytes disagree: {:?} {:?}", show(), gt2, gt)),
        }
    }
    if let Ok(g) = &gs {
        match Type::from_signature_to_string(g) {
            Ok(p) if p.as_bytes() == x => (),
            p => return Err(format!("signature {} prints as {:?}", show(), p)),
        }
        ctx.input(hash_bytes(x));
        ctx.outcome("signature");
        ctx.sample(show);
    } else {
        ctx.outcome("not a signature");
    }
    if let Ok(g) = &gt {
        let p = g.to_string();
        if p.as_bytes() != x {
            return Err(format!("type {} displays as {:?}", show(), p));
        }
        ctx.outcome("type");
    }
    ctx.trace();
    Ok(())
}

/// Printing types built by hand, and parsing what was printed.
pub fn judge_types(ts: &[T], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let ty: Vec<Type> = ts.iter().map(to_type).collect();
    let ok = sig_ok(ts);
    let s = sigstr(ts);
    match Type::from_signature_to_string(&ty) {
        Ok(p) => {
            match Type::from_string_to_signature(&p) {
                Ok(b) if b == ty => (),
                Ok(b) => return Err(format!("types {} print as {:?}, which parses to {:?}", short(&s), short(&p), b)),
                Err(e) => return Err(format!("types {} print as {:?}, which does not parse: {}", short(&s), short(&p), e)),
            }
            if !ok {
                return Err(format!("types {} print as {:?}", short(&s), short(&p)));
            }
            if p != s {
                return Err(format!("types {} print as {:?}", short(&s), short(&p)));
            }
            ctx.outcome("printed");
            ctx.input(hash_bytes(s.as_bytes()));
        }
        Err(e) => {
            if ok {
                return Err(format!("types {} do not print: {}", short(&s), e));
            }
            ctx.outcome("not printable");
        }
    }
    if ok && ts.len() == 1 {
        let d = ty[0].to_string();
        match Type::try_from(d.as_str()) {
            Ok(t) if t == ty[0] => (),
            x => return Err(format!("type {} displays as {:?}, which parses to {:?}", s, d, x)),
        }
    }
    ctx.trace();
    ctx.sample(|| s.clone());
    Ok(())
}

/// All type trees with n nodes, empty structs included.
fn odd_types(n: usize, leaves: &[u8]) -> Vec<T> {
    // treat an empty struct as one more leaf: code 0
    fn fix(t: &T) -> T {
        match t {
            T::P(0) => T::St(vec![]),
            T::P(c) => T::P(*c),
            T::A(t) => arr(fix(t)),
            T::St(ts) => T::St(ts.iter().map(fix).collect()),
            T::De(kv) => de(fix(&kv.0), fix(&kv.1)),
        }
    }
    let mut l = leaves.to_vec();
    l.push(0);
    types_upto(n, &l, 4).iter().map(fix).collect()
}

pub fn families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let al: &'static [u8] = b"ysav(){}x";
    let len = if th { 8 } else { 7 };
    let n = words_upto(9, len);
    fs.push(family("words", format!("every word over {:?} up to length {}", String::from_utf8_lossy(al), len), n, move |i, ctx| {
        let w: Vec<u8> = word(i, 9).iter().map(|k| al[*k]).collect();
        judge_text(&w, ctx)
    }));
    let al2: &'static [u8] = b"ya(){}";
    let len2 = if th { 10 } else { 9 };
    let n2 = words_upto(6, len2);
    fs.push(family("structure words", format!("every word over {:?} up to length {}", String::from_utf8_lossy(al2), len2), n2, move |i, ctx| {
        let w: Vec<u8> = word(i, 6).iter().map(|k| al2[*k]).collect();
        judge_text(&w, ctx)
    }));
    fs.push(family("bytes", "every string of 2 arbitrary bytes; every 3 with one of 9 in one place", 65536, move |i, ctx| {
        let w = [(i >> 8) as u8, i as u8];
        judge_text(&w[..1], ctx)?;
        judge_text(&w, ctx)?;
        for c in al {
            judge_text(&[w[0], *c, w[1]], ctx)?;
            judge_text(&[*c, w[0], w[1]], ctx)?;
            judge_text(&[w[0], w[1], *c], ctx)?;
        }
        Ok(())
    }));
    let templates: &'static [&'static str] = &[
        "y", "ay", "aay", "(y)", "(yy)", "((y))", "a(y)", "(ay)", "{yy}", "{y(y)}", "a{sv}", "a{s(iu)}", "a{sa{sv}}", "(a{sv}ay)", "aaa(yv)", "ybnqiuxtdsoghv", "(ybnqiuxtdsoghv)", "a{oa{sa{sv}}}", "(y(n(q(i))))", "{y{y{yy}}}", "a(y{s(v)}ai)", "(v)(v)", "yyyyyyyy", "a{vv}",
    ];
    fs.push(family("substitution", "24 signatures: every byte value in every place, inserted or replacing, and every place deleted; then a second site from 9 symbols", 24 * 20, move |i, ctx| {
        let d = digits(i, &[24, 20]);
        let t = templates[d[0]].as_bytes();
        if d[1] > t.len() {
            return Ok(());
        }
        judge_text(t, ctx)?;
        for c in 0..=255u8 {
            let mut w = t.to_vec();
            w.insert(d[1], c);
            judge_text(&w, ctx)?;
            if d[1] < t.len() {
                let mut w = t.to_vec();
                w[d[1]] = c;
                judge_text(&w, ctx)?;
                for q in 0..w.len() {
                    if q != d[1] && (c < 128 && al.contains(&c)) {
                        for e in al {
                            let mut z = w.clone();
                            z[q] = *e;
                            judge_text(&z, ctx)?;
                        }
                    }
                }
            }
        }
        if d[1] < t.len() {
            let mut w = t.to_vec();
            w.remove(d[1]);
            judge_text(&w, ctx)?;
            for q in 0..w.len() {
                let mut z = w.clone();
                z.remove(q);
                judge_text(&z, ctx)?;
            }
        }
        Ok(())
    }));
    fs.push(family("characters", "every Unicode character alone, in an array, in a struct, as a dict value", 0x110000, |i, ctx| {
        let c = match char::from_u32(i as u32) {
            Some(c) => c,
            None => return Ok(()),
        };
        for t in [format!("{}", c), format!("a{}", c), format!("({})", c), format!("{{y{}}}", c)] {
            judge_text(t.as_bytes(), ctx)?;
        }
        Ok(())
    }));
    // types
    let mut ts = odd_types(3, BASIC);
    ts.extend(odd_types(4, if th { BASIC } else { b"ysv" }));
    ts.extend(odd_types(5, if th { b"yv" } else { b"y" }));
    let ts = Arc::new(ts);
    let nt = ts.len() as u64;
    let t2 = ts.clone();
    fs.push(family("type trees", format!("{} type trees up to 5 nodes, empty structs included, printed and parsed back", nt), nt, move |i, ctx| {
        judge_types(std::slice::from_ref(&t2[i as usize]), ctx)?;
        judge_text(sigstr(std::slice::from_ref(&t2[i as usize])).as_bytes(), ctx)
    }));
    let small: Arc<Vec<T>> = Arc::new(odd_types(3, b"yv"));
    let ns = small.len() as u64;
    let depth = if th { 3 } else { 2 };
    let nw = words_upto(ns, depth);
    fs.push(family("type lists", format!("every list of up to {} of {} type trees", depth, ns), nw, move |i, ctx| {
        let w: Vec<T> = word(i, ns).iter().map(|k| small[*k].clone()).collect();
        judge_types(&w, ctx)?;
        judge_text(sigstr(&w).as_bytes(), ctx)
    }));
    // lengths and depths
    fs.push(family("lengths", "signatures of 0..=270 codes in 6 shapes, parsed, printed, with one code too many or a bracket missing", 271 * 6, |i, ctx| {
        let d = digits(i, &[6, 271]);
        let n = d[1];
        let ts: Vec<T> = match d[0] {
            0 => vec![p(b'y'); n],
            1 => vec![arr(p(b's')); n / 2],
            2 => vec![T::St(vec![p(b'u'); n.max(1)])],
            3 => vec![T::St(vec![p(b'u')]); n / 3],
            4 => vec![arr(de(p(b's'), p(b'v'))); n / 5],
            _ => {
                let mut v = vec![T::St(vec![p(b'x'), arr(p(b'y'))]); n / 5];
                v.extend(vec![p(b't'); n % 5]);
                v
            }
        };
        judge_types(&ts, ctx)?;
        let s = sigstr(&ts);
        judge_text(s.as_bytes(), ctx)?;
        for t in [format!("{}a", s), format!("{})", s), format!("({}", s), format!("{}{{", s), format!("{}(", s)] {
            judge_text(t.as_bytes(), ctx)?;
        }
        Ok(())
    }));
    fs.push(family("depths", "every (array, struct, dict) nesting of the C09 grid in 9 orders", 6 * 6 * 6 * 9, |i, ctx| {
        let d = digits(i, &[9, 6, 6, 6]);
        let v = [0usize, 1, 15, 31, 32, 33];
        let t = super::limits::depth_type(v[d[1]], v[d[2]], v[d[3]], d[0]);
        judge_types(std::slice::from_ref(&t), ctx)?;
        judge_types(&[p(b'y'), t.clone(), t.clone()], ctx)?;
        let s = sigstr(std::slice::from_ref(&t));
        judge_text(s.as_bytes(), ctx)?;
        if s.len() > 1 {
            judge_text(&s.as_bytes()[..s.len() - 1], ctx)?;
        }
        judge_text(format!("{}{}", s, s).as_bytes(), ctx)
    }));
    // siblings
    let units = Arc::new({
        let mut v = types_upto(4, b"yv", 3);
        v.retain(|t| sigstr(std::slice::from_ref(t)).len() <= 7);
        v
    });
    let nu = units.len() as u64;
    fs.push(family("siblings", format!("every number of equal siblings that fits (and two more) of {} type trees, as a list, in a struct, in an array of structs, in a struct in a struct, as the struct value of a dict entry, after a nested one", nu), nu * 6, move |i, ctx| {
        let d = digits(i, &[6, nu]);
        let u = &units[d[1]];
        let l = sigstr(std::slice::from_ref(u)).len();
        for n in 1..=255 / l + 2 {
            let us = vec![u.clone(); n];
            let ts = match d[0] {
                0 => us,
                1 => vec![T::St(us)],
                2 => vec![arr(T::St(us))],
                3 => vec![T::St(vec![p(b'y'), T::St(us)])],
                4 => vec![de(p(b'y'), T::St(us))],
                _ => {
                    let mut x = vec![T::St(vec![arr(T::St(vec![u.clone()])), de(u.clone(), u.clone())])];
                    x.extend(us);
                    x
                }
            };
            judge_types(&ts, ctx)?;
            judge_text(sigstr(&ts).as_bytes(), ctx)?;
        }
        Ok(())
    }));
    // short words far into a signature
    let fal: &'static [u8] = b"ysv(){}a";
    let nf3 = words_upto(8, 4);
    let far: &'static [&'static str] = &["y", "as", "(y)", "a{sv}", "(yas)"];
    fs.push(family("far words", "every word over {y s v ( ) { } a} up to length 4, and 24 signatures with every place replaced by every one of those, after 5 fillers repeated up to every multiple of 16 and near 255, plain and in a struct", (nf3 + 24 * 8) * 5 * 2, move |i, ctx| {
        let d = digits(i, &[2, 5, nf3 + 24 * 8]);
        let ws: Vec<Vec<u8>> = if (d[2] as u64) < nf3 {
            vec![word(d[2] as u64, 8).iter().map(|k| fal[*k]).collect()]
        } else {
            let k = d[2] - nf3 as usize;
            let t = templates[k / 8].as_bytes();
            (0..t.len())
                .map(|q| {
                    let mut x = t.to_vec();
                    x[q] = fal[k % 8];
                    x
                })
                .collect()
        };
        let f = far[d[1]];
        for w in ws {
            let room = 257usize.saturating_sub(w.len()) / f.len();
            let mut ns: Vec<usize> = (1..16).map(|k| k * 16 / f.len()).chain(room.saturating_sub(4)..=room).collect();
            ns.dedup();
            for n in ns {
                let mut x = f.repeat(n).into_bytes();
                if d[0] == 1 {
                    x.insert(0, b'(');
                }
                x.extend_from_slice(&w);
                if d[0] == 1 {
                    x.push(b')');
                }
                judge_text(&x, ctx)?;
            }
        }
        Ok(())
    }));
    // all pairs of templates and of template with a prefix cut
    fs.push(family("concatenations", "every pair of 24 signatures, whole or cut anywhere", 24 * 24, move |i, ctx| {
        let d = digits(i, &[24, 24]);
        let (a, b) = (templates[d[0]], templates[d[1]]);
        for k in 0..=a.len() {
            for x in [format!("{}{}", &a[..k], b), format!("{}{}", b, &a[k..]), format!("({}{}{})", &a[..k], b, &a[k..]), format!("{{{}{}}}", &a[..k], b)] {
                judge_text(x.as_bytes(), ctx)?;
            }
        }
        Ok(())
    }));
    fs
}
