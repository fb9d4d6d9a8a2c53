//! C08: header fields.

use super::{permutation, valid_field};
use crate::bytesfam::*;
use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::wire::*;
use dbus_message_parser::message::{Message, MessageHeader, MessageHeaderFields};
use dbus_message_parser::value::Value;
use std::convert::TryFrom;
use std::sync::Arc;

fn field_strings(f: &MessageHeaderFields) -> M {
    let mut m = empty_m();
    m.path = f.path.as_ref().map(|x| x.to_string());
    m.iface = f.interface.as_ref().map(|x| x.to_string());
    m.member = f.member.as_ref().map(|x| x.to_string());
    m.ename = f.error_name.as_ref().map(|x| x.to_string());
    m.rserial = f.reply_serial;
    m.dest = f.destination.as_ref().map(|x| x.to_string());
    m.sender = f.sender.as_ref().map(|x| x.to_string());
    m.fds = f.unix_fds;
    m
}

/// Converting raw values succeeds exactly when the model says so, with the same contents; and back.
pub fn judge_raw(raw: &[V], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let vals = match to_values(raw) {
        Some(v) => v,
        None => {
            ctx.skip();
            return Ok(());
        }
    };
    ctx.input(hash_bytes(format!("{:?}", raw).as_bytes()));
    let mut m = empty_m();
    let exp = apply_fields(&mut m, raw);
    let got = MessageHeaderFields::try_from(vals);
    match (exp, got) {
        (Ok(sig), Ok(f)) => {
            let g = field_strings(&f);
            if g != m {
                return Err(format!("fields {:?}, expected {:?}; from {:?}", g, m, raw));
            }
            match (&f.signature, &sig) {
                (None, None) => (),
                (Some(a), Some(b)) if types_eq(a, b) => (),
                (a, b) => return Err(format!("signature {:?}, expected {:?}", a, b)),
            }
            let mut back: Vec<(u8, V)> = header_fields(&m, 0, false);
            if let Some(sg) = sig {
                back.push((8, V::G(sg)));
                back.sort_by_key(|x| x.0);
            }
            let back: Vec<V> = back.into_iter().map(|(c, v)| field_pair(c, v)).collect();
            let gb: Vec<Value> = f.into();
            if !values_eq(&gb, &back) {
                return Err(format!("converting back gives {:?}, expected {:?}", gb, back));
            }
            ctx.outcome("accepted");
        }
        (Err(e), Err(_)) => ctx.outcome(e),
        (Ok(_), Err(e)) => return Err(format!("valid fields refused: {}; {:?}", e, raw)),
        (Err(e), Ok(_)) => return Err(format!("invalid fields accepted ({}); {:?}", e, raw)),
    }
    ctx.trace();
    ctx.sample(|| format!("{:?}", raw));
    Ok(())
}

fn judge_header(m: &M, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let f = match to_fields(m) {
        Some(f) => f,
        None => {
            ctx.skip();
            return Ok(());
        }
    };
    let ok = required_ok(m);
    let h = MessageHeader::new(m.le, mtype(m.ty).unwrap(), mflags(m.flags), m.ver, m.serial, f);
    if h.is_ok() != ok {
        return Err(format!("header creation {}: {:?}", if ok { "refused" } else { "accepted without its required fields" }, m));
    }
    ctx.outcome(if ok { "created" } else { "refused" });
    if let Ok(h) = h {
        let msg = Message::new(h, vec![]);
        fields_equal(&msg, m)?;
    }
    // The same on the wire.
    let w = encode(m, &HeaderForm { order: None, empty_sig: m.sig.is_some() });
    match Message::decode(b(&w.bytes)) {
        Ok((g, _)) => {
            if !ok {
                return Err(format!("decoded without its required fields: {:?}", m));
            }
            fields_equal(&g, m)?;
        }
        Err(e) => {
            if ok {
                return Err(format!("valid header does not decode: {}; {:?}", e, m));
            }
        }
    }
    ctx.trace();
    ctx.sample(|| format!("{:?}", m));
    Ok(())
}

/// Raw values a header-field array may hold, valid and invalid.
fn raw_alphabet(full: bool) -> Vec<V> {
    let mut v = Vec::new();
    for c in 1..=9u8 {
        v.push(valid_field(c, 0));
        if full {
            v.push(valid_field(c, 1));
        }
    }
    for c in [0u8, 10, 255] {
        v.push(field_pair(c, s("a.b")));
    }
    // wrong type for each code
    for c in 1..=9u8 {
        let wrong: Vec<V> = if full {
            vec![V::Y(1), V::U(1), V::I(1), V::S("a.b".into()), V::O("/a".into()), V::G(vec![]), var(V::S("a.b".into())), V::A(p(b's'), vec![])]
        } else {
            vec![if matches!(c, 5 | 9) { s("a.b") } else { V::U(1) }]
        };
        for x in wrong {
            v.push(field_pair(c, x));
        }
    }
    // invalid names
    for (c, n) in [(2, "a"), (3, "a.b"), (4, "x"), (6, "a"), (7, ":1"), (2, ""), (3, ""), (6, "")] {
        v.push(field_pair(c, s(n)));
    }
    // wrong shapes
    v.push(V::Y(1));
    v.push(V::St(vec![V::Y(2)]));
    v.push(V::St(vec![V::Y(2), var(s("a.b")), V::Y(0)]));
    v.push(V::St(vec![V::Y(2), s("a.b")]));
    v.push(V::St(vec![V::U(2), var(s("a.b"))]));
    v.push(V::St(vec![var(s("a.b")), V::Y(2)]));
    v.push(V::De(Box::new((V::Y(2), var(s("a.b"))))));
    v.push(var(V::St(vec![V::Y(2), var(s("a.b"))])));
    v.push(V::A(p(b'y'), vec![V::Y(2)]));
    v
}

pub fn families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    fs.push(family("subsets", "4 types x all 2^9 field subsets x both endiannesses, created and decoded", 4 * 512 * 2, move |i, ctx| {
        let d = digits(i, &[2, 4, 512]);
        let k = d[2];
        let on = |b: usize, x: &str| if k >> b & 1 == 1 { Some(x.to_string()) } else { None };
        let mut m = empty_m();
        m.le = d[0] == 0;
        m.ty = d[1] as u8 + 1;
        m.path = on(0, "/p");
        m.iface = on(1, "i.f");
        m.member = on(2, "Me");
        m.ename = on(3, "e.n");
        m.rserial = on(4, "").map(|_| 1);
        m.dest = on(5, "d.e");
        m.sender = on(6, ":1.1");
        m.sig = on(7, "").map(|_| vec![]);
        m.fds = on(8, "").map(|_| 2);
        judge_header(&m, ctx)
    }));
    fs.push(family("subsets flags", "4 types x 8 flag sets x 2^5 subsets of the fields that some type requires", 4 * 8 * 32, move |i, ctx| {
        let d = digits(i, &[4, 8, 32]);
        let on = |b: usize, x: &str| if d[2] >> b & 1 == 1 { Some(x.to_string()) } else { None };
        let mut m = empty_m();
        m.ty = d[0] as u8 + 1;
        m.flags = d[1] as u8;
        m.path = on(0, "/");
        m.iface = on(1, "org.freedesktop.DBus.Local");
        m.member = on(2, "_");
        m.ename = on(3, "e.n");
        m.rserial = on(4, "").map(|_| 0);
        judge_header(&m, ctx)
    }));
    let a2 = Arc::new(raw_alphabet(true));
    let n2 = a2.len() as u64;
    let w2 = words_upto(n2, 2);
    fs.push(family("raw pairs", format!("all sequences of up to 2 raw field values from {}", n2), w2, move |i, ctx| {
        let raw: Vec<V> = word(i, n2).iter().map(|k| a2[*k].clone()).collect();
        judge_raw(&raw, ctx)
    }));
    let a3 = Arc::new(raw_alphabet(false));
    let n3 = a3.len() as u64;
    let w3 = words_upto(n3, if th { 4 } else { 3 });
    fs.push(family("raw triples", format!("all sequences of up to 3 (thorough 4) raw field values from {}", n3), w3, move |i, ctx| {
        let raw: Vec<V> = word(i, n3).iter().map(|k| a3[*k].clone()).collect();
        judge_raw(&raw, ctx)
    }));
    let np: u64 = if th { 362880 } else { 5040 };
    let codes: &'static [u8] = if th { &[1, 2, 3, 4, 5, 6, 7, 8, 9] } else { &[1, 2, 4, 6, 7, 8, 9] };
    fs.push(family("orders", format!("all orders of {} fields, and each with one of them repeated at the end", codes.len()), np, move |i, ctx| {
        let p = permutation(codes, i);
        let mut raw: Vec<V> = p.iter().map(|c| valid_field(*c, 1)).collect();
        judge_raw(&raw, ctx)?;
        if i < 5040 {
            for c in codes {
                for alt in 0..2 {
                    raw.push(valid_field(*c, alt));
                    judge_raw(&raw, ctx)?;
                    raw.pop();
                }
            }
        }
        Ok(())
    }));
    // all pairs of fields in both orders with every distance (duplicates far apart)
    fs.push(family("duplicates", "every field repeated at every pair of positions among the 9 fields, same and different value", 9 * 10 * 2 * 2, move |i, ctx| {
        let d = digits(i, &[9, 10, 2, 2]);
        let mut raw: Vec<V> = (1..=9u8).map(|c| valid_field(c, 0)).collect();
        if d[3] == 1 {
            raw.reverse();
        }
        raw.insert(d[1], valid_field(d[0] as u8 + 1, d[2]));
        judge_raw(&raw, ctx)
    }));
    // sequences of fields with equal and different contents
    let eqf: Arc<Vec<V>> = Arc::new({
        let mut v = vec![field_pair(1, V::O("/a".into()))];
        for c in [2u8, 4, 6, 7] {
            v.push(field_pair(c, s("a.b")));
            v.push(field_pair(c, s("c.d")));
        }
        v.push(field_pair(6, s(":1.1")));
        v.push(field_pair(7, s(":1.1")));
        v.push(field_pair(3, s("a")));
        v.push(field_pair(5, V::U(1)));
        v.push(field_pair(9, V::U(1)));
        v.push(field_pair(8, V::G(vec![])));
        v.push(field_pair(8, V::G(parses("s"))));
        v
    });
    let nef = eqf.len() as u64;
    let ed = if th { 6 } else { 5 };
    let nwe = words_upto(nef, ed);
    fs.push(family("equal contents", format!("every sequence of up to {} of {} valid fields with equal and different contents", ed, nef), nwe, move |i, ctx| {
        let raw: Vec<V> = word(i, nef).iter().map(|k| eqf[*k].clone()).collect();
        judge_raw(&raw, ctx)
    }));
    // every code with every content type
    let tys = Arc::new(types_upto(2, BASIC, 2));
    let nt = tys.len() as u64;
    let t1 = tys.clone();
    fs.push(family("codes and types", format!("256 codes x {} content types, converted and decoded", nt), 256 * nt, move |i, ctx| {
        let d = digits(i, &[256, nt]);
        let v = field_pair(d[0] as u8, default_value(&t1[d[1]], 1, 0));
        judge_raw(&[v.clone()], ctx)?;
        let mut m = call();
        m.body = vec![];
        let mut fields: Vec<V> = header_fields(&m, 0, false).into_iter().map(|(c, v)| field_pair(c, v)).collect();
        if has_fd(&v) {
            return Ok(());
        }
        fields.push(v);
        let w = encode_raw(&m, &fields, Enc::new(true));
        judge_c05(&w.bytes, &[], ctx)?;
        fields.rotate_right(1);
        let w = encode_raw(&m, &fields, Enc::new(true));
        judge_c05(&w.bytes, &[], ctx)
    }));
    // every struct and every dict entry of up to 4 members over a small alphabet
    let mem: Arc<Vec<V>> = Arc::new(vec![V::Y(2), V::Y(8), V::Y(5), var(s("a.b")), var(V::G(vec![])), var(V::U(1)), s("a.b"), V::U(2), var(var(s("a.b"))), V::St(vec![V::Y(2), var(s("a.b"))])]);
    let nm = mem.len() as u64;
    let dep = if th { 5 } else { 4 };
    let nw = words_upto(nm, dep);
    fs.push(family("raw shapes", format!("every struct of up to {} members from {}, plain, in a variant, as array, alone and after a valid field", dep, nm), nw * 4, move |i, ctx| {
        let d = digits(i, &[4, nw]);
        let vs: Vec<V> = word(d[1] as u64, nm).iter().map(|k| mem[*k].clone()).collect();
        if vs.is_empty() {
            return Ok(());
        }
        let v = match d[0] {
            0 => V::St(vs),
            1 => var(V::St(vs)),
            2 => {
                if vs.len() != 2 {
                    return Ok(());
                }
                V::De(Box::new((vs[0].clone(), vs[1].clone())))
            }
            _ => {
                if vs.iter().any(|v| vtype(v) != vtype(&vs[0])) {
                    return Ok(());
                }
                V::A(vtype(&vs[0]), vs)
            }
        };
        judge_raw(&[v.clone()], ctx)?;
        judge_raw(&[valid_field(1, 0), v.clone()], ctx)?;
        judge_raw(&[v, valid_field(3, 0)], ctx)
    }));
    // long sequences of raw values: any number of repetitions is refused, at any position
    fs.push(family("long duplicates", "1..=40 copies of each field after the full set, and the full set repeated 1..=30 times", 9 * 40, move |i, ctx| {
        let d = digits(i, &[9, 40]);
        let mut raw: Vec<V> = (1..=9u8).map(|c| valid_field(c, 0)).collect();
        for _ in 0..=d[1] {
            raw.push(valid_field(d[0] as u8 + 1, 0));
        }
        judge_raw(&raw, ctx)?;
        let only: Vec<V> = vec![valid_field(d[0] as u8 + 1, 1); d[1] + 1];
        judge_raw(&only, ctx)?;
        let all: Vec<V> = (0..=d[1]).flat_map(|_| (1..=9u8).map(|c| valid_field(c, 1))).collect();
        judge_raw(&all, ctx)
    }));
    // which grammar applies to which field
    let names: Vec<String> = {
        let mut v: Vec<String> = ["", "a", "A", "_", "1", "-", ".", ":", "/", "a.b", "a.b.c", "a1.b1", "a.1", "1.a", "a-b.c", "a.b-c", "-a.b", "a..b", ".a.b", "a.b.", ":1", ":1.2", ":a.b", ":1.a-b", "1.2", ":.1", ":1.", "a b.c", "a.b c", "é.b", "a.é", "a\u{0}.b", "a_b", "a-b", "a1", "/a", "a/b.c", "a.b/c", "a:b.c", "::1.2", "org.freedesktop.DBus"]
            .iter()
            .map(|x| x.to_string())
            .collect();
        for n in [254usize, 255, 256, 257, 511, 512] {
            v.push("m".repeat(n));
            v.push(format!("a.{}", "b".repeat(n - 2)));
            v.push(format!(":1.{}", "2".repeat(n - 3)));
        }
        v
    };
    let nn = names.len() as u64;
    fs.push(family("name kinds", format!("{} names in every string field, converted and decoded", nn), nn * 5, move |i, ctx| {
        let d = digits(i, &[5, nn]);
        let code = [2u8, 3, 4, 6, 7][d[0]];
        let v = field_pair(code, s(&names[d[1]]));
        judge_raw(&[v.clone()], ctx)?;
        for ty in 1..=4u8 {
            let mut m = call();
            m.ty = ty;
            m.iface = Some("x.y".into());
            m.ename = Some("x.y".into());
            m.rserial = Some(1);
            let fields: Vec<V> = header_fields(&m, 0, false).into_iter().filter(|(c, _)| *c != code).map(|(c, v)| field_pair(c, v)).chain([v.clone()]).collect();
            let w = encode_raw(&m, &fields, Enc::new(false));
            let mut x = w.bytes;
            x[0] = b'B';
            let mut mm = m.clone();
            mm.le = false;
            let w2 = encode_raw(&mm, &fields, Enc::new(false));
            judge_c05(&w2.bytes, &[], ctx)?;
        }
        Ok(())
    }));
    fs
}
