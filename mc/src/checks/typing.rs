//! C13: value types, homogeneous arrays, non-empty structs, message signatures and splitting.

use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::wire::*;
use dbus_message_parser::message::Message;
use dbus_message_parser::value::{Array, Struct, Value};
use std::convert::TryFrom;
use std::sync::Arc;

fn label(t: &T) -> u64 {
    hash_bytes(sigstr(std::slice::from_ref(t)).as_bytes())
}

/// The reported type of a value.
fn judge_type(v: &V, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let val = match to_value(v) {
        Some(x) => x,
        None => return Err(format!("homogeneous value cannot be constructed: {}", short(&format!("{:?}", v)))),
    };
    let t = vtype(v);
    rec::start(0x8000);
    rec::step(1, label(&t));
    ctx.input(hash_bytes(format!("{:?}", v).as_bytes()));
    match val.get_type() {
        Ok(g) => {
            if !type_eq(&g, &t) {
                return Err(format!("type of {} reported as {}", short(&format!("{:?}", v)), g));
            }
            if g.get_alignment() != align(&t) {
                return Err(format!("alignment of {} is {}, expected {}", g, g.get_alignment(), align(&t)));
            }
        }
        Err(e) => {
            if type_ok(&t, 0, 0, 0) {
                return Err(format!("type of {} refused: {}", short(&format!("{:?}", v)), e));
            }
        }
    }
    // the same values back
    if !value_eq(&val, v) {
        return Err(format!("constructed value {:?} differs from {:?}", val, v));
    }
    match (&val, v) {
        (Value::Array(a), V::A(et, vs)) => {
            if !type_eq(a.get_type(), et) || !values_eq(a.as_ref(), vs) || !values_eq(&Vec::<Value>::from(a.clone()), vs) {
                return Err(format!("array does not give its values back: {:?}", v));
            }
        }
        (Value::Struct(a), V::St(vs)) => {
            if !values_eq(a.as_ref(), vs) || !values_eq(&Vec::<Value>::from(a.clone()), vs) {
                return Err(format!("struct does not give its values back: {:?}", v));
            }
        }
        _ => (),
    }
    ctx.trace();
    ctx.outcome("typed");
    ctx.sample(|| format!("{:?} : {}", v, sigstr(&[t.clone()])));
    Ok(())
}

/// Creating an array of `vs` declared as `t`.
fn judge_array(vs: &[V], t: &T, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let vals = match to_values(vs) {
        Some(x) => x,
        None => return Ok(()),
    };
    let types: Vec<T> = vs.iter().map(vtype).collect();
    let ok = types.iter().all(|x| x == t);
    let deep = types.iter().any(|x| !type_ok(x, 0, 0, 0));
    rec::start(0x8100);
    rec::step(label(t), 0x8101 + ok as u64);
    let r = Array::new(vals, to_type(t));
    let what = || format!("array of {} declared as {}", short(&sigstr(&types)), sigstr(&[t.clone()]));
    match r {
        Ok(a) => {
            if !ok {
                return Err(format!("{} accepted", what()));
            }
            if !type_eq(a.get_type(), t) || !values_eq(a.as_ref(), vs) {
                return Err(format!("{}: contents differ", what()));
            }
            let v = Value::Array(a.clone());
            match v.get_type() {
                Ok(g) if type_eq(&g, &arr(t.clone())) => (),
                Ok(g) => return Err(format!("{}: reported type {}", what(), g)),
                Err(_) if deep || !type_ok(&arr(t.clone()), 0, 0, 0) => (),
                Err(e) => return Err(format!("{}: type refused: {}", what(), e)),
            }
            if !values_eq(&Vec::<Value>::from(a), vs) {
                return Err(format!("{}: values back differ", what()));
            }
            ctx.outcome("array created");
        }
        Err(e) => {
            if ok && !deep {
                return Err(format!("{} refused: {}", what(), e));
            }
            ctx.outcome("array refused");
        }
    }
    ctx.trace();
    ctx.input(mix(label(t), hash_bytes(format!("{:?}", vs).as_bytes())));
    Ok(())
}

fn judge_split(m: &M, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let msg = match to_message(m) {
        Some(x) => x,
        None => {
            ctx.skip();
            return Ok(());
        }
    };
    let types: Vec<T> = m.body.iter().map(vtype).collect();
    let what = || short(&format!("{:?}", m));
    let within = types.iter().all(|t| type_ok(t, 0, 0, 0));
    match msg.get_signature() {
        Ok(g) if types_eq(&g, &types) => (),
        Ok(g) => return Err(format!("signature {:?} of {}", g, what())),
        Err(_) if !within => {
            ctx.outcome("beyond a limit");
            return Ok(());
        }
        Err(e) => return Err(format!("signature refused: {}; {}", e, what())),
    }
    let before = msg.clone();
    let (h, body) = msg.split().map_err(|e| format!("split refused: {}; {}", e, what()))?;
    if !values_eq(&body, &m.body) {
        return Err(format!("splitting changes the body: {:?}; {}", body, what()));
    }
    match h.get_signature() {
        Some(g) if !types.is_empty() && types_eq(g, &types) => (),
        Some(g) if types.is_empty() && g.is_empty() => (),
        None if types.is_empty() => (),
        g => return Err(format!("split reports the signature {:?}, the body's is {:?}; {}", g, sigstr(&types), what())),
    }
    // everything else as before
    let again = Message::new(h, body);
    fields_equal(&again, m).map_err(|e| format!("splitting changes the header: {}; {}", e, what()))?;
    let mut e = m.clone();
    e.sig = None;
    message_equal(&again, &e).map_err(|x| format!("splitting changes the header: {}; {}", x, what()))?;
    if m.sig.is_none() && !has_nan(m) {
        // the original clone is untouched
        if !(before.get_body() == again.get_body()) {
            return Err(format!("clone changed by splitting; {}", what()));
        }
    }
    rec::start(0x8200);
    rec::step(m.ty as u64, hash_bytes(sigstr(&types).as_bytes()));
    ctx.trace();
    ctx.outcome("split");
    ctx.input(hash_bytes(what().as_bytes()));
    Ok(())
}

pub fn families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let mut ts = types_upto(4, if th { BASIC } else { b"ybnqxdsoghv" }, 3);
    if !th {
        ts.extend(types_upto(3, BASIC, 3));
    }
    ts.extend(types_exact(5, if th { b"ysv" } else { b"yv" }, 4));
    let nt = ts.len() as u64;
    let ts = Arc::new(ts);
    let dev = if th { 3 } else { 2 };
    let t2 = ts.clone();
    fs.push(family("values", format!("values of {} type trees, at most {} non-default inner choices", nt, dev), nt, move |i, ctx| {
        let t = &t2[i as usize];
        ctx.dfs(dev, |ch, ctx| {
            let mut salt = i as u32;
            judge_type(&value(t, ch, 0, &mut salt), ctx)
        })
    }));
    let t2 = ts.clone();
    fs.push(family("alignment", format!("alignment of {} type trees", nt), nt, move |i, ctx| {
        ctx.eval();
        let t = &t2[i as usize];
        let g = to_type(t).get_alignment();
        if g != align(t) {
            return Err(format!("alignment of {} is {}, expected {}", sigstr(&[t.clone()]), g, align(t)));
        }
        ctx.trace();
        Ok(())
    }));
    // element type against declared type
    let el = Arc::new({
        let mut v = types_upto(3, b"ysvu", 3);
        v.extend(types_upto(2, BASIC, 3));
        v.sort();
        v.dedup();
        if !th {
            v.truncate(260);
        }
        v
    });
    let ne = el.len() as u64;
    let e2 = el.clone();
    fs.push(family("element types", format!("every pair (element type, declared type) of {} type trees, with 1 element, 2 equal, and the mismatch first, last or in the middle", ne), ne * ne, move |i, ctx| {
        let d = digits(i, &[ne, ne]);
        let (a, b) = (&e2[d[0]], &e2[d[1]]);
        let (va, vb) = (default_value(a, 1, 1), default_value(b, 0, 2));
        judge_array(&[va.clone()], b, ctx)?;
        judge_array(&[va.clone(), vb.clone()], b, ctx)?;
        judge_array(&[vb.clone(), va.clone()], b, ctx)?;
        judge_array(&[vb.clone(), va.clone(), vb.clone()], b, ctx)?;
        judge_array(&[vb.clone(), vb, va], b, ctx)
    }));
    let al = Arc::new({
        let mut v = alphabet();
        v.push(V::A(p(b'u'), vec![]));
        v.push(V::A(parse("ay"), vec![]));
        v.push(V::St(vec![V::Y(9), V::N(8)]));
        v.push(V::De(Box::new((V::Y(9), V::Q(8)))));
        v.push(V::I(1));
        v.push(V::Tt(1));
        v.push(V::Q(1));
        v
    });
    let na = al.len() as u64;
    let depth = if th { 4 } else { 3 };
    let nw = words_upto(na, depth);
    let a2 = al.clone();
    fs.push(family("element lists", format!("every list of up to {} of {} values, declared as the type of each of them and as 3 others", depth, na), nw, move |i, ctx| {
        let vs: Vec<V> = word(i, na).iter().map(|k| a2[*k].clone()).collect();
        let mut decl: Vec<T> = vs.iter().map(vtype).collect();
        decl.extend([p(b'v'), p(b'y'), parse("(yq)")]);
        decl.sort();
        decl.dedup();
        decl.iter().try_for_each(|t| judge_array(&vs, t, ctx))
    }));
    fs.push(family("one different element", "arrays of 1..=70 elements with one of another type at every position, 12 type pairs", 70 * 12, move |i, ctx| {
        let d = digits(i, &[12, 70]);
        let pairs = [("y", "b"), ("u", "i"), ("s", "o"), ("s", "g"), ("ay", "an"), ("ay", "aay"), ("(y)", "(yy)"), ("(y)", "y"), ("v", "y"), ("{yy}", "(yy)"), ("{sv}", "{ss}"), ("a{sv}", "a(sv)")];
        let (a, b) = (parse(pairs[d[0]].0), parse(pairs[d[0]].1));
        let n = d[1] + 1;
        let good: Vec<V> = (0..n).map(|k| default_value(&a, k % 3, k as u64)).collect();
        judge_array(&good, &a, ctx)?;
        judge_array(&good, &b, ctx)?;
        for q in 0..n {
            let mut vs = good.clone();
            vs[q] = default_value(&b, q % 2, 0);
            judge_array(&vs, &a, ctx)?;
        }
        Ok(())
    }));
    let bigs: &'static [usize] = &[71, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 5000, 8192, 10_000, 16_384, 32_768, 65_535, 65_536, 65_537, 100_000];
    fs.push(family("one different among many", "arrays of 33 counts from 71 to 100000 bytes, words, texts with one of another type at every position (from 2000 on: at both ends and 16 neighbours of them, around powers of two, and every 97th or 1009th)", 33 * 3, move |i, ctx| {
        let d = digits(i, &[3, 33]);
        let n = bigs[d[1]];
        let (t, o) = [(p(b'y'), V::B(true)), (p(b'u'), V::I(1)), (p(b's'), V::O("/".into()))][d[0]].clone();
        let ty = to_type(&t);
        let good = to_values(&(0..n).map(|k| default_value(&t, 1, k as u64)).collect::<Vec<V>>()).ok_or("explorer: values")?;
        let other = to_value(&o).ok_or("explorer: value")?;
        ctx.eval();
        Array::new(good.clone(), ty.clone()).map_err(|e| format!("an array of {} equal types refused: {}", n, e))?;
        let every = if n < 2000 { 1 } else if n < 20_000 { 97 } else { 1009 };
        for q in (0..n).filter(|q| *q < 16 || q + 16 > n || q % every == 0 || q % every == 1 || q.is_power_of_two() || (q + 1).is_power_of_two()) {
            let mut vs = good.clone();
            vs[q] = other.clone();
            ctx.eval();
            if Array::new(vs, ty.clone()).is_ok() {
                return Err(format!("an array of {} of {} with {:?} at {} is created", n, sigstr(&[t.clone()]), o, q));
            }
        }
        ctx.alive();
        ctx.trace();
        ctx.outcome("refused at every place");
        Ok(())
    }));
    fs.push(family("depths", "element and declared types nested 0..=34 deep in arrays, structs, dicts", 35 * 35 * 3, |i, ctx| {
        let d = digits(i, &[35, 35, 3]);
        let mk = |n: usize| match d[2] {
            0 => super::limits::depth_type(n, 0, 0, 0),
            1 => super::limits::depth_type(0, n, 0, 0),
            _ => super::limits::depth_type(0, 0, n, 0),
        };
        let v = default_value(&mk(d[0]), 1, 0);
        if d[0] <= 31 && d[0] == d[1] {
            judge_type(&v, ctx)?;
        }
        judge_array(&[v], &mk(d[1]), ctx)?;
        judge_array(&[], &mk(d[1]), ctx)
    }));
    // structs
    let a3 = al.clone();
    fs.push(family("structs", format!("structs of every list of up to {} of {} values", depth, na), nw, move |i, ctx| {
        let vs: Vec<V> = word(i, na).iter().map(|k| a3[*k].clone()).collect();
        ctx.eval();
        let vals = to_values(&vs).ok_or("alphabet value refused")?;
        match Struct::try_from(vals) {
            Ok(s) => {
                if vs.is_empty() {
                    return Err("an empty struct was created".into());
                }
                if !values_eq(s.as_ref(), &vs) || !values_eq(&Vec::<Value>::from(s.clone()), &vs) {
                    return Err(format!("struct of {:?} gives {:?}", vs, s));
                }
                ctx.outcome("struct");
            }
            Err(e) => {
                if !vs.is_empty() {
                    return Err(format!("struct of {:?} refused: {}", vs, e));
                }
                ctx.outcome("empty struct refused");
                return Ok(());
            }
        }
        judge_type(&V::St(vs.clone()), ctx)?;
        if vs.len() == 2 {
            judge_type(&V::De(Box::new((vs[0].clone(), vs[1].clone()))), ctx)?;
        }
        judge_type(&var(vs[0].clone()), ctx)
    }));
    fs.push(family("wide structs", "structs of 1..=300 members", 300, |i, ctx| {
        let n = i as usize + 1;
        let vs: Vec<V> = (0..n).map(|k| if k % 3 == 0 { V::Y(k as u8) } else { V::U(k as u32) }).collect();
        ctx.eval();
        let s = Struct::try_from(to_values(&vs).unwrap()).map_err(|e| e.to_string())?;
        if !values_eq(s.as_ref(), &vs) {
            return Err(format!("struct of {} members differs", n));
        }
        judge_type(&V::St(vs), ctx)
    }));
    // splitting
    let a4 = al.clone();
    let nw2 = words_upto(na, if th { 3 } else { 2 });
    fs.push(family("splits", "every body of up to 2 (thorough 3) values x 4 message types x 4 header signatures x endianness", nw2 * 4 * 4 * 2, move |i, ctx| {
        let d = digits(i, &[2, 4, 4, nw2]);
        let body: Vec<V> = word(d[3] as u64, na).iter().map(|k| a4[*k].clone()).collect();
        let mut m = with_body(body, d[0] == 0);
        m.ty = d[1] as u8 + 1;
        m.iface = Some("a.b".into());
        m.ename = Some("e.f".into());
        m.rserial = Some(3);
        m.flags = d[1] as u8 * 2;
        m.sig = [None, Some(vec![]), Some(parses("s")), Some(parses("yu"))][d[2]].clone();
        m.fds = if d[2] % 2 == 0 { Some(2) } else { None };
        judge_split(&m, ctx)
    }));
    let t5 = ts.clone();
    fs.push(family("split types", format!("bodies of one value of each of {} types", nt), nt * 2, move |i, ctx| {
        let d = digits(i, &[2, nt]);
        let mut m = with_body(vec![default_value(&t5[d[1]], 1, i), V::Y(1)], d[0] == 0);
        m.sig = if d[0] == 0 { Some(parses("s")) } else { None };
        judge_split(&m, ctx)
    }));
    fs.push(family("split subsets", "4 types x 2^8 header subsets x body or none x stale signature or none", 4 * 256 * 2 * 2, |i, ctx| {
        let d = digits(i, &[2, 2, 256, 4]);
        let m = subset(d[3] as u8 + 1, d[2], d[0] == 1, d[1] == 1);
        if !required_ok(&m) {
            return Ok(());
        }
        judge_split(&m, ctx)
    }));
    fs.extend(msg_families(judge_whole, th).into_iter().filter(|f| !f.name.contains("length")));
    fs
}

/// Splitting a message, the types of its body values.
fn judge_whole(m: &M, ctx: &mut Ctx) -> CaseResult {
    judge_split(m, ctx)?;
    m.body.iter().try_for_each(|v| if vtype_ok(v) { judge_type(v, ctx) } else { Ok(()) })
}
fn vtype_ok(v: &V) -> bool {
    type_ok(&vtype(v), 0, 0, 0)
}

/// A message with the given subset of header fields.
pub fn subset(ty: u8, k: usize, body: bool, stale: bool) -> M {
    let on = |b: usize, s: &str| if k >> b & 1 == 1 { Some(s.to_string()) } else { None };
    let mut m = empty_m();
    m.le = k % 3 != 0;
    m.ty = ty;
    m.serial = 0x8000_0001 + k as u32;
    m.path = on(0, "/a/bc");
    m.iface = on(1, "i.f.aceX");
    m.member = on(2, "Mem");
    m.ename = on(3, "err.Name");
    m.rserial = on(4, "").map(|_| 0x0f0e0d0c);
    m.dest = on(5, if ty % 2 == 0 { ":1.77" } else { "de.st" });
    m.sender = on(6, if ty < 3 { "com.s-1.x" } else { ":9.1" });
    m.fds = on(7, "").map(|_| 3);
    if stale {
        m.sig = Some(parses("s"));
    }
    if body {
        m.body = vec![V::Y(1), V::Tt(2)];
    }
    m
}
