//! C22: equality, ordering, hashing and copying follow the contents.

use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::wire::letters;
use dbus_message_parser::match_rule::MatchRule;
use dbus_message_parser::message::{Message, MessageHeader, MessageHeaderError, MessageHeaderFields, MessageType};
use dbus_message_parser::value::{Array, Bus, Error, Interface, Member, ObjectPath, Struct, Type, UniqueConnectionName, Value, WellKnownBusName};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, OnceLock};

fn sh<X: Debug>(x: &X) -> String {
    short(&format!("{:?}", x)).to_string()
}

/// What holds of two things that are the same or not.
fn laws<X: PartialEq + PartialOrd + Clone + Debug>(x: &X, y: &X, same: bool, comparable: bool) -> CaseResult {
    let bad = |what: &str| Err(format!("{}: {} and {}, whose contents are {}", what, sh(x), sh(y), if same { "the same" } else { "different" }));
    if (x == y) != same || (y == x) != same {
        return bad("equality");
    }
    #[allow(clippy::partialeq_ne_impl)]
    if (x != y) == same || (y != x) == same {
        return bad("inequality");
    }
    let o = x.partial_cmp(y);
    if y.partial_cmp(x) != o.map(Ordering::reverse) {
        return bad("the order depends on the side");
    }
    if (o == Some(Ordering::Equal)) != same {
        return bad("the order disagrees with equality");
    }
    if comparable && o.is_none() {
        return bad("no order");
    }
    let l = o == Some(Ordering::Less);
    let g = o == Some(Ordering::Greater);
    if (x < y) != l || (x > y) != g || (x <= y) != (l || same) || (x >= y) != (g || same) {
        return bad("the comparison operators disagree with the order");
    }
    let mut c = y.clone();
    c.clone_from(x);
    let d = x.clone();
    let itself = x == x;
    if (c == *x) != itself || (d == *x) != itself || (c == *y) != same || (d == *y) != same {
        return bad("a clone is not equal");
    }
    Ok(())
}

fn laws_ord<X: Ord + Clone + Debug>(x: &X, y: &X) -> CaseResult {
    let o = x.cmp(y);
    let (a, b) = (x.clone().max(y.clone()), x.clone().min(y.clone()));
    if Some(o) != x.partial_cmp(y) || y.cmp(x) != o.reverse() || &a != if o == Ordering::Greater { x } else { y } || &b != if o == Ordering::Greater { y } else { x } {
        return Err(format!("the total order disagrees with the partial one, or with the greater and smaller one: {} {}", sh(x), sh(y)));
    }
    Ok(())
}

fn hash_of<X: Hash>(x: &X) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn laws_hash<X: Hash + Debug>(x: &X, y: &X, same: bool) -> CaseResult {
    if same && hash_of(x) != hash_of(y) {
        return Err(format!("equal things have different hashes: {} {}", sh(x), sh(y)));
    }
    Ok(())
}

/// All pairs of a domain, and with `triples` the transitivity of the order on all triples.
#[allow(clippy::too_many_arguments)]
fn pairs<D, X>(
    name: &str,
    bound: String,
    dom: Vec<D>,
    make: impl Fn(&D, usize) -> Option<X> + Send + Sync + 'static,
    same: impl Fn(&D, &D) -> bool + Send + Sync + 'static,
    comparable: impl Fn(&D) -> bool + Send + Sync + 'static,
    extra: impl Fn(&X, &X, bool) -> CaseResult + Send + Sync + 'static,
    triples: bool,
) -> Family
where
    D: Send + Sync + Debug + Hash + 'static,
    X: PartialEq + PartialOrd + Clone + Debug + Send + Sync + 'static,
{
    let dom = Arc::new(dom);
    let n = dom.len();
    let all: OnceLock<Vec<Option<X>>> = OnceLock::new();
    let matrix: OnceLock<Vec<u8>> = OnceLock::new();
    let bound = format!("all pairs{} of {} {}", if triples { " and triples" } else { "" }, n, bound);
    family(name, bound, n as u64, move |i, ctx| {
        let all = all.get_or_init(|| dom.iter().enumerate().map(|(k, d)| make(d, k)).collect());
        let i = i as usize;
        let x = match make(&dom[i], i + 1) {
            Some(x) => x,
            None => return Err(format!("explorer: {:?} could not be built", dom[i])),
        };
        ctx.input(hash_of(&dom[i]));
        ctx.sample(|| sh(&x));
        for (j, y) in all.iter().enumerate() {
            let y = y.as_ref().ok_or("explorer: not built")?;
            let s = same(&dom[i], &dom[j]);
            ctx.eval();
            laws(&x, y, s, comparable(&dom[i]) && comparable(&dom[j]))?;
            extra(&x, y, s)?;
            ctx.trace();
            ctx.outcome(if s { "the same" } else { "different" });
        }
        if triples {
            let m = matrix.get_or_init(|| {
                let mut m = Vec::with_capacity(n * n);
                for x in all.iter() {
                    for y in all.iter() {
                        m.push(match x.partial_cmp(y) {
                            Some(Ordering::Less) => 0,
                            Some(Ordering::Equal) => 1,
                            Some(Ordering::Greater) => 2,
                            None => 3,
                        });
                    }
                }
                m
            });
            for j in 0..n {
                let a = m[i * n + j];
                if a >= 2 {
                    continue;
                }
                for k in 0..n {
                    let b = m[j * n + k];
                    if b < 2 && m[i * n + k] != a.min(b) {
                        return Err(format!("the order is not transitive: {}, {}, {}", sh(&all[i]), sh(&all[j]), sh(&all[k])));
                    }
                }
            }
            ctx.outcome("transitive");
        }
        Ok(())
    })
}

/// Texts of one kind of name that differ in one place, and short ones over an alphabet.
fn name_texts(kind: usize, short_len: u32) -> (Vec<String>, Vec<String>) {
    let ok: fn(&[u8]) -> bool = match kind {
        0 => is_interface,
        1 => is_error_name,
        2 => is_member,
        3 => is_well_known,
        4 => is_unique,
        5 => is_bus,
        _ => is_path,
    };
    let al: &[u8] = match kind {
        2 => b"aAb_0",
        3 => b"aA-_0.",
        4 => b":10a.",
        5 => b":aA1.",
        6 => b"/aA0_",
        _ => b"aAb0_.",
    };
    let words: Vec<String> = (0..words_upto(al.len() as u64, short_len)).map(|i| word(i, al.len() as u64).iter().map(|k| al[*k] as char).collect::<String>()).filter(|t| ok(t.as_bytes())).collect();
    // long ones: one character changed at every place, and every length
    let max = if kind == 6 { 400 } else { 255 };
    let base: String = match kind {
        2 => "a".repeat(max),
        4 => format!(":1.{}", "a".repeat(max - 3)),
        6 => format!("/{}", "a/".repeat(max / 2 - 1)) + "a",
        _ => format!("a.{}", "a".repeat(max - 2)),
    };
    let mut long = vec![base.clone()];
    for at in 0..base.len() {
        let mut b = base.clone().into_bytes();
        b[at] = match b[at] {
            b'a' => [b'A', b'b', b'_', if kind == 4 { b'-' } else { b'0' }, b'q'][at % 5],
            c => c,
        };
        long.push(String::from_utf8(b).unwrap());
        long.push(base[..at].to_string());
    }
    long.retain(|t| ok(t.as_bytes()));
    long.sort();
    long.dedup();
    (words, long)
}

macro_rules! name_family {
    ($fs:expr, $t:ident, $kind:expr, $what:expr, $len:expr, $extra:expr) => {{
        let (short_texts, long) = name_texts($kind, $len);
        for (dom, what, triples) in [(short_texts, "short", true), (long, "long", false)] {
            let texts = dom.clone();
            let make = |d: &String, k: usize| match k % 3 {
                0 => $t::try_from(d.as_str()).ok(),
                1 => $t::try_from(d.as_bytes()).ok(),
                _ => {
                    let mut s = String::with_capacity(d.len() + 40);
                    s.push_str(d);
                    $t::try_from(s).ok()
                }
            };
            let extra = move |x: &$t, y: &$t, same: bool| -> CaseResult {
                laws_ord(x, y)?;
                let t: &str = y.as_ref();
                if (*x == *t) != same || x.to_string() != String::from(x.clone()) || String::from(y.clone()) != t {
                    return Err(format!("{:?} compared with the text {:?}, or as a text", x, t));
                }
                let f: fn(&$t, &$t, bool) -> CaseResult = $extra;
                f(x, y, same)
            };
            $fs.push(pairs(&format!("{} {}s", what, $what), format!("{} (in bytes, text and owned text)", if triples { format!("texts up to length {} over up to 8 characters", $len) } else { "texts with one character changed at every place, and of every length".to_string() }), dom, make, |a, b| a == b, |_| true, extra, triples));
            let _ = texts;
        }
    }};
}

fn veq(a: &V, b: &V) -> bool {
    let f = f64::from_bits;
    match (a, b) {
        (V::D(a), V::D(b)) => f(*a) == f(*b),
        (V::A(t, a), V::A(u, b)) => t == u && all_eq(a, b),
        (V::St(a), V::St(b)) => all_eq(a, b),
        (V::De(a), V::De(b)) => veq(&a.0, &b.0) && veq(&a.1, &b.1),
        (V::Va(a), V::Va(b)) => veq(a, b),
        _ => a == b,
    }
}
fn all_eq(a: &[V], b: &[V]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| veq(a, b))
}
fn nan_free(v: &V) -> bool {
    match v {
        V::D(a) => !f64::from_bits(*a).is_nan(),
        V::A(_, vs) | V::St(vs) => vs.iter().all(nan_free),
        V::De(kv) => nan_free(&kv.0) && nan_free(&kv.1),
        V::Va(v) => nan_free(v),
        _ => true,
    }
}
fn meq(a: &M, b: &M) -> bool {
    let head = |m: &M| M { body: vec![], ..m.clone() };
    head(a) == head(b) && all_eq(&a.body, &b.body)
}

/// A value, built at once, or by way of a clone, or taken apart and put together again.
fn built(v: &V, k: usize) -> Option<Value> {
    let x = to_value(v)?;
    Some(match k % 3 {
        0 => x,
        1 => match x {
            Value::Array(a) => {
                let t = a.get_type().clone();
                Value::Array(Array::new(Vec::from(a), t).ok()?)
            }
            Value::Struct(s) => Value::Struct(Struct::try_from(Vec::from(s)).ok()?),
            x => x.clone(),
        },
        _ => {
            let y = x.clone();
            drop(x);
            y
        }
    })
}

/// Containers that differ in one place.
fn long_values(n: usize) -> Vec<V> {
    let mut out = Vec::new();
    let base = letters(n);
    let mut push = |make: &dyn Fn(&str) -> V| {
        for at in 0..=base.len() {
            let mut b = base.clone().into_bytes();
            if at < b.len() {
                b[at] ^= if at % 3 == 0 { 0x20 } else { 1 };
                out.push(make(&base[..at]));
            }
            out.push(make(std::str::from_utf8(&b).unwrap()));
        }
    };
    push(&|t| s(t));
    push(&|t| V::A(p(b'y'), t.bytes().map(V::Y).collect()));
    push(&|t| if t.is_empty() { V::St(vec![V::Q(0)]) } else { V::St(t.bytes().map(|c| V::U(c as u32)).collect()) });
    push(&|t| V::G(t.bytes().take(255).map(|c| if c == b'a' { arr(p(b'y')) } else { p(BASIC[c as usize % BASIC.len()]) }).collect()));
    push(&|t| var(V::A(p(b'h'), t.bytes().map(|c| V::H(c as i32 - 100)).collect())));
    out.sort_by_key(|v| format!("{:?}", v));
    out.dedup();
    out
}

/// Deep values that differ at one level.
fn deep_values(th: bool) -> Vec<V> {
    let mut out = Vec::new();
    for leaf in [V::Y(1), V::Y(2), V::B(true), V::D(0), V::D(1 << 63), V::D(0x7ff8 << 48)] {
        for kind in 0..3 {
            for depth in 0..30usize {
                if !th && (10..29).contains(&depth) {
                    continue;
                }
                for at in 0..=depth {
                    let mut v = leaf.clone();
                    for k in 0..depth {
                        let odd = k == at;
                        v = match (kind, odd) {
                            (0, false) => V::A(vtype(&v), vec![v]),
                            (0, true) => V::A(vtype(&v), vec![v.clone(), v]),
                            (1, false) => V::St(vec![v]),
                            (1, true) => V::St(vec![v, V::Y(9)]),
                            (_, false) => V::De(Box::new((V::Y(1), v))),
                            (_, true) => V::De(Box::new((V::Y(2), v))),
                        };
                    }
                    if depth > 12 && kind == 0 && at < depth {
                        continue;
                    }
                    if depth > 3 && ![V::Y(1), V::Y(2)].contains(&leaf) && at < depth {
                        continue;
                    }
                    out.push(v);
                }
            }
        }
    }
    out.sort_by_key(|v| format!("{:?}", v));
    out.dedup();
    out
}

fn deep_types(th: bool) -> Vec<T> {
    let mut out = Vec::new();
    for leaf in [p(b'y'), p(b'b'), p(b'v')] {
        for kind in 0..3 {
            for depth in 0..=32usize {
                if !th && (10..32).contains(&depth) {
                    continue;
                }
                for at in 0..=depth {
                    let mut t = leaf.clone();
                    for k in 0..depth {
                        t = match (kind, k == at) {
                            (0, false) => arr(t),
                            (0, true) => T::St(vec![arr(t)]),
                            (1, false) => T::St(vec![t]),
                            (1, true) => T::St(vec![t, p(b'y')]),
                            (_, false) => de(p(b'y'), t),
                            (_, true) => de(p(b'q'), t),
                        };
                    }
                    if at == depth || leaf == p(b'y') {
                        out.push(t);
                    }
                }
            }
        }
    }
    for n in [1usize, 2, 60, 253] {
        for at in 0..n {
            for c in [b'y', b'b'] {
                out.push(T::St((0..n).map(|k| p(if k == at { c } else { b'y' })).collect()));
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

fn full() -> M {
    let mut m = empty_m();
    m.ty = 1;
    m.serial = 7;
    m.path = Some("/a".into());
    m.iface = Some("a.b".into());
    m.member = Some("M".into());
    m.ename = Some("e.r".into());
    m.rserial = Some(3);
    m
}
fn set_field(m: &mut M, f: usize, v: usize) {
    let t = |a: [&str; 3]| Some(a[v].to_string());
    match f {
        0 => m.path = t(["/", "/a", "/b/a"]),
        1 => m.iface = t(["a.b", "a.B", "a.b.c"]),
        2 => m.member = t(["M", "m", "_9"]),
        3 => m.ename = t(["e.r", "e.R", "e.r.r"]),
        4 => m.rserial = Some([1, 0x0100_0000, u32::MAX][v]),
        5 => m.dest = t([":1.5", "a.b", ":1.50"]),
        6 => m.sender = t([":1.5", "a.b", "a.b-"]),
        7 => m.sig = Some(parses(["", "u", "(u)"][v])),
        _ => m.fds = Some([0, 1, u32::MAX][v]),
    }
}
fn clear_field(m: &mut M, f: usize) {
    match f {
        0 => m.path = None,
        1 => m.iface = None,
        2 => m.member = None,
        3 => m.ename = None,
        4 => m.rserial = None,
        5 => m.dest = None,
        6 => m.sender = None,
        7 => m.sig = None,
        _ => m.fds = None,
    }
}

fn message_families() -> Vec<Family> {
    let mut fs = Vec::new();
    fn fields(m: &M, k: usize) -> Option<MessageHeaderFields> {
        let f = to_fields(m)?;
        Some(if k % 2 == 0 { f } else { f.clone() })
    }
    fn head(m: &M, k: usize) -> Option<MessageHeader> {
        let h = to_header(m)?;
        Some(if k % 2 == 0 { h } else { h.clone() })
    }
    /// A message built at once, value by value, or with its serial set afterwards.
    fn msg(m: &M, k: usize) -> Option<Message> {
        match k % 3 {
            0 => to_message(m),
            1 => {
                let mut x = Message::new(to_header(m)?, Vec::new());
                for v in &m.body {
                    x.add_value(to_value(v)?);
                }
                Some(x.clone())
            }
            _ => {
                let mut c = m.clone();
                c.serial = !m.serial;
                let mut x = to_message(&c)?;
                x.set_serial(m.serial);
                Some(x)
            }
        }
    }
    // field subsets
    let mut dom = Vec::new();
    for mask in 0..512usize {
        let mut m = empty_m();
        for f in 0..9 {
            if mask >> f & 1 == 1 {
                set_field(&mut m, f, 0);
            }
        }
        dom.push(m);
    }
    fs.push(pairs("field subsets", "subsets of the header fields".into(), dom, fields, |a, b| a == b, |_| true, |x, y, _| laws_ord(x, y), true));
    // one or two fields changed
    let mut dom = Vec::new();
    for on in [false, true] {
        let mut base = empty_m();
        if on {
            (0..9).for_each(|f| set_field(&mut base, f, 0));
        }
        for f in 0..9 {
            for g in f..9 {
                for (v, w) in (0..4).flat_map(|v| (0..4).map(move |w| (v, w))) {
                    let mut m = base.clone();
                    for (f, v) in [(f, v), (g, w)] {
                        if v < 3 {
                            set_field(&mut m, f, v);
                        } else {
                            clear_field(&mut m, f);
                        }
                    }
                    dom.push(m);
                }
            }
        }
    }
    dom.sort_by_key(|m| format!("{:?}", m));
    dom.dedup();
    fs.push(pairs("field values", "sets of header fields with one or two fields changed".into(), dom, fields, |a, b| a == b, |_| true, |x, y, _| laws_ord(x, y), false));
    // headers
    let mut dom = Vec::new();
    for le in [true, false] {
        for ty in 1..=4 {
            for flags in 0..8 {
                for ver in [0, 1, 255] {
                    for serial in [0, 1, 0x0100_0000, 0x5000_0000, 0x8000_0000, 0xa000_0000, u32::MAX] {
                        dom.push(M { le, ty, flags, ver, serial, ..full() });
                    }
                }
            }
        }
    }
    fs.push(pairs("headers", "headers: endianness, type, 5 flag sets, 3 versions, 7 serials".into(), dom.clone(), head, |a, b| a == b, |_| true, |x, y, _| laws_ord(x, y), true));
    fs.push(pairs("messages, headers", "messages: endianness, type, 5 flag sets, 3 versions, 7 serials".into(), dom, msg, meq, |_| true, |_, _, _| Ok(()), false));
    // bodies
    let mut dom: Vec<M> = Vec::new();
    let vals = [V::Y(1), V::Y(2), V::B(true), V::U(1), s(""), s("a"), V::D(0), V::D(1 << 63), V::D(0x7ff8 << 48), var(V::Y(1)), V::A(p(b'y'), vec![]), V::A(p(b's'), vec![]), V::H(1), V::St(vec![V::Y(1)])];
    for i in 0..words_upto(vals.len() as u64, 2) {
        for (le, serial) in [(true, 7), (false, 7), (true, 8)] {
            dom.push(M { le, serial, body: word(i, vals.len() as u64).iter().map(|k| vals[*k].clone()).collect(), ..full() });
        }
    }
    for f in 0..9 {
        for v in 0..3 {
            for k in 0..3 {
                let mut m = full();
                m.ty = 2;
                set_field(&mut m, f, v);
                m.body = vals[..k].to_vec();
                dom.push(m);
            }
        }
    }
    dom.sort_by_key(|m| format!("{:?}", m));
    dom.dedup();
    fs.push(pairs("messages", "messages: bodies of up to 2 values from 14, endianness, serials, header fields".into(), dom.clone(), msg, meq, |m| m.body.iter().all(nan_free), |_, _, _| Ok(()), false));
    // the message that comes out of decoding, compared with the built ones
    let dom: Arc<Vec<M>> = Arc::new(dom.into_iter().filter(|m| !m.body.iter().any(has_fd) && m.ver == 1).collect());
    let all: OnceLock<Vec<Option<Message>>> = OnceLock::new();
    fs.push(family("decoded messages", format!("each of {} messages encoded and decoded, compared with each of them", dom.len()), dom.len() as u64, move |i, ctx| {
        let all = all.get_or_init(|| dom.iter().enumerate().map(|(k, m)| msg(m, k)).collect());
        let m = &dom[i as usize];
        let x = to_message(m).ok_or("explorer: message")?;
        let e = x.encode().map_err(|e| format!("{:?} does not encode: {}", x, e))?;
        let (d, _) = Message::decode(e.freeze()).map_err(|e| format!("{:?} does not decode: {}", x, e))?;
        let c = canonical(m, &[]);
        for (j, y) in all.iter().enumerate() {
            let y = y.as_ref().ok_or("explorer: message")?;
            ctx.eval();
            laws(&d, y, meq(&c, &dom[j]), false)?;
            ctx.trace();
        }
        Ok(())
    }));
    // a clone stays as it was
    let dom: Arc<Vec<M>> = Arc::new(corpus());
    let n = dom.len() as u64;
    fs.push(family("clones", format!("{} messages, cloned and then changed in one of 4 ways, the clone or the original", n), n * 8, move |i, ctx| {
        let d = digits(i, &[4, 2, n]);
        let m = &dom[d[2]];
        let mut a = to_message(m).ok_or("explorer: message")?;
        let mut b = a.clone();
        let changed = if d[1] == 0 { &mut a } else { &mut b };
        match d[0] {
            0 => changed.set_serial(!m.serial),
            1 => changed.add_value(Value::Byte(77)),
            2 => changed.add_value(Value::String("other".into())),
            _ => {
                let t: M = full();
                *changed = to_message(&t).ok_or("explorer: message")?;
            }
        }
        ctx.eval();
        message_equal(if d[1] == 0 { &b } else { &a }, m).map_err(|e| format!("changing {} changed {}: {}", ["the original", "a clone"][d[1]], ["its clone", "the original"][d[1]], e))?;
        ctx.trace();
        Ok(())
    }));
    fs
}

pub fn families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let len = if th { 5 } else { 4 };
    fn nothing<X>(_: &X, _: &X, _: bool) -> CaseResult {
        Ok(())
    }
    name_family!(fs, Interface, 0, "interface", len, |x, y, s| laws_hash(x, y, s));
    name_family!(fs, Error, 1, "error name", len, |x, y, s| laws_hash(x, y, s));
    name_family!(fs, Member, 2, "member", len, |x, y, s| laws_hash(x, y, s));
    name_family!(fs, WellKnownBusName, 3, "well-known name", len, nothing);
    name_family!(fs, UniqueConnectionName, 4, "unique name", len + 2, nothing);
    name_family!(fs, Bus, 5, "bus name", len + 1, nothing);
    name_family!(fs, ObjectPath, 6, "path", len, |x, y, s| laws_hash(x, y, s));
    // paths that were put together by appending
    let els = ["", "a", "A", "ab", "a_"];
    let ne = els.len() as u64;
    let dom: Vec<Vec<usize>> = (0..words_upto(ne, 3)).map(|i| word(i, ne)).filter(|w| !w.contains(&0)).collect();
    fs.push(pairs(
        "appended paths",
        "paths of up to 3 elements, parsed, appended element by element, or to a clone".into(),
        dom,
        move |w, k| {
            let text = format!("/{}", w.iter().map(|e| els[*e]).collect::<Vec<_>>().join("/"));
            if k % 3 == 0 {
                return ObjectPath::try_from(text).ok();
            }
            let mut x = ObjectPath::default();
            for e in w {
                let mut y = x.clone();
                if !y.append(els[*e]) {
                    return None;
                }
                // the one that was cloned stays as it is
                let t: &str = x.as_ref();
                if t.len() >= AsRef::<str>::as_ref(&y).len() {
                    return None;
                }
                x = y;
            }
            Some(x)
        },
        |a, b| a == b,
        |_| true,
        |x, y, s| {
            laws_ord(x, y)?;
            laws_hash(x, y, s)
        },
        true,
    ));

    // types
    let dom = types_upto(if th { 5 } else { 4 }, b"ybv", 3);
    fs.push(pairs(
        "types",
        "types up to 4 (thorough 5) nodes".into(),
        dom,
        |t, k| if k % 2 == 0 { Some(to_type(t)) } else { Type::try_from(sigstr(std::slice::from_ref(t)).as_str()).ok() },
        |a, b| a == b,
        |_| true,
        |x, y, s| {
            laws_ord(x, y)?;
            laws_hash(x, y, s)
        },
        true,
    ));
    fs.push(pairs(
        "deep and long types",
        "types up to 32 containers deep with one level changed, structs of up to 253 members with one changed".into(),
        deep_types(th),
        |t, k| if k % 2 == 0 { Some(to_type(t)) } else { Type::try_from(sigstr(std::slice::from_ref(t)).as_str()).ok() },
        |a, b| a == b,
        |_| true,
        |x, y, s| {
            laws_ord(x, y)?;
            laws_hash(x, y, s)
        },
        false,
    ));

    // values
    let nl = if th { 300 } else { 140 };
    let edge = edge_values();
    fs.push(pairs("basic values", "basic values at the edges of their domains".into(), edge.clone(), built, veq, nan_free, |_, _, _| Ok(()), true));
    let mut dom: Vec<V> = Vec::new();
    for k in 0..CONTEXTS as usize {
        dom.extend(edge.iter().filter_map(|v| in_context(k, v.clone())));
    }
    for i in 0..words_upto(CONTEXTS, 3) {
        for leaf in [V::Y(1), V::Y(2), s("a"), V::D(0x7ff8 << 48)] {
            let mut v = Some(leaf);
            for c in word(i, CONTEXTS) {
                v = v.and_then(|v| in_context(c, v));
            }
            dom.extend(v);
        }
    }
    dom.sort_by_key(|v| format!("{:?}", v));
    dom.dedup();
    fs.push(pairs("containers", "values in one container, and 4 leaves in up to 3".into(), dom, built, veq, nan_free, |_, _, _| Ok(()), false));
    fs.push(pairs("long values", format!("strings, arrays, structs, signatures of up to {} elements with one changed, or cut", nl), long_values(nl), built, veq, nan_free, |_, _, _| Ok(()), false));
    let mut vss: Vec<Vec<V>> = Vec::new();
    for n in (1..=20usize).chain([63, 64, 65]) {
        for at in 0..n.min(20) {
            vss.push((0..n).map(|k| V::U(if k == at { 5 } else { k as u32 })).collect());
        }
        vss.push((0..n).map(|k| s(&letters(k))).collect());
        vss.push((0..n).map(|_| V::D(0x7ff8 << 48)).collect());
    }
    vss.sort_by_key(|v| format!("{:?}", v));
    vss.dedup();
    let all_nan_free = |vs: &Vec<V>| vs.iter().all(nan_free);
    fs.push(pairs("structs", "structs of 1 to 65 members with one changed".into(), vss.clone(), |vs, _| Struct::try_from(to_values(vs)?).ok(), |a, b| all_eq(a, b), all_nan_free, |_, _, _| Ok(()), true));
    let mut dom: Vec<V> = vss.into_iter().map(|vs| V::A(vtype(&vs[0]), vs)).collect();
    dom.extend(["y", "u", "s", "as", "(u)", "{sv}"].iter().map(|t| V::A(parse(t), vec![])));
    let make = |v: &V, k: usize| match built(v, k)? {
        Value::Array(a) => Some(a),
        _ => None,
    };
    fs.push(pairs("arrays", "arrays of 0 to 65 elements with one changed, of 8 types".into(), dom, make, veq, nan_free, |_, _, _| Ok(()), true));
    fs.push(pairs("deep values", "values up to 30 containers deep with one level changed".into(), deep_values(th), built, veq, nan_free, |_, _, _| Ok(()), false));

    fs.extend(message_families());

    // match rules
    let mut rules = super::rules::all_rules();
    rules.extend(super::rules::rule_pool());
    for at in 0..100 {
        let mut t = vec![b'a'; 100];
        t[at] = b'A';
        rules.push(Rule::Arg(0, String::from_utf8(t).unwrap()));
        rules.push(Rule::Arg(0, "a".repeat(at)));
        rules.push(Rule::ArgPath(at * 1000, "/a".into()));
    }
    rules.sort_by_key(|r| format!("{:?}", r));
    rules.dedup();
    let rules = Arc::new(rules);
    let n = rules.len();
    let all: OnceLock<Vec<Option<MatchRule>>> = OnceLock::new();
    fs.push(family("match rules", format!("all pairs of {} rules, built and parsed", n), n as u64, move |i, ctx| {
        let all = all.get_or_init(|| rules.iter().map(to_rule).collect());
        let x = to_rule(&rules[i as usize]).ok_or("explorer: rule")?;
        let parsed = MatchRule::decode(&MatchRule::encode(std::slice::from_ref(&x))).unwrap_or_default();
        for (j, y) in all.iter().enumerate() {
            let y = y.as_ref().ok_or("explorer: rule")?;
            let same = rules[i as usize] == rules[j];
            ctx.eval();
            if (x == *y) != same || (*y == x) != same || (x != *y) == same || parsed.len() == 1 && (parsed[0] == *y) != same {
                return Err(format!("{:?} (parsed again {:?}) and {:?} are {}", x, parsed, y, if same { "not equal" } else { "equal" }));
            }
            ctx.trace();
            ctx.outcome(if same { "the same" } else { "different" });
        }
        Ok(())
    }));
    // enumerations
    const ERRS: [MessageHeaderError; 5] = [MessageHeaderError::MissingPath, MessageHeaderError::MissingInterface, MessageHeaderError::MissingMember, MessageHeaderError::MissingErrorName, MessageHeaderError::MissingReplySerial];
    fs.push(pairs("missing fields", "header errors".into(), (0..5usize).collect(), |k, _| Some(ERRS[*k].clone()), |a, b| a == b, |_| true, |x, y, _| laws_ord(x, y), true));
    fs.push(pairs("message types", "message types".into(), (1..=4u8).collect(), |k, v| if v % 2 == 0 { mtype(*k) } else { MessageType::try_from(*k).ok() }, |a, b| a == b, |_| true, |x, y, _| laws_ord(x, y), true));
    fs.push(pairs("flags", "flag sets".into(), (0..8u8).collect(), |k, _| Some(mflags(*k)), |a, b| a == b, |_| true, |x, y, _| laws_ord(x, y), true));
    fs
}
