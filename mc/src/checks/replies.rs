//! C14 (replies) and C19 (builders and accessors).

use super::typing::subset;
use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::wire::*;
use dbus_message_parser::message::{Message, MessageHeader};
use dbus_message_parser::value::{Bus, Error, Interface, Member, ObjectPath, Value};
use std::convert::TryFrom;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Op {
    Return,
    Error(&'static str, String),
    Property(String),
    Path,
    Interface,
    Member,
    Args(String),
}

/// What the reply must be: Err for a refused method return (the error reply given instead).
enum Reply {
    None,
    Ok(M),
    Instead(M),
}

fn reply_base(m: &M) -> M {
    let mut r = empty_m();
    r.le = m.le;
    r.flags = 1;
    r.ver = 1;
    r.serial = 0;
    r.rserial = Some(m.serial);
    r.dest = m.sender.clone();
    r.sender = m.dest.clone();
    r
}
fn error_of(m: &M, name: &str, text: &str) -> M {
    let mut r = reply_base(m);
    r.ty = 3;
    r.ename = Some(name.into());
    r.body = vec![s(text)];
    r
}
const NAMES: &str = "org.freedesktop.DBus.Error.";

fn model_reply(m: &M, op: &Op) -> Reply {
    match op {
        Op::Return => {
            if m.ty == 1 {
                let mut r = reply_base(m);
                r.ty = 2;
                Reply::Ok(r)
            } else {
                // name and text of this error are not prescribed by the property: filled in later
                Reply::Instead(error_of(m, "x.y", ""))
            }
        }
        Op::Error(n, t) => Reply::Ok(error_of(m, n, t)),
        Op::Property(p) => Reply::Ok(error_of(m, &format!("{}UnknownProperty", NAMES), &format!("does not have a property {}", p))),
        Op::Path => match &m.path {
            Some(p) => Reply::Ok(error_of(m, &format!("{}UnknownPath", NAMES), &format!("does not have a path {}", p))),
            None => Reply::None,
        },
        Op::Interface => match &m.iface {
            Some(p) => Reply::Ok(error_of(m, &format!("{}UnknownInterface", NAMES), &format!("does not have an interface {}", p))),
            None => Reply::None,
        },
        Op::Member => match &m.member {
            Some(p) => Reply::Ok(error_of(m, &format!("{}UnknownMember", NAMES), &format!("does not have a member {}", p))),
            None => Reply::None,
        },
        Op::Args(r) => Reply::Ok(error_of(m, &format!("{}InvalidArgs", NAMES), r)),
    }
}

enum Got {
    None,
    Ok(Message),
    Instead(Message),
}
macro_rules! run_op {
    ($x:expr, $op:expr) => {
        match $op {
            Op::Return => match $x.method_return() {
                Ok(r) => Got::Ok(r),
                Err(r) => Got::Instead(r),
            },
            Op::Error(n, t) => Got::Ok($x.error(Error::try_from(*n).unwrap(), t.clone())),
            Op::Property(p) => Got::Ok($x.unknown_property(p)),
            Op::Path => $x.unknown_path().map_or(Got::None, Got::Ok),
            Op::Interface => $x.unknown_interface().map_or(Got::None, Got::Ok),
            Op::Member => $x.unknown_member().map_or(Got::None, Got::Ok),
            Op::Args(r) => Got::Ok($x.invalid_args(r.clone())),
        }
    };
}

fn compare(m: &M, op: &Op, got: Got, ctx: &mut Ctx) -> Result<Option<(M, Message)>, String> {
    let what = || format!("{:?} on {}", op, short(&format!("{:?}", m)));
    ctx.eval();
    let r = match (model_reply(m, op), got) {
        (Reply::None, Got::None) => {
            ctx.outcome("no reply");
            None
        }
        (Reply::Ok(e), Got::Ok(g)) => {
            // texts of the unknown-replies are a convenience: only that they name the thing is judged
            let mut e = e;
            if matches!(op, Op::Property(_) | Op::Path | Op::Interface | Op::Member) {
                let thing = match op {
                    Op::Property(p) => p.clone(),
                    Op::Path => m.path.clone().unwrap(),
                    Op::Interface => m.iface.clone().unwrap(),
                    _ => m.member.clone().unwrap(),
                };
                match g.get_body() {
                    [Value::String(t)] if t.contains(&thing) => e.body = vec![s(t)],
                    b => return Err(format!("body {:?} does not name {:?}; {}", b, thing, what())),
                }
            }
            message_equal(&g, &e).map_err(|x| format!("{}; {}", x, what()))?;
            ctx.outcome(if e.ty == 2 { "method return" } else { "error" });
            Some((e, g))
        }
        (Reply::Instead(e), Got::Instead(g)) => {
            let mut e = e;
            e.ename = g.get_error_name().map(|n| n.to_string());
            match g.get_body() {
                [Value::String(t)] => e.body = vec![s(t)],
                b => return Err(format!("error reply with body {:?}; {}", b, what())),
            }
            message_equal(&g, &e).map_err(|x| format!("{}; {}", x, what()))?;
            ctx.outcome("error instead of a return");
            Some((e, g))
        }
        (Reply::None, _) => return Err(format!("a reply exists without the field; {}", what())),
        (_, Got::None) => return Err(format!("no reply although the field is there; {}", what())),
        (Reply::Ok(_), Got::Instead(g)) => return Err(format!("refused with {:?}; {}", g, what())),
        (Reply::Instead(_), Got::Ok(g)) => return Err(format!("method return to something that is not a call: {:?}; {}", g, what())),
    };
    ctx.trace();
    Ok(r)
}

pub fn ops(full: bool) -> Vec<Op> {
    let mut v = vec![Op::Return, Op::Error("a.b", "text".into()), Op::Path, Op::Interface, Op::Member, Op::Property("Prop".into()), Op::Args("reason".into())];
    if full {
        for t in ["", "é😀", "a b", "{}", "%s", "does not have", "\\'", "\n"] {
            v.push(Op::Error("org.example.Error.X_1", t.into()));
            v.push(Op::Property(t.into()));
            v.push(Op::Args(t.into()));
        }
        v.push(Op::Error("z9.Z", "q".repeat(5000)));
    }
    v
}

fn judge_ops(m: &M, os: &[Op], ctx: &mut Ctx) -> CaseResult {
    let (msg, h) = match (to_message(m), to_header(m)) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            ctx.skip();
            return Ok(());
        }
    };
    let before = format!("{:?}", msg);
    ctx.input(hash_bytes(before.as_bytes()));
    rec::start(0x9000 + m.ty as u64);
    for op in os {
        compare(m, op, run_op!(msg, op), ctx)?;
        compare(m, op, run_op!(h, op), ctx).map_err(|e| format!("(header) {}", e))?;
        rec::step(hash_bytes(format!("{:?}", op).as_bytes()), 0x9100 + m.ty as u64 * 16 + m.path.is_some() as u64 * 8 + m.dest.is_some() as u64 * 4 + m.sender.is_some() as u64 * 2 + m.le as u64);
    }
    if format!("{:?}", msg) != before {
        return Err(format!("replying changed the message; {}", before));
    }
    ctx.sample(|| short(&before));
    Ok(())
}

pub fn reply_families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    fs.push(family("subsets", "4 types x 2^8 header subsets x 8 flag sets x endianness x body or none x 3 serials x every reply operation, on message and header", 4 * 256 * 8 * 2 * 2 * 3, |i, ctx| {
        let d = digits(i, &[3, 2, 2, 8, 256, 4]);
        let mut m = subset(d[5] as u8 + 1, d[4], d[1] == 1, false);
        m.le = d[2] == 0;
        m.flags = d[3] as u8;
        m.serial = [1u32, 0xfedc_ba98, 0][d[0]];
        if !required_ok(&m) {
            return Ok(());
        }
        judge_ops(&m, &ops(false), ctx)
    }));
    fs.push(family("texts", "every reply operation with 9 texts, on 4 types x 2^8 subsets", 4 * 256, |i, ctx| {
        let d = digits(i, &[256, 4]);
        let m = subset(d[1] as u8 + 1, d[0], false, false);
        if !required_ok(&m) {
            return Ok(());
        }
        judge_ops(&m, &ops(true), ctx)
    }));
    let addrs: &'static [Option<&'static str>] = &[None, Some(":1.5"), Some(":1.50"), Some("a.b"), Some("org.freedesktop.DBus"), Some("a.b-c")];
    let paths: &'static [&'static str] = &["/", "/a", "/a/b_9", "/org/freedesktop/DBus"];
    let ifs: &'static [Option<&'static str>] = &[None, Some("a.b"), Some("org.freedesktop.DBus.Properties"), Some("org.freedesktop.DBus.Error.UnknownPath")];
    let mems: &'static [&'static str] = &["M", "Get", "unknown_path", "_9"];
    fs.push(family("addresses", "6 destinations x 6 senders x 4 paths x 4 interfaces x 4 members x 4 types x protocol versions", 6 * 6 * 4 * 4 * 4 * 4 * 3, move |i, ctx| {
        let d = digits(i, &[3, 6, 6, 4, 4, 4, 4]);
        let mut m = empty_m();
        m.ty = d[6] as u8 + 1;
        m.ver = [1u8, 0, 7][d[0]];
        m.serial = 1000 + i as u32;
        m.dest = addrs[d[1]].map(|s| s.to_string());
        m.sender = addrs[d[2]].map(|s| s.to_string());
        m.path = Some(paths[d[3]].into());
        m.iface = ifs[d[4]].map(|s| s.to_string());
        m.member = Some(mems[d[5]].into());
        m.rserial = Some(5);
        m.ename = Some("some.Error".into());
        m.le = i % 2 == 0;
        m.flags = (i % 8) as u8;
        if !required_ok(&m) {
            return Ok(());
        }
        judge_ops(&m, &ops(false), ctx)
    }));
    fs.push(family("serials", "serials and reply serials: words with every byte in {00,01,7f,80,ff}", 625, |i, ctx| {
        let w = u32::from_le_bytes(pattern(i, &[0, 1, 0x7f, 0x80, 0xff], 4)[..4].try_into().unwrap());
        for ty in 1..=4 {
            let mut m = subset(ty, 0x7f, false, false);
            m.serial = w;
            m.rserial = Some(w.rotate_left(8) ^ 0x55);
            judge_ops(&m, &ops(false), ctx)?;
        }
        Ok(())
    }));
    let sp = Arc::new(special_messages());
    let nsp = sp.len() as u64;
    fs.push(family("special names", format!("{} messages with the names the D-Bus specification gives a meaning x every reply operation", nsp), nsp, move |i, ctx| {
        let mut m = sp[i as usize].clone();
        m.le = i % 3 > 0;
        m.flags = (i % 8) as u8;
        judge_ops(&m, &ops(false), ctx)
    }));
    let who: &'static [Option<&'static str>] = &[None, Some(":1.7"), Some(":1.8"), Some("a.b"), Some("c.d")];
    fs.push(family("header product", "type x flags {0,1,2,7} x version {0,1,2} x serial {0,1,9,max} x reply serial {none,0,9,max} x destination and sender out of 5 (equal or not) x interface, error name and member equal or different x descriptor count x every reply operation", 4 * 4 * 3 * 4 * 4 * 5 * 5 * 2 * 2, move |i, ctx| {
        let d = digits(i, &[4, 4, 3, 4, 4, 5, 5, 2, 2]);
        let mut m = empty_m();
        m.le = i % 3 > 0;
        m.ty = d[0] as u8 + 1;
        m.flags = [0, 1, 2, 7][d[1]];
        m.ver = [0, 1, 2][d[2]];
        m.serial = [0, 1, 9, u32::MAX][d[3]];
        m.rserial = [None, Some(0), Some(9), Some(u32::MAX)][d[4]];
        m.dest = who[d[5]].map(|x| x.to_string());
        m.sender = who[d[6]].map(|x| x.to_string());
        m.path = Some("/a".into());
        m.member = Some("M".into());
        m.iface = Some(["a.b", "c.d"][d[7]].into());
        m.ename = Some("a.b".into());
        m.fds = [None, Some(3)][d[8]];
        if i % 5 == 0 {
            m.body = vec![V::Y(1)];
        }
        if !required_ok(&m) {
            return Ok(());
        }
        judge_ops(&m, &ops(false), ctx)
    }));
    let tl: Arc<Vec<usize>> = Arc::new((0..=300).chain((9..=17).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1])).chain([1000, 5000, 10_000, 100_000]).collect());
    let ntl = tl.len() as u64;
    fs.push(family("long texts", format!("error texts, property names and reasons of {} lengths up to 131073, of letters or of two-byte characters, on messages of 4 types; names and paths of as many bytes in the message", ntl), ntl * 2 * 4, move |i, ctx| {
        let d = digits(i, &[2, 4, ntl]);
        let n = tl[d[2]];
        let t: String = if d[0] == 0 { letters(n) } else { "é".repeat(n / 2) + if n % 2 == 1 { "x" } else { "" } };
        let mut m = subset(d[1] as u8 + 1, 0x7f, false, false);
        if d[0] == 1 {
            for k in [1u8, 2, 3, 4, 6, 7] {
                if let Some(x) = name_of_len(k, n) {
                    set_name(&mut m, k, Some(x));
                }
            }
        }
        judge_ops(&m, &[Op::Error("a.b", t.clone()), Op::Property(t.clone()), Op::Args(t), Op::Path, Op::Interface, Op::Member, Op::Return], ctx)
    }));
    // chains of replies
    let nops = 7u64;
    let depth = if th { 5 } else { 4 };
    let nw = words_upto(nops, depth);
    fs.push(family("chains", format!("every sequence of up to {} reply operations, each applied to the reply of the previous one (serials set in between or not), from 12 messages", depth), nw * 12, move |i, ctx| {
        let d = digits(i, &[12, nw]);
        let all = ops(false);
        let mut m = subset([1u8, 1, 4, 2, 3, 1][d[0] % 6], [0x7f, 0x47, 0x27, 0x1f, 0x7f, 0x65][d[0] % 6] | 7, d[0] >= 6, false);
        m.rserial = Some(3);
        m.ename = Some("x.y".into());
        let mut cur = to_message(&m).ok_or("message refused")?;
        rec::start(0x9000 + m.ty as u64);
        for (n, k) in word(d[1] as u64, nops).into_iter().enumerate() {
            let op = &all[k];
            let got = run_op!(cur, op);
            match compare(&m, op, got, ctx)? {
                None => break,
                Some((e, g)) => {
                    m = e;
                    cur = g;
                    if d[0] >= 6 {
                        m.serial = 100 + n as u32;
                        cur.set_serial(m.serial);
                    }
                    rec::step(k as u64, 0x9200 + m.ty as u64);
                }
            }
        }
        Ok(())
    }));
    // messages from the wire
    let cor: Arc<Vec<M>> = Arc::new(corpus());
    let nc = cor.len() as u64;
    fs.push(family("decoded messages", format!("every reply operation on {} decoded messages, and the reply encoded and decoded", nc), nc, move |i, ctx| {
        let m = &cor[i as usize];
        let w = bytes_of(m);
        let (msg, _, _) = Message::decode_with_fds(b(&w.bytes), &w.fds).map_err(|e| format!("{}; {}", e, hex(&w.bytes)))?;
        for op in ops(true) {
            if let Some((e, g)) = compare(&canonical(m, &w.fds), &op, run_op!(msg, &op), ctx)? {
                let x = g.encode().map_err(|e| format!("a reply does not encode: {}", e))?;
                let (r, _) = Message::decode(x.freeze()).map_err(|e| format!("an encoded reply does not decode: {}", e))?;
                message_equal(&r, &e)?;
            }
        }
        Ok(())
    }));
    fs.extend(msg_families(all_replies, th).into_iter().filter(|f| !f.name.contains("length")));
    fs
}

// --- C19 -------------------------------------------------------------------------------------

macro_rules! agree {
    ($x:expr, $($has:ident $get:ident),*) => {
        $(
            if $x.$has() != $x.$get().is_some() {
                return Err(format!("{} is {} but {} is {:?}", stringify!($has), $x.$has(), stringify!($get), $x.$get()));
            }
        )*
    };
}

/// Every has-accessor agrees with its get-accessor.
fn accessors(msg: &Message, m: &M) -> CaseResult {
    agree!(msg, has_path get_path, has_interface get_interface, has_member get_member, has_error_name get_error_name, has_reply_serial get_reply_serial, has_destination get_destination, has_sender get_sender, has_unix_fds get_unix_fds);
    fields_equal(msg, m)
}
fn header_accessors(h: &MessageHeader, m: &M) -> CaseResult {
    agree!(h, has_path get_path, has_interface get_interface, has_member get_member, has_error_name get_error_name, has_reply_serial get_reply_serial, has_destination get_destination, has_sender get_sender, has_unix_fds get_unix_fds, has_signature get_signature);
    // the same values as the message's accessors
    fields_equal(&Message::new(h.clone(), vec![]), m)?;
    let t = |o: Option<String>| o;
    let same = t(h.get_path().map(|x| x.to_string())) == m.path
        && t(h.get_interface().map(|x| x.to_string())) == m.iface
        && t(h.get_member().map(|x| x.to_string())) == m.member
        && t(h.get_error_name().map(|x| x.to_string())) == m.ename
        && h.get_reply_serial() == m.rserial
        && t(h.get_destination().map(|x| x.to_string())) == m.dest
        && t(h.get_sender().map(|x| x.to_string())) == m.sender
        && h.get_unix_fds() == m.fds
        && h.get_serial() == m.serial
        && mtype_num(h.get_type()) == m.ty;
    if !same {
        return Err(format!("header accessors differ from {:?}: {:?}", m, h));
    }
    match (h.get_signature(), &m.sig) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if types_eq(a, b) => Ok(()),
        (a, b) => Err(format!("header signature {:?}, expected {:?}", a, b)),
    }
}

fn full_case(m: &M, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let (msg, h) = match (to_message(m), to_header(m)) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            ctx.skip();
            return Ok(());
        }
    };
    let w = || short(&format!("{:?}", m));
    accessors(&msg, m).map_err(|e| format!("{}; {}", e, w()))?;
    header_accessors(&h, m).map_err(|e| format!("{}; {}", e, w()))?;
    if !values_eq(msg.get_body(), &m.body) {
        return Err(format!("body {:?}; {}", msg.get_body(), w()));
    }
    let (h2, b2) = msg.clone().split().map_err(|e| e.to_string())?;
    let mut e = m.clone();
    e.sig = if m.body.is_empty() { None } else { Some(m.body.iter().map(vtype).collect()) };
    header_accessors(&h2, &e).map_err(|e| format!("after split: {}; {}", e, w()))?;
    if !values_eq(&b2, &m.body) {
        return Err(format!("split body {:?}; {}", b2, w()));
    }
    // decoded
    let x = bytes_of(m);
    if decode(&x.bytes, &x.fds).is_err() {
        ctx.outcome("beyond the limits of the wire");
        return Ok(());
    }
    let (d, _, _) = Message::decode_with_fds(b(&x.bytes), &x.fds).map_err(|e| format!("reference bytes refused: {}; {}", e, w()))?;
    accessors(&d, &canonical(m, &x.fds)).map_err(|e| format!("decoded: {}; {}", e, w()))?;
    ctx.input(hash_bytes(&x.bytes));
    ctx.trace();
    ctx.outcome("accessors agree");
    rec::start(0xa000 + m.ty as u64);
    let pat = [m.path.is_some(), m.iface.is_some(), m.member.is_some(), m.ename.is_some(), m.rserial.is_some(), m.dest.is_some(), m.sender.is_some(), m.fds.is_some(), m.sig.is_some(), !m.body.is_empty()];
    rec::step(m.flags as u64, pat.iter().fold(0xa1u64, |a, x| a << 1 | *x as u64));
    ctx.sample(w);
    Ok(())
}

fn types_fit(m: &M) -> bool {
    let ts: Vec<T> = m.body.iter().map(vtype).collect();
    sig_ok(&ts)
}
fn full_case_fit(m: &M, ctx: &mut Ctx) -> CaseResult {
    if types_fit(m) {
        full_case(m, ctx)
    } else {
        Ok(())
    }
}
fn all_replies(m: &M, ctx: &mut Ctx) -> CaseResult {
    judge_ops(m, &ops(false), ctx)
}

/// A message compared with what its builder was asked for.
fn built(msg: &Message, m: &M, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    message_equal(msg, m).map_err(|e| format!("{}; expected {}", e, short(&format!("{:?}", m))))?;
    accessors(msg, m)?;
    rec::start(0xa200 + m.ty as u64);
    rec::step(m.body.len() as u64, 0xa300 + mix(m.dest.is_some() as u64, m.body.len() as u64));
    ctx.trace();
    ctx.outcome("built as asked");
    ctx.input(hash_bytes(format!("{:?}", m).as_bytes()));
    Ok(())
}

const DESTS: &[&str] = &[":1.5", ":1.2.3", "a.b", "org.freedesktop.DBus", "a-b.c-d"];
const IFS: &[&str] = &["a.b", "org.freedesktop.DBus.Properties", "a._9.Z", "iii.jjj.kkk"];
const MEMS: &[&str] = &["M", "Get", "Set", "_x9", "GetAll"];
const PROPS: &[&str] = &["", "Prop", "a.b", "é😀", "with space", "Get", "/p"];

fn call_m(dest: &str, path: &str, iface: &str, member: &str) -> M {
    let mut m = empty_m();
    m.le = true;
    m.ty = 1;
    m.ver = 1;
    m.serial = 0;
    m.flags = 0;
    m.dest = Some(dest.into());
    m.path = Some(path.into());
    m.iface = Some(iface.into());
    m.member = Some(member.into());
    m
}

pub fn builder_families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    fs.push(family("accessor subsets", "4 types x 2^8 header subsets x body or none x 3 header signatures x 8 flags", 4 * 256 * 2 * 3 * 8, |i, ctx| {
        let d = digits(i, &[8, 3, 2, 256, 4]);
        let mut m = subset(d[4] as u8 + 1, d[3], d[2] == 1, false);
        m.flags = d[0] as u8;
        m.sig = [None, Some(vec![]), Some(parses("sa{sv}"))][d[1]].clone();
        if !required_ok(&m) {
            return Ok(());
        }
        full_case(&m, ctx)
    }));
    fs.push(family("values of fields", "each header field with 12 values and lengths", 9 * 40, |i, ctx| {
        let d = digits(i, &[9, 40]);
        let mut m = subset(1 + (i % 4) as u8, 0x7f, i % 5 == 0, false);
        let kinds = [1u8, 2, 3, 4, 6, 7];
        if d[0] < 6 {
            match name_of_len(kinds[d[0]], d[1] + 1) {
                Some(x) => set_name(&mut m, kinds[d[0]], Some(x)),
                None => return Ok(()),
            }
        } else {
            let w = u32::from_le_bytes(pattern(d[1] as u64 * 15, &[0, 1, 0x7f, 0x80, 0xff], 4)[..4].try_into().unwrap());
            match d[0] {
                6 => m.rserial = Some(w),
                7 => m.fds = Some(w),
                _ => m.serial = w,
            }
        }
        full_case(&m, ctx)
    }));
    let cor: Arc<Vec<M>> = Arc::new(corpus());
    let nc = cor.len() as u64;
    fs.push(family("corpus accessors", format!("every accessor on {} messages, built and decoded", nc), nc, move |i, ctx| full_case(&cor[i as usize], ctx)));

    let sp = Arc::new(special_messages());
    let nsp = sp.len() as u64;
    fs.push(family("special names", format!("every accessor on {} messages with the names the D-Bus specification gives a meaning", nsp), nsp, move |i, ctx| {
        let mut m = sp[i as usize].clone();
        m.le = i % 3 > 0;
        m.flags = (i % 8) as u8;
        full_case(&m, ctx)
    }));
    fs.push(family("special builders", "the message builders with every destination x path x interface x member of the names with a meaning", 15 * 6 * 14 * 16, |i, ctx| {
        let d = digits(i, &[15, 6, 14, 16]);
        let de = if d[0] == 14 { ":1.0" } else { SP_NAMES[d[0]] };
        let (pa, ifa, me) = (SP_PATHS[d[1]], SP_NAMES[d[2]], SP_MEMBERS[d[3]]);
        let (bus, path, iface, member) = (Bus::try_from(de).unwrap(), ObjectPath::try_from(pa).unwrap(), Interface::try_from(ifa).unwrap(), Member::try_from(me).unwrap());
        built(&Message::method_call(bus.clone(), path.clone(), iface.clone(), member.clone()), &call_m(de, pa, ifa, me), ctx)?;
        let mut m = call_m(de, pa, ifa, me);
        m.ty = 4;
        m.dest = None;
        m.flags = 1;
        built(&Message::signal(path.clone(), iface.clone(), member), &m, ctx)?;
        let props = "org.freedesktop.DBus.Properties";
        let mut m = call_m(de, pa, props, "Get");
        m.body = vec![s(ifa), s(me)];
        built(&Message::property_get(bus.clone(), path.clone(), iface.clone(), me), &m, ctx)?;
        let mut m = call_m(de, pa, props, "GetAll");
        m.body = vec![s(ifa)];
        built(&Message::properties_get_all(bus.clone(), path.clone(), iface.clone()), &m, ctx)?;
        let mut m = call_m(de, pa, props, "Set");
        m.body = vec![s(ifa), s(me), var(s(de))];
        built(&Message::property_set(bus, path, iface, me, Value::String(de.into())), &m, ctx)
    }));
    let np = PATHS.len() as u64;
    fs.push(family("method calls and signals", "every destination x path x interface x member of the lists", 5 * np * 4 * 5, move |i, ctx| {
        let d = digits(i, &[5, np, 4, 5]);
        let (de, pa, ifa, me) = (DESTS[d[0]], PATHS[d[1]], IFS[d[2]], MEMS[d[3]]);
        let (bus, path, iface, member) = (Bus::try_from(de).unwrap(), ObjectPath::try_from(pa).unwrap(), Interface::try_from(ifa).unwrap(), Member::try_from(me).unwrap());
        let c = Message::method_call(bus, path.clone(), iface.clone(), member.clone());
        built(&c, &call_m(de, pa, ifa, me), ctx)?;
        let sg = Message::signal(path, iface, member);
        let mut m = call_m(de, pa, ifa, me);
        m.ty = 4;
        m.dest = None;
        m.flags = 1;
        built(&sg, &m, ctx)?;
        ctx.sample(|| format!("{} {} {} {}", de, pa, ifa, me));
        Ok(())
    }));
    let nv = alphabet().len() as u64;
    let al = Arc::new(alphabet());
    let a2 = al.clone();
    fs.push(family("properties", "get, get-all and set for every destination x path x interface x property x value of the lists", 5 * np * 4 * 7 * nv, move |i, ctx| {
        let d = digits(i, &[5, np, 4, 7, nv]);
        let (de, pa, ifa, pr) = (DESTS[d[0]], PATHS[d[1]], IFS[d[2]], PROPS[d[3]]);
        let (bus, path, iface) = (Bus::try_from(de).unwrap(), ObjectPath::try_from(pa).unwrap(), Interface::try_from(ifa).unwrap());
        let props = "org.freedesktop.DBus.Properties";
        if d[4] == 0 {
            let mut m = call_m(de, pa, props, "Get");
            m.body = vec![s(ifa), s(pr)];
            built(&Message::property_get(bus.clone(), path.clone(), iface.clone(), pr), &m, ctx)?;
            let mut m = call_m(de, pa, props, "GetAll");
            m.body = vec![s(ifa)];
            built(&Message::properties_get_all(bus.clone(), path.clone(), iface.clone()), &m, ctx)?;
        }
        let v = &a2[d[4]];
        let mut m = call_m(de, pa, props, "Set");
        m.body = vec![s(ifa), s(pr), var(v.clone())];
        built(&Message::property_set(bus, path, iface, pr, to_value(v).unwrap()), &m, ctx)
    }));
    // sequences of add-value and set-serial on every kind of message
    let depth = if th { 4 } else { 3 };
    let k = 10u64;
    let nw = words_upto(k, depth);
    let vals: Arc<Vec<V>> = Arc::new(vec![V::Y(1), s("x"), V::A(p(b'y'), vec![V::Y(2)]), var(V::U(3)), V::St(vec![V::Tt(1)])]);
    fs.push(family("sequences", format!("every sequence of up to {} of 5 add-values and 5 set-serials (7, 0, the largest, the message's own reply serial, its own serial plus one) on 9 kinds of messages, compared after every step and after encoding", depth), nw * 9, move |i, ctx| {
        let d = digits(i, &[9, nw]);
        let bus = || Bus::try_from(":1.5").unwrap();
        let path = || ObjectPath::try_from("/a").unwrap();
        let iface = || Interface::try_from("a.b").unwrap();
        let mem = || Member::try_from("M").unwrap();
        let props = "org.freedesktop.DBus.Properties";
        let (mut msg, mut m) = match d[0] {
            0 => (Message::method_call(bus(), path(), iface(), mem()), call_m(":1.5", "/a", "a.b", "M")),
            1 => {
                let mut m = call_m("", "/a", "a.b", "M");
                m.dest = None;
                m.ty = 4;
                m.flags = 1;
                (Message::signal(path(), iface(), mem()), m)
            }
            2 => {
                let mut m = call_m(":1.5", "/a", props, "Get");
                m.body = vec![s("a.b"), s("p")];
                (Message::property_get(bus(), path(), iface(), "p"), m)
            }
            3 => {
                let mut m = call_m(":1.5", "/a", props, "GetAll");
                m.body = vec![s("a.b")];
                (Message::properties_get_all(bus(), path(), iface()), m)
            }
            4 => {
                let mut m = call_m(":1.5", "/a", props, "Set");
                m.body = vec![s("a.b"), s("p"), var(V::N(4))];
                (Message::property_set(bus(), path(), iface(), "p", Value::Int16(4)), m)
            }
            x => {
                let mut m = subset(x as u8 - 4, 0x7f, x % 2 == 0, x > 6);
                m.le = x % 2 == 1;
                (to_message(&m).ok_or("message refused")?, m)
            }
        };
        let orig = msg.clone();
        let orig_m = m.clone();
        for op in word(d[1] as u64, k) {
            if op < 5 {
                msg.add_value(to_value(&vals[op]).unwrap());
                m.body.push(vals[op].clone());
            } else {
                let n = [7u32, 0, u32::MAX, m.rserial.unwrap_or(5), m.serial.wrapping_add(1)][op - 5];
                msg.set_serial(n);
                m.serial = n;
            }
            built(&msg, &m, ctx)?;
        }
        // a clone made before is unaffected
        built(&orig, &orig_m, ctx)?;
        let w = bytes_of(&m);
        let e = msg.encode().map_err(|e| e.to_string())?;
        let (d2, _) = Message::decode(e.freeze()).map_err(|e| e.to_string())?;
        message_equal(&d2, &canonical(&m, &w.fds)).map_err(|e| format!("decoded: {}", e))
    }));
    // setting a property to any value
    let tys = Arc::new({
        let mut v = types_upto(3, BASIC, 3);
        v.extend(types_exact(4, b"yv", 3));
        v
    });
    let nty = tys.len() as u64;
    fs.push(family("property values", format!("setting a property to values of {} types, at most one inner choice not the first", nty), nty, move |i, ctx| {
        let t = &tys[i as usize];
        ctx.dfs(1, |ch, ctx| {
            let mut salt = i as u32;
            let v = value(t, ch, 0, &mut salt);
            let mut m = call_m(":1.5", "/a", "org.freedesktop.DBus.Properties", "Set");
            m.body = vec![s("a.b"), s("p"), var(v.clone())];
            let x = match to_value(&v) {
                Some(x) => x,
                None => {
                    ctx.skip();
                    return Ok(());
                }
            };
            built(&Message::property_set(Bus::try_from(":1.5").unwrap(), ObjectPath::try_from("/a").unwrap(), Interface::try_from("a.b").unwrap(), "p", x), &m, ctx)
        })
    }));
    let maxl: u64 = if th { 1200 } else { 500 };
    fs.push(family("long property names", format!("property names and texts of 0..={} bytes in get and set", maxl), maxl + 1, move |i, ctx| {
        let t = letters(i as usize);
        let (bus, path, iface) = (|| Bus::try_from(":1.5").unwrap(), || ObjectPath::try_from("/a").unwrap(), || Interface::try_from("a.b").unwrap());
        let props = "org.freedesktop.DBus.Properties";
        let mut m = call_m(":1.5", "/a", props, "Get");
        m.body = vec![s("a.b"), s(&t)];
        built(&Message::property_get(bus(), path(), iface(), &t), &m, ctx)?;
        let mut m = call_m(":1.5", "/a", props, "Set");
        m.body = vec![s("a.b"), s(&t), var(s(&t))];
        built(&Message::property_set(bus(), path(), iface(), &t, Value::String(t.clone())), &m, ctx)
    }));
    // adding many values one by one
    let many: usize = if th { 5000 } else { 1300 };
    fs.push(family("many values added", format!("up to {} values of 6 kinds added one by one to 3 kinds of messages, the whole body compared after every one", many), 6 * 3, move |i, ctx| {
        let d = digits(i, &[6, 3]);
        let mut m = subset(d[1] as u8 + 1, 0x7f, d[1] == 1, false);
        let mut msg = to_message(&m).ok_or("explorer: message")?;
        for k in 0..many {
            let v = match d[0] {
                0 => V::Y(k as u8),
                1 => V::U(k as u32 * 7),
                2 => s(&format!("{}", k)),
                3 => var(V::Q(k as u16)),
                4 => V::A(p(b'q'), vec![V::Q(k as u16)]),
                _ => [V::Y(1), s("x"), V::St(vec![V::U(k as u32)]), V::B(true)][k % 4].clone(),
            };
            msg.add_value(to_value(&v).ok_or("explorer: value")?);
            m.body.push(v);
            ctx.eval();
            if !values_eq(msg.get_body(), &m.body) {
                return Err(format!("after adding value {} ({:?}) the body differs from the values added", k + 1, m.body[k]));
            }
            if k.is_power_of_two() {
                msg.set_serial(k as u32);
                m.serial = k as u32;
                accessors(&msg, &m)?;
            }
        }
        ctx.alive();
        ctx.trace();
        ctx.outcome("all values in order");
        accessors(&msg, &m)
    }));
    fs.extend(msg_families(full_case_fit, th));
    fs
}
