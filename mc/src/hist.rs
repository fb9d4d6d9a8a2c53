//! C18: histories and schedules.
//!
//! The oracle is the result of the same operation alone in a fresh process. Explored against it:
//! every short sequence of operations, in fresh processes, on fresh threads and in one long-lived
//! process; repetitions; every call-level order of two threads; and every schedule of two
//! concurrent calls with up to two preemptions, where a thread can be preempted at each of its
//! allocator calls (the harness's global allocator is the scheduler's hook, so the code under test
//! runs unmodified).

use crate::conv::*;
use crate::effects::{allocator, balance};
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::wire::*;
use bytes::Bytes;
use dbus_message_parser::match_rule::{Arg, ArgPath, MatchRule};
use dbus_message_parser::message::Message;
use dbus_message_parser::value::{Array, Bus, Error, Interface, Member, ObjectPath, Struct, Type, UniqueConnectionName, Value, WellKnownBusName};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, OnceLock};
use std::time::{Duration, Instant};

// --- operations --------------------------------------------------------------------------------

#[derive(Clone)]
pub enum Op {
    Enc(M),
    EncPlain(M),
    Dec(Vec<u8>, Vec<i32>),
    DecPlain(Vec<u8>),
    Sig(Vec<u8>),
    Ty(Vec<u8>),
    PrintTy(Vec<T>),
    Name(u8, String),
    Path(String, String),
    Parse(String),
    Print(Vec<Rule>),
    Match(Vec<Rule>, M),
    Reply(M, u8),
    Value(V),
    /// parse one match rule on its own
    One(String),
    /// the text as every kind of name, from String, &str and &[u8]
    Names(String),
    /// the text as signature and type, from &str
    Sigs(String),
    /// every accessor and conversion of a message
    Access(M),
    /// every builder with these names
    Build(String, String, String),
    /// replies by header and with a name and a text
    Fail(M, String, String),
    /// array, struct and dict entry constructors
    Make(Vec<V>, T),
    /// removing a prefix
    Strip(String, String),
    /// argument rules by constructor
    Args(usize, String),
}

enum Prep {
    Enc(Option<Message>),
    EncPlain(Option<Message>),
    Dec(Bytes, Vec<i32>),
    DecPlain(Bytes),
    Sig(Vec<u8>),
    Ty(Vec<u8>),
    PrintTy(Vec<Type>),
    Name(u8, String),
    Path(String, String),
    Parse(String),
    Print(Vec<MatchRule>),
    Match(Vec<MatchRule>, Option<Message>),
    Reply(Option<Message>, u8),
    Value(Option<Value>),
    One(String),
    Names(String),
    Sigs(String),
    Access(Option<Message>),
    Build(String, String, String),
    Fail(Option<Message>, String, String),
    Make(Option<Vec<Value>>, Type),
    Strip(String, String),
    Args(usize, String),
}

fn prep(op: &Op) -> Prep {
    match op {
        Op::Enc(m) => Prep::Enc(to_message(m)),
        Op::EncPlain(m) => Prep::EncPlain(to_message(m)),
        Op::DecPlain(x) => Prep::DecPlain(Bytes::from(x.clone())),
        Op::Dec(x, f) => Prep::Dec(Bytes::from(x.clone()), f.clone()),
        Op::Sig(x) => Prep::Sig(x.clone()),
        Op::Ty(x) => Prep::Ty(x.clone()),
        Op::PrintTy(ts) => Prep::PrintTy(ts.iter().map(to_type).collect()),
        Op::Name(k, x) => Prep::Name(*k, x.clone()),
        Op::Path(a, b) => Prep::Path(a.clone(), b.clone()),
        Op::Parse(x) => Prep::Parse(x.clone()),
        Op::Print(r) => Prep::Print(to_rules(r).unwrap_or_default()),
        Op::Match(r, m) => Prep::Match(to_rules(r).unwrap_or_default(), to_message(m)),
        Op::Reply(m, k) => Prep::Reply(to_message(m), *k),
        Op::Value(v) => Prep::Value(to_value(v)),
        Op::One(x) => Prep::One(x.clone()),
        Op::Names(x) => Prep::Names(x.clone()),
        Op::Sigs(x) => Prep::Sigs(x.clone()),
        Op::Access(m) => Prep::Access(to_message(m)),
        Op::Build(a, b, c) => Prep::Build(a.clone(), b.clone(), c.clone()),
        Op::Fail(m, a, b) => Prep::Fail(to_message(m), a.clone(), b.clone()),
        Op::Make(v, t) => Prep::Make(v.iter().map(to_value).collect(), to_type(t)),
        Op::Strip(a, b) => Prep::Strip(a.clone(), b.clone()),
        Op::Args(n, x) => Prep::Args(*n, x.clone()),
    }
}

fn exec(p: Prep) -> Box<dyn Debug> {
    match p {
        Prep::Enc(m) => match m {
            None => Box::new("not constructible"),
            Some(m) => Box::new((m.encode_with_fds(), m)),
        },
        Prep::EncPlain(m) => match m {
            None => Box::new("not constructible"),
            Some(m) => Box::new((m.encode(), m)),
        },
        Prep::Dec(x, f) => Box::new(Message::decode_with_fds(x, &f)),
        Prep::DecPlain(x) => Box::new(Message::decode(x)),
        Prep::Sig(x) => Box::new(Type::from_bytes_to_signature(&x)),
        Prep::Ty(x) => Box::new(Type::try_from(&x[..])),
        Prep::PrintTy(t) => {
            let r = Type::from_signature_to_string(&t);
            Box::new((r, t.iter().map(|t| t.get_alignment()).collect::<Vec<_>>()))
        }
        Prep::Name(k, x) => match k {
            0 => Box::new(Interface::try_from(x)),
            1 => Box::new(Error::try_from(x)),
            2 => Box::new(Member::try_from(x)),
            _ => Box::new(Bus::try_from(x)),
        },
        Prep::Path(a, b) => match ObjectPath::try_from(a) {
            Err(e) => Box::new(e),
            Ok(mut p) => {
                let c = p.clone();
                let r = p.append(&b);
                let sw = p.starts_with(&c);
                let back = c.starts_with(&p);
                Box::new((p, c, r, sw, back))
            }
        },
        Prep::Parse(x) => Box::new(MatchRule::decode(&x)),
        Prep::Print(r) => {
            let s = MatchRule::encode(&r);
            Box::new((s, r))
        }
        Prep::Match(r, m) => match m {
            None => Box::new("not constructible"),
            Some(m) => {
                let each: Vec<bool> = r.iter().map(|r| r.matching_rule(&m)).collect();
                Box::new((MatchRule::matching_rules(&r, &m), each, m, r))
            }
        },
        Prep::Reply(m, k) => match m {
            None => Box::new("not constructible"),
            Some(m) => {
                let r = match k {
                    0 => format!("{:?}", m.method_return()),
                    1 => format!("{:?}", m.unknown_path()),
                    2 => format!("{:?}", m.unknown_interface()),
                    3 => format!("{:?}", m.unknown_member()),
                    4 => format!("{:?}", m.unknown_property("P")),
                    5 => format!("{:?}", m.invalid_args("why".into())),
                    6 => format!("{:?}", m.get_signature()),
                    _ => format!("{:?}", m.clone().split()),
                };
                Box::new((r, m))
            }
        },
        Prep::Value(v) => match v {
            None => Box::new("not constructible"),
            Some(v) => {
                let r = v.get_type();
                Box::new((r, v))
            }
        },
        Prep::One(x) => Box::new(MatchRule::try_from(x.as_str())),
        Prep::Names(x) => {
            macro_rules! each {
                ($($t:ident)*) => {
                    Box::new(($((format!("{:?}", $t::try_from(x.clone())), format!("{:?}", $t::try_from(x.as_str())), format!("{:?}", $t::try_from(x.as_bytes())))),*))
                };
            }
            each!(Interface Error Member Bus ObjectPath WellKnownBusName UniqueConnectionName)
        }
        Prep::Sigs(x) => Box::new((Type::from_string_to_signature(&x), Type::try_from(x.as_str()).map(|t| (t.to_string(), t)))),
        Prep::Access(m) => match m {
            None => Box::new("not constructible"),
            Some(m) => {
                let a = format!("{:?}", (m.get_path(), m.get_interface(), m.get_member(), m.get_error_name(), m.get_reply_serial(), m.get_destination(), m.get_sender(), m.get_unix_fds(), m.get_signature(), m.get_type(), m.get_serial()));
                let f = format!("{:?}", (m.has_path(), m.has_interface(), m.has_member(), m.has_error_name(), m.has_reply_serial(), m.has_destination(), m.has_sender(), m.has_unix_fds(), m.has_signature(), m.get_body()));
                let c = m.clone();
                let same = c == m;
                match m.split() {
                    Err(e) => Box::new((a, f, same, format!("{:?}", e))),
                    Ok((h, b)) => {
                        let x = format!("{:?}", (h.get_path(), h.get_interface(), h.get_member(), h.get_error_name(), h.get_reply_serial(), h.get_destination(), h.get_sender(), h.get_unix_fds(), h.get_signature(), h.get_type(), h.get_serial()));
                        let back = Message::new(h, b);
                        Box::new((a, f, same, x, c == back, back))
                    }
                }
            }
        },
        Prep::Build(a, b, c) => match (Bus::try_from(a), ObjectPath::try_from(b), Interface::try_from(c.clone())) {
            (Ok(a), Ok(b), Ok(i)) => {
                let k = Member::try_from(c.rsplit('.').next().unwrap_or("")).unwrap();
                Box::new((
                    Message::method_call(a.clone(), b.clone(), i.clone(), k.clone()),
                    Message::signal(b.clone(), i.clone(), k.clone()),
                    Message::property_get(a.clone(), b.clone(), i.clone(), &c),
                    Message::property_set(a.clone(), b.clone(), i.clone(), &c, Value::Byte(1)),
                    Message::properties_get_all(a, b, i),
                ))
            }
            x => Box::new(x),
        },
        Prep::Fail(m, n, t) => match (m, Error::try_from(n)) {
            (Some(m), Ok(n)) => {
                let r = m.error(n.clone(), t.clone());
                let h = m.clone().split().map(|(h, _)| (h.error(n, t.clone()), h.invalid_args(t.clone()), h.unknown_property(&t), h.method_return(), h.unknown_path(), h.unknown_interface(), h.unknown_member()));
                Box::new((r, h, m))
            }
            x => Box::new(x),
        },
        Prep::Make(v, t) => match v {
            None => Box::new("not constructible"),
            Some(v) => {
                let st = Struct::try_from(v.clone()).map(|x| (format!("{:?}", x.as_ref()), Value::Struct(x).get_type()));
                let ar = Array::new(v, t).map(|x| (x.get_type().to_string(), format!("{:?}", x.as_ref()), Value::Array(x).get_type()));
                Box::new((st, ar))
            }
        },
        Prep::Strip(a, b) => match (ObjectPath::try_from(a), ObjectPath::try_from(b)) {
            (Ok(a), Ok(b)) => {
                let r: Option<Vec<String>> = a.strip_prefix_elements(&b).map(|x| x.map(|x| x.to_string()).collect());
                Box::new((r, a.starts_with(&b), a == b, a, b))
            }
            x => Box::new(x),
        },
        Prep::Args(n, x) => {
            let p = ObjectPath::try_from(format!("/{}", x)).map(|p| ArgPath::from((n, p)));
            let p = p.map(|p| (p.get_key(), p.get_index(), p.get_value().to_string(), p.to_string()));
            let a = Arg::try_from((n, x)).map(|a| (a.get_key(), a.get_index(), a.get_value().to_string(), a.to_string()));
            Box::new((a, p))
        }
    }
}

fn text_of(op: &Op) -> String {
    match no_panic(|| format!("{:?}", exec(prep(op)))) {
        Ok(s) => s,
        Err(e) => format!("panic: {}", e),
    }
}
fn result(op: &Op) -> u64 {
    hash_bytes(text_of(op).as_bytes())
}

/// A small pool covering every kind of operation, successful and failing, with operations that
/// agree in all but one respect next to each other.
fn core_pool() -> Vec<Op> {
    let mut v = Vec::new();
    let body = |vs: Vec<V>, le: bool| Op::Enc(with_body(vs, le));
    v.push(body(vec![V::U(1), s("ab")], true)); // 0
    v.push(body(vec![V::U(1), s("ab")], false));
    v.push(body(vec![V::H(5), V::Y(1), V::H(6), V::H(5)], true));
    v.push(body(vec![V::H(6), V::Y(1), V::H(7)], true));
    v.push(body(vec![var(var(V::A(p(b't'), vec![V::Tt(1)])))], true));
    // refused: arrays nested beyond the limit (in a variant, behind other values)
    v.push(body(vec![s("x"), V::H(9), var(default_value(&arrays(33), 1, 0))], true));
    // refused: signature too long
    v.push(body(vec![V::Y(1); 256], false));
    v.push(Op::Enc(empty_m()));
    let w = |m: &M| {
        let w = bytes_of(m);
        Op::Dec(w.bytes, w.fds)
    };
    let fd = with_body(vec![V::Y(1), V::H(5), V::H(6)], true);
    let deep = with_body(vec![V::A(parse("{sv}"), vec![V::De(Box::new((s("k"), var(var(V::N(7))))))])], false);
    v.push(w(&fd)); // 8
    v.push(w(&deep));
    let cut = |m: &M, k: usize| {
        let w = bytes_of(m);
        let n = w.bytes.len() - k;
        Op::Dec(w.bytes[..n].to_vec(), w.fds)
    };
    v.push(cut(&deep, 1));
    // fails inside the innermost variant
    let mut x = bytes_of(&deep);
    let n = x.bytes.len();
    x.bytes[n - 4] = b'(';
    v.push(Op::Dec(x.bytes, vec![]));
    // fails: the descriptors are missing
    v.push(Op::Dec(bytes_of(&fd).bytes, vec![5]));
    v.push(Op::Sig(b"a{sv}(yv)".to_vec())); // 13
    v.push(Op::Sig(b"a{sv}(yu)".to_vec()));
    v.push(Op::Sig(b"a{sv}(((a".to_vec()));
    v.push(Op::Ty(b"a(ii)".to_vec()));
    v.push(Op::Name(0, "a.b".into())); // 17
    v.push(Op::Name(2, "a.b".into()));
    v.push(Op::Path("/a/b".into(), "c".into()));
    v.push(Op::Parse("type='signal',arg0='a\\''".into())); // 20
    v.push(Op::Parse("type='signal',arg0='a".into()));
    v.push(Op::Print(vec![Rule::Arg(0, "a'\\,b".into()), Rule::Type(4)]));
    let sig = |a: &str, p: &str| {
        let mut m = with_body(vec![s(a), V::O("/a/b".into())], true);
        m.ty = 4;
        m.path = Some(p.into());
        m
    };
    let rules = vec![Rule::Type(4), Rule::PathNs("/a".into()), Rule::Arg(0, "x".into())];
    v.push(Op::Match(rules.clone(), sig("x", "/a/b"))); // 23
    v.push(Op::Match(rules.clone(), sig("y", "/a/b")));
    v.push(Op::Match(rules, sig("x", "/ab")));
    v.push(Op::Match(vec![Rule::ArgPath(1, "/a/b/c".into()), Rule::Arg0Ns("a.b".into())], sig("a.b", "/z")));
    let mut c = call();
    c.sender = Some(":1.7".into());
    v.push(Op::Reply(c.clone(), 0));
    c.serial = 99;
    c.le = !c.le;
    v.push(Op::Reply(c.clone(), 0));
    v.push(Op::Reply(c, 3));
    v.push(Op::Value(V::A(parse("(yv)"), vec![]))); // 30
    v.push(Op::PrintTy(parses("a{ya(sv)}")));
    v.push(Op::EncPlain(fd.clone())); // 32
    v.push(Op::DecPlain(bytes_of(&with_body(vec![s("ab")], true)).bytes));
    // the remaining entry points, successful and failing
    let mut x = bytes_of(&with_body(vec![s("ab")], true)).bytes; // 34
    x[0] = b'x';
    v.push(Op::DecPlain(x));
    v.push(Op::DecPlain(bytes_of(&with_body(vec![s("ab"), V::B(true)], false)).bytes[..60].to_vec()));
    v.push(Op::EncPlain(with_body(vec![s("x"), var(default_value(&arrays(33), 1, 0))], true)));
    v.push(Op::One("arg0='a'b".into()));
    v.push(Op::One("arg1='a".into())); // 38
    v.push(Op::One("arg64=a".into()));
    v.push(Op::Parse("arg0=a,path='/a//'".into()));
    v.push(Op::Names("a.b".into())); // 41
    v.push(Op::Names("/a".into()));
    v.push(Op::Sigs("a{s(v)}".into()));
    v.push(Op::Sigs("a{s(v}".into()));
    v.push(Op::Access(fd.clone())); // 45
    v.push(Op::Access(with_body(vec![V::St(vec![V::Y(1); 254])], true)));
    v.push(Op::Build(":1.2".into(), "/a".into(), "a.b".into()));
    v.push(Op::Fail(call(), "a.b".into(), "text".into()));
    v.push(Op::Make(vec![V::Y(1), V::Y(2)], p(b'y'))); // 49
    v.push(Op::Make(vec![V::Y(1), s("")], p(b's')));
    v.push(Op::Strip("/a/b/c".into(), "/a".into()));
    v.push(Op::Args(63, "a'b".into()));
    v.push(Op::Args(64, "a".into()));
    v
}

fn arrays(n: usize) -> T {
    let mut t = p(b'y');
    for _ in 0..n {
        t = arr(t);
    }
    t
}

/// Indices into the core pool of the operations used in the longest sequences.
const KEY: [usize; 13] = [0, 1, 2, 5, 6, 8, 9, 11, 14, 21, 24, 28, 38];

/// A large pool: near-collisions of every kind.
fn wide_pool(th: bool) -> Vec<Op> {
    let mut v = core_pool();
    for m in corpus() {
        let w = bytes_of(&m);
        v.push(Op::Dec(w.bytes[..w.bytes.len() / 2].to_vec(), w.fds.clone()));
        let mut x = w.bytes.clone();
        let n = x.len();
        x[n - 1] ^= 0x41;
        v.push(Op::Dec(x, w.fds.clone()));
        v.push(Op::DecPlain(w.bytes.clone()));
        v.push(Op::Dec(w.bytes, w.fds));
        v.push(Op::EncPlain(m.clone()));
        v.push(Op::Enc(m));
    }
    let al: &[u8] = b"ysva(){}";
    for i in 0..words_upto(8, if th { 3 } else { 2 }) {
        let x: Vec<u8> = word(i, 8).iter().map(|k| al[*k]).collect();
        v.push(Op::Sig(x.clone()));
        v.push(Op::Ty(x));
    }
    for t in types_upto(if th { 4 } else { 3 }, b"yv", 3) {
        v.push(Op::PrintTy(vec![t.clone(), p(b's')]));
        v.push(Op::Value(default_value(&t, 0, 0)));
        v.push(Op::Value(default_value(&t, 1, 0)));
    }
    for x in ["a", "a.b", "a.c", "b.a", "A.b", ":1.2", ":1.3", ":", "a-b.c", "", "a..b", ".a", "a.", "1.a", "a.1", "é.a"] {
        for k in 0..4 {
            v.push(Op::Name(k, x.into()));
        }
    }
    for a in ["/", "/a", "/a/b", "/b", "//", "/a/", ""] {
        for b in ["a", "b", "", "a/b", "-"] {
            v.push(Op::Path(a.into(), b.into()));
        }
    }
    for x in ["type='signal'", "type='error'", "type='x'", "arg0='a'", "arg1='a'", "arg0='b'", "arg63='a'", "arg64='a'", "arg0path='/a'", "arg1path='/a'", "arg0path='/b'", "arg0namespace='a.b'", "path='/a'", "path='/b'", "path_namespace='/a'", "sender=':1.2'", "destination=':1.2'", "eavesdrop='true'", "eavesdrop='false'", "", "'", "arg0='", "arg0='\\", "a=b", "type=signal,member=M", "member=M,type=signal", "member=M,member=N"] {
        v.push(Op::Parse(x.into()));
    }
    let rs = [
        Rule::Type(1),
        Rule::Type(4),
        Rule::Path("/a".into()),
        Rule::Path("/a/b".into()),
        Rule::PathNs("/a".into()),
        Rule::PathNs("/a/b".into()),
        Rule::Arg(0, "a".into()),
        Rule::Arg(1, "a".into()),
        Rule::Arg(0, "b".into()),
        Rule::ArgPath(0, "/a".into()),
        Rule::ArgPath(1, "/a".into()),
        Rule::Member("M".into()),
        Rule::Member("N".into()),
        Rule::Interface("a.b".into()),
        Rule::Sender(":1.2".into()),
        Rule::Dest(":1.2".into()),
        Rule::Arg0Ns("a.b".into()),
    ];
    for r in &rs {
        v.push(Op::Print(vec![r.clone()]));
        for (ty, pth, a0, a1) in [(1, "/a", "a", "b"), (4, "/a/b", "b", "a"), (4, "/ab", "a.b", "/a"), (2, "/", "/a/b", "a.b.c")] {
            let mut m = with_body(vec![s(a0), s(a1)], true);
            m.ty = ty;
            m.path = Some(pth.into());
            m.sender = Some(":1.2".into());
            v.push(Op::Match(vec![r.clone()], m));
        }
    }
    for x in ["arg0='a", "arg0=a", "arg0=\\'", "arg0='a''", "path=/a", "path=a", "arg0='", "type='signal", "member='M'", "x", "=", ""] {
        v.push(Op::One(x.into()));
    }
    for x in ["a", "a.b", ":1.2", "/", "/a/", "", "a-b", "a-b.c", "é"] {
        v.push(Op::Names(x.into()));
    }
    for x in ["y", "yy", "a", "a{yv}", "(y)", "()", "", "é"] {
        v.push(Op::Sigs(x.into()));
    }
    for m in corpus().into_iter().take(8) {
        v.push(Op::Access(m.clone()));
        v.push(Op::Fail(m, "x.y".into(), "t".into()));
    }
    for (a, b, c) in [("a.b", "/", "c.d"), (":1.2", "/a", "c.e"), (":", "/a", "c.e"), ("a.b", "a", "c.d")] {
        v.push(Op::Build(a.into(), b.into(), c.into()));
    }
    for t in types_upto(2, b"ysv", 2) {
        v.push(Op::Make(vec![default_value(&t, 1, 0), V::Y(1)], t.clone()));
        v.push(Op::Make(vec![default_value(&t, 1, 0)], t.clone()));
        v.push(Op::Make(vec![], t));
    }
    for body in [vec![s(&"z".repeat(70_000))], vec![V::A(p(b'u'), (0..5000).map(V::U).collect())], (0..250).map(|k| V::N(k)).collect(), vec![var(s(&"'".repeat(3000)))]] {
        let m = with_body(body, false);
        let w = bytes_of(&m);
        v.push(Op::Enc(m.clone()));
        v.push(Op::Dec(w.bytes.clone(), vec![]));
        v.push(Op::Dec(w.bytes[..w.bytes.len() - 1].to_vec(), vec![]));
    }
    v.push(Op::Print(vec![Rule::Arg(0, "'".repeat(3000))]));
    v.push(Op::Parse(format!("arg0='{}", "\\'".repeat(3000))));
    v.push(Op::Parse((0..200).map(|k| format!("arg{}={}", k % 64, k)).collect::<Vec<_>>().join(",")));
    for (a, b) in [("/", "/"), ("/a", "/"), ("/a/b", "/a"), ("/ab", "/a"), ("/a", "/a/b")] {
        v.push(Op::Strip(a.into(), b.into()));
    }
    for n in [0, 1, 62, 63, 64, 65, 1000] {
        v.push(Op::Args(n, "a".into()));
        v.push(Op::Args(n, "'".into()));
    }
    for k in 0..8 {
        for m in corpus().into_iter().take(8) {
            v.push(Op::Reply(m, k));
        }
    }
    v
}

// --- fresh processes ---------------------------------------------------------------------------

/// `--ops <tier> <plan>`: a plan is a list of "<index>[<thread letter>]" or "r<index>x<count>".
/// Prints the hash of every result.
pub fn child(args: &[String]) {
    let th = args.first().map_or(false, |a| a == "thorough");
    let plan = args.get(1).cloned().unwrap_or_default();
    install_quiet();
    if let Some((k, o)) = plan.strip_prefix('d').and_then(|r| r.split_once('o')) {
        run_domain(th, k.parse().unwrap(), o.parse().unwrap());
        return;
    }
    // The pool is built from model values only: no call of the code under test happens here.
    let pool: Vec<Op> = if args.get(2).map_or(false, |x| x == "core") { core_pool() } else { wide_pool(th) };
    if let Some(r) = plan.strip_prefix('r') {
        let (i, n) = r.split_once('x').unwrap();
        println!("{}", repeat(&pool, i.parse().unwrap(), n.parse().unwrap()));
        return;
    }
    let pool = Arc::new(pool);
    let mut threads: Vec<Option<(mpsc::Sender<usize>, mpsc::Receiver<u64>)>> = vec![None, None, None];
    let mut out = String::new();
    for step in plan.split(',') {
        let (num, letter) = match step.as_bytes().last() {
            Some(c) if c.is_ascii_lowercase() => (&step[..step.len() - 1], (c - b'a') as usize),
            _ => (step, usize::MAX),
        };
        let i: usize = num.parse().unwrap();
        let h = if letter == usize::MAX {
            result(&pool[i])
        } else {
            let t = threads[letter].get_or_insert_with(|| {
                let (a, b) = mpsc::channel::<usize>();
                let (c, d) = mpsc::channel::<u64>();
                let pool = pool.clone();
                std::thread::spawn(move || {
                    for i in b {
                        let _ = c.send(result(&pool[i]));
                    }
                });
                (a, d)
            });
            t.0.send(i).unwrap();
            t.1.recv().unwrap()
        };
        out.push_str(&format!("{:016x}\n", h));
    }
    print!("{}", out);
}

/// Run op i n times; after the counts around every power of two, run all operations once. The
/// result of each must never change within the process, and the last line lists the hashes.
fn repeat(pool: &[Op], i: usize, n: u64) -> String {
    let first = result(&pool[i]);
    let mut base: Vec<Option<u64>> = vec![None; pool.len()];
    for k in 1..=n {
        let h = result(&pool[i]);
        if h != first {
            return format!("changed {} itself after {}", i, k);
        }
        if k.is_power_of_two() || (k + 1).is_power_of_two() || (k % 10_000 == 0) {
            for j in 0..pool.len() {
                let h = result(&pool[j]);
                match base[j] {
                    None => base[j] = Some(h),
                    Some(x) if x == h => (),
                    _ => return format!("changed {} after {} of {}", j, k, i),
                }
            }
        }
    }
    let hs: Vec<String> = base.iter().map(|h| format!("{:016x}", h.unwrap_or(0))).collect();
    format!("ok {:016x} {}", first, hs.join(" "))
}

// --- argument domains in different orders ------------------------------------------------------

pub struct Domain {
    what: &'static str,
    n: u64,
    op: Box<dyn Fn(u64) -> Option<Op> + Send + Sync>,
}
fn domain(what: &'static str, n: u64, op: impl Fn(u64) -> Option<Op> + Send + Sync + 'static) -> Domain {
    Domain { what, n, op: Box::new(op) }
}

/// Large argument domains, one operation each. Built from model values only.
fn domains(th: bool) -> Vec<Domain> {
    let mut v = Vec::new();
    let al: &'static [u8] = b"ysva(){}";
    let n = words_upto(8, if th { 7 } else { 6 });
    let w8 = move |i: u64| -> Vec<u8> { word(i, 8).iter().map(|k| al[*k]).collect() };
    v.push(domain("parse signatures, all words over {y s v a ( ) { }}", n, move |i| Some(Op::Sig(w8(i)))));
    v.push(domain("parse types, all words over {y s v a ( ) { }}", n, move |i| Some(Op::Ty(w8(i)))));
    let tys = Arc::new({
        let mut t = types_upto(4, b"ynqiuxtdbsogh", 3);
        t.extend(types_exact(5, if th { b"yusvh" } else { b"yu" }, 3));
        t
    });
    let nt = tys.len() as u64;
    let t1 = tys.clone();
    v.push(domain("decode variants of all types", nt, move |i| {
        let w = bytes_of(&with_body(vec![V::Y(1), var(default_value(&t1[i as usize], 1, i)), V::Y(2)], i % 3 == 0));
        Some(Op::Dec(w.bytes, w.fds))
    }));
    let t1 = tys.clone();
    v.push(domain("encode variants of all types", nt, move |i| Some(Op::Enc(with_body(vec![var(default_value(&t1[i as usize], 1, i)), V::Y(2)], i % 3 == 0)))));
    let t1 = tys.clone();
    v.push(domain("decode bodies of all types", nt, move |i| {
        let w = bytes_of(&with_body(vec![default_value(&t1[i as usize], 2, i), V::Y(2)], i % 3 == 0));
        Some(Op::Dec(w.bytes, w.fds))
    }));
    let t1 = tys.clone();
    v.push(domain("encode bodies of all types", nt, move |i| Some(Op::Enc(with_body(vec![default_value(&t1[i as usize], 2, i), V::Y(2)], i % 3 == 0)))));
    let t1 = tys.clone();
    v.push(domain("print all types", nt, move |i| Some(Op::PrintTy(vec![t1[i as usize].clone()]))));
    let t1 = tys.clone();
    v.push(domain("types of empty arrays and values", nt * 2, move |i| {
        let t = t1[(i / 2) as usize].clone();
        Some(Op::Value(if i % 2 == 0 { V::A(t, vec![]) } else { default_value(&t, 1, i) }))
    }));
    let nal: &'static [u8] = b"aB0._-:";
    let nn = words_upto(7, if th { 6 } else { 5 });
    v.push(domain("names, all words over {a B 0 . _ - :}", nn * 4, move |i| Some(Op::Name((i % 4) as u8, word(i / 4, 7).iter().map(|k| nal[*k] as char).collect()))));
    let npa = words_upto(4, 5);
    let pw = |i: u64| -> String { word(i, 4).iter().map(|k| b"aB/_"[*k] as char).collect() };
    v.push(domain("paths and appended elements", npa * 85, move |i| Some(Op::Path(format!("/{}", pw(i / 85)), pw(i % 85)))));
    let toks: &'static [&'static str] = &["arg0", "arg1", "path", "=", "'", ",", "\\", "a", "/"];
    let nr = words_upto(9, if th { 6 } else { 5 });
    v.push(domain("match-rule texts, all token sequences", nr, move |i| Some(Op::Parse(word(i, 9).iter().map(|k| toks[*k]).collect()))));
    v.push(domain("single match-rule texts, all token sequences", nr, move |i| Some(Op::One(word(i, 9).iter().map(|k| toks[*k]).collect()))));
    v.push(domain("all kinds of names, all words over {a B 0 . _ - : /}", words_upto(8, 5), move |i| Some(Op::Names(word(i, 8).iter().map(|k| b"aB0._-:/"[*k] as char).collect()))));
    v.push(domain("removed prefixes, all pairs of paths over {a B / _}", 341 * 341, move |i| Some(Op::Strip(format!("/{}", pw(i / 341)), format!("/{}", pw(i % 341))))));
    let nq = words_upto(5, 6);
    v.push(domain("written rules, all arguments over {' \\ , a b}", nq * 2, move |i| Some(Op::Print(vec![Rule::Arg((i % 2) as usize, word(i / 2, 5).iter().map(|k| "'\\,ab".as_bytes()[*k] as char).collect())]))));
    let nm = words_upto(3, 4);
    v.push(domain("matching, argument and path rules over words", nm * nm * 4, move |i| {
        let d = digits(i, &[4, nm, nm]);
        let wd = |k: usize, al: &[u8]| -> String { word(k as u64, 3).iter().map(|k| al[*k] as char).collect() };
        let path = |k: usize| -> String {
            let x = wd(k, b"ab/").split('/').filter(|x| !x.is_empty()).collect::<Vec<_>>().join("/");
            format!("/{}", x)
        };
        let (r, b) = match d[0] {
            0 => (Rule::Arg(0, wd(d[1], b"ab.")), s(&wd(d[2], b"ab."))),
            1 => (Rule::ArgPath(0, path(d[1])), V::O(path(d[2]))),
            2 => (Rule::PathNs(path(d[1])), V::Y(1)),
            _ => (Rule::Arg0Ns(format!("a.b{}", d[1])), s(&format!("a.b{}", d[2]))),
        };
        let mut m = with_body(vec![b], true);
        m.path = Some(path(d[2]));
        Some(Op::Match(vec![r], m))
    }));
    let cor: Arc<Vec<Wire>> = Arc::new(corpus().iter().map(bytes_of).filter(|w| w.bytes.len() < 400).collect());
    let offs: Arc<Vec<(usize, usize)>> = Arc::new(cor.iter().enumerate().flat_map(|(k, w)| (0..w.bytes.len()).map(move |o| (k, o))).collect());
    let subs: &'static [u8] = if th { &[1, 2, 4, 8, 16, 0x20, 0x40, 0x80, 0xff, 0x55] } else { &[1, 0x80, 0x20] };
    let nsub = subs.len() as u64;
    v.push(domain("decode one-byte corruptions", offs.len() as u64 * nsub, move |i| {
        let (k, o) = offs[(i / nsub) as usize];
        let mut x = cor[k].bytes.clone();
        x[o] ^= subs[(i % nsub) as usize];
        Some(Op::Dec(x, cor[k].fds.clone()))
    }));
    v.push(domain("decode messages that differ in one number", 65536 * 3, move |i| {
        let mut m = with_body(vec![V::U(1), s("x")], i % 3 == 0);
        let x = (i / 3) as u32;
        match i % 3 {
            0 => m.body[0] = V::U(x.wrapping_mul(0x0001_0001)),
            1 => m.serial = x,
            _ => m.rserial = Some(x),
        }
        Some(Op::Dec(bytes_of(&m).bytes, vec![]))
    }));
    v.push(domain("encode messages that differ in one number", 65536 * 3, move |i| {
        let mut m = with_body(vec![V::U(1), s("x")], i % 3 == 0);
        let x = (i / 3) as u32;
        match i % 3 {
            0 => m.body[0] = V::U(x.wrapping_mul(0x0001_0001)),
            1 => m.serial = x,
            _ => m.fds = Some(x),
        }
        Some(Op::Enc(m))
    }));
    let nst = words_upto(2, if th { 16 } else { 14 });
    v.push(domain("encode all strings over {a b}", nst, move |i| Some(Op::Enc(with_body(vec![s(&word(i, 2).iter().map(|k| b"ab"[*k] as char).collect::<String>())], true)))));
    v.push(domain("decode all strings over {a b}", nst, move |i| {
        let t: String = word(i, 2).iter().map(|k| b"ab"[*k] as char).collect();
        Some(Op::Dec(bytes_of(&with_body(vec![s(&t), V::O(format!("/{}", if t.is_empty() { "x" } else { &t }))], i % 2 == 0)).bytes, vec![]))
    }));
    let nfd = words_upto(5, if th { 6 } else { 5 });
    v.push(domain("encode descriptor sequences", nfd, move |i| Some(Op::Enc(with_body(word(i, 5).iter().map(|k| V::H(*k as i32 * 7)).collect(), true)))));
    v.push(domain("decode with descriptor lists", nfd * 3, move |i| {
        let w = bytes_of(&with_body((0..=i % 3).map(|k| V::H(k as i32)).collect(), true));
        Some(Op::Dec(w.bytes, word(i / 3, 5).iter().map(|k| *k as i32 * 7).collect()))
    }));
    let names: Arc<Vec<String>> = Arc::new((0..4000u32).map(|k| format!("n{}.m{}", k % 63, k / 63)).collect());
    v.push(domain("messages and replies with different names", 4000 * 8, move |i| {
        let n = &names[(i / 8) as usize];
        let mut m = call();
        m.sender = Some(n.clone());
        m.iface = Some(format!("i.{}", n));
        m.path = Some(format!("/{}", n.replace('.', "/")));
        m.serial = (i / 8) as u32;
        Some(match i % 8 {
            0 => Op::Reply(m, 0),
            1 => Op::Reply(m, 1),
            2 => Op::Reply(m, 2),
            3 => Op::Reply(m, 3),
            4 => Op::Reply(m, 4),
            5 => Op::Enc(m),
            6 => Op::Dec(bytes_of(&m).bytes, vec![]),
            _ => Op::Reply(m, 7),
        })
    }));
    v.push(domain("messages with every combination of header numbers and addresses, encoded, decoded, replied to", 2 * 4 * 3 * 4 * 4 * 4 * 3 * 3 * 2 * 5, move |i| {
        let d = digits(i, &[5, 2, 4, 3, 4, 4, 4, 3, 3, 2]);
        let mut m = empty_m();
        m.le = d[1] == 0;
        m.ty = d[2] as u8 + 1;
        m.flags = [0, 1, 7][d[3]];
        m.ver = [0, 1, 2, 255][d[4]];
        m.serial = [0, 1, 9, u32::MAX][d[5]];
        m.rserial = [None, Some(0), Some(9), Some(u32::MAX)][d[6]];
        m.dest = [None, Some(":1.7"), Some("a.b")][d[7]].map(|x| x.to_string());
        m.sender = [None, Some(":1.7"), Some("c.d")][d[8]].map(|x| x.to_string());
        m.path = Some("/a".into());
        m.member = Some("M".into());
        m.iface = Some("a.b".into());
        m.ename = Some("a.b".into());
        if d[9] == 1 {
            m.body = vec![V::Y(1), V::Tt(2)];
        }
        if !required_ok(&m) {
            return None;
        }
        Some(match d[0] {
            0 => Op::Enc(m),
            1 => Op::Dec(bytes_of(&m).bytes, vec![]),
            k => Op::Reply(m, [0, 1, 5][k - 2]),
        })
    }));
    let sp = Arc::new(special_messages());
    v.push(domain("messages with the names D-Bus gives a meaning, encoded, decoded, replied to, matched", sp.len() as u64 * 4, move |i| {
        let mut m = sp[(i / 4) as usize].clone();
        m.le = i / 4 % 3 > 0;
        Some(match i % 4 {
            0 => Op::Enc(m),
            1 => Op::Dec(bytes_of(&m).bytes, vec![]),
            2 => Op::Reply(m, (i / 4 % 8) as u8),
            _ => Op::Match(vec![Rule::Type(m.ty), Rule::Interface(SP_NAMES[(i / 4 % 14) as usize].into()), Rule::Path(SP_PATHS[(i / 4 % 6) as usize].into())], m),
        })
    }));
    v
}

const ORDERS: usize = 4;
/// The k-th index in an order: ascending, descending, evens before odds backwards, a large stride.
fn ordered(order: usize, k: u64, n: u64) -> u64 {
    match order {
        0 => k,
        1 => n - 1 - k,
        2 => {
            let h = (n + 1) / 2;
            if k < h {
                2 * k
            } else {
                2 * (n - 1 - k) + 1
            }
        }
        _ => {
            let mut g = (n / 3).max(1) | 1;
            fn gcd(a: u64, b: u64) -> u64 {
                if b == 0 {
                    a
                } else {
                    gcd(b, a % b)
                }
            }
            while gcd(g, n) != 1 {
                g += 2;
            }
            (k as u128 * g as u128 % n as u128) as u64
        }
    }
}

/// Child: run a whole domain in one order on one thread, print the result hashes by index.
fn run_domain(th: bool, which: usize, order: usize) {
    use std::io::Write;
    let d = domains(th).swap_remove(which);
    let mut out = vec![0u64; d.n as usize];
    for k in 0..d.n {
        let i = ordered(order, k, d.n);
        if let Some(op) = (d.op)(i) {
            out[i as usize] = result(&op);
        }
    }
    let bytes: Vec<u8> = out.iter().flat_map(|x| x.to_le_bytes()).collect();
    let _ = std::io::stdout().write_all(&bytes);
    let _ = std::io::stdout().flush();
}

fn spawn_domain(th: bool, which: usize, order: usize) -> Result<Vec<u64>, String> {
    let exe = std::env::current_exe().map_err(|e| format!("explorer: {}", e)).unwrap();
    let mut c = Command::new(exe);
    c.args(["C18", "--ops", if th { "thorough" } else { "quick" }, &format!("d{}o{}", which, order), "domain"]);
    let o = match c.stdin(Stdio::null()).stderr(Stdio::null()).output() {
        Ok(o) => o,
        Err(e) => panic!("explorer: cannot start a process: {}", e),
    };
    if !o.status.success() {
        return Err(format!("the process running the domain {} in order {} died: {}", which, order, o.status));
    }
    Ok(o.stdout.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
}

fn spawn(th: bool, plan: &str, core: bool) -> Result<String, String> {
    let exe = std::env::current_exe().map_err(|e| format!("explorer: {}", e)).unwrap();
    let mut c = Command::new(exe);
    c.args(["C18", "--ops", if th { "thorough" } else { "quick" }, plan, if core { "core" } else { "wide" }]);
    let o = c.stdin(Stdio::null()).stderr(Stdio::null()).output();
    let o = match o {
        Ok(o) => o,
        Err(e) => panic!("explorer: cannot start a process: {}", e),
    };
    if !o.status.success() {
        return Err(format!("the process running the operations {} died: {}", plan, o.status));
    }
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}

static CORE: OnceLock<Vec<u64>> = OnceLock::new();
static WIDE: OnceLock<Vec<u64>> = OnceLock::new();

/// The result of every operation of the pool, each alone in a fresh process.
fn baseline(th: bool, core: bool) -> &'static Vec<u64> {
    let cell = if core { &CORE } else { &WIDE };
    cell.get_or_init(|| {
        let n = if core { core_pool().len() } else { wide_pool(th).len() };
        let next = AtomicUsize::new(0);
        let out: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    let h = match spawn(th, &i.to_string(), core) {
                        Ok(t) => u64::from_str_radix(t.trim(), 16).unwrap_or(0),
                        Err(_) => 1,
                    };
                    out[i].store(h, Ordering::Relaxed);
                });
            }
        });
        out.into_iter().map(|x| x.into_inner()).collect()
    })
}

fn name_op(op: &Op) -> String {
    let t = match op {
        Op::Enc(m) => format!("encode {:?}", m),
        Op::EncPlain(m) => format!("encode (without descriptors) {:?}", m),
        Op::DecPlain(x) => format!("decode (without descriptors) {}", hex(x)),
        Op::Dec(x, f) => format!("decode {} {:?}", hex(x), f),
        Op::Sig(x) => format!("parse signature {}", String::from_utf8_lossy(x)),
        Op::Ty(x) => format!("parse type {}", String::from_utf8_lossy(x)),
        Op::PrintTy(t) => format!("print type {}", sigstr(t)),
        Op::Name(k, x) => format!("parse name {} {}", k, x),
        Op::Path(a, b) => format!("path {} append {}", a, b),
        Op::Parse(x) => format!("parse rule {}", x),
        Op::Print(r) => format!("print rule {:?}", r),
        Op::Match(r, m) => format!("match {:?} with {:?}", r, m),
        Op::Reply(m, k) => format!("reply {} to {:?}", k, m),
        Op::Value(v) => format!("type of {:?}", v),
        Op::One(x) => format!("parse single rule {}", x),
        Op::Names(x) => format!("parse as every name {}", x),
        Op::Sigs(x) => format!("parse as text signature {}", x),
        Op::Access(m) => format!("accessors of {:?}", m),
        Op::Build(a, b, c) => format!("build messages {} {} {}", a, b, c),
        Op::Fail(m, a, b) => format!("error replies {} {} to {:?}", a, b, m),
        Op::Make(v, t) => format!("make containers of {:?} {:?}", v, t),
        Op::Strip(a, b) => format!("strip {} by {}", a, b),
        Op::Args(n, x) => format!("argument rules {} {}", n, x),
    };
    let mut k = t.len().min(300);
    while !t.is_char_boundary(k) {
        k -= 1;
    }
    t[..k].to_string()
}

/// Run a plan in a fresh process and compare each result with the baseline.
fn plan_case(th: bool, steps: &[(usize, Option<char>)], ctx: &mut Ctx) -> CaseResult {
    let base = baseline(th, true);
    let plan: Vec<String> = steps.iter().map(|(i, c)| format!("{}{}", i, c.map_or(String::new(), |c| c.to_string()))).collect();
    let plan = plan.join(",");
    ctx.eval();
    ctx.input(hash_bytes(plan.as_bytes()));
    let out = spawn(th, &plan, true)?;
    let lines: Vec<&str> = out.lines().collect();
    if lines.len() != steps.len() {
        return Err(format!("the process running {} gave {} results", plan, lines.len()));
    }
    let mut st = 1u64;
    rec::start(st);
    for (k, (i, c)) in steps.iter().enumerate() {
        st = mix(mix(st, *i as u64), c.map_or(0, |c| c as u64));
        rec::step(*i as u64, st);
        if u64::from_str_radix(lines[k], 16) != Ok(base[*i]) {
            let pool = core_pool();
            let hist: Vec<String> = steps[..k].iter().map(|(j, c)| format!("{} [{}]", name_op(&pool[*j]), c.unwrap_or('-'))).collect();
            return Err(format!("the result of ({}) differs from its result in a fresh process, after: {}", name_op(&pool[*i]), hist.join("; ")));
        }
    }
    ctx.trace();
    ctx.outcome("sequence in a fresh process");
    ctx.sample(|| format!("plan {} in a fresh process", plan));
    Ok(())
}

fn check_op(pool: &[Op], base: &[u64], i: usize, hist: &dyn Fn() -> String) -> CaseResult {
    let t = text_of(&pool[i]);
    if hash_bytes(t.as_bytes()) != base[i] {
        let mut k = t.len().min(400);
        while !t.is_char_boundary(k) {
            k -= 1;
        }
        return Err(format!("the result of ({}) differs from its result in a fresh process: now {}; after {}", name_op(&pool[i]), &t[..k], hist()));
    }
    Ok(())
}

// --- scheduler ---------------------------------------------------------------------------------

pub struct Alloc;

/// The crate is built with a callback at every basic block, load and store (see run.sh).
pub const EVERY_STEP: bool = option_env!("MC_STEPS").is_some();
/// What counts as a preemption point: allocator calls and accesses to global memory, or also every
/// basic block and every other access outside of the stack.
const SHARED: usize = 1;
const EVERY: usize = 2;

struct Sched {
    level: AtomicUsize,
    turn: AtomicUsize,
    done: [AtomicBool; 2],
    points: [AtomicUsize; 2],
    /// Preempt thread t at its point number at[t] (usize::MAX: never).
    at: [AtomicUsize; 2],
    broken: AtomicBool,
    /// Where the blocked thread was (in its own preemption points) when the schedule broke.
    blocked_at: AtomicUsize,
    /// /proc/thread-self/stat of the two threads, to see that one sleeps on a lock.
    stat: [OnceLock<File>; 2],
}
impl Sched {
    fn new() -> Sched {
        let z = || AtomicUsize::new(0);
        Sched { level: z(), turn: z(), done: [AtomicBool::new(false), AtomicBool::new(false)], points: [z(), z()], at: [z(), z()], broken: AtomicBool::new(false), blocked_at: z(), stat: [OnceLock::new(), OnceLock::new()] }
    }
    fn register(&self, t: usize) {
        // thread-self is resolved when it is opened.
        if let Ok(f) = File::open("/proc/thread-self/stat") {
            let _ = self.stat[t].set(f);
        }
    }
    /// Whether thread t sleeps (nothing under the scheduler does any I/O: it waits for a lock).
    /// No allocation here: this runs inside the allocator.
    fn asleep(&self, t: usize) -> bool {
        let mut b = [0u8; 128];
        match self.stat[t].get().map(|f| f.read_at(&mut b, 0)) {
            Some(Ok(n)) => match b[..n].iter().rposition(|c| *c == b')') {
                Some(k) => b[..n].get(k + 2) == Some(&b'S'),
                None => false,
            },
            _ => false,
        }
    }
    fn reset(&self, level: usize, a: usize, b: usize) {
        self.level.store(level, Ordering::SeqCst);
        self.turn.store(0, Ordering::SeqCst);
        for t in 0..2 {
            self.done[t].store(false, Ordering::SeqCst);
            self.points[t].store(0, Ordering::SeqCst);
        }
        self.at[0].store(a, Ordering::SeqCst);
        self.at[1].store(b, Ordering::SeqCst);
        self.broken.store(false, Ordering::SeqCst);
    }
    /// Wait until it is thread t's turn. When the other thread makes no progress for a while (it
    /// waits for a lock this thread holds), run anyway: that is one more legal schedule.
    fn wait(&self, t: usize) {
        let mut n = 0u32;
        let mut t0: Option<Instant> = None;
        let mut slept: Option<Instant> = None;
        let mut seen = usize::MAX;
        let mut start: Option<Instant> = None;
        while self.turn.load(Ordering::SeqCst) != t && !self.done[1 - t].load(Ordering::SeqCst) {
            n += 1;
            if n < 2000 {
                std::hint::spin_loop();
            } else {
                std::thread::yield_now();
                if n % 64 == 0 {
                    // It may also wait in a loop of its own.
                    let spinning = start.get_or_insert_with(Instant::now).elapsed() > Duration::from_secs(2);
                    let p = self.points[1 - t].load(Ordering::SeqCst);
                    match t0 {
                        Some(x) if p == seen || spinning => {
                            if !self.asleep(1 - t) {
                                slept = None;
                            } else if slept.is_none() {
                                slept = Some(Instant::now());
                            }
                            if spinning || x.elapsed() > Duration::from_millis(300) || slept.is_some_and(|s| s.elapsed() > Duration::from_micros(200)) {
                                self.blocked_at.store(p, Ordering::SeqCst);
                                self.broken.store(true, Ordering::SeqCst);
                                self.turn.store(t, Ordering::SeqCst);
                                return;
                            }
                        }
                        _ => {
                            t0 = Some(Instant::now());
                            slept = None;
                            seen = p;
                        }
                    }
                }
            }
        }
    }
    fn point(&self, t: usize) {
        let k = self.points[t].fetch_add(1, Ordering::SeqCst);
        if k == self.at[t].load(Ordering::SeqCst) && !self.done[1 - t].load(Ordering::SeqCst) && !self.broken.load(Ordering::SeqCst) {
            self.turn.store(1 - t, Ordering::SeqCst);
            self.wait(t);
        }
    }
    fn finish(&self, t: usize) {
        self.done[t].store(true, Ordering::SeqCst);
        self.turn.store(1 - t, Ordering::SeqCst);
    }
}

thread_local! {
    static CUR: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    /// C23: what a measured call has left to spend, in basic blocks of the crate and bytes asked of the allocator.
    static METER: Cell<bool> = const { Cell::new(false) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

/// Run `f` and count the basic blocks of the crate it passes through (0 unless EVERY_STEP) and the bytes
/// it asks of the allocator. More than the given numbers end the process: the supervisor reports the case.
pub fn metered<R>(max_steps: u64, max_bytes: u64, f: impl FnOnce() -> R) -> (R, u64, u64) {
    LEFT.with(|c| c.set(max_steps));
    BYTES.with(|c| c.set(max_bytes));
    METER.with(|c| c.set(true));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            METER.with(|c| c.set(false));
        }
    }
    let off = Off;
    let r = f();
    drop(off);
    (r, max_steps - LEFT.with(|c| c.get()), max_bytes - BYTES.with(|c| c.get()))
}
#[cold]
fn spent(what: &str) -> ! {
    METER.with(|c| c.set(false));
    eprintln!("a measured call takes too {}", what);
    std::process::abort()
}
#[inline]
fn step() {
    if METER.with(|c| c.get()) {
        LEFT.with(|c| match c.get().checked_sub(1) {
            Some(x) => c.set(x),
            None => spent("many steps"),
        })
    }
}
#[inline]
fn charge(n: usize) {
    if METER.try_with(|c| c.get()).unwrap_or(false) {
        BYTES.with(|c| match c.get().checked_sub(n as u64) {
            Some(x) => c.set(x),
            None => spent("much memory"),
        })
    }
}
/// Below a frame of the explorer on the stacks of its threads.
const STACK: usize = 1 << 20;
extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline]
fn hook(level: usize) {
    let (s, t) = CUR.try_with(|c| c.get()).unwrap_or((std::ptr::null(), 0));
    if !s.is_null() {
        unsafe {
            if level <= (*s).level.load(Ordering::Relaxed) {
                (*s).point(t)
            }
        }
    }
}

#[inline]
fn access(p: usize) {
    let here = 0u8;
    let sp = &here as *const u8 as usize;
    // Far more of the stack than any call needs, up to far above the frame of `scheduled`.
    if p.wrapping_sub(sp.wrapping_sub(STACK / 4)) < STACK / 2 {
        return;
    }
    let global = unsafe { p >= &__data_start as *const u8 as usize && p < &_end as *const u8 as usize };
    hook(if global { SHARED } else { EVERY })
}
macro_rules! accesses {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(p: usize) {
            access(p)
        }
    )* };
}
accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    step();
    hook(EVERY)
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        charge(l.size());
        balance(l.size() as i64);
        hook(SHARED);
        allocator(|| System.alloc(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        allocator(|| System.dealloc(p, l));
        balance(-(l.size() as i64));
        hook(SHARED);
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        charge(l.size());
        balance(l.size() as i64);
        hook(SHARED);
        allocator(|| System.alloc_zeroed(l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        charge(n);
        balance(n as i64 - l.size() as i64);
        hook(SHARED);
        allocator(|| System.realloc(p, l, n))
    }
}

/// Run `p` as thread t under the scheduler; the result's text is built outside of it.
fn scheduled(s: &Sched, t: usize, p: Prep) -> u64 {
    s.wait(t);
    CUR.with(|c| c.set((s as *const Sched, t)));
    let r = no_panic(|| exec(p));
    CUR.with(|c| c.set((std::ptr::null(), 0)));
    s.finish(t);
    let text = match no_panic(|| match r {
        Ok(d) => format!("{:?}", d),
        Err(e) => format!("panic: {}", e),
    }) {
        Ok(t) => t,
        Err(e) => format!("panic: {}", e),
    };
    hash_bytes(text.as_bytes())
}

/// Pairs with more than this many two-preemption schedules get one preemption only.
fn cap(th: bool) -> usize {
    if th {
        200_000
    } else {
        20_000
    }
}
fn every_cap(th: bool) -> usize {
    if th {
        100_000
    } else {
        2_000
    }
}

fn conc_case(a: usize, b: usize, th: bool, level: usize, cap: usize, ctx: &mut Ctx) -> CaseResult {
    let pool = core_pool();
    let base = baseline(th, true);
    let s = Arc::new(Sched::new());
    let (tx, rx) = mpsc::channel::<()>();
    let (rtx, rrx) = mpsc::channel::<u64>();
    let opb = pool[b].clone();
    let s2 = s.clone();
    s.register(0);
    let partner = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        s2.register(1);
        for () in rx {
            let p = prep(&opb);
            let h = scheduled(&s2, 1, p);
            let _ = rtx.send(h);
        }
    });
    let partner = match partner {
        Ok(p) => p,
        Err(e) => panic!("explorer: {}", e),
    };
    // The points of both threads, and whether one of them had to wait for a lock of the other.
    let run = |i: usize, j: usize| -> Result<(usize, usize, bool), String> {
        s.reset(level, i, j);
        let p = prep(&pool[a]);
        let _ = tx.send(());
        let ha = scheduled(&s, 0, p);
        let hb = match rrx.recv() {
            Ok(h) => h,
            Err(_) => panic!("explorer: partner thread gone"),
        };
        for (k, h) in [(a, ha), (b, hb)] {
            if h != base[k] {
                return Err(format!(
                    "the result of ({}) differs from its result alone in a fresh process, when thread 1 runs ({}) and thread 2 runs ({}), thread 1 preempted at its point {} and thread 2 at {} ({})",
                    name_op(&pool[k]), name_op(&pool[a]), name_op(&pool[b]), i as i64, j as i64,
                    if level == SHARED { "allocator calls and accesses to global memory" } else { "every basic block, allocator call and memory access" }
                ));
            }
        }
        Ok((s.points[0].load(Ordering::SeqCst), s.points[1].load(Ordering::SeqCst), s.broken.load(Ordering::SeqCst)))
    };
    let mut blocked = 0u64;
    let r = (|| -> Result<(usize, usize, u64), String> {
        // The first time, something may be built that later calls find.
        run(usize::MAX, usize::MAX)?;
        let (na, nb, _) = run(usize::MAX, usize::MAX)?;
        let mut n = 2u64;
        if std::env::var("MC_POINTS").is_ok() {
            eprintln!("{} {}: {} {}", a, b, na, nb);
            return Ok((na, nb, n));
        }
        for i in 0..na {
            let (_, _, b) = run(i, usize::MAX)?;
            n += 1;
            if i % 16 == 0 {
                ctx.alive();
            }
            // When the second thread has to wait for a lock of the preempted one, it never gets to
            // its later points before the first goes on: those schedules are this one.
            let end = if b { s.blocked_at.load(Ordering::SeqCst).min(nb) } else { nb };
            blocked += b as u64;
            for j in 0..if na * nb <= cap { end } else { 0 } {
                blocked += run(i, j)?.2 as u64;
                n += 1;
            }
        }
        Ok((na, nb, n))
    })();
    drop(tx);
    let _ = partner.join();
    let (na, nb, n) = r?;
    let st = mix(mix(a as u64, b as u64), level as u64);
    rec::start(mix(st, 77));
    for i in 0..na {
        rec::step(i as u64, mix(st, 1000 + i as u64));
        for j in 0..if na * nb <= cap { nb } else { 0 } {
            rec::step(j as u64, mix(mix(st, 1000 + i as u64), j as u64));
        }
    }
    for _ in 0..n {
        ctx.eval();
        ctx.trace();
    }
    *ctx.outcomes.entry("schedule of two concurrent calls").or_insert(0) += n;
    if blocked > 0 {
        *ctx.outcomes.entry("schedule in which a call waits for a lock of the other").or_insert(0) += blocked;
    }
    ctx.sample(|| format!("operations {} and {}: {} and {} preemption points, {} schedules", a, b, na, nb, n));
    Ok(())
}

// --- one message object ------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Add(u8),
    Serial(u32),
    Encode,
    EncodeFds,
    Reply,
    Match,
    CloneMutate,
    SplitClone,
    Signature,
}
const STEPS: &[Step] = &[Step::Add(0), Step::Add(1), Step::Add(2), Step::Add(3), Step::Serial(5), Step::Encode, Step::EncodeFds, Step::Reply, Step::Match, Step::CloneMutate, Step::SplitClone, Step::Signature];

fn add(m: &mut Message, k: u8) {
    m.add_value(match k {
        0 => Value::Uint32(7),
        1 => Value::String("st".into()),
        2 => Value::UnixFD(9),
        _ => {
            // not encodable: structs nested 33 deep
            let mut v = Value::Byte(1);
            for _ in 0..33 {
                v = nest(v);
            }
            v
        }
    });
}
fn nest(v: Value) -> Value {
    use dbus_message_parser::value::Struct;
    Value::Struct(Struct::try_from(vec![v]).unwrap())
}

fn object_case(start: &M, seq: &[usize], ctx: &mut Ctx) -> CaseResult {
    let rules = to_rules(&[Rule::Type(1), Rule::Member("Get".into()), Rule::Arg(0, "st".into())]).unwrap();
    let mut m = match to_message(start) {
        Some(m) => m,
        None => return Err("explorer: start message".into()),
    };
    let mut muts: Vec<Step> = Vec::new();
    let fresh = |muts: &[Step]| {
        let mut f = to_message(start).unwrap();
        for s in muts {
            match s {
                Step::Add(k) => add(&mut f, *k),
                Step::Serial(n) => f.set_serial(*n),
                _ => (),
            }
        }
        f
    };
    let mut st = 5u64;
    rec::start(st);
    for k in seq {
        let step = STEPS[*k];
        match step {
            Step::Add(k) => {
                add(&mut m, k);
                muts.push(step);
            }
            Step::Serial(n) => {
                m.set_serial(n);
                muts.push(step);
            }
            Step::Encode => {
                let a = format!("{:?}", m.encode());
                if a != format!("{:?}", fresh(&muts).encode()) {
                    return Err(format!("encoding after {:?} differs from encoding a fresh message built the same way: {}", names(seq), a));
                }
            }
            Step::EncodeFds => {
                let a = format!("{:?}", m.encode_with_fds());
                if a != format!("{:?}", fresh(&muts).encode_with_fds()) {
                    return Err(format!("encoding after {:?} differs from encoding a fresh message built the same way: {}", names(seq), a));
                }
            }
            Step::Reply => {
                let a = format!("{:?}", (m.method_return(), m.unknown_path(), m.invalid_args("x".into())));
                let f = fresh(&muts);
                if a != format!("{:?}", (f.method_return(), f.unknown_path(), f.invalid_args("x".into()))) {
                    return Err(format!("replies after {:?} differ: {}", names(seq), a));
                }
            }
            Step::Match => {
                let f = fresh(&muts);
                let a: Vec<bool> = rules.iter().map(|r| r.matching_rule(&m)).collect();
                let b: Vec<bool> = rules.iter().map(|r| r.matching_rule(&f)).collect();
                if a != b {
                    return Err(format!("matching after {:?}: {:?}, fresh {:?}", names(seq), a, b));
                }
            }
            Step::CloneMutate => {
                let mut c = m.clone();
                let _ = c.encode();
                c.add_value(Value::String("clone".into()));
                c.set_serial(77);
                let _ = c.encode();
            }
            Step::SplitClone => {
                let a = format!("{:?}", m.clone().split());
                if a != format!("{:?}", fresh(&muts).split()) {
                    return Err(format!("splitting after {:?} differs: {}", names(seq), a));
                }
            }
            Step::Signature => {
                let a = format!("{:?}", m.get_signature());
                if a != format!("{:?}", fresh(&muts).get_signature()) {
                    return Err(format!("the signature after {:?} differs: {}", names(seq), a));
                }
            }
        }
        st = mix(st, *k as u64 + 1);
        rec::step(*k as u64, st);
    }
    // Nothing but the mutations may have changed the message.
    let f = fresh(&muts);
    if m != f || format!("{:?}", m) != format!("{:?}", f) {
        return Err(format!("after {:?} the message is {:?}, a fresh one built by the mutations alone {:?}", names(seq), m, f));
    }
    if format!("{:?}", m.encode_with_fds()) != format!("{:?}", f.encode_with_fds()) {
        return Err(format!("after {:?} the message encodes differently from a fresh one: {:?}", names(seq), m));
    }
    ctx.eval();
    ctx.trace();
    ctx.input(st);
    ctx.outcome("object history");
    Ok(())
}
fn names(seq: &[usize]) -> Vec<Step> {
    seq.iter().map(|k| STEPS[*k]).collect()
}

// --- families ----------------------------------------------------------------------------------

pub fn families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let core = Arc::new(core_pool());
    let n = core.len() as u64;

    fs.push(family("pairs, fresh process", format!("every pair of {} operations, on one thread and on two threads, in a fresh process", n), n * n * 2, move |i, ctx| {
        let d = digits(i, &[2, n, n]);
        let (x, y) = if d[0] == 0 { (None, None) } else { (Some('a'), Some('b')) };
        plan_case(th, &[(d[1], x), (d[2], y)], ctx)
    }));
    let k = if th { n } else { KEY.len() as u64 };
    let pats: u64 = if th { 4 } else { 2 };
    fs.push(family("triples, fresh process", format!("every triple of {} operations, under {} assignments to two threads, in a fresh process", k, pats), k * k * k * pats, move |i, ctx| {
        let d = digits(i, &[pats, k, k, k]);
        let ix = |x: usize| if th { x } else { KEY[x] };
        let p = ["---", "aba", "aab", "abb"][d[0]];
        let steps: Vec<(usize, Option<char>)> = p.chars().zip(&d[1..]).map(|(c, x)| (ix(*x), if c == '-' { None } else { Some(c) })).collect();
        plan_case(th, &steps, ctx)
    }));
    let rep: u64 = if th { 1_000_000 } else { 66_000 };
    fs.push(family("repetitions", format!("each of {} operations {} times in a fresh process, all others after the counts around every power of two", n, rep), n, move |i, ctx| {
        let base = baseline(th, true);
        ctx.eval();
        ctx.input(i);
        let n = if matches!(i, 6) { rep / 10 } else { rep };
        let out = spawn(th, &format!("r{}x{}", i, n), true)?;
        let f: Vec<&str> = out.split_whitespace().collect();
        if f.first() != Some(&"ok") {
            return Err(format!("repeating ({}): a result changed: {}", name_op(&core_pool()[i as usize]), out.trim()));
        }
        let h = |x: &str| u64::from_str_radix(x, 16).unwrap_or(0);
        if h(f[1]) != base[i as usize] || (0..base.len()).any(|j| h(f[2 + j]) != base[j]) {
            return Err(format!("repeating ({}): a result differs from its result in a fresh process", name_op(&core_pool()[i as usize])));
        }
        ctx.trace();
        ctx.outcome("repetition");
        Ok(())
    }));

    let wide = Arc::new(wide_pool(th));
    let nw = wide.len() as u64;
    let w = wide.clone();
    fs.push(family("wide pairs", format!("every pair of {} operations, the first on a fresh thread and after each of the others", nw), nw, move |i, ctx| {
        let base = baseline(th, false);
        let i = i as usize;
        let r = std::thread::scope(|sc| {
            let h = std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(sc, || -> CaseResult {
                check_op(&w, base, i, &|| "other operations (this one first on its thread)".to_string())?;
                for j in 0..w.len() {
                    check_op(&w, base, j, &|| format!("({}) and other operations", name_op(&w[i])))?;
                    check_op(&w, base, i, &|| format!("({}) and ({})", name_op(&w[i]), name_op(&w[j])))?;
                    ctx.eval();
                    ctx.trace();
                    let s = mix(i as u64, 900);
                    ctx.input(mix(s, j as u64));
                }
                Ok(())
            });
            match h {
                Ok(h) => h.join().unwrap_or_else(|_| Err("the thread died".into())),
                Err(e) => panic!("explorer: cannot start a thread: {}", e),
            }
        });
        r?;
        let s = mix(i as u64, 900);
        rec::start(9);
        rec::step(i as u64, s);
        for j in 0..w.len() {
            rec::step(j as u64, mix(s, j as u64));
            rec::step(i as u64, s);
        }
        ctx.outcome("pairs on a fresh thread");
        Ok(())
    }));
    let depth = if th { 4 } else { 3 };
    let c = core.clone();
    let total = n.pow(depth);
    fs.push(family("sequences in one process", format!("every sequence of {} of {} operations, one after the other in a long-lived process with 8 threads", depth, n), total, move |i, ctx| {
        let base = baseline(th, true);
        let mut x = i;
        let mut st = 3u64;
        let mut seq = Vec::new();
        for _ in 0..depth {
            let k = (x % n) as usize;
            x /= n;
            check_op(&c, base, k, &|| format!("the operations {:?} of the core pool (index {})", seq, i))?;
            seq.push(k);
            rec::start(st);
            st = mix(st, k as u64);
            rec::step(k as u64, st);
        }
        ctx.eval();
        ctx.trace();
        ctx.outcome("sequence in one process");
        Ok(())
    }));

    let doms = domains(th);
    let nd = doms.len() as u64;
    let sizes: u64 = doms.iter().map(|d| d.n).sum();
    let list: Vec<&str> = doms.iter().map(|d| d.what).collect();
    let bound = format!("{} argument domains ({} operations in all), each run completely in one process in {} orders (ascending, descending, folded, strided): every result must be the same in every order. {}", nd, sizes, ORDERS, list.join("; "));
    let doms = Arc::new(doms);
    fs.push(family("argument domains", bound, nd, move |i, ctx| {
        let d = &doms[i as usize];
        let mut first: Vec<u64> = Vec::new();
        for order in 0..ORDERS {
            ctx.alive();
            let r = spawn_domain(th, i as usize, order)?;
            if r.len() as u64 != d.n {
                return Err(format!("the process running '{}' in order {} gave {} of {} results", d.what, order, r.len(), d.n));
            }
            if order == 0 {
                first = r;
            } else if let Some(k) = (0..d.n as usize).find(|k| r[*k] != first[*k]) {
                let op = (d.op)(k as u64).unwrap();
                return Err(format!("the result of ({}) depends on what was done before in the process: domain '{}', index {}, orders 0 and {}", name_op(&op), d.what, k, order));
            }
        }
        // the same within this process, next to the other domains
        for k in 0..d.n {
            if k & 255 == 0 {
                ctx.alive();
            }
            if let Some(op) = (d.op)(k) {
                if result(&op) != first[k as usize] {
                    return Err(format!("the result of ({}) among other calls on other threads differs from its result in a process of its own domain ('{}', index {})", name_op(&op), d.what, k));
                }
            }
            ctx.input(mix(i << 32 | k, 31));
        }
        let st = mix(i, 0xd0);
        rec::start(st);
        for k in 0..d.n {
            rec::step(k, st);
        }
        ctx.evals += d.n * (ORDERS as u64 + 1);
        ctx.traces += d.n * ORDERS as u64;
        *ctx.outcomes.entry("result independent of the order").or_insert(0) += d.n;
        Ok(())
    }));

    let kd = if th { 6 } else { 5 };
    let nk = (KEY.len() as u64).pow(kd);
    let c = core.clone();
    fs.push(family("longer sequences", format!("every sequence of {} of {} operations in a long-lived process", kd, KEY.len()), nk, move |i, ctx| {
        let base = baseline(th, true);
        let mut x = i;
        for _ in 0..kd {
            let k = KEY[(x % KEY.len() as u64) as usize];
            x /= KEY.len() as u64;
            check_op(&c, base, k, &|| format!("sequence index {}", i))?;
        }
        ctx.eval();
        ctx.trace();
        Ok(())
    }));

    let starts: Arc<Vec<M>> = Arc::new({
        let mut a = call();
        a.sender = Some(":1.9".into());
        let b = with_body(vec![V::H(4), s("q")], false);
        vec![a, b]
    });
    let d = if th { 5 } else { 4 };
    let ns = STEPS.len() as u64;
    let cnt = words_upto(ns, d);
    fs.push(family("object histories", format!("every sequence of up to {} of {} operations on one message (2 start messages), against a fresh message built by its mutations alone", d, ns), cnt * 2, move |i, ctx| {
        let seq = word(i / 2, ns);
        object_case(&starts[(i % 2) as usize], &seq, ctx)
    }));

    let k = core_pool().len() as u64;
    fs.push(
        family("concurrent calls", format!("every pair of {} operations on two threads, every schedule with at most two preemptions at {} (one for the few pairs with more than {} such schedules)", k, if EVERY_STEP { "allocator calls and accesses to global memory" } else { "allocator calls" }, cap(th)), k * k, move |i, ctx| {
            let d = digits(i, &[k, k]);
            conc_case(d[0], d[1], th, SHARED, cap(th), ctx)
        })
        .threads(4),
    );
    if EVERY_STEP {
        fs.push(
            family("concurrent calls, every step", format!("every pair of {} operations on two threads, every schedule with one preemption at any basic block, allocator call or memory access of the crate (outside of the stack), with two where those are at most {}", k, every_cap(th)), k * k, move |i, ctx| {
                let d = digits(i, &[k, k]);
                conc_case(d[0], d[1], th, EVERY, every_cap(th), ctx)
            })
            .threads(4),
        );
    }
    fs
}
