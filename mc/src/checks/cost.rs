//! C23: work and memory are bounded by the input.
//!
//! The crate is built with a callback at every basic block and the harness's allocator counts what is
//! asked of it, so the cost of a call is a number that does not depend on the machine. What std does
//! inside one of its own calls (a shift of a long vector) shows in the processor time of huge inputs,
//! judged with a margin of two orders of magnitude.

use crate::bytesfam::*;
use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::hist::{metered, EVERY_STEP};
use crate::model::*;
use crate::wire::*;
use dbus_message_parser::match_rule::{Arg, ArgPath, MatchRule};
use dbus_message_parser::message::{Message, MessageHeaderFields};
use dbus_message_parser::value::*;
use std::convert::TryFrom;
use std::hint::black_box;

/// A prepared call, and the size of what it is given.
pub type Call = Box<dyn FnOnce()>;

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
fn cpu() -> f64 {
    let mut t = Timespec { s: 0, n: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}

// --- messages of n elements --------------------------------------------------------------------

fn rep(n: usize, t: &str, f: impl Fn(usize) -> V) -> V {
    V::A(parse(t), (0..n).map(f).collect())
}
fn y(k: usize) -> V {
    V::Y(k as u8)
}
pub type Shape = (&'static str, fn(usize) -> Vec<V>);
pub const SHAPES: &[Shape] = &[
    ("ay", |n| vec![rep(n, "y", y)]),
    ("aq", |n| vec![rep(n, "q", |k| V::Q(k as u16))]),
    ("au", |n| vec![rep(n, "u", |k| V::U(k as u32))]),
    ("ax after a byte", |n| vec![V::Y(1), rep(n, "x", |k| V::X(k as i64))]),
    ("ad", |n| vec![rep(n, "d", |k| V::D((k as f64).to_bits()))]),
    ("ab", |n| vec![rep(n, "b", |k| V::B(k % 2 == 0))]),
    ("as, empty strings", |n| vec![rep(n, "s", |_| s(""))]),
    ("as, the same string", |n| vec![rep(n, "s", |_| s("abc"))]),
    ("as, different strings", |n| vec![rep(n, "s", |k| V::S(format!("{:08}", k)))]),
    ("a long string", |n| vec![V::S("a".repeat(n))]),
    ("a long string of two-byte characters", |n| vec![V::S("é".repeat(n))]),
    ("a path of many elements", |n| vec![V::O("/a".repeat(n))]),
    ("a path with a long element", |n| vec![V::O(format!("/{}", "a".repeat(n)))]),
    ("ao", |n| vec![rep(n, "o", |_| V::O("/a/b".into()))]),
    ("ag", |n| vec![rep(n, "g", |_| V::G(parses("a{sv}")))]),
    ("av", |n| vec![rep(n, "v", |k| var(V::U(k as u32)))]),
    ("av of arrays", |n| vec![rep(n, "v", |_| var(V::A(parse("s"), vec![s("x")])))]),
    ("av with long signatures", |n| vec![rep(n, "v", |_| var(V::St((0..60).map(y).collect())))]),
    ("a(ys)", |n| vec![rep(n, "(ys)", |k| V::St(vec![y(k), s("x")]))]),
    ("a(y) deep", |n| vec![rep(n, "((((((((y))))))))", |k| (0..8).fold(y(k), |v, _| V::St(vec![v])))]),
    ("a{sv}", |n| vec![rep(n, "{sv}", |k| V::De(Box::new((V::S(format!("k{}", k)), var(y(k))))))]),
    ("a{sv}, equal keys", |n| vec![rep(n, "{sv}", |k| V::De(Box::new((s("k"), var(y(k))))))]),
    ("a{yy}", |n| vec![rep(n, "{yy}", |k| V::De(Box::new((y(k), y(1)))))]),
    ("aay, empty arrays", |n| vec![rep(n, "ay", |_| V::A(parse("y"), vec![]))]),
    ("aay", |n| vec![rep(n, "ay", |k| V::A(parse("y"), vec![y(k)]))]),
    ("aay in rows", |n| vec![rep(n / 64, "ay", |_| rep(64, "y", y))]),
    ("aay, one of all", |n| vec![V::A(parse("ay"), vec![rep(n, "y", y)])]),
    ("aaas", |n| vec![rep(n, "aas", |_| V::A(parse("as"), vec![V::A(parse("s"), vec![s("a")])]))]),
    ("aa(...), empty arrays", |n| vec![rep(n, &format!("a({})", "y".repeat(60)), |_| V::A(V_LONG.with(|t| t.clone()), vec![]))]),
    ("variant of an array", |n| vec![var(rep(n, "y", y))]),
    ("variants around an array", |n| vec![var(var(var(rep(n, "s", |_| s("a")))))]),
    ("struct around an array", |n| vec![V::St(vec![V::Y(1), V::St(vec![rep(n, "i", |k| V::I(k as i32))])])]),
    ("two arrays", |n| vec![rep(n, "y", y), rep(n, "s", |_| s("q"))]),
    ("the same descriptor", |n| vec![rep(n, "h", |_| V::H(3))]),
    ("two descriptors", |n| vec![rep(n, "h", |k| V::H(3 + (k % 2) as i32))]),
    ("different descriptors", |n| vec![rep(n, "h", |k| V::H(k as i32))]),
    ("many values", |n| (0..n).map(y).collect()),
    ("many strings", |n| (0..n).map(|_| s("x")).collect()),
    ("a struct of many members", |n| vec![V::St((0..n).map(y).collect())]),
];
/// Its place in SHAPES is the one shape whose encoding may cost the square (number of descriptors).
const DIFFERENT: &str = "different descriptors";
/// Shapes without a signature: nothing can decode them.
const UNSIGNED: &[&str] = &["many values", "many strings", "a struct of many members"];
thread_local! {
    static V_LONG: T = parse(&format!("({})", "y".repeat(60)));
}

pub const OPS: &[&str] = &[
    "decode, little endian",
    "decode, big endian",
    "decode before as much again",
    "decode all but the last byte",
    "decode the first half",
    "decode with the last byte changed",
    "decode with a body that is too long",
    "decode with a short descriptor list",
    "encode",
    "encode with descriptors",
    "encode in big endian",
    "clone",
    "compare for equality",
    "order",
    "signature",
    "split",
    "replies",
    "match",
    "add a value",
    "array of the values",
    "struct of the values",
    "types of the values",
    "types printed",
];
fn decode_call(x: Vec<u8>, fds: Vec<i32>) -> Call {
    let x = bytes::Bytes::from(x);
    Box::new(move || {
        black_box(Message::decode_with_fds(x, &fds).is_ok());
    })
}
pub fn message_call(shape: &str, op: usize, mut m: M) -> Option<Call> {
    let unsigned = UNSIGNED.contains(&shape);
    if op < 8 {
        if unsigned {
            return None;
        }
        m.le = op != 1;
        let w = bytes_of(&m);
        let mut x = w.bytes;
        let mut fds = w.fds;
        let n = x.len();
        match op {
            2 => x.extend_from_within(..),
            3 => x.truncate(n - 1),
            4 => x.truncate(n / 2),
            5 => x[n - 1] ^= 0x81,
            6 => {
                x.extend_from_slice(&[0; 16]);
                let k = u32::from_le_bytes(x[4..8].try_into().unwrap()) + 16;
                x[4..8].copy_from_slice(&k.to_le_bytes());
            }
            7 => {
                fds.pop();
            }
            _ => (),
        }
        return Some(decode_call(x, fds));
    }
    if (8..=10).contains(&op) && shape == DIFFERENT {
        return None;
    }
    m.le = op != 10;
    let msg = to_message(&m)?;
    Some(match op {
        8 => Box::new(move || {
            black_box(msg.encode().is_ok());
        }),
        9 | 10 => Box::new(move || {
            black_box(msg.encode_with_fds().is_ok());
        }),
        11 => Box::new(move || {
            black_box(msg.clone());
        }),
        12 => {
            let b = msg.clone();
            Box::new(move || {
                black_box(msg == b);
            })
        }
        13 => {
            let b = msg.clone();
            Box::new(move || {
                black_box(msg.partial_cmp(&b));
                black_box(msg < b);
            })
        }
        14 => Box::new(move || {
            black_box(msg.get_signature().is_ok());
        }),
        15 => Box::new(move || {
            black_box(msg.split().is_ok());
        }),
        16 => Box::new(move || {
            black_box(msg.method_return().is_ok());
            black_box(msg.unknown_path().is_some());
            black_box(msg.unknown_interface().is_some());
            black_box(msg.unknown_member().is_some());
            black_box(msg.unknown_property("p"));
            black_box(msg.invalid_args("r".into()));
        }),
        17 => {
            let mut rules = to_rules(&[
                Rule::Type(1),
                Rule::PathNs("/".into()),
                Rule::Member(m.member.clone()?),
                Rule::Path(m.path.clone()?),
            ])?;
            rules.extend(to_rules(&[Rule::Arg(0, "x".into()), Rule::Arg(63, "x".into()), Rule::ArgPath(0, "/a".into()), Rule::Arg0Ns("a.b".into())])?);
            Box::new(move || {
                black_box(MatchRule::matching_rules(&rules, &msg));
                for r in &rules {
                    black_box(r.matching_rule(&msg));
                }
            })
        }
        18 => {
            let mut msg = msg;
            Box::new(move || {
                msg.add_value(Value::Byte(1));
                msg.set_serial(5);
                black_box(msg);
            })
        }
        19 => {
            let t = to_type(&vtype(&m.body[0]));
            let vs = to_values(&m.body)?;
            Box::new(move || {
                black_box(Array::new(vs, t).map(Vec::from).is_ok());
            })
        }
        20 => {
            let vs = to_values(&m.body)?;
            Box::new(move || {
                if let Ok(x) = Struct::try_from(vs) {
                    black_box(Value::Struct(x).get_type().is_ok());
                }
            })
        }
        21 => Box::new(move || {
            for v in msg.get_body() {
                black_box(v.get_type().is_ok());
            }
        }),
        _ => {
            let ts: Vec<Type> = m.body.iter().map(|v| to_type(&vtype(v))).collect();
            Box::new(move || {
                black_box(Type::from_signature_to_string(&ts).is_ok());
                for t in &ts {
                    black_box(t.get_alignment());
                }
            })
        }
    })
}

// --- texts of n characters ----------------------------------------------------------------------

pub const TEXTS: &[(&str, &str, &str)] = &[
    // before, repeated, after
    ("", "a", ""),
    ("", "a.", "b"),
    ("", "a.b", ""),
    (":1.", "1", ""),
    (":", "1.", "2"),
    ("", "/a", ""),
    ("/", "a", ""),
    ("", "/abc_1", "/"),
    ("/", "a", "é"),
    ("", "/", ""),
    ("", "é", ""),
    ("", "\\", ""),
    ("", "'", ""),
    ("", ",", ""),
    ("", "=", ""),
    ("", " ", ""),
    ("", "y", ""),
    ("", "(", ""),
    ("", "(", ")"),
    ("", "()", ""),
    ("", "(y", ")"),
    ("", "{y", "}"),
    ("", "a{", "yy}"),
    ("", "ay", "z"),
    ("", "type='signal',", "member='M'"),
    ("", "type=signal,", ""),
    ("", "arg0='x',", "arg1=y"),
    ("", "arg0=\\',", "arg1=y"),
    ("", "path='/a',", "x"),
    ("", "path_namespace='/a',sender=':1.1',", "eavesdrop=true"),
    ("arg0='", "x", "'"),
    ("arg0='", "x", ""),
    ("arg0='", ",", "'"),
    ("arg0='", "\\", "'"),
    ("arg0=", "'x'", ""),
    ("arg0=", "''", ""),
    ("arg0=", "\\'", ""),
    ("arg0=", "\\", ""),
    ("arg0=", "é", ""),
    ("arg0=", "x y", ",type=error"),
    ("arg0path='", "/a", "'"),
    ("path='", "/a", "'"),
    ("path='", "/a", "/'"),
    ("arg0namespace='", "a.", "b'"),
    ("member='", "a", "'"),
    ("sender=':1.", "1", "'"),
    ("arg", "0", "='a'"),
    ("arg", "1", "='a'"),
    ("", "k", "='a'"),
];
pub const TEXT_OPS: &[&str] = &[
    "match rules",
    "one match rule",
    "object path from owned text",
    "object path from bytes",
    "signature",
    "signature from bytes",
    "type",
    "interface",
    "member from owned text",
    "error name",
    "bus name",
    "well-known name from bytes",
    "unique name",
    "argument rule",
    "argument path rule",
    "reply with the text",
    "properties of that name",
    "header fields of that text",
    "rules with the text written",
    "comparison with the text",
    "argument matching",
];
pub fn text_call(op: usize, t: String) -> Option<Call> {
    macro_rules! parse_as {
        ($t:ty, $x:expr) => {{
            let x = $x;
            Box::new(move || {
                black_box(<$t>::try_from(x).is_ok());
            })
        }};
        (b $t:ty) => {{
            Box::new(move || {
                black_box(<$t>::try_from(t.as_bytes()).is_ok());
            })
        }};
        (r $t:ty) => {{
            Box::new(move || {
                black_box(<$t>::try_from(t.as_str()).is_ok());
            })
        }};
    }
    Some(match op {
        0 => Box::new(move || {
            black_box(MatchRule::decode(&t).is_ok());
        }),
        1 => parse_as!(r MatchRule),
        2 => parse_as!(ObjectPath, t),
        3 => parse_as!(b ObjectPath),
        4 => Box::new(move || {
            black_box(Type::from_string_to_signature(&t).is_ok());
        }),
        5 => Box::new(move || {
            black_box(Type::from_bytes_to_signature(t.as_bytes()).is_ok());
        }),
        6 => parse_as!(r Type),
        7 => parse_as!(r Interface),
        8 => parse_as!(Member, t),
        9 => parse_as!(r Error),
        10 => parse_as!(Bus, t),
        11 => parse_as!(b WellKnownBusName),
        12 => parse_as!(r UniqueConnectionName),
        13 => Box::new(move || {
            if let Ok(a) = Arg::try_from((1, t)) {
                black_box(MatchRule::Arg(a).to_string());
            }
        }),
        14 => Box::new(move || {
            if let Ok(p) = ObjectPath::try_from(t) {
                black_box(MatchRule::ArgPath(ArgPath::from((1, p))).to_string());
            }
        }),
        15 => {
            let msg = to_message(&call())?;
            Box::new(move || {
                black_box(msg.unknown_property(&t));
                black_box(msg.invalid_args(t.clone()));
                black_box(msg.error(Error::try_from("a.b").unwrap(), t));
            })
        }
        16 => Box::new(move || {
            let (b, o, i) = (Bus::try_from(":1.1").unwrap(), ObjectPath::try_from("/a").unwrap(), Interface::try_from("a.b").unwrap());
            black_box(Message::property_get(b.clone(), o.clone(), i.clone(), &t));
            black_box(Message::property_set(b, o, i, &t, Value::String(t.clone())));
        }),
        17 => {
            let vs: Vec<Vec<Value>> = (2..=7u8)
                .filter(|c| *c != 5)
                .map(|c| vec![Value::Struct(Struct::try_from(vec![Value::Byte(c), Value::Variant(Box::new(Value::String(t.clone())))]).unwrap())])
                .collect();
            Box::new(move || {
                for v in vs {
                    black_box(MessageHeaderFields::try_from(v).is_ok());
                }
            })
        }
        18 => {
            let a = Arg::try_from((0, t)).ok()?;
            let rules = vec![MatchRule::Arg(a), MatchRule::Eavesdrop(true)];
            Box::new(move || {
                black_box(MatchRule::encode(&rules));
            })
        }
        19 => {
            let (a, b, c) = (ObjectPath::try_from("/a").ok()?, Interface::try_from("a.b").ok()?, Member::try_from("a").ok()?);
            let p = ObjectPath::try_from(t.as_str()).ok();
            Box::new(move || {
                black_box(a == *t.as_str() || b == *t.as_str() || c == *t.as_str());
                if let Some(p) = p {
                    black_box(p == *t.as_str());
                    black_box(p.cmp(&p.clone()));
                    black_box(p.to_string());
                }
            })
        }
        _ => {
            let mut m = call();
            m.body = vec![V::S(t.clone())];
            let msg = to_message(&m)?;
            let mut rules = vec![MatchRule::Arg(Arg::try_from((0, t.clone())).ok()?), MatchRule::Arg0Namespace(Interface::try_from("a.b").ok()?)];
            if let Ok(p) = ObjectPath::try_from(t) {
                rules.push(MatchRule::ArgPath(ArgPath::from((0, p))));
            }
            Box::new(move || {
                for r in &rules {
                    black_box(r.matching_rule(&msg));
                }
            })
        }
    })
}

// --- sequences of n steps and lists of n things -------------------------------------------------

pub const STEPS_OF: &[&str] = &[
    "append a short element",
    "append a refused element",
    "add a value",
    "add a value to a reply and read its body",
    "set the serial",
    "rules written",
    "rules matched",
    "header fields, the first repeated",
    "header fields, an unknown one at the end",
    "a path below another",
    "a path beside another",
    "elements below the root",
    "a path namespace",
    "an argument path",
    "an argument that ends in a slash",
    "a namespace of argument 0",
    "many messages of a stream decoded",
    "many partial reads of a stream",
    "argument rules against many arguments",
    "the serial of a message with many values",
    "questions about a message with many values",
    "replies to a message with many values",
    "replies to a message with long names",
    "type names of a long body",
    "path elements looked up",
    "types compared",
];
pub fn steps_call(op: usize, n: usize) -> Option<Call> {
    let path = |n: usize, end: &str| ObjectPath::try_from(format!("{}{}", "/ab".repeat(n), end)).ok();
    Some(match op {
        0 => {
            let mut p = ObjectPath::default();
            Box::new(move || {
                for _ in 0..n {
                    black_box(p.append("ab"));
                }
            })
        }
        1 => {
            let mut p = path(1, "")?;
            Box::new(move || {
                for _ in 0..n {
                    black_box(p.append("a-"));
                }
            })
        }
        2 => {
            let mut msg = to_message(&call())?;
            Box::new(move || {
                for k in 0..n {
                    msg.add_value(Value::Uint32(k as u32));
                }
            })
        }
        3 => {
            let mut msg = to_message(&call())?.method_return().ok()?;
            Box::new(move || {
                for _ in 0..n {
                    msg.add_value(Value::String("ab".into()));
                    black_box(msg.get_body().len());
                    black_box(msg.has_signature());
                    black_box(msg.get_type());
                }
            })
        }
        4 => {
            let mut msg = to_message(&call())?;
            for _ in 0..100 {
                msg.add_value(Value::Byte(1));
            }
            Box::new(move || {
                for k in 0..n {
                    msg.set_serial(k as u32);
                    black_box(msg.get_serial());
                }
            })
        }
        5 => {
            let r: Vec<Rule> = (0..n)
                .map(|k| match k % 5 {
                    0 => Rule::Type(4),
                    1 => Rule::Arg(k % 64, "it's, \\ a".into()),
                    2 => Rule::PathNs("/a/b".into()),
                    3 => Rule::Sender(":1.2".into()),
                    _ => Rule::Eaves(true),
                })
                .collect();
            let r = to_rules(&r)?;
            Box::new(move || {
                black_box(MatchRule::encode(&r));
            })
        }
        6 => {
            let m = call();
            let r: Vec<Rule> = (0..n)
                .map(|k| match k % 3 {
                    0 => Rule::Type(1),
                    1 => Rule::Member(m.member.clone().unwrap()),
                    _ => Rule::PathNs("/".into()),
                })
                .collect();
            let (r, msg) = (to_rules(&r)?, to_message(&m)?);
            Box::new(move || {
                black_box(MatchRule::matching_rules(&r, &msg));
            })
        }
        7 | 8 => {
            let f = |c: u8, v: Value| Value::Struct(Struct::try_from(vec![Value::Byte(c), Value::Variant(Box::new(v))]).unwrap());
            let mut vs = vec![f(5, Value::Uint32(1))];
            if op == 7 {
                vs.extend((0..n).map(|_| f(5, Value::Uint32(1))));
            } else {
                vs.push(f(3, Value::String("a".repeat(n))));
                vs.push(f(200, Value::Uint32(1)));
            }
            Box::new(move || {
                black_box(MessageHeaderFields::try_from(vs).is_ok());
            })
        }
        9 | 10 => {
            let a = path(n, "/x/y")?;
            let b = path(n, if op == 9 { "" } else { "/z" })?;
            Box::new(move || {
                black_box(a.starts_with(&b));
                black_box(b.starts_with(&a));
                black_box(a.strip_prefix_elements(&b).map(|i| i.count()));
                black_box(a == b);
                black_box(a < b);
            })
        }
        11 => {
            let a = path(n, "")?;
            let b = ObjectPath::default();
            Box::new(move || {
                black_box(a.starts_with(&b));
                black_box(a.strip_prefix_elements(&b).map(|i| i.count()));
            })
        }
        12 => {
            let mut m = call();
            m.path = Some(format!("{}/x", "/ab".repeat(n)));
            let msg = to_message(&m)?;
            let r = [MatchRule::PathNamespace(path(n, "")?), MatchRule::PathNamespace(path(n, "/y")?), MatchRule::Path(path(n, "/x")?)];
            Box::new(move || {
                for r in &r {
                    black_box(r.matching_rule(&msg));
                }
            })
        }
        13 | 14 => {
            let mut m = call();
            m.body = vec![if op == 13 { V::O("/ab".repeat(n)) } else { V::S(format!("{}/", "/ab".repeat(n))) }];
            let msg = to_message(&m)?;
            let r = [MatchRule::ArgPath(ArgPath::from((0, path(n, "/y")?))), MatchRule::ArgPath(ArgPath::from((0, path(n, "")?))), MatchRule::ArgPath(ArgPath::from((0, path(1, "")?)))];
            Box::new(move || {
                for r in &r {
                    black_box(r.matching_rule(&msg));
                }
            })
        }
        15 => {
            let mut m = call();
            m.body = vec![V::S(format!("a.b{}", ".ab".repeat(n)))];
            let msg = to_message(&m)?;
            let r = [MatchRule::Arg0Namespace(Interface::try_from("a.b").ok()?), MatchRule::Arg0Namespace(Interface::try_from("a.bc").ok()?)];
            Box::new(move || {
                for r in &r {
                    black_box(r.matching_rule(&msg));
                }
            })
        }
        16 => {
            let w = bytes_of(&with_body(vec![V::U(1), s("x")], true));
            let all = bytes::Bytes::from(w.bytes.repeat(n));
            Box::new(move || {
                let mut rest = all;
                while !rest.is_empty() {
                    match Message::decode(rest.clone()) {
                        Ok((_, k)) => rest = rest.slice(k..),
                        Err(_) => break,
                    }
                }
            })
        }
        18 => {
            let mut m = call();
            m.body = (0..n).map(|k| V::S(format!("{}", k % 10))).collect();
            let msg = to_message(&m)?;
            let r: Vec<Rule> = (0..n)
                .map(|k| match k % 3 {
                    0 => Rule::Arg(k % 64, format!("{}", k % 64 % 10)),
                    1 => Rule::ArgPath(k % 64, "/a".into()),
                    _ => Rule::Arg0Ns("a.b".into()),
                })
                .collect();
            let r = to_rules(&r)?;
            Box::new(move || {
                black_box(MatchRule::matching_rules(&r, &msg));
                for r in &r {
                    black_box(r.matching_rule(&msg));
                }
            })
        }
        19 => {
            let mut m = call();
            m.body = (0..n).map(|_| s("x")).collect();
            let mut msg = to_message(&m)?;
            Box::new(move || {
                for k in 0..n {
                    msg.set_serial(k as u32);
                }
            })
        }
        20 => {
            let mut m = call();
            m.body = (0..n).map(|_| s("x")).collect();
            let msg = to_message(&m)?;
            Box::new(move || {
                for _ in 0..n {
                    black_box((msg.get_type(), msg.get_serial()));
                    black_box((msg.has_path(), msg.has_interface(), msg.has_member(), msg.has_error_name()));
                    black_box((msg.has_reply_serial(), msg.has_destination(), msg.has_sender(), msg.has_signature()));
                    black_box((msg.get_path(), msg.get_interface(), msg.get_member(), msg.get_error_name()));
                    black_box((msg.get_reply_serial(), msg.get_destination(), msg.get_sender()));
                    black_box(msg.get_body());
                }
            })
        }
        21 => {
            let mut m = call();
            m.body = (0..n).map(|_| s("x")).collect();
            let msg = to_message(&m)?;
            Box::new(move || {
                for _ in 0..n {
                    black_box(msg.method_return().is_ok());
                    black_box(msg.unknown_member().is_some());
                    black_box(msg.invalid_args("r".into()));
                }
            })
        }
        22 => {
            let mut m = call();
            m.path = Some("/a".repeat(n));
            let msg = to_message(&m)?;
            Box::new(move || {
                black_box(msg.method_return().is_ok());
                black_box(msg.unknown_path().is_some());
                black_box(msg.unknown_interface().is_some());
                black_box(msg.unknown_member().is_some());
                black_box(msg.encode().is_ok());
            })
        }
        23 => {
            let v: Vec<Value> = to_values(&(0..n).map(|k| V::St(vec![V::Y(k as u8), s("x")])).collect::<Vec<_>>())?;
            Box::new(move || {
                for v in &v {
                    black_box(v.get_type().is_ok());
                }
                black_box(Array::new(v, Type::Struct(vec![Type::Byte, Type::String])).is_ok());
            })
        }
        24 => {
            let a = path(n, "")?;
            Box::new(move || {
                black_box(a.strip_prefix_elements(&ObjectPath::default()).map(|i| i.last().is_some()));
                black_box(AsRef::<str>::as_ref(&a).len());
                black_box(a.to_string());
            })
        }
        25 => {
            let t: Vec<Type> = (0..n).map(|k| if k % 2 == 0 { Type::Struct(vec![Type::Byte; 4]) } else { Type::Array(Box::new(Type::Variant)) }).collect();
            Box::new(move || {
                let u = t.clone();
                black_box(t == u);
                black_box(t < u);
                for t in &t {
                    black_box(t.get_alignment());
                }
            })
        }
        _ => {
            // One message cut n times, each time announcing what it needs.
            let w = bytes_of(&with_body(vec![V::U(1), s("x")], true));
            let all = bytes::Bytes::from(w.bytes);
            Box::new(move || {
                for k in 0..n {
                    black_box(Message::decode(all.slice(..k % all.len())).is_ok());
                }
            })
        }
    })
}

// --- judging ------------------------------------------------------------------------------------

/// Enough for everything linear, and a few seconds when it is not.
fn most(n: usize) -> (u64, u64) {
    (50_000_000 + 20_000 * n as u64, (1 << 30) + 60_000 * n as u64)
}

/// The cost of sixteen times as much is at most forty times the cost (16 for what is linear, another 2
/// for buffers that double, and logarithms).
const TIMES: u64 = 40;
/// Seconds per element, about a hundred times what is usual.
const PER: f64 = 20e-6;
/// The same in at most four variants.
const VARIANTS: u64 = 4;
fn scale(base: usize, times: u64, what: &dyn Fn() -> String, ctx: &mut Ctx, make: &dyn Fn(usize) -> Option<Call>) -> CaseResult {
    let mut cost = [(0u64, 0u64); 2];
    for (k, n) in [base, base * 16].into_iter().enumerate() {
        let f = match make(n) {
            Some(f) => f,
            None => {
                ctx.skip();
                return Ok(());
            }
        };
        ctx.eval();
        ctx.alive();
        let (ms, mb) = most(n);
        let t = cpu();
        let (r, st, by) = metered(ms, mb, || no_panic(f));
        let t = cpu() - t;
        if let Err(p) = r {
            return Err(format!("panic: {} ({} of size {})", p, what(), n));
        }
        if t > 2.0 + PER * n as f64 {
            return Err(format!("{}: {:.1} s of processor time for size {}", what(), t, n));
        }
        cost[k] = (st, by);
        rec_cost(&what(), st, by);
    }
    let [(s1, b1), (s2, b2)] = cost;
    if std::env::var("MC_COST").is_ok() {
        eprintln!("{}\t{}\t{}\t{}\t{}\t{:.1}\t{:.1}", what(), s1, s2, b1, b2, s2 as f64 / (s1 + 500) as f64, b2 as f64 / (b1 + 1024) as f64);
    }
    if s2 > times * (s1 + 500) {
        return Err(format!("{}: {} steps for size {}, but {} for size {}", what(), s1, base, s2, base * 16));
    }
    if b2 > times * (b1 + 1024) {
        return Err(format!("{}: {} bytes allocated for size {}, but {} for size {}", what(), b1, base, b2, base * 16));
    }
    ctx.input(mix(hash_bytes(what().as_bytes()), base as u64));
    ctx.outcome("grows in proportion");
    ctx.trace();
    ctx.sample(|| format!("{}: {} -> {} steps, {} -> {} bytes for {} -> {}", what(), s1, s2, b1, b2, base, base * 16));
    Ok(())
}
/// Abstract states: operation and shape with the magnitude of both costs.
fn rec_cost(what: &str, st: u64, by: u64) {
    let l = |x: u64| 64 - x.leading_zeros() as u64;
    let h = hash_bytes(what.as_bytes());
    rec::start(h);
    rec::step(1, mix(h, l(st) * 64 + l(by)));
}

/// Processor time of a huge input: two seconds, and 40 times what is usual per element.
fn huge(n: usize, per: f64, what: &dyn Fn() -> String, ctx: &mut Ctx, make: &dyn Fn(usize) -> Option<Call>) -> CaseResult {
    let f = match make(n) {
        Some(f) => f,
        None => {
            ctx.skip();
            return Ok(());
        }
    };
    ctx.eval();
    let t = cpu();
    let (ms, mb) = most(n);
    let (r, st, by) = metered(ms, mb, || no_panic(f));
    let t = cpu() - t;
    if let Err(p) = r {
        return Err(format!("panic: {} ({} of size {})", p, what(), n));
    }
    rec_cost(&what(), st, by);
    if std::env::var("MC_COST").is_ok() {
        eprintln!("{}\t{}\t{}\t{}\t{:.3} s", what(), n, st, by, t);
    }
    if t > 2.0 + per * n as f64 {
        return Err(format!("{}: {:.1} s of processor time for size {}", what(), t, n));
    }
    ctx.input(mix(hash_bytes(what().as_bytes()), n as u64));
    ctx.outcome("in time");
    ctx.trace();
    Ok(())
}

/// What decoding a message without long signatures may cost: about six times what it does.
const STEP_BASE: u64 = 4_000;
const STEP_BYTE: u64 = 80;
const BYTE_BASE: u64 = 8_192;
const BYTE_BYTE: u64 = 400;
fn judge_cost(x: &[u8], fds: &[i32], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let (ms, mb) = most(x.len());
    let input = b(x);
    let (r, st, by) = metered(ms, mb, || no_panic(|| black_box(Message::decode_with_fds(input, fds).is_ok())));
    if let Err(p) = r {
        return Err(format!("panic while decoding: {}; bytes {}", p, hex(x)));
    }
    let n = x.len() as u64;
    if st > STEP_BASE + STEP_BYTE * n || by > BYTE_BASE + BYTE_BYTE * n {
        return Err(format!("decoding {} bytes takes {} steps and {} bytes of memory; bytes {}", n, st, by, hex(x)));
    }
    if std::env::var("MC_COST").is_ok() {
        use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
        static A: AtomicU64 = AtomicU64::new(0);
        static B: AtomicU64 = AtomicU64::new(0);
        let (p, q) = (1000 * st / (n + 20), 1000 * by / (n + 20));
        if A.fetch_max(p, Relaxed) < p || B.fetch_max(q, Relaxed) < q {
            eprintln!("{} bytes: {} steps, {} bytes: {}", n, st, by, hex(x));
        }
    }
    if x.len() < 1024 {
        let _ = decode(x, fds); // records the abstract states this input drives the format through
    }
    ctx.input(hash_bytes(x));
    ctx.outcome("within the bound");
    ctx.trace();
    ctx.sample(|| format!("{} bytes: {} steps, {} bytes", n, st, by));
    Ok(())
}

/// One value, nested n deep in one kind of container; 0..=64 are within every limit of one kind or not.
pub fn nest_call(kind: usize, op: usize, n: usize) -> Option<Call> {
    let kinds = ["a", "(", "{", "(y", "v", "a(", "a{", "a(v"];
    let k = kinds[kind];
    if op == 0 {
        // printing and parsing the type
        if k.contains('v') {
            return None;
        }
        let close: String = k.chars().rev().filter_map(|c| match c { '(' => Some(')'), '{' => Some('}'), _ => None }).collect();
        let t = format!("{}y{}", k.replace('{', "{y").repeat(n), close.repeat(n));
        return Some(Box::new(move || {
            if let Ok(t) = Type::try_from(t.as_str()) {
                black_box(Type::from_signature_to_string(std::slice::from_ref(&t)).is_ok());
                black_box(t.get_alignment());
                black_box(t.to_string());
                black_box(t == t.clone());
            }
        }));
    }
    let mut v = V::Y(1);
    let mut ty = p(b'y');
    for _ in 0..n {
        match k {
            "a" => {
                v = V::A(ty.clone(), vec![v.clone(), v]);
                if n > 12 {
                    return None; // two elements each: the value itself is exponential
                }
            }
            "(" => v = V::St(vec![v]),
            "(y" => v = V::St(vec![V::Y(2), v]),
            "{" => v = V::De(Box::new((V::Y(1), v))),
            "v" => v = var(v),
            "a(" => v = V::A(T::St(vec![ty.clone()]), vec![V::St(vec![v])]),
            "a{" => v = V::A(de(p(b'y'), ty.clone()), vec![V::De(Box::new((V::Y(1), v)))]),
            _ => v = V::A(parse("(v)"), vec![V::St(vec![var(v)])]),
        }
        ty = vtype(&v);
    }
    let m = with_body(vec![v], true);
    match op {
        1 => Some(decode_call(bytes_of(&m).bytes, vec![])),
        _ => {
            let msg = to_message(&m)?;
            let b = to_message(&m)?;
            Some(Box::new(move || {
                black_box(msg.encode().is_ok());
                black_box(msg.get_signature().is_ok());
                black_box(msg == b);
                black_box(msg.clone());
            }))
        }
    }
}

pub fn families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    if !EVERY_STEP {
        eprintln!("built without steps: only memory and time are judged");
    }
    let bases: &'static [usize] = if th { &[16, 64, 256, 1024, 4096, 16384] } else { &[64, 1024, 4096] };
    let nb = bases.len() as u64;
    let (no, ns) = (OPS.len() as u64, SHAPES.len() as u64);
    fs.push(family("messages", format!("{} operations on {} message shapes of n elements, n from {:?} to 16 n", no, ns, bases), no * ns * nb, move |i, ctx| {
        let d = digits(i, &[no, ns, nb]);
        let (name, body) = SHAPES[d[1]];
        scale(bases[d[2]], TIMES, &|| format!("{}: {}", OPS[d[0]], name), ctx, &|n| message_call(name, d[0], with_body(body(n), true)))
    }));
    let (np, nt) = (TEXT_OPS.len() as u64, TEXTS.len() as u64);
    fs.push(family("texts", format!("{} operations on {} text shapes (a beginning, a part repeated n times, an end), n from {:?} to 16 n", np, nt, bases), np * nt * nb, move |i, ctx| {
        let d = digits(i, &[np, nt, nb]);
        let (a, r, z) = TEXTS[d[1]];
        scale(bases[d[2]], TIMES, &|| format!("{}: {}({})*{}", TEXT_OPS[d[0]], a, r, z), ctx, &|n| text_call(d[0], format!("{}{}{}", a, r.repeat(n), z)))
    }));
    let nq = STEPS_OF.len() as u64;
    fs.push(family("repetitions", format!("{} operations repeated n times or on lists and paths of n things, n from {:?} to 16 n", nq, bases), nq * nb, move |i, ctx| {
        let d = digits(i, &[nq, nb]);
        scale(bases[d[1]], TIMES, &|| STEPS_OF[d[0]].to_string(), ctx, &|n| steps_call(d[0], n))
    }));
    // signatures: n members, with a fixed number of elements
    fs.push(family("long signatures", "300 elements of a struct of k members, each operation, k from 15 to 240", no * 3, move |i, ctx| {
        let d = digits(i, &[no, 3]);
        scale(15, TIMES, &|| format!("{}: {}", OPS[d[0]], ["structs of k bytes", "empty arrays of structs of k members", "variants of structs of k members"][d[1]]), ctx, &|k| {
            let body = match d[1] {
                0 => rep(300, &format!("({})", "y".repeat(k)), |_| V::St((0..k).map(y).collect())),
                1 => rep(300, &format!("a({})", "y".repeat(k)), |_| V::A(parse(&format!("({})", "y".repeat(k))), vec![])),
                _ => rep(300, "v", |_| var(V::St((0..k).map(y).collect()))),
            };
            message_call("", d[0], with_body(vec![body], true))
        })
    }));
    // nesting: every level may look at the type of what is inside (the square of the depth), not twice at it
    let depths: &'static [usize] = &[2, 4];
    fs.push(family("nesting", "8 kinds of containers nested 2 and 4 deep against 32 and 64: types printed and parsed, decoded, encoded and compared", 8 * 3 * 2, move |i, ctx| {
        let d = digits(i, &[8, 3, 2]);
        scale(depths[d[2]], 300, &|| format!("nesting of kind {} operation {}", d[0], d[1]), ctx, &|n| nest_call(d[0], d[1], n))
    }));
    // Variants may not be looked at twice either: within the limit that is sixteen times the work.
    fs.push(family("variants", format!("{} operations on {} message shapes of 500 elements within 1..=4 variants, against the same in none", no, ns), no * ns, move |i, ctx| {
        let d = digits(i, &[no, ns]);
        let (name, body) = SHAPES[d[1]];
        let what = || format!("{}: {} in variants", OPS[d[0]], name);
        if UNSIGNED.contains(&name) {
            ctx.skip();
            return Ok(());
        }
        let mut first = None;
        for depth in 0..=4 {
            let v: Vec<V> = body(500).into_iter().map(|v| (0..depth).fold(v, |v, _| var(v))).collect();
            let f = match message_call(name, d[0], with_body(v, true)) {
                Some(f) => f,
                None => {
                    ctx.skip();
                    return Ok(());
                }
            };
            ctx.eval();
            ctx.alive();
            let (ms, mb) = most(500);
            let (r, st, by) = metered(ms, mb, || no_panic(f));
            if let Err(p) = r {
                return Err(format!("panic: {} ({} deep)", p, depth));
            }
            rec_cost(&what(), st, by);
            let (s0, b0) = *first.get_or_insert((st, by));
            if std::env::var("MC_COST").is_ok() {
                eprintln!("{}\t{}\t{}\t{}", what(), depth, st as f64 / (s0 + 10_000) as f64, by as f64 / (b0 + 100_000) as f64);
            }
            if st > VARIANTS * (s0 + 10_000) || by > VARIANTS * (b0 + 100_000) {
                return Err(format!("{}: {} steps and {} bytes in none, {} and {} in {}", what(), s0, b0, st, by, depth));
            }
        }
        ctx.input(hash_bytes(what().as_bytes()));
        ctx.outcome("grows in proportion");
        ctx.trace();
        Ok(())
    }));
    let n1: usize = if th { 1 << 18 } else { 1 << 17 };
    fs.push(family("huge messages", format!("{} operations on {} message shapes of {} elements: processor time", no, ns, n1), no * ns, move |i, ctx| {
        let d = digits(i, &[no, ns]);
        let (name, body) = SHAPES[d[1]];
        // so that the messages are of about the same size
        let n1 = if ["long signatures", "(...)", "deep", "av", "aaas", "a{sv}", "as", "ao", "ag", "strings"].iter().any(|x| name.contains(x)) { n1 / 8 } else { n1 };
        huge(n1, PER, &|| format!("{}: {}", OPS[d[0]], name), ctx, &|n| message_call(name, d[0], with_body(body(n), true)))
    }).threads(4));
    let n2: usize = if th { 1 << 21 } else { 1 << 20 };
    fs.push(family("huge texts", format!("{} operations on {} text shapes repeated {} times: processor time", np, nt, n2), np * nt, move |i, ctx| {
        let d = digits(i, &[np, nt]);
        let (a, r, z) = TEXTS[d[1]];
        huge(n2, 4e-6, &|| format!("{}: {}({})*{}", TEXT_OPS[d[0]], a, r, z), ctx, &|n| text_call(d[0], format!("{}{}{}", a, r.repeat(n / r.len()), z)))
    }));
    let n3 = n2 / 4;
    fs.push(family("huge repetitions", format!("{} operations repeated {} times (whole decodes: a sixteenth) or on lists of so many things: processor time", nq, n3), nq, move |i, ctx| {
        let n = if STEPS_OF[i as usize].contains("stream") { n3 / 16 } else { n3 };
        huge(n, 30e-6, &|| STEPS_OF[i as usize].to_string(), ctx, &|n| steps_call(i as usize, n))
    }).threads(4));
    fs.extend(byte_families(judge_cost, th));
    fs
}
