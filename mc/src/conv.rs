//! Conversions between the reference model and the crate's public types, and exact comparison.

use crate::model::*;
use dbus_message_parser as dmp;
use dmp::match_rule::{Arg, ArgPath, MatchRule};
use dmp::message::{Message, MessageFlags, MessageHeader, MessageHeaderFields, MessageType};
use dmp::value::{Array, Bus, Error, Interface, Member, ObjectPath, Struct, Type, UniqueConnectionName, Value};
use std::convert::TryFrom;

pub fn to_type(t: &T) -> Type {
    match t {
        T::P(c) => match c {
            b'y' => Type::Byte,
            b'b' => Type::Boolean,
            b'n' => Type::Int16,
            b'q' => Type::Uint16,
            b'i' => Type::Int32,
            b'u' => Type::Uint32,
            b'x' => Type::Int64,
            b't' => Type::Uint64,
            b'd' => Type::Double,
            b's' => Type::String,
            b'o' => Type::ObjectPath,
            b'g' => Type::Signature,
            b'h' => Type::UnixFD,
            _ => Type::Variant,
        },
        T::A(t) => Type::Array(Box::new(to_type(t))),
        T::St(ts) => Type::Struct(ts.iter().map(to_type).collect()),
        T::De(kv) => Type::DictEntry(Box::new((to_type(&kv.0), to_type(&kv.1)))),
    }
}
pub fn type_eq(a: &Type, b: &T) -> bool {
    match (a, b) {
        (Type::Byte, T::P(b'y'))
        | (Type::Boolean, T::P(b'b'))
        | (Type::Int16, T::P(b'n'))
        | (Type::Uint16, T::P(b'q'))
        | (Type::Int32, T::P(b'i'))
        | (Type::Uint32, T::P(b'u'))
        | (Type::Int64, T::P(b'x'))
        | (Type::Uint64, T::P(b't'))
        | (Type::Double, T::P(b'd'))
        | (Type::String, T::P(b's'))
        | (Type::ObjectPath, T::P(b'o'))
        | (Type::Signature, T::P(b'g'))
        | (Type::UnixFD, T::P(b'h'))
        | (Type::Variant, T::P(b'v')) => true,
        (Type::Array(a), T::A(b)) => type_eq(a, b),
        (Type::Struct(a), T::St(b)) => types_eq(a, b),
        (Type::DictEntry(a), T::De(b)) => type_eq(&a.0, &b.0) && type_eq(&a.1, &b.1),
        _ => false,
    }
}
pub fn types_eq(a: &[Type], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| type_eq(a, b))
}

/// None when a public constructor refuses (judged by the properties on those constructors).
pub fn to_value(v: &V) -> Option<Value> {
    Some(match v {
        V::Y(x) => Value::Byte(*x),
        V::B(x) => Value::Boolean(*x),
        V::N(x) => Value::Int16(*x),
        V::Q(x) => Value::Uint16(*x),
        V::I(x) => Value::Int32(*x),
        V::U(x) => Value::Uint32(*x),
        V::X(x) => Value::Int64(*x),
        V::Tt(x) => Value::Uint64(*x),
        V::D(x) => Value::Double(f64::from_bits(*x)),
        V::S(s) => Value::String(s.clone()),
        V::O(s) => Value::ObjectPath(ObjectPath::try_from(s.as_str()).ok()?),
        V::G(ts) => Value::Signature(ts.iter().map(to_type).collect()),
        V::H(x) => Value::UnixFD(*x),
        V::A(t, vs) => Value::Array(Array::new(to_values(vs)?, to_type(t)).ok()?),
        V::St(vs) => Value::Struct(Struct::try_from(to_values(vs)?).ok()?),
        V::De(kv) => Value::DictEntry(Box::new((to_value(&kv.0)?, to_value(&kv.1)?))),
        V::Va(v) => Value::Variant(Box::new(to_value(v)?)),
    })
}
pub fn to_values(vs: &[V]) -> Option<Vec<Value>> {
    vs.iter().map(to_value).collect()
}

pub fn value_eq(a: &Value, b: &V) -> bool {
    match (a, b) {
        (Value::Byte(a), V::Y(b)) => a == b,
        (Value::Boolean(a), V::B(b)) => a == b,
        (Value::Int16(a), V::N(b)) => a == b,
        (Value::Uint16(a), V::Q(b)) => a == b,
        (Value::Int32(a), V::I(b)) => a == b,
        (Value::Uint32(a), V::U(b)) => a == b,
        (Value::Int64(a), V::X(b)) => a == b,
        (Value::Uint64(a), V::Tt(b)) => a == b,
        (Value::Double(a), V::D(b)) => a.to_bits() == *b,
        (Value::String(a), V::S(b)) => a == b,
        (Value::ObjectPath(a), V::O(b)) => {
            let s: &str = a.as_ref();
            s == b
        }
        (Value::Signature(a), V::G(b)) => types_eq(a, b),
        (Value::UnixFD(a), V::H(b)) => a == b,
        (Value::Array(a), V::A(t, b)) => type_eq(a.get_type(), t) && values_eq(a.as_ref(), b),
        (Value::Struct(a), V::St(b)) => values_eq(a.as_ref(), b),
        (Value::DictEntry(a), V::De(b)) => value_eq(&a.0, &b.0) && value_eq(&a.1, &b.1),
        (Value::Variant(a), V::Va(b)) => value_eq(a, b),
        _ => false,
    }
}
pub fn values_eq(a: &[Value], b: &[V]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| value_eq(a, b))
}

pub fn mtype(t: u8) -> Option<MessageType> {
    Some(match t {
        1 => MessageType::MethodCall,
        2 => MessageType::MethodReturn,
        3 => MessageType::Error,
        4 => MessageType::Signal,
        _ => return None,
    })
}
pub fn mtype_num(t: MessageType) -> u8 {
    match t {
        MessageType::MethodCall => 1,
        MessageType::MethodReturn => 2,
        MessageType::Error => 3,
        MessageType::Signal => 4,
    }
}
pub fn mflags(f: u8) -> MessageFlags {
    let mut r = MessageFlags::empty();
    if f & 1 != 0 {
        r |= MessageFlags::NO_REPLY_EXPECTED;
    }
    if f & 2 != 0 {
        r |= MessageFlags::NO_AUTO_START;
    }
    if f & 4 != 0 {
        r |= MessageFlags::ALLOW_INTERACTIVE_AUTHORIZATION;
    }
    r
}

fn opt<'a, X: TryFrom<&'a str>>(o: &'a Option<String>) -> Option<Option<X>> {
    match o {
        None => Some(None),
        Some(s) => X::try_from(s.as_str()).ok().map(Some),
    }
}

pub fn to_fields(m: &M) -> Option<MessageHeaderFields> {
    let mut f = MessageHeaderFields::default();
    f.path = opt::<ObjectPath>(&m.path)?;
    f.interface = opt::<Interface>(&m.iface)?;
    f.member = opt::<Member>(&m.member)?;
    f.error_name = opt::<Error>(&m.ename)?;
    f.reply_serial = m.rserial;
    f.destination = opt::<Bus>(&m.dest)?;
    f.sender = opt::<Bus>(&m.sender)?;
    f.signature = m.sig.as_ref().map(|ts| ts.iter().map(to_type).collect());
    f.unix_fds = m.fds;
    Some(f)
}
pub fn to_header(m: &M) -> Option<MessageHeader> {
    MessageHeader::new(m.le, mtype(m.ty)?, mflags(m.flags), m.ver, m.serial, to_fields(m)?).ok()
}
pub fn to_message(m: &M) -> Option<Message> {
    Some(Message::new(to_header(m)?, to_values(&m.body)?))
}

fn want<A: PartialEq + std::fmt::Debug>(what: &str, got: A, exp: A) -> Result<(), String> {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, expected {:?}", what, got, exp))
    }
}

/// The fields that the accessors show.
pub fn fields_equal(msg: &Message, m: &M) -> Result<(), String> {
    want("type", mtype_num(msg.get_type()), m.ty)?;
    want("serial", msg.get_serial(), m.serial)?;
    want("path", msg.get_path().map(|x| x.to_string()), m.path.clone())?;
    want("interface", msg.get_interface().map(|x| x.to_string()), m.iface.clone())?;
    want("member", msg.get_member().map(|x| x.to_string()), m.member.clone())?;
    want("error name", msg.get_error_name().map(|x| x.to_string()), m.ename.clone())?;
    want("reply serial", msg.get_reply_serial(), m.rserial)?;
    want("destination", msg.get_destination().map(|x| x.to_string()), m.dest.clone())?;
    want("sender", msg.get_sender().map(|x| x.to_string()), m.sender.clone())?;
    want("unix fds", msg.get_unix_fds(), m.fds)?;
    for (b, o) in [(&msg.get_destination(), &m.dest), (&msg.get_sender(), &m.sender)] {
        if let (Some(b), Some(o)) = (b, o) {
            want("unique name kind", matches!(b, Bus::UniqueConnectionName(_)), o.starts_with(':'))?;
        }
    }
    Ok(())
}

/// Exact equality of a decoded or built message with the model's message, including flags,
/// version, endianness and the signature field left in the header.
pub fn message_equal(msg: &Message, m: &M) -> Result<(), String> {
    fields_equal(msg, m)?;
    if !values_eq(msg.get_body(), &m.body) {
        return Err(format!("body: got {:?}, expected {:?}", short(&format!("{:?}", msg.get_body())), short(&format!("{:?}", m.body))));
    }
    // Flags, version and endianness have no accessor: compare the whole header, which splitting
    // gives with the body's signature filled in.
    let mut em = m.clone();
    em.sig = if m.body.is_empty() { None } else { Some(m.body.iter().map(vtype).collect()) };
    let exp = match to_header(&em) {
        Some(h) => h,
        None => return Err("the expected header cannot be constructed".to_string()),
    };
    let (got, _) = msg.clone().split().map_err(|e| format!("split failed: {}", e))?;
    if got != exp {
        return Err(format!("header: got {:?}, expected {:?}", got, exp));
    }
    Ok(())
}

pub fn short(s: &str) -> String {
    if s.len() > 400 {
        let mut k = 400;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    } else {
        s.to_string()
    }
}

// --- match rules -----------------------------------------------------------------------------

pub fn to_rule(r: &Rule) -> Option<MatchRule> {
    Some(match r {
        Rule::Type(t) => MatchRule::Type(mtype(*t)?),
        Rule::Sender(s) => MatchRule::Sender(Bus::try_from(s.as_str()).ok()?),
        Rule::Interface(s) => MatchRule::Interface(Interface::try_from(s.as_str()).ok()?),
        Rule::Member(s) => MatchRule::Member(Member::try_from(s.as_str()).ok()?),
        Rule::Path(s) => MatchRule::Path(ObjectPath::try_from(s.as_str()).ok()?),
        Rule::PathNs(s) => MatchRule::PathNamespace(ObjectPath::try_from(s.as_str()).ok()?),
        Rule::Dest(s) => MatchRule::Destination(UniqueConnectionName::try_from(s.as_str()).ok()?),
        Rule::Arg(n, s) => MatchRule::Arg(Arg::try_from((*n, s.clone())).ok()?),
        Rule::ArgPath(n, s) => MatchRule::ArgPath(ArgPath::from((*n, ObjectPath::try_from(s.as_str()).ok()?))),
        Rule::Arg0Ns(s) => MatchRule::Arg0Namespace(Interface::try_from(s.as_str()).ok()?),
        Rule::Eaves(b) => MatchRule::Eavesdrop(*b),
    })
}
pub fn to_rules(rs: &[Rule]) -> Option<Vec<MatchRule>> {
    rs.iter().map(to_rule).collect()
}
pub fn from_rule(r: &MatchRule) -> Rule {
    match r {
        MatchRule::Type(t) => Rule::Type(mtype_num(*t)),
        MatchRule::Sender(s) => Rule::Sender(s.to_string()),
        MatchRule::Interface(s) => Rule::Interface(s.to_string()),
        MatchRule::Member(s) => Rule::Member(s.to_string()),
        MatchRule::Path(s) => Rule::Path(s.to_string()),
        MatchRule::PathNamespace(s) => Rule::PathNs(s.to_string()),
        MatchRule::Destination(s) => Rule::Dest(s.to_string()),
        MatchRule::Arg(a) => Rule::Arg(a.get_index(), a.get_value().to_string()),
        MatchRule::ArgPath(a) => Rule::ArgPath(a.get_index(), a.get_value().to_string()),
        MatchRule::Arg0Namespace(s) => Rule::Arg0Ns(s.to_string()),
        MatchRule::Eavesdrop(b) => Rule::Eaves(*b),
    }
}
pub fn from_rules(rs: &[MatchRule]) -> Vec<Rule> {
    rs.iter().map(from_rule).collect()
}
