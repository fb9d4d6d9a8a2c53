//! C21: errors are true of the input they refuse.

use crate::bytesfam::*;
use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::wire::*;
use dbus_message_parser::decode::DecodeError;
use dbus_message_parser::encode::EncodeError;
use dbus_message_parser::match_rule::{Arg, MatchRule, MatchRuleError};
use dbus_message_parser::message::{Message, MessageHeader, MessageHeaderError, MessageHeaderFields, MessageHeaderFieldsError, MessageType};
use dbus_message_parser::value::{
    Array, ArrayError, Bus, BusError, Error, ErrorError, Interface, InterfaceError, Member, MemberError, ObjectPath, ObjectPathError, Struct, StructError, Type, TypeError, UniqueConnectionName, UniqueConnectionNameError, Value,
    WellKnownBusName, WellKnownBusNameError,
};
use std::convert::TryFrom;
use std::fmt::Debug;
use std::sync::Arc;

// --- names ---------------------------------------------------------------------------------------

/// What an error says about a name.
#[derive(Debug, PartialEq, Clone)]
enum Says {
    Empty,
    TooLong(usize),
    Char(u8),
    /// the text begins with a digit / dot / letter-like character / no colon
    BeginDigit,
    BeginDot,
    BeginOther,
    /// an element (any) begins with a digit or dot, or is empty
    ElementDigit,
    ElementDot,
    End,
    Elements,
    Colon,
}
use Says::*;

const KINDS: &[&str] = &["interface", "error", "member", "well-known", "unique", "path"];

fn says(kind: usize, x: &[u8]) -> Option<Says> {
    Some(match kind {
        0 => match Interface::try_from(x).err()? {
            InterfaceError::ElementBeginDigit => ElementDigit,
            InterfaceError::ElementBeginDot => ElementDot,
            InterfaceError::EndDot => End,
            InterfaceError::Empty => Empty,
            InterfaceError::Elements => Elements,
            InterfaceError::ExceedMaximum(n) => TooLong(n),
            InterfaceError::InvalidChar(c) => Char(c),
        },
        1 => match Error::try_from(x).err()? {
            ErrorError::ElementBeginDigit => ElementDigit,
            ErrorError::ElementBeginDot => ElementDot,
            ErrorError::EndDot => End,
            ErrorError::Empty => Empty,
            ErrorError::Elements => Elements,
            ErrorError::ExceedMaximum(n) => TooLong(n),
            ErrorError::InvalidChar(c) => Char(c),
        },
        2 => match Member::try_from(x).err()? {
            MemberError::Empty => Empty,
            MemberError::BeginDigit => BeginDigit,
            MemberError::ExceedMaximum(n) => TooLong(n),
            MemberError::InvalidChar(c) => Char(c),
        },
        3 => match WellKnownBusName::try_from(x).err()? {
            WellKnownBusNameError::BeginDigit => BeginDigit,
            WellKnownBusNameError::BeginDot => BeginDot,
            WellKnownBusNameError::EndDot => End,
            WellKnownBusNameError::ElementBeginDigit => ElementDigit,
            WellKnownBusNameError::ElementBeginDot => ElementDot,
            WellKnownBusNameError::Empty => Empty,
            WellKnownBusNameError::Elements => Elements,
            WellKnownBusNameError::ExceedMaximum(n) => TooLong(n),
            WellKnownBusNameError::InvalidChar(c) => Char(c),
        },
        4 => match UniqueConnectionName::try_from(x).err()? {
            UniqueConnectionNameError::BeginColon => BeginOther,
            UniqueConnectionNameError::BeginDot => BeginDot,
            UniqueConnectionNameError::EndDot => End,
            UniqueConnectionNameError::ElementBeginDot => ElementDot,
            UniqueConnectionNameError::Colon => Colon,
            UniqueConnectionNameError::Empty => Empty,
            UniqueConnectionNameError::Elements => Elements,
            UniqueConnectionNameError::ExceedMaximum(n) => TooLong(n),
            UniqueConnectionNameError::InvalidChar(c) => Char(c),
        },
        _ => match ObjectPath::try_from(x).err()? {
            ObjectPathError::BeginAlphanumericAndUnderscoreAndHyphen => BeginOther,
            ObjectPathError::EndSlash => End,
            ObjectPathError::Empty => Empty,
            ObjectPathError::ElementEmtpy => ElementDot,
            ObjectPathError::InvalidChar(c) => Char(c),
        },
    })
}

fn allowed(kind: usize, c: u8) -> bool {
    match kind {
        0 | 1 => c.is_ascii_alphanumeric() || c == b'_' || c == b'.',
        2 => c.is_ascii_alphanumeric() || c == b'_',
        3 => c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-',
        4 => c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b':',
        _ => c.is_ascii_alphanumeric() || c == b'_' || c == b'/',
    }
}

/// Is what the error says true of the text?
fn true_of(kind: usize, x: &[u8], e: &Says) -> bool {
    let sep = if kind == 5 { b'/' } else { b'.' };
    // the elements: without the leading colon or slash
    let rest = match (kind, x.first()) {
        (4, Some(b':')) | (5, Some(b'/')) => &x[1..],
        _ => x,
    };
    let els: Vec<&[u8]> = rest.split(|c| *c == sep).collect();
    let first_digit = |s: &[u8]| s.first().map_or(false, |c| c.is_ascii_digit());
    match e {
        Empty => rest.is_empty() && x != b"/",
        TooLong(n) => *n == x.len() && *n > 255,
        Char(c) => x.contains(c) && !allowed(kind, *c),
        BeginDigit => first_digit(x),
        BeginDot => x.first() == Some(&b'.'),
        BeginOther => x.first().map_or(false, |c| *c != if kind == 4 { b':' } else { b'/' }),
        ElementDigit => els.iter().any(|e| first_digit(e)),
        // an element before a separator (or, in the paths, between two) is empty
        ElementDot => els.len() > 1 && els[..els.len() - 1].iter().any(|e| e.is_empty()),
        End => x.len() > 1 && x.last() == Some(&sep),
        Elements => els.len() < 2,
        Colon => x.len() > 1 && x[1..].contains(&b':'),
    }
}

fn judge_name(kind: usize, x: &[u8], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    match says(kind, x) {
        None => ctx.outcome("accepted"),
        Some(e) => {
            if !true_of(kind, x, &e) {
                return Err(format!("the {} {:?} is refused with {:?}, which is not true of it", KINDS[kind], String::from_utf8_lossy(&x[..x.len().min(400)]), e));
            }
            ctx.outcome(match e {
                Empty => "empty",
                TooLong(_) => "too long",
                Char(_) => "invalid character",
                End => "ends in a separator",
                Elements => "too few elements",
                _ => "element",
            });
            ctx.input(hash_bytes(x));
        }
    }
    ctx.trace();
    // The bus name passes on the error of the kind of name its first character makes it.
    if kind == 3 || kind == 4 {
        let got = Bus::try_from(x).err();
        let exp = if x.first() == Some(&b':') { UniqueConnectionName::try_from(x).err().map(BusError::UniqueConnectionNameError) } else { WellKnownBusName::try_from(x).err().map(BusError::WellKnownBusNameError) };
        if got != exp {
            return Err(format!("the bus name {:?}: {:?}, expected {:?}", String::from_utf8_lossy(x), got, exp));
        }
    }
    // The other constructors agree.
    if let Ok(t) = std::str::from_utf8(x) {
        macro_rules! agree {
            ($t:ident) => {{
                let a = $t::try_from(x).err();
                if $t::try_from(t).err() != a || $t::try_from(t.to_string()).err() != a {
                    return Err(format!("the {} {:?}: {:?} from bytes, {:?} from a str, {:?} from a String", KINDS[kind], t, a, $t::try_from(t).err(), $t::try_from(t.to_string()).err()));
                }
            }};
        }
        match kind {
            0 => agree!(Interface),
            1 => agree!(Error),
            2 => agree!(Member),
            3 => agree!(WellKnownBusName),
            4 => {
                agree!(UniqueConnectionName);
                agree!(Bus)
            }
            _ => agree!(ObjectPath),
        }
    }
    Ok(())
}

// --- signatures ----------------------------------------------------------------------------------

/// The nesting that reading reaches: (arrays, structs, dict entries), and whether a dict entry is
/// followed by something else than its closing bracket at the given place.
fn reach(x: &[u8]) -> ([u8; 3], Vec<usize>) {
    let mut stack: Vec<(u8, usize)> = Vec::new();
    let mut max = [0u8; 3];
    let mut full = Vec::new();
    for (i, c) in x.iter().enumerate() {
        if let Some((b'{', 2)) = stack.last() {
            if *c != b'}' {
                full.push(i);
                break;
            }
        }
        let mut complete = false;
        match c {
            b'a' | b'(' | b'{' => {
                stack.push((*c, 0));
                for (k, o) in b"a({".iter().enumerate() {
                    let n = stack.iter().filter(|s| s.0 == *o).count();
                    max[k] = max[k].max(n.min(255) as u8);
                }
            }
            b')' | b'}' => match stack.pop() {
                Some((b'(', n)) if *c == b')' && n > 0 => complete = true,
                Some((b'{', 2)) if *c == b'}' => complete = true,
                _ => break,
            },
            c if BASIC.contains(c) => complete = true,
            _ => break,
        }
        while complete {
            match stack.last_mut() {
                Some((b'a', _)) => {
                    stack.pop();
                }
                Some((_, n)) => {
                    *n += 1;
                    complete = false;
                }
                None => complete = false,
            }
        }
    }
    (max, full)
}

fn type_error_true(x: &[u8], e: &TypeError, single: bool) -> bool {
    let (max, full) = reach(x);
    match e {
        TypeError::InvalidChar(c) => x.contains(c) && !BASIC.contains(c) && !b"a({".contains(c),
        TypeError::ArrayDepth(n) => *n > 32 && max[0] >= *n,
        TypeError::StructDepth(n) => *n > 32 && max[1] >= *n,
        TypeError::DictDepth(n) => *n > 32 && max[2] >= *n,
        TypeError::TooShort(n, at) => *n == x.len() && at >= n,
        TypeError::ClosingCurlyBracket(at, c) => full.contains(at) && x.get(*at) == Some(c),
        TypeError::MultiplyTypes => single && (0..x.len()).any(|k| parse_type(&x[..k]).is_some()),
        TypeError::ExceedMaximum(n) => *n > 255 && *n == x.len(),
    }
}

fn judge_sig(x: &[u8], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let a = Type::from_bytes_to_signature(x).err();
    let t = Type::try_from(x).err();
    for (e, single) in [(&a, false), (&t, true)] {
        if let Some(e) = e {
            if !type_error_true(x, e, single) {
                return Err(format!("the {} {:?} is refused with {:?}, which is not true of it", if single { "type" } else { "signature" }, String::from_utf8_lossy(x), e));
            }
        }
    }
    if let Ok(s) = std::str::from_utf8(x) {
        if Type::from_string_to_signature(s).err() != a || Type::try_from(s).err() != t {
            return Err(format!("{:?}: the errors from text differ from those from bytes {:?} {:?}", s, a, t));
        }
    }
    if a.is_some() {
        ctx.input(hash_bytes(x));
    }
    ctx.outcome(match a {
        None => "accepted",
        Some(TypeError::InvalidChar(_)) => "invalid character",
        Some(TypeError::TooShort(..)) => "too short",
        Some(TypeError::ClosingCurlyBracket(..)) => "closing bracket",
        Some(TypeError::ExceedMaximum(_)) => "too long",
        Some(_) => "too deep",
    });
    ctx.trace();
    Ok(())
}

// --- decoding ------------------------------------------------------------------------------------

fn word_in(x: &[u8], n: u32) -> bool {
    let w = if x.first() == Some(&b'l') { n.to_le_bytes() } else { n.to_be_bytes() };
    x.windows(4).any(|k| k == w)
}
fn word_at(x: &[u8], at: usize) -> u32 {
    let w = [x[at], x[at + 1], x[at + 2], x[at + 3]];
    if x[0] == b'l' {
        u32::from_le_bytes(w)
    } else {
        u32::from_be_bytes(w)
    }
}

/// Somewhere in the bytes is a text that is UTF-8 just as far as the error says.
fn utf8_true(x: &[u8], u: &std::str::Utf8Error) -> bool {
    let ill = |p: usize| (1..=4).any(|l| p + l <= x.len() && matches!(std::str::from_utf8(&x[p..p + l]), Err(e) if e.valid_up_to() == 0 && e.error_len() == u.error_len()));
    (u.valid_up_to()..x.len()).any(|p| x[p] >= 0x80 && ill(p) && std::str::from_utf8(&x[p - u.valid_up_to()..p]).is_ok())
}

/// Any bytes: the parts of the error that can be read off the bytes are true.
pub fn judge_c21(x: &[u8], fds: &[i32], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let e = match Message::decode_with_fds(b(x), fds) {
        Ok(_) => {
            ctx.outcome("accepted");
            return Ok(());
        }
        Err(e) => e,
    };
    ctx.input(hash_bytes(x));
    let has = |c: &u8| x.contains(c);
    let (ok, kind) = match &e {
        DecodeError::NotEnoughBytes(n, at) => (*n == x.len() && at > n, "not enough bytes"),
        DecodeError::InvalidBoolean(n) => (*n > 1 && word_in(x, *n), "boolean"),
        DecodeError::Utf8Error(u) => (utf8_true(x, u), "UTF-8"),
        DecodeError::StringNotNull(c) => (*c != 0 && has(c), "terminator"),
        DecodeError::StringContainsNull => (has(&0), "NUL"),
        DecodeError::Padding(c) => (*c != 0 && has(c), "padding"),
        DecodeError::ArrayTooBig(n) => (*n > 64 << 20 && word_in(x, *n), "array length"),
        DecodeError::ArrayInvalidLength(a, k) => (a > k && *a <= x.len(), "array end"),
        DecodeError::Endianness(c) => (x[0] == *c && *c != b'l' && *c != b'B', "endianness"),
        DecodeError::MessageType(c) => (x[1] == *c && !(1..=4).contains(c), "message type"),
        DecodeError::MessageFlags(c) => (x[2] == *c && *c > 7, "flags"),
        DecodeError::BodyLengthZero(t) => (word_at(x, 4) == 0 && !t.is_empty(), "signature without body"),
        DecodeError::BodySignatureMissing(n) => (word_at(x, 4) == *n && *n != 0, "body without signature"),
        DecodeError::NotEnoughFds(n, at) => (*n == fds.len() && at >= n && word_in(x, *at as u32), "descriptors"),
        DecodeError::BodyLength(exp, got) => (exp != got && *got <= x.len(), "body length"),
        DecodeError::VariantDepth(n) => (*n == 5 && x.iter().filter(|c| **c == b'v').count() >= 4, "variant depth"),
        DecodeError::MessageHeaderError(_) => (true, "missing field"),
        DecodeError::MessageHeaderFieldsError(f) => (field_error_plausible(x, f), "fields"),
        DecodeError::SignatureError(t) => (
            match t {
                TypeError::InvalidChar(c) => has(c) && !BASIC.contains(c) && !b"a({".contains(c),
                TypeError::TooShort(n, at) => at >= n && x.contains(&(*n as u8)),
                TypeError::ClosingCurlyBracket(_, c) => has(c) && *c != b'}',
                TypeError::ArrayDepth(n) | TypeError::StructDepth(n) | TypeError::DictDepth(n) => *n > 32,
                _ => true,
            },
            "signature",
        ),
        DecodeError::ObjectPathError(p) => (
            match p {
                ObjectPathError::InvalidChar(c) => has(c) && !allowed(5, *c),
                ObjectPathError::ElementEmtpy => x.windows(2).any(|w| w == b"//"),
                ObjectPathError::EndSlash => x.windows(2).any(|w| w == b"/\0"),
                _ => true,
            },
            "object path",
        ),
        DecodeError::StructError(_) => (false, "struct"),
        DecodeError::IntegerOverflow(_, _) => (false, "overflow"),
        _ => (true, "other"),
    };
    if !ok {
        return Err(format!("refused with {:?}, which is not true of the bytes {}", e, hex(x)));
    }
    ctx.outcome(kind);
    ctx.trace();
    Ok(())
}

fn field_error_plausible(x: &[u8], f: &MessageHeaderFieldsError) -> bool {
    use MessageHeaderFieldsError as F;
    match f {
        F::InvalidNumber(c) => x.contains(c) && !(1..=9).contains(c),
        // In the header array every element is a struct of a byte and a variant.
        F::Struct(_) | F::Length(_) | F::Variant(_) | F::Byte(_) => false,
        F::Path(v) => !matches!(v, Value::ObjectPath(_)),
        F::Interface(v) | F::Member(v) | F::ErrorName(v) | F::Destination(v) | F::Sender(v) => !matches!(v, Value::String(_)),
        F::ReplySerial(v) | F::UnixFDs(v) => !matches!(v, Value::Uint32(_)),
        F::Signature(v) => !matches!(v, Value::Signature(_)),
        _ => true,
    }
}

/// Bytes with one defect: the error has to be this one.
fn expect(x: &[u8], fds: &[i32], what: &str, ctx: &mut Ctx, exp: impl Fn(&DecodeError) -> bool) -> CaseResult {
    ctx.eval();
    ctx.input(hash_bytes(x));
    match Message::decode_with_fds(b(x), fds) {
        Ok(_) => Err(format!("{}: decodes; bytes {}", what, hex(x))),
        Err(e) => {
            if !exp(&e) {
                return Err(format!("{}: refused with {:?}; bytes {}", what, e, short(&hex(x))));
            }
            ctx.outcome("the error of its defect");
            ctx.trace();
            Ok(())
        }
    }
}

fn num(le: bool, n: u32) -> [u8; 4] {
    if le {
        n.to_le_bytes()
    } else {
        n.to_be_bytes()
    }
}

/// The error of a raw field, alone or after others, by conversion and on the wire.
fn expect_field(before: &[V], raw: &V, after: &[V], exp: &MessageHeaderFieldsError, ctx: &mut Ctx) -> CaseResult {
    let mut all = before.to_vec();
    all.push(raw.clone());
    all.extend(after.iter().cloned());
    let vals = to_values(&all).ok_or("explorer: values")?;
    ctx.eval();
    match MessageHeaderFields::try_from(vals) {
        Ok(_) => return Err(format!("accepted: {:?}", all)),
        Err(e) if e != *exp => return Err(format!("refused with {:?}, expected {:?}; {:?}", e, exp, all)),
        _ => (),
    }
    ctx.trace();
    ctx.outcome("field");
    // On the wire, if it has the type of a header field.
    if let V::St(ms) = raw {
        if ms.len() == 2 && matches!(ms[0], V::Y(_)) && matches!(ms[1], V::Va(_)) && val_ok(raw, 0) {
            for le in [true, false] {
                let mut m = empty_m();
                m.le = le;
                m.ty = 1;
                let w = encode_raw(&m, &all, Enc::new(le));
                expect(&w.bytes, &[], "header field", ctx, |e| *e == DecodeError::MessageHeaderFieldsError(clone_field_error(exp)))?;
            }
        }
    }
    Ok(())
}
fn clone_field_error(e: &MessageHeaderFieldsError) -> MessageHeaderFieldsError {
    use MessageHeaderFieldsError as F;
    match e {
        F::Struct(v) => F::Struct(v.clone()),
        F::Length(n) => F::Length(*n),
        F::Variant(v) => F::Variant(v.clone()),
        F::Byte(v) => F::Byte(v.clone()),
        F::Path(v) => F::Path(v.clone()),
        F::Interface(v) => F::Interface(v.clone()),
        F::InterfaceError(_) | F::MemberError(_) | F::ErrorError(_) | F::BusError(_) => name_error(e),
        F::Member(v) => F::Member(v.clone()),
        F::ErrorName(v) => F::ErrorName(v.clone()),
        F::ReplySerial(v) => F::ReplySerial(v.clone()),
        F::Destination(v) => F::Destination(v.clone()),
        F::Sender(v) => F::Sender(v.clone()),
        F::Signature(v) => F::Signature(v.clone()),
        F::UnixFDs(v) => F::UnixFDs(v.clone()),
        F::InvalidNumber(n) => F::InvalidNumber(*n),
        F::MultiplePath(v) => F::MultiplePath(v.clone()),
        F::MultipleInterface(v) => F::MultipleInterface(v.clone()),
        F::MultipleMember(v) => F::MultipleMember(v.clone()),
        F::MultipleErrorName(v) => F::MultipleErrorName(v.clone()),
        F::MultipleReplySerial(v) => F::MultipleReplySerial(v.clone()),
        F::MultipleDestination(v) => F::MultipleDestination(v.clone()),
        F::MultipleSender(v) => F::MultipleSender(v.clone()),
        F::MultipleSignature(v) => F::MultipleSignature(v.clone()),
        F::MultipleUnixFDs(v) => F::MultipleUnixFDs(v.clone()),
    }
}
/// Name errors are not Clone: rebuild them from their text by trying the few texts that give them.
fn name_error(e: &MessageHeaderFieldsError) -> MessageHeaderFieldsError {
    let mut texts: Vec<Vec<u8>> = BAD.iter().map(|t| t.as_bytes().to_vec()).collect();
    texts.push(vec![b'a'; 256]);
    for t in &texts {
        for c in [2u8, 3, 4, 6] {
            if let Some(x) = field_name_error(c, std::str::from_utf8(t).unwrap()) {
                if x == *e {
                    return x;
                }
            }
        }
    }
    panic!("explorer: unknown name error {:?}", e)
}
fn field_name_error(code: u8, t: &str) -> Option<MessageHeaderFieldsError> {
    use MessageHeaderFieldsError as F;
    match code {
        2 => Interface::try_from(t).err().map(F::InterfaceError),
        3 => Member::try_from(t).err().map(F::MemberError),
        4 => Error::try_from(t).err().map(F::ErrorError),
        _ => Bus::try_from(t).err().map(F::BusError),
    }
}
const BAD: &[&str] = &["", "a", "a.", ".a", "a..b", "a.0", "0a.b", "0", "a b", "a.b c", "a/b", "é", "a.é", ":", ":a", ":a.", ":.a", ":a..b", ":a:b", ":1.:", "a:b.c", "a-b", "a.b-c", "-", "a.b!", "a.b@"];

fn field_type_error(code: u8, v: Value) -> MessageHeaderFieldsError {
    use MessageHeaderFieldsError as F;
    match code {
        1 => F::Path(v),
        2 => F::Interface(v),
        3 => F::Member(v),
        4 => F::ErrorName(v),
        5 => F::ReplySerial(v),
        6 => F::Destination(v),
        7 => F::Sender(v),
        8 => F::Signature(v),
        _ => F::UnixFDs(v),
    }
}
fn field_multiple_error(code: u8, v: Value) -> MessageHeaderFieldsError {
    use MessageHeaderFieldsError as F;
    match code {
        1 => F::MultiplePath(v),
        2 => F::MultipleInterface(v),
        3 => F::MultipleMember(v),
        4 => F::MultipleErrorName(v),
        5 => F::MultipleReplySerial(v),
        6 => F::MultipleDestination(v),
        7 => F::MultipleSender(v),
        8 => F::MultipleSignature(v),
        _ => F::MultipleUnixFDs(v),
    }
}

// --- match rules ---------------------------------------------------------------------------------

fn expect_rule(text: &str, ctx: &mut Ctx, exp: impl Fn(&MatchRuleError) -> bool) -> CaseResult {
    const OK: &[&str] = &["type='signal'", "arg0='a,b'", "path_namespace=/a"];
    for (before, after) in [(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (1, 1)] {
        let mut t: Vec<&str> = OK[..before].to_vec();
        t.push(text);
        t.extend(&OK[..after]);
        let t = t.join(",");
        ctx.eval();
        match MatchRule::decode(&t) {
            Ok(_) => return Err(format!("{:?} is accepted", t)),
            Err(e) => {
                if !exp(&e) {
                    return Err(format!("{:?} is refused with {:?}", t, e));
                }
            }
        }
        ctx.input(hash_bytes(t.as_bytes()));
        ctx.trace();
        ctx.outcome("rule");
    }
    Ok(())
}

/// The error of a value that is not valid for the key.
fn value_error(key: &str, v: &str) -> Option<MatchRuleError> {
    use MatchRuleError as R;
    match key {
        "type" => match v {
            "method_call" | "method_return" | "error" | "signal" => None,
            _ => Some(R::TypeUnknown),
        },
        "eavesdrop" => match v {
            "true" | "false" => None,
            _ => Some(R::EavesdropUnknown),
        },
        "sender" => Bus::try_from(v).err().map(R::SenderError),
        "interface" => Interface::try_from(v).err().map(R::InterfaceError),
        "member" => Member::try_from(v).err().map(R::MemberError),
        "path" => ObjectPath::try_from(v).err().map(R::PathError),
        "path_namespace" => ObjectPath::try_from(v).err().map(R::PathErrorNamespace),
        "destination" => UniqueConnectionName::try_from(v).err().map(R::DestinationError),
        "arg0namespace" => Interface::try_from(v).err().map(R::Arg0NamespaceError),
        _ => ObjectPath::try_from(v).err().map(R::ArgPathError),
    }
}

fn eq_dbg<A: Debug>(a: &A, b: &A) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}

fn enc_err(m: &M, what: &str, ctx: &mut Ctx, exp: impl Fn(&EncodeError) -> bool) -> CaseResult {
    let msg = match to_message(m) {
        Some(x) => x,
        None => {
            ctx.skip();
            return Ok(());
        }
    };
    ctx.eval();
    for r in [msg.encode().map(|_| ()), msg.encode_with_fds().map(|_| ())] {
        match r {
            Ok(_) => return Err(format!("{}: encodes; {}", what, short(&format!("{:?}", m)))),
            Err(e) => {
                if !exp(&e) {
                    return Err(format!("{}: refused with {:?}; {}", what, e, short(&format!("{:?}", m))));
                }
            }
        }
    }
    ctx.trace();
    ctx.outcome("encoding refused");
    Ok(())
}

pub fn families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();

    // names
    let al: &'static [u8] = b"a0.:-_/! ";
    let nal = al.len() as u64;
    let d = if th { 7 } else { 6 };
    let nw = words_upto(nal, d);
    fs.push(family("names", format!("every word over {:?} up to length {}, every kind of name and path", String::from_utf8_lossy(al), d), nw, move |i, ctx| {
        let x: Vec<u8> = word(i, nal).iter().map(|k| al[*k]).collect();
        (0..6).try_for_each(|k| judge_name(k, &x, ctx))
    }));
    const VALID: &[&str] = &["Abc.def_9.x", "Abc.def_9.x", "Abcdef_9", "Ab-c.de_f.x9", ":1.2a.b-c", "/Abc/de_9/0"];
    fs.push(family("names, one invalid byte", "a valid name of every kind of 30 lengths, every byte that is not allowed in it, inserted or replacing at every place", 256 * 6, move |i, ctx| {
        let d = digits(i, &[256, 6]);
        let c = d[0] as u8;
        let k = d[1];
        if allowed(k, c) {
            return Ok(());
        }
        for n in (0..=20).chain([40, 100, 127, 128, 129, 200, 254]) {
            let mut v = VALID[k].as_bytes().to_vec();
            v.extend(vec![b'z'; n]);
            v.truncate(255);
            for at in 0..=v.len() {
                if n > 20 && at > 14 && at + 4 < v.len() && at % 32 > 1 {
                    continue;
                }
                for ins in [false, true] {
                    let mut x = v.clone();
                    if ins && x.len() < 255 {
                        x.insert(at, c);
                    } else if !ins && at < x.len() {
                        x[at] = c;
                    } else {
                        continue;
                    }
                    ctx.eval();
                    // A defect elsewhere may appear when the byte replaces a structural character.
                    let e = says(k, &x);
                    let structural = !ins && !v[at].is_ascii_alphanumeric();
                    match &e {
                        Some(Char(g)) if *g == c => (),
                        Some(e) if structural && true_of(k, &x, e) => (),
                        Some(BeginOther) if k == 4 && at == 0 || k == 5 && at == 0 => (),
                        e => return Err(format!("the {} {:?} with the byte {:#x} at {}: {:?}", KINDS[k], String::from_utf8_lossy(&x), c, at, e)),
                    }
                    ctx.trace();
                    ctx.outcome("invalid character");
                }
            }
        }
        Ok(())
    }));
    fs.push(family("names, lengths", "valid names of every kind of 1..=700 and 20 more lengths to 100000 bytes", 720, move |i, ctx| {
        let n = if i < 700 { i as usize + 1 } else { [1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65537, 65791, 65792, 70000, 80000, 90000, 99999, 100000][i as usize - 700] };
        for k in 0..5 {
            let mut x = VALID[k].as_bytes().to_vec();
            if n < x.len() {
                continue;
            }
            x.resize(n, b'z');
            ctx.eval();
            let e = says(k, &x);
            let exp = if n > 255 { Some(TooLong(n)) } else { None };
            if e != exp {
                return Err(format!("a {} of {} bytes: {:?}, expected {:?}", KINDS[k], n, e, exp));
            }
            judge_name(k, &x, ctx)?;
        }
        // whatever else is wrong
        for unit in ["é", "日", "😀", "\u{7ff}a", "a.é", ".", "1", ":", "a-", "a.1", "/", "//", "a/", "\u{0}", " ", "A"] {
            for head in ["", ":", ":1.", "a.", "/", ".", "é"] {
                let mut t = head.to_string();
                while t.len() < n && t.len() < 70000 {
                    t.push_str(unit);
                }
                if i >= 700 && (unit.is_ascii() || head.len() > 1) {
                    continue;
                }
                for k in 0..KINDS.len() {
                    judge_name(k, t.as_bytes(), ctx)?;
                }
                if !unit.is_ascii() {
                    // cut within a character
                    for k in 0..KINDS.len() {
                        judge_name(k, &t.as_bytes()[..t.len() - 1], ctx)?;
                    }
                }
            }
        }
        Ok(())
    }));
    let _ = nw;

    // signatures
    let sal: &'static [u8] = b"yva(){}!";
    let sd = if th { 8 } else { 7 };
    let nsw = words_upto(8, sd);
    fs.push(family("signatures", format!("every word over {:?} up to length {}, as signature and as type", String::from_utf8_lossy(sal), sd), nsw, move |i, ctx| {
        let x: Vec<u8> = word(i, 8).iter().map(|k| sal[*k]).collect();
        judge_sig(&x, ctx)
    }));
    const SG: &[&str] = &["y", "as", "a{sv}", "(yv)", "(y(nq)ah)", "a(yyy)aai", "a{s(iu)}x", "(((y)))", "aaaay", "{yy}y", "a{y{yy}}", "ybnqiuxtdsoghv"];
    fs.push(family("signatures, one byte", format!("{} signatures, alone and after fillers up to the length limit, every byte inserted or replacing at every place, every place deleted, cut at every place", SG.len()), SG.len() as u64 * 256, move |i, ctx| {
        let d = digits(i, &[256, SG.len() as u64]);
        let c = d[0] as u8;
        for fill in [0usize, 1, 15, 100, 127, 128, 200, 230, 255 - SG[d[1]].len()] {
            let mut v = vec![b'y'; fill];
            v.extend_from_slice(SG[d[1]].as_bytes());
            for at in fill..=v.len() {
                let mut x = v.clone();
                x.insert(at, c);
                judge_sig(&x, ctx)?;
                if at < v.len() {
                    let mut x = v.clone();
                    x[at] = c;
                    judge_sig(&x, ctx)?;
                    if c == 0 {
                        let mut x = v.clone();
                        x.remove(at);
                        judge_sig(&x, ctx)?;
                        judge_sig(&v[..at], ctx)?;
                    }
                }
            }
        }
        Ok(())
    }));
    fs.push(family("signatures, depths and lengths", "arrays, structs and dict entries nested to 40 in every order of two kinds; 256..=600 codes", 41 * 41 * 9 + 345, move |i, ctx| {
        if i < 41 * 41 * 9 {
            let d = digits(i, &[41, 41, 3, 3]);
            let mut o = Vec::new();
            let mut c = Vec::new();
            for (n, k) in [(d[0], d[2]), (d[1], d[3])] {
                for _ in 0..n {
                    match k {
                        0 => o.push(b'a'),
                        1 => {
                            o.push(b'(');
                            c.push(b")".as_slice())
                        }
                        _ => {
                            o.extend(b"{y");
                            c.push(b"}".as_slice())
                        }
                    }
                }
            }
            o.push(b'y');
            for x in c.iter().rev() {
                o.extend_from_slice(x);
            }
            judge_sig(&o, ctx)?;
            // printing the type, whatever its depth
            let mut t = T::P(b'y');
            for (n, k) in [(d[1], d[3]), (d[0], d[2])] {
                for _ in 0..n {
                    t = match k {
                        0 => arr(t),
                        1 => T::St(vec![t]),
                        _ => de(p(b'y'), t),
                    };
                }
            }
            ctx.eval();
            let mut total = String::new();
            tstr(&t, &mut total);
            let (max, _) = reach(total.as_bytes());
            if let Err(e) = Type::from_signature_to_string(&[to_type(&t)]) {
                let ok = match e {
                    TypeError::ArrayDepth(n) => n > 32 && max[0] >= n,
                    TypeError::StructDepth(n) => n > 32 && max[1] >= n,
                    TypeError::DictDepth(n) => n > 32 && max[2] >= n,
                    TypeError::ExceedMaximum(n) => n > 255 && n <= total.len(),
                    _ => false,
                };
                if !ok {
                    return Err(format!("the type {} does not print: {:?}", short(&total), e));
                }
                ctx.outcome("not printed");
            }
            ctx.trace();
            Ok(())
        } else {
            let n = (i - 41 * 41 * 9) as usize + 256;
            for x in [vec![b'y'; n], vec![b'a'; n], b"ay".repeat(n / 2 + 1), b"(y)".repeat(n / 3 + 1)] {
                let e = Type::from_bytes_to_signature(&x).err();
                if e != Some(TypeError::ExceedMaximum(x.len())) {
                    return Err(format!("a signature of {} bytes: {:?}", x.len(), e));
                }
                judge_sig(&x, ctx)?;
            }
            Ok(())
        }
    }));

    fs.push(family("empty structs", "the struct type without members within every chain of four containers to depth 4, printed and as the element type of an array", 625, move |i, ctx| {
        let d = digits(i, &[5, 5, 5, 5]);
        let mut t = T::St(vec![]);
        for k in d {
            t = match k {
                0 => t,
                1 => arr(t),
                2 => T::St(vec![p(b'y'), t]),
                3 => T::St(vec![t, p(b'y')]),
                _ => de(p(b'y'), t),
            };
        }
        ctx.eval();
        let mut total = String::new();
        tstr(&t, &mut total);
        let e = Type::from_signature_to_string(&[to_type(&t)]).err();
        if e != Some(TypeError::InvalidChar(b')')) {
            return Err(format!("the type {} printed: {:?}", total, e));
        }
        let mut m = Message::method_call(
            dbus_message_parser::value::Bus::try_from(":1.1").unwrap(),
            dbus_message_parser::value::ObjectPath::try_from("/a").unwrap(),
            dbus_message_parser::value::Interface::try_from("a.b").unwrap(),
            dbus_message_parser::value::Member::try_from("m").unwrap(),
        );
        if let Ok(a) = Array::new(vec![], to_type(&t)) {
            ctx.eval();
            m.add_value(Value::Array(a));
            match m.encode() {
                Err(EncodeError::SignatureError(TypeError::InvalidChar(b')'))) => (),
                e => return Err(format!("an array of {} encoded: {:?}", total, e)),
            }
        }
        ctx.input(i);
        ctx.outcome("not printed");
        ctx.trace();
        Ok(())
    }));

    // decoding: one defect
    fs.push(family("fixed header", "every endianness mark, message type and flag byte that is not valid, on 5 messages", 5 * 256, move |i, ctx| {
        let d = digits(i, &[256, 5]);
        let c = d[0] as u8;
        let mut m = call();
        match d[1] {
            0 => (),
            1 => m.le = false,
            2 => m.body = vec![V::U(7), s("abc")],
            3 => {
                m.ty = 2;
                m.rserial = Some(9)
            }
            _ => {
                m.ty = 4;
                m.iface = Some("a.b".into());
                m.body = vec![V::A(p(b'x'), vec![])]
            }
        }
        let w = bytes_of(&m);
        if c != b'l' && c != b'B' {
            let mut x = w.bytes.clone();
            x[0] = c;
            expect(&x, &[], "endianness", ctx, |e| *e == DecodeError::Endianness(c))?;
        }
        if !(1..=4).contains(&c) {
            let mut x = w.bytes.clone();
            x[1] = c;
            expect(&x, &[], "message type", ctx, |e| *e == DecodeError::MessageType(c))?;
            if MessageType::try_from(c) != Err(c) {
                return Err(format!("the message type {} gives {:?}", c, MessageType::try_from(c)));
            }
        }
        if c > 7 {
            let mut x = w.bytes.clone();
            x[2] = c;
            expect(&x, &[], "flags", ctx, |e| *e == DecodeError::MessageFlags(c))?;
        }
        Ok(())
    }));
    let pc = Arc::new({
        let mut v = corpus();
        v.extend(pad_corpus());
        v
    });
    let npc = pc.len() as u64;
    fs.push(family("padding, terminators, booleans", format!("{} messages: every padding byte and every terminator set to every other value, every boolean to words of bytes in {{00,01,02,7f,80,ff}}", npc), npc, {
        let pc = pc.clone();
        move |i, ctx| {
            let m = &pc[i as usize];
            let w = bytes_of(m);
            let fds = w.fds.clone();
            if Message::decode_with_fds(b(&w.bytes), &fds).is_err() {
                return Ok(());
            }
            for r in &w.regions {
                match r.kind {
                    Kind::Pad => {
                        for at in r.off..r.off + r.len {
                            for c in 1..=255u8 {
                                let mut x = w.bytes.clone();
                                x[at] = c;
                                expect(&x, &fds, "padding", ctx, |e| *e == DecodeError::Padding(c))?;
                            }
                        }
                    }
                    Kind::Nul => {
                        for c in 1..=255u8 {
                            let mut x = w.bytes.clone();
                            x[r.off] = c;
                            expect(&x, &fds, "terminator", ctx, |e| *e == DecodeError::StringNotNull(c))?;
                        }
                    }
                    Kind::Bool => {
                        for k in 0..1296u64 {
                            let d = digits(k, &[6, 6, 6, 6]);
                            let set = [0u8, 1, 2, 0x7f, 0x80, 0xff];
                            let n = u32::from_le_bytes([set[d[0]], set[d[1]], set[d[2]], set[d[3]]]);
                            if n > 1 {
                                let mut x = w.bytes.clone();
                                x[r.off..r.off + 4].copy_from_slice(&num(m.le, n));
                                expect(&x, &fds, "boolean", ctx, |e| *e == DecodeError::InvalidBoolean(n))?;
                            }
                        }
                    }
                    Kind::ArrLen => {
                        for n in [(64 << 20) + 1, (64 << 20) + 2, 0x0400_0100, 0x0401_0000, 0x0500_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fff8, 0xffff_ffff] {
                            let mut x = w.bytes.clone();
                            x[r.off..r.off + 4].copy_from_slice(&num(m.le, n));
                            expect(&x, &fds, "array length", ctx, |e| *e == DecodeError::ArrayTooBig(n))?;
                        }
                    }
                    Kind::FdIx => {
                        for n in [fds.len() as u32, fds.len() as u32 + 1, 255, 256, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff] {
                            let mut x = w.bytes.clone();
                            x[r.off..r.off + 4].copy_from_slice(&num(m.le, n));
                            expect(&x, &fds, "descriptor index", ctx, |e| *e == DecodeError::NotEnoughFds(fds.len(), n as usize))?;
                        }
                    }
                    _ => (),
                }
            }
            ctx.sample(|| format!("{:?}", m));
            Ok(())
        }
    }));
    // texts in the body
    let nctx = words_upto(CONTEXTS, 2);
    fs.push(family("texts", format!("strings with every byte value at every place of 1..=12, and with 19 ill-formed sequences; paths with every byte value at every place of 6 paths; signatures with every byte value at every place of {}; in every chain of up to 2 of {} containers", SG.len(), CONTEXTS), nctx * 2, move |i, ctx| {
        let d = digits(i, &[2, nctx]);
        let le = d[0] == 0;
        let inside = |v: V| {
            let mut v = Some(v);
            for c in word(d[1] as u64, CONTEXTS) {
                v = v.and_then(|v| in_context(c, v));
            }
            v
        };
        // A text of unusual length finds its place in the encoded bytes again.
        let place = |w: &Wire, n: usize, kind: Kind| w.regions.iter().filter(|r| r.kind == kind && r.len == n && r.off >= w.body_off).map(|r| r.off).collect::<Vec<_>>();
        let each = d[1] < 12;
        for n in if each { 1..=12usize } else { 11..=11 } {
            let v = match inside(s(&letters(n))) {
                Some(v) => v,
                None => return Ok(()),
            };
            let w = bytes_of(&with_body(vec![V::Y(1), v, V::Y(2)], le));
            if let Some(off) = place(&w, n, Kind::Str).first() {
                for at in 0..n {
                    for c in 0..=255u8 {
                        let mut x = w.bytes.clone();
                        x[off + at] = c;
                        let u = std::str::from_utf8(&x[*off..off + n]).err();
                        if let Some(u) = u {
                            expect(&x, &w.fds, "UTF-8", ctx, |e| *e == DecodeError::Utf8Error(u))?;
                        } else if c == 0 {
                            expect(&x, &w.fds, "NUL", ctx, |e| *e == DecodeError::StringContainsNull)?;
                        }
                    }
                }
                // every pair of bytes, and the edges of longer sequences
                let last = [0u8, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff];
                let mut seqs: Vec<Vec<u8>> = Vec::new();
                if n == 5 && each {
                    seqs.extend((0x8000..=0xffffu32).map(|k| vec![(k >> 8) as u8, k as u8]));
                }
                if n == 6 && d[1] < 2 {
                    for lead in 0x80..=0xffu8 {
                        for (a, b) in (0..10).flat_map(|a| (0..10).map(move |b| (a, b))) {
                            seqs.push(vec![lead, last[a], last[b]]);
                            seqs.extend(last.iter().map(|c| vec![lead, last[a], last[b], *c]));
                        }
                    }
                }
                for seq in seqs {
                    let mut x = w.bytes.clone();
                    x[off + 1..off + 1 + seq.len()].copy_from_slice(&seq);
                    if let Err(u) = std::str::from_utf8(&x[*off..off + n]) {
                        expect(&x, &w.fds, "UTF-8", ctx, |e| *e == DecodeError::Utf8Error(u))?;
                    }
                }
                for seq in [&b"\xc3"[..], b"\xc0\xaf", b"\xe2\x82", b"\xe0\x80\xaf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x90\x8d", b"\xf0\x80\x80\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80", b"\x80", b"\xbf", b"\xfe", b"\xff", b"\xc3\xa9\xc3", b"\xc3\x28", b"\xe2\x28\xa1", b"\xf0\x28\x8c\xbc", b"\xf1\x80\x80"] {
                    for at in 0..=n.saturating_sub(seq.len()) {
                        if seq.len() > n {
                            continue;
                        }
                        let mut x = w.bytes.clone();
                        x[off + at..off + at + seq.len()].copy_from_slice(seq);
                        if let Err(u) = std::str::from_utf8(&x[*off..off + n]) {
                            expect(&x, &w.fds, "UTF-8", ctx, |e| *e == DecodeError::Utf8Error(u))?;
                        }
                    }
                }
            }
        }
        for t in ["/", "/a", "/abc/d", "/a/b/c/d/e", "/abcdefghij_0", "/Abc/de_9/0"] {
            let v = match inside(V::O(t.into())) {
                Some(v) => v,
                None => return Ok(()),
            };
            let w = bytes_of(&with_body(vec![V::Y(1), v, V::Y(2)], le));
            if let Some(off) = place(&w, t.len(), Kind::Str).first() {
                for at in 0..t.len() {
                    for c in 0..=255u8 {
                        let mut x = w.bytes.clone();
                        x[off + at] = c;
                        if let Err(u) = ObjectPath::try_from(&x[*off..off + t.len()]) {
                            expect(&x, &w.fds, "path", ctx, |e| matches!(e, DecodeError::ObjectPathError(g) if *g == u))?;
                        }
                    }
                }
            }
        }
        for t in SG {
            let v = match inside(V::G(parses(t))) {
                Some(v) => v,
                None => return Ok(()),
            };
            let w = bytes_of(&with_body(vec![V::Y(1), v, V::Y(2)], le));
            if let Some(off) = place(&w, t.len(), Kind::Sig).iter().find(|o| &w.bytes[**o..**o + t.len()] == t.as_bytes()) {
                if t.len() == 1 || *t == "as" {
                    continue; // not told from the signature of a variant
                }
                for at in 0..t.len() {
                    for c in 0..=255u8 {
                        let mut x = w.bytes.clone();
                        x[off + at] = c;
                        if let Err(u) = Type::from_bytes_to_signature(&x[*off..off + t.len()]) {
                            expect(&x, &w.fds, "signature", ctx, |e| matches!(e, DecodeError::SignatureError(g) if *g == u))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }));
    fs.push(family("body and signature", "body lengths 1..=40 without signature; 12 signatures without body; bodies of 12 signatures with 1..=9 bytes more and the length word off by 1..=9; arrays whose last element goes beyond their end", 40 * 2 + 12 * 2 * 2, move |i, ctx| {
        if i < 80 {
            let n = (i / 2) as usize + 1;
            let x = raw_message(i % 2 == 0, "", &vec![0; n], None);
            return expect(&x, &[], "body without signature", ctx, |e| *e == DecodeError::BodySignatureMissing(n as u32));
        }
        let d = digits(i - 80, &[2, 2, 12]);
        let le = d[0] == 0;
        const SGB: &[&str] = &["y", "s", "u", "ay", "at", "(yv)", "a{sv}", "v", "aai", "yyy", "d", "g"];
        let sg = SGB[d[2]];
        if d[1] == 0 {
            let x = raw_message(le, sg, &[], None);
            let types = Type::from_string_to_signature(sg).unwrap();
            return expect(&x, &[], "signature without body", ctx, |e| matches!(e, DecodeError::BodyLengthZero(t) if *t == types));
        }
        let m = with_body(parses(sg).iter().map(|t| default_value(t, 2, 3)).collect(), le);
        let w = bytes_of(&m);
        let body = &w.bytes[w.body_off..];
        for more in 1..=9usize {
            let mut bd = body.to_vec();
            bd.extend(vec![0; more]);
            let x = raw_message(le, sg, &bd, None);
            expect(&x, &[], "longer body", ctx, |e| matches!(e, DecodeError::BodyLength(a, g) if a == &(g + more)))?;
            let x = raw_message(le, sg, body, Some((body.len() + more) as u32));
            expect(&x, &[], "longer body announced", ctx, |e| matches!(e, DecodeError::BodyLength(a, g) if a == &(g + more) && *g == x.len()))?;
            if more < body.len() {
                let x = raw_message(le, sg, body, Some((body.len() - more) as u32));
                expect(&x, &[], "shorter body announced", ctx, |e| matches!(e, DecodeError::BodyLength(a, g) if *g == a + more && *g == x.len()))?;
            }
        }
        // the array length is not a multiple of its elements
        for (t, k) in [("an", 2usize), ("aq", 2), ("ai", 4), ("au", 4), ("ax", 8), ("at", 8), ("ad", 8)] {
            for n in 0..40usize {
                if n % k == 0 {
                    continue;
                }
                let mut bd = num(le, n as u32).to_vec();
                bd.resize(if k == 8 { 8 } else { 4 }, 0);
                let start = bd.len();
                bd.resize(start + (n + k - 1) / k * k, 0);
                let x = raw_message(le, t, &bd, None);
                let end = x.len() - bd.len() + start + n;
                expect(&x, &[], "array end", ctx, |e| *e == DecodeError::ArrayInvalidLength(x.len(), end))?;
            }
        }
        Ok(())
    }));
    fs.push(family("variant depth", "variants nested 5..=40 deep, plain, in a struct, an array, a dict entry or between such, decoded and encoded", 36 * 6 * 2, move |i, ctx| {
        let d = digits(i, &[2, 6, 36]);
        let mut v = V::Y(7);
        for k in 0..d[2] + 5 {
            v = var(v);
            v = match (d[1], k % 2) {
                (1, _) => V::St(vec![v]),
                (2, _) => V::A(p(b'v'), vec![v]),
                (3, _) => V::De(Box::new((V::Y(1), v))),
                (4, 0) => V::A(arr(p(b'v')), vec![V::A(p(b'v'), vec![v])]),
                (5, 1) => V::St(vec![V::Y(1), v, V::Y(2)]),
                _ => v,
            };
        }
        let m = with_body(vec![v], d[0] == 0);
        let w = bytes_of(&m);
        expect(&w.bytes, &w.fds, "variant depth", ctx, |e| *e == DecodeError::VariantDepth(5))?;
        enc_err(&m, "variant depth", ctx, |e| *e == EncodeError::VariantDepth(5))
    }));
    // header fields
    let firsts: Arc<Vec<V>> = Arc::new((1..=9u8).map(|c| super::valid_field(c, 1)).collect());
    fs.push(family("raw fields", "every field with content of 16 wrong types; 256 codes; 9 fields repeated with the same and another value at every place; 27 ill-formed names in every name field; 12 wrong shapes; alone, before and after valid fields; converted and decoded", 9 * 16 + 256 + 9 * 9 * 2 + 5 * (BAD.len() as u64 + 1) + 12, move |i, ctx| {
        let mut i = i as usize;
        let few = |c: u8| -> Vec<V> { firsts.iter().enumerate().filter(|(k, _)| *k as u8 + 1 != c && *k < 3).map(|(_, v)| v.clone()).collect() };
        let around = |raw: V, c: u8, exp: MessageHeaderFieldsError, ctx: &mut Ctx| -> CaseResult {
            expect_field(&[], &raw, &[], &exp, ctx)?;
            expect_field(&few(c), &raw, &[], &exp, ctx)?;
            expect_field(&[], &raw, &few(c), &exp, ctx)
        };
        if i < 9 * 16 {
            let c = (i / 16) as u8 + 1;
            let alts = [V::Y(1), V::B(true), V::N(1), V::Q(1), V::I(1), V::U(1), V::X(1), V::Tt(1), V::D(0), s("a.b"), V::O("/a".into()), V::G(parses("y")), V::A(p(b'y'), vec![]), V::St(vec![V::Y(1)]), V::De(Box::new((V::Y(1), V::Y(2)))), var(V::U(1))];
            let v = alts[i % 16].clone();
            let right = matches!((c, &v), (1, V::O(_)) | (2 | 3 | 4 | 6 | 7, V::S(_)) | (5 | 9, V::U(_)) | (8, V::G(_)));
            if right {
                return Ok(());
            }
            return around(field_pair(c, v.clone()), c, field_type_error(c, to_value(&v).unwrap()), ctx);
        }
        i -= 9 * 16;
        if i < 256 {
            let c = i as u8;
            if (1..=9).contains(&c) {
                return Ok(());
            }
            for v in [V::U(1), s("a"), V::Y(c), V::O("/".into())] {
                around(field_pair(c, v), c, MessageHeaderFieldsError::InvalidNumber(c), ctx)?;
            }
            return Ok(());
        }
        i -= 256;
        if i < 9 * 9 * 2 {
            let (c, n, alt) = ((i / 18) as u8 + 1, i / 2 % 9, i % 2);
            let again = super::valid_field(c, alt);
            let content = match &again {
                V::St(v) => match &v[1] {
                    V::Va(x) => to_value(x).unwrap(),
                    _ => unreachable!(),
                },
                _ => unreachable!(),
            };
            // all the fields, the first of this code at place n, the second at the end or right after
            let mut fields: Vec<V> = firsts.iter().enumerate().filter(|(k, _)| *k as u8 + 1 != c).map(|(_, v)| v.clone()).collect();
            fields.insert(n, super::valid_field(c, 1));
            let exp = field_multiple_error(c, content);
            expect_field(&fields, &again, &[], &exp, ctx)?;
            expect_field(&fields[..=n], &again, &fields[n + 1..], &exp, ctx)?;
            return expect_field(&[super::valid_field(c, 1)], &again, &[], &exp, ctx);
        }
        i -= 9 * 9 * 2;
        if i < 5 * (BAD.len() + 1) {
            let c = [2u8, 3, 4, 6, 7][i / (BAD.len() + 1)];
            let t: String = match i % (BAD.len() + 1) {
                k if k < BAD.len() => BAD[k].to_string(),
                _ => "a".repeat(256),
            };
            return match field_name_error(c, &t) {
                Some(e) => around(field_pair(c, s(&t)), c, e, ctx),
                None => Ok(()),
            };
        }
        i -= 5 * (BAD.len() + 1);
        use MessageHeaderFieldsError as F;
        let val = |v: &V| to_value(v).unwrap();
        let va = var(V::U(1));
        let (raw, exp) = match i {
            0 => (V::Y(1), F::Struct(val(&V::Y(1)))),
            1 => (va.clone(), F::Struct(val(&va))),
            2 => (V::A(p(b'y'), vec![]), F::Struct(val(&V::A(p(b'y'), vec![])))),
            3 => (V::De(Box::new((V::Y(5), va.clone()))), F::Struct(val(&V::De(Box::new((V::Y(5), va.clone())))))),
            4 => (V::St(vec![V::Y(5)]), F::Length(1)),
            5 => (V::St(vec![V::Y(5), va.clone(), V::Y(1)]), F::Length(3)),
            6 => (V::St(vec![V::Y(5); 17]), F::Length(17)),
            7 => (V::St(vec![V::Y(5); 257]), F::Length(257)),
            8 => (V::St(vec![V::Y(5), V::U(1)]), F::Variant(val(&V::U(1)))),
            9 => (V::St(vec![V::Y(5), V::St(vec![va.clone()])]), F::Variant(val(&V::St(vec![va.clone()])))),
            10 => (V::St(vec![V::U(5), va.clone()]), F::Byte(val(&V::U(5)))),
            _ => (V::St(vec![va.clone(), va.clone()]), F::Byte(val(&va))),
        };
        around(raw, 200, exp, ctx)
    }));
    fs.push(family("missing fields", "4 types x 2^8 field subsets, created and decoded: a field that is required and missing is named", 4 * 256 * 2, move |i, ctx| {
        let d = digits(i, &[2, 256, 4]);
        let mut m = empty_m();
        m.le = d[0] == 0;
        m.ty = d[2] as u8 + 1;
        let on = |k: usize| d[1] >> k & 1 == 1;
        m.path = on(0).then(|| "/a".into());
        m.iface = on(1).then(|| "a.b".into());
        m.member = on(2).then(|| "M".into());
        m.ename = on(3).then(|| "e.r".into());
        m.rserial = on(4).then_some(3);
        m.dest = on(5).then(|| ":1.5".into());
        m.sender = on(6).then(|| "s.s".into());
        m.fds = on(7).then_some(2);
        if required_ok(&m) {
            return Ok(());
        }
        let truth = |e: &MessageHeaderError| match e {
            MessageHeaderError::MissingPath => m.path.is_none() && (m.ty == 1 || m.ty == 4),
            MessageHeaderError::MissingInterface => m.iface.is_none() && m.ty == 4,
            MessageHeaderError::MissingMember => m.member.is_none() && (m.ty == 1 || m.ty == 4),
            MessageHeaderError::MissingErrorName => m.ename.is_none() && m.ty == 3,
            MessageHeaderError::MissingReplySerial => m.rserial.is_none() && (m.ty == 2 || m.ty == 3),
        };
        ctx.eval();
        match MessageHeader::new(m.le, mtype(m.ty).unwrap(), mflags(0), 1, 7, to_fields(&m).unwrap()) {
            Err(e) if truth(&e) => (),
            r => return Err(format!("header creation gives {:?}: {:?}", r.map(|_| ()), m)),
        }
        ctx.trace();
        let w = bytes_of(&m);
        expect(&w.bytes, &[], "missing field", ctx, |e| matches!(e, DecodeError::MessageHeaderError(e) if truth(e)))
    }));

    // descriptor lists, with repetitions
    let nl = words_upto(3, 5);
    fs.push(family("descriptors", format!("every descriptor list over 3 numbers up to length 5 x 8 indices past its end, behind up to 2 valid ones, in {} containers, both endiannesses", CONTEXTS), nl * 8 * 2, move |i, ctx| {
        let d = digits(i, &[2, 8, nl]);
        let fds: Vec<i32> = word(d[2] as u64, 3).iter().map(|k| [3, 4, -1][*k]).collect();
        let n = [fds.len() as u32, fds.len() as u32 + 1, fds.len() as u32 + 2, 255, 256, 0x10000, 0x8000_0000, u32::MAX][d[1]];
        for valid in 0..=2usize {
            if valid > fds.len() {
                continue;
            }
            for c in 0..=CONTEXTS as usize {
                // what the encoder writes for the unlisted one is patched to the index
                let odd = V::H(1000);
                let last = if c == CONTEXTS as usize { Some(odd) } else { in_context(c, odd) };
                let mut body: Vec<V> = (0..valid).map(|k| V::H(k as i32)).collect();
                body.extend(last);
                let w = bytes_of(&with_body(body, d[0] == 0));
                let at: Vec<usize> = w.regions.iter().filter(|r| r.kind == Kind::FdIx && r.off >= w.body_off).map(|r| r.off).collect();
                let mut x = w.bytes.clone();
                for at in &at[valid..] {
                    x[*at..at + 4].copy_from_slice(&if d[0] == 0 { n.to_le_bytes() } else { n.to_be_bytes() });
                }
                expect(&x, &fds, "descriptor index", ctx, |e| *e == DecodeError::NotEnoughFds(fds.len(), n as usize))?;
            }
        }
        Ok(())
    }));

    // any bytes
    fs.extend(byte_families(judge_c21, th).into_iter().map(|mut f| {
        f.name = format!("any bytes: {}", f.name);
        f
    }));

    // match rules
    fs.push(family("rule keys", "every printable ASCII and 6 other characters at every place of 4 keys and alone; keys without equal sign; empty keys; unknown keys", 101, move |i, ctx| {
        let c = if i < 95 { (b' ' + i as u8) as char } else { ['é', '\u{0}', '\n', '\u{7f}', '日', '😀'][i as usize - 95] };
        use MatchRuleError as R;
        if !(c.is_ascii_alphanumeric() || c == '_' || c == '=') {
            for k in ["type", "arg0", "a", "path_namespace"] {
                for at in 0..=k.len() {
                    let t = format!("{}{}{}=v", &k[..at], c, &k[at..]);
                    expect_rule(&t, ctx, |e| *e == R::KeyInvalidChar(c))?;
                }
            }
        } else if c != '=' {
            // a longer key is not known
            for k in ["type", "sender", "interface", "member", "path", "path_namespace", "destination", "eavesdrop"] {
                expect_rule(&format!("{}{}=v", k, c), ctx, |e| *e == R::KeyUnknown)?;
                expect_rule(&format!("{}{}='a,b'", c, k), ctx, |e| *e == R::KeyUnknown)?;
            }
        } else {
            expect_rule("=v", ctx, |e| *e == R::KeyEmpty)?;
            expect_rule("='v'", ctx, |e| *e == R::KeyEmpty)?;
            for t in ["a", "type", "_", "9", "arg0"] {
                for before in ["", "type=error,", "arg0=',',path=/,"] {
                    ctx.eval();
                    match MatchRule::decode(&format!("{}{}", before, t)) {
                        Err(R::MissingEqual) => (),
                        r => return Err(format!("the key {:?} alone after {:?} gives {:?}", t, before, r)),
                    }
                    ctx.trace();
                }
            }
        }
        // quotes that are not closed, with anything in them
        for k in ["arg0", "type", "path", "sender"] {
            for v in [format!("'{}", c), format!("{}'", c), format!("'a'{}'", c), format!("\\''{}", c), format!("'\\{}", c)] {
                if c == '\'' || c == '\\' || c == ',' && v != "'," {
                    continue;
                }
                let t = format!("type=signal,{}={}", k, v);
                if v.matches('\'').count() % 2 == 0 && !v.starts_with('\\') {
                    continue;
                }
                ctx.eval();
                match MatchRule::decode(&t) {
                    Err(R::ValueClosingQuote) => (),
                    r => return Err(format!("{:?} gives {:?}", t, r)),
                }
                ctx.trace();
            }
        }
        Ok(())
    }));
    const RKEYS: &[&str] = &["type", "sender", "interface", "member", "path", "path_namespace", "destination", "arg0namespace", "eavesdrop", "arg0path", "arg5path", "arg63path"];
    let rv = b"a0.:-_/ =";
    let nrv = rv.len() as u64;
    let rd = if th { 6 } else { 4 };
    let nrw = words_upto(nrv, rd);
    fs.push(family("rule values", format!("every value over {:?} up to length {} (quoted), and names of 256 to 300 bytes, for {} keys", String::from_utf8_lossy(rv), rd, RKEYS.len()), nrw + 45, move |i, ctx| {
        let v: String = if i < nrw { word(i, nrv).iter().map(|k| rv[*k] as char).collect() } else { format!(":1.{}", "a".repeat(253 + (i - nrw) as usize)) };
        for k in RKEYS {
            for v in [v.clone(), v.trim_start_matches(':').to_string()] {
                if let Some(exp) = value_error(k, &v) {
                    let ok = |e: &MatchRuleError| eq_dbg(e, &exp);
                    expect_rule(&format!("{}='{}'", k, v), ctx, ok)?;
                    if i < 1000 {
                        expect_rule(&format!("{}={}", k, v), ctx, ok)?;
                    }
                }
            }
        }
        Ok(())
    }));
    fs.push(family("rule indices", "argument indices 64..=70000 and around every power of two, by text and by constructor; 30 ill-formed indices", 70000, move |i, ctx| {
        use MatchRuleError as R;
        let mut ns = vec![i as usize + 64];
        if i < 58 {
            ns.extend([(1usize << (i + 6)) - 1, 1 << (i + 6), (1 << (i + 6)) + 1]);
        }
        for n in ns {
            if n < 64 {
                continue;
            }
            let ok = |e: &MatchRuleError| *e == R::ArgIndexTooBig(n);
            expect_rule(&format!("arg{}='a'", n), ctx, ok)?;
            ctx.eval();
            match Arg::try_from((n, "a".to_string())) {
                Err(e) if ok(&e) => (),
                r => return Err(format!("the index {} gives {:?}", n, r)),
            }
        }
        if i < 30 {
            const IX: &[&str] = &["", "x", "-", "_", "0x", "1_0", "_1", "1a", "a1", "99999999999999999999", "18446744073709551616", "340282366920938463463374607431768211456", "0a", "namespace", "1namespace", "0namespacex", "0Namespace", "00namespace", "pat", "patH", "0pat", "0Path", "path", "xpath", "pathpath", "1path0", "namespacepath", "0namespacepath", "18446744073709551616path", "_path"];
            let t = IX[i as usize];
            let ok = |e: &MatchRuleError| match e {
                R::KeyInvalidChar('-') => t == "-",
                R::KeyUnknown => !t.trim_end_matches("path").bytes().all(|c| c.is_ascii_digit()) || t.trim_end_matches("path").is_empty(),
                R::ArgIndexError(p) => [t, t.strip_suffix("path").unwrap_or(t)].iter().any(|x| x.parse::<usize>().err().as_ref() == Some(p)),
                _ => false,
            };
            expect_rule(&format!("arg{}='/a'", t), ctx, ok)?;
        }
        Ok(())
    }));

    // encoding and construction
    fs.push(family("encoding", "strings with a NUL at every place, in every chain of up to 2 containers; body signatures too long or too deep", 40 * nctx + 41 * 5 + 200, move |i, ctx| {
        if i < 40 * nctx {
            let d = digits(i, &[40, nctx]);
            let mut t: Vec<u8> = letters(d[0] + 1).into_bytes();
            for at in [0, d[0] / 2, d[0]] {
                let old = std::mem::replace(&mut t[at], 0);
                let mut v = Some(s(std::str::from_utf8(&t).unwrap()));
                for c in word(d[1] as u64, CONTEXTS) {
                    v = v.and_then(|v| in_context(c, v));
                }
                if let Some(v) = v {
                    enc_err(&with_body(vec![V::U(1), v], i % 2 == 0), "NUL", ctx, |e| *e == EncodeError::StringContainsNull)?;
                }
                t[at] = old;
            }
            return Ok(());
        }
        let i = i - 40 * nctx;
        if i < 41 * 5 {
            let (n, k) = (i as usize / 5, i % 5);
            if n <= 32 {
                return Ok(());
            }
            let mut t = p(b'y');
            let mut v = V::Y(1);
            for _ in 0..n {
                match k {
                    0 => t = arr(t),
                    1 => v = V::St(vec![v]),
                    2 => v = V::De(Box::new((V::Y(1), v))),
                    3 => t = T::St(vec![t]),
                    _ => t = de(p(b'y'), t),
                }
            }
            let m = with_body(vec![if k == 1 || k == 2 { v.clone() } else { V::A(t.clone(), vec![]) }], true);
            let truth = |e: &TypeError| match (k, e) {
                (0, TypeError::ArrayDepth(d)) | (1 | 3, TypeError::StructDepth(d)) | (2 | 4, TypeError::DictDepth(d)) => *d > 32 && (*d as usize) <= n + 1,
                _ => false,
            };
            enc_err(&m, "depth", ctx, |e| matches!(e, EncodeError::SignatureError(t) if truth(t)))?;
            if k == 1 || k == 2 {
                ctx.eval();
                match to_value(&v).ok_or("explorer: value")?.get_type() {
                    Err(e) if truth(&e) => (),
                    r => return Err(format!("the type of a value {} deep is {:?}", n, r.map(|_| ()))),
                }
                ctx.trace();
            }
            return Ok(());
        }
        let n = 256 + (i - 41 * 5) as usize;
        let truth = |e: &EncodeError| matches!(e, EncodeError::SignatureError(TypeError::ExceedMaximum(k)) if *k > 255 && *k <= n);
        enc_err(&with_body(vec![V::Y(1); n], true), "long signature", ctx, truth)?;
        enc_err(&with_body(vec![V::St(vec![V::Y(1); n - 2])], true), "long signature", ctx, truth)?;
        enc_err(&with_body(vec![var(V::St(vec![V::Y(1); n - 2]))], true), "long signature", ctx, truth)
    }));
    fs.push(
        family("encoding, sizes", "arrays of 64 MiB and 1, 2, 3, 8, 1000 bytes; messages of 128 MiB and 1, 8, 1000 bytes more", 8, move |i, ctx| {
            let more = [1usize, 2, 3, 8, 1000, 1, 8, 1000][i as usize];
            if i < 5 {
                // the array length is that of its element data
                let n = (64 << 20) + more;
                let m = with_body(vec![V::Y(1), V::A(p(b's'), vec![s(&letters(n - 5))])], true);
                enc_err(&m, "array size", ctx, |e| *e == EncodeError::ArrayTooBig(n))
            } else {
                let n = 128 << 20;
                let m = with_body(vec![s(&letters(n / 2)), s(&letters(n / 2 + more))], true);
                enc_err(&m, "message size", ctx, |e| matches!(e, EncodeError::MessageTooBig(k) if *k > n && *k < n + more + 300))
            }
        })
        .threads(2),
    );
    let ts: Arc<Vec<T>> = Arc::new(types_upto(3, b"ysv", 2).into_iter().filter(|t| type_ok(t, 0, 0, 0)).collect());
    let nts = ts.len() as u64;
    fs.push(family("arrays and structs", format!("arrays of up to 20 values with one of another type at every place, {} x {} types; empty structs", nts, nts), nts * nts, move |i, ctx| {
        let (a, c) = (&ts[(i % nts) as usize], &ts[(i / nts) as usize]);
        if i == 0 && Struct::try_from(Vec::new()).err() != Some(StructError::Empty) {
            return Err("an empty struct gives another error".into());
        }
        if a == c {
            return Ok(());
        }
        let (x, y) = match (to_value(&default_value(a, 1, 1)), to_value(&default_value(c, 1, 1))) {
            (Some(x), Some(y)) => (x, y),
            _ => return Ok(()),
        };
        for n in [1usize, 2, 3, 8, 20] {
            for at in 0..n {
                let vs: Vec<Value> = (0..n).map(|k| if k == at { y.clone() } else { x.clone() }).collect();
                ctx.eval();
                match Array::new(vs, to_type(a)) {
                    Err(ArrayError::TypeMismatch(e, g)) if e == to_type(a) && g == to_type(c) => (),
                    r => return Err(format!("an array of {:?} with a {:?} at {} of {}: {:?}", a, c, at, n, r.map(|_| ()))),
                }
                ctx.trace();
                ctx.outcome("type mismatch");
            }
        }
        Ok(())
    }));
    fs
}
