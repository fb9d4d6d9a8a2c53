//! One module per group of properties; `families` gives the families of one property.

mod aftermath;
mod cost;
mod equality;
mod errors;
mod framing;
mod header;
mod limits;
mod names;
mod replies;
mod rules;
mod sigs;
mod typing;

use crate::bytesfam::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::wire::*;

pub struct Check {
    pub families: Vec<Family>,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
}

const MODEL: &str = "the reference model (mc/src/model.rs) states the D-Bus format and the documented divergences correctly";
const BOUNDS: &str = "the property is decided within the stated bounds of each family; beyond them nothing is claimed";

const MSG_RULE: &str = "every index of every family is one message (type shape x offset x endianness x inner choices, lengths, header subsets, sequences, nestings) built through the public API; distinct_nontrivial counts distinct reference encodings of messages that could be constructed and encoded";
const BYTE_RULE: &str = "every index of every family stands for a set of byte strings derived from well-formed messages by the stated corruption, or enumerated over an alphabet; distinct_nontrivial counts distinct byte strings (hashes; capped at 4 million per thread and family)";

/// Decode what the reference encoder wrote (in every header form), as the byte judges do.
fn c02_msg(m: &M, ctx: &mut Ctx) -> CaseResult {
    ref_bytes(m, ctx, judge_c02)
}
fn c05_msg(m: &M, ctx: &mut Ctx) -> CaseResult {
    ref_bytes(m, ctx, judge_c05)
}
fn ref_bytes(m: &M, ctx: &mut Ctx, j: BJ) -> CaseResult {
    let w = encode(m, &HeaderForm { order: None, empty_sig: m.sig.is_some() });
    j(&w.bytes, &w.fds, ctx)
}

/// Header fields in every order, with and without an explicit empty body signature.
pub fn form_families(j: BJ, th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let n = if th { 8usize } else { 6 };
    let codes: &'static [u8] = if th { &[1, 2, 3, 5, 6, 7, 8, 9] } else { &[1, 2, 3, 7, 8, 9] };
    let nperm: u64 = (1..=n as u64).product();
    fs.push(family("field orders", format!("all orders of {} header fields, 4 contents, both endiannesses", n), nperm * 2 * 4, move |i, ctx| {
        let d = digits(i, &[2, 4, nperm]);
        let mut m = call();
        m.le = d[0] == 0;
        if codes.contains(&2) {
            m.iface = Some("a.bcd".into());
        }
        if codes.contains(&5) {
            m.rserial = Some(5);
        }
        if codes.contains(&6) {
            m.dest = Some(":1.23".into());
        }
        m.sender = Some("org.x".into());
        m.fds = Some(4);
        match d[1] {
            0 => m.body = vec![V::U(1)],
            1 => m.body = vec![V::H(5), V::Y(1), V::H(6)],
            2 => {
                m.path = Some("/abc/d".into());
                m.body = vec![]
            }
            _ => m.body = vec![V::Y(1), V::Tt(2)],
        }
        let order = permutation(codes, d[2] as u64);
        let w = encode(&m, &HeaderForm { order: Some(order), empty_sig: true });
        j(&w.bytes, &w.fds, ctx)
    }));
    // every ordered subset of up to 4 fields
    let all: &'static [u8] = &[1, 2, 3, 4, 5, 6, 7, 8, 9];
    let nw = words_upto(9, 4);
    fs.push(family("field sequences", "all sequences of up to 4 header fields (repetitions included), 4 types, both endiannesses", nw * 8, move |i, ctx| {
        let d = digits(i, &[2, 4, nw]);
        let mut m = empty_m();
        m.le = d[0] == 0;
        m.ty = d[1] as u8 + 1;
        let fields: Vec<V> = word(d[2] as u64, 9).iter().map(|k| valid_field(all[*k], 1)).collect();
        let has_sig = word(d[2] as u64, 9).iter().any(|k| all[*k] == 8);
        let mut e = Enc::new(m.le);
        if has_sig {
            e.val(&V::U(9));
        }
        let w = encode_raw(&m, &fields, e);
        j(&w.bytes, &[], ctx)
    }));
    fs
}

/// A well-formed raw header field (the signature field announces one u32).
pub fn valid_field(code: u8, alt: usize) -> V {
    let v = match code {
        1 => V::O(["/", "/a"][alt].into()),
        2 => s(["a.b", "if.x"][alt]),
        3 => s(["m", "Mem"][alt]),
        4 => s(["e.e", "er.r"][alt]),
        5 => V::U([1, 2][alt]),
        6 => s([":1.5", "d.e"][alt]),
        7 => s(["s.s", ":2.3"][alt]),
        8 => V::G(parses(["", "u"][alt])),
        _ => V::U([0, 3][alt]),
    };
    field_pair(code, v)
}

pub fn permutation(xs: &[u8], mut i: u64) -> Vec<u8> {
    let mut rest = xs.to_vec();
    let mut out = Vec::new();
    let mut n = rest.len() as u64;
    while n > 0 {
        out.push(rest.remove((i % n) as usize));
        i /= n;
        n -= 1;
    }
    out
}

pub fn families(id: &str, th: bool) -> Option<Check> {
    let check = |families: Vec<Family>, rule: &'static str| Check { families, rule, assumptions: vec![MODEL, BOUNDS] };
    Some(match id {
        "C01" => check(msg_families(judge_c01, th), MSG_RULE),
        "C02" => {
            let mut f = byte_families(judge_c02, th);
            f.extend(form_families(judge_c02, th));
            f.extend(msg_families(c02_msg, th));
            check(f, BYTE_RULE)
        }
        "C03" => check(msg_families(judge_c03, th), MSG_RULE),
        "C04" => {
            let mut f = byte_families(judge_c04, th);
            f.extend(limits::hostile_families(th));
            f.extend(rules::total_families(th));
            f.extend(names::total_families(th));
            check(f, BYTE_RULE)
        }
        "C05" => {
            let mut f = byte_families(judge_c05, th);
            f.extend(form_families(judge_c05, th));
            f.extend(msg_families(c05_msg, th));
            check(f, BYTE_RULE)
        }
        "C06" => check(framing::framing_families(th), "every message of the families, at every cut point, with every listed suffix; streams explored as a graph of (start, end) receiver states"),
        "C07" => check(framing::fd_families(th), "every sequence of descriptors or indices up to the stated depth, in every nesting"),
        "C08" => check(header::families(th), "every type x field subset, and every sequence of raw field values from the alphabet up to the stated depth"),
        "C09" => check(limits::families(th), "every limit at, below and above its value, in every combination listed, through parsing, printing, encoding and decoding"),
        "C10" => check(sigs::families(th), "every string over the grammar alphabet up to the stated length; every single-byte substitution in templates; every type tree up to the stated size"),
        "C11" => check(names::name_families(th), "every string over the grammar alphabet up to the stated length, every byte value after every state-covering prefix and before every suffix, lengths around the limit and its multiples"),
        "C12" => check(names::path_families(th), "as for names; every sequence of appends up to the stated depth; every pair of paths up to the stated depth"),
        "C13" => check(typing::families(th), "every type tree up to the stated size, every element list up to the stated length with every declared type"),
        "C14" => check(replies::reply_families(th), "every message type x subset of header fields x serial x flags x endianness, every reply operation"),
        "C15" => check(rules::c15_families(th), "every argument string over the quoting alphabet up to the stated length, every list of rules up to the stated depth"),
        "C16" => check(rules::c16_families(th), "every text over the quoting alphabet up to the stated length, every single-character edit of every key and value"),
        "C17" => check(rules::c17_families(th), "the full product of the rule list with the message list, and every rule list up to the stated depth"),
        "C18" => check(crate::hist::families(th), "every sequence of operations up to the stated depth (in fresh processes and in one process), every call-level interleaving of two threads"),
        "C19" => check(replies::builder_families(th), "every combination of builder arguments, every accessor on every message, every sequence of add-value and set-serial up to the stated depth"),
        "C20" => check(msg_families(judge_c20, th), MSG_RULE),
        "C21" => check(errors::families(th), "every family is a set of refused inputs (texts, bytes, values) with one defect of a known kind at every place, or any inputs whose errors are checked against the input"),
        "C22" => check(equality::families(th), "every pair (and where stated every triple) of every domain, each thing built in several ways"),
        "C23" => check(cost::families(th), "every operation on every shape, at n and 16 n elements; and every byte string of the corruption families"),
        "C24" => check(aftermath::families(th), "every operation on every shape with ever other arguments; every result held; every byte string of the corruption families, on a thread that can make no system call unseen"),
        _ => return None,
    })
}
