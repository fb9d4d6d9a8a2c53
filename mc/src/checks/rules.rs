//! C15, C16, C17: match rules; the match-rule inputs of C04.

use crate::conv::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::wire::{letters, msg_families, special_messages, SP_MEMBERS, SP_NAMES, SP_PATHS};
use dbus_message_parser::match_rule::{Arg, ArgPath, MatchRule};
use dbus_message_parser::value::ObjectPath;
use std::convert::TryFrom;
use std::sync::{Arc, OnceLock};

// --- C04 -------------------------------------------------------------------------------------

fn total_text(t: &str, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    match no_panic(|| shown(MatchRule::decode(t).map(|r| MatchRule::encode(&r)))) {
        Err(p) => return Err(format!("panic parsing the match rule {:?}: {}", short(t), p)),
        Ok(true) => ctx.outcome("rules"),
        Ok(false) => ctx.outcome("no rules"),
    }
    if let Err(p) = no_panic(|| shown(MatchRule::try_from(t).map(|r| r.to_string()))) {
        return Err(format!("panic parsing the single rule {:?}: {}", short(t), p));
    }
    let _ = parse_rules(t);
    ctx.trace();
    Ok(())
}

pub fn total_families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let toks: &'static [&'static str] = &["a", "=", ",", "'", "\\", "é", "arg", "0", "path", "😀", " ", "\0", "member", "type"];
    let n = words_upto(14, if th { 6 } else { 5 });
    fs.push(family("rule words (total)", "every sequence of up to 5 (thorough 6) of 14 tokens, alone and after 'arg0='", n, move |i, ctx| {
        let t: String = word(i, 14).iter().map(|k| toks[*k]).collect();
        total_text(&t, ctx)?;
        total_text(&format!("arg0={}", t), ctx)
    }));
    fs.push(family("rule characters (total)", "every Unicode character as key, in a key, as value, quoted, after a backslash, as path", 0x110000, |i, ctx| {
        let c = match char::from_u32(i as u32) {
            Some(c) => c,
            None => return Ok(()),
        };
        for t in [format!("{}", c), format!("arg{}=x", c), format!("arg0={}", c), format!("arg0='{}", c), format!("arg0=\\{}", c), format!("path=/{}", c)] {
            total_text(&t, ctx)?;
        }
        Ok(())
    }));
    fs.push(family("long rules (total)", "texts of up to 10^6 repetitions of 8 fragments", 8 * 12, |i, ctx| {
        let d = digits(i, &[8, 12]);
        let n = [1usize, 2, 10, 100, 255, 256, 1000, 10_000, 65_536, 100_000, 500_000, 1_000_000][d[1]];
        let f = ["'", "\\", "arg0=x,", ",", "=", "a", "arg0='x',", "arg9"][d[0]];
        total_text(&f.repeat(n), ctx)?;
        total_text(&format!("arg0={}", f.repeat(n)), ctx)?;
        total_text(&format!("arg{}=x", "9".repeat(n.min(100_000))), ctx)
    }));
    fs
}

// --- C15 -------------------------------------------------------------------------------------

fn round_trip(rs: &[Rule], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let rules = match to_rules(rs) {
        Some(r) => r,
        None => return Err(format!("explorer: rules {:?} refused by constructors", rs)),
    };
    if from_rules(&rules) != rs {
        return Err(format!("the rules {:?} hold {:?}", rs, from_rules(&rules)));
    }
    let text = MatchRule::encode(&rules);
    let back = MatchRule::decode(&text).map_err(|e| format!("the written text {:?} of {:?} is refused: {}", text, rs, e))?;
    let b = from_rules(&back);
    if b != rs || back != rules {
        return Err(format!("the rules {:?} are written as {:?} and read back as {:?}", rs, text, b));
    }
    let again = MatchRule::encode(&back);
    if again != text {
        return Err(format!("the text {:?} is written again as {:?}", text, again));
    }
    if rules.len() == 1 {
        let one = rules[0].to_string();
        if one != text {
            return Err(format!("one rule displays as {:?} but is written as {:?}", one, text));
        }
        match MatchRule::try_from(one.as_str()) {
            Ok(r) if r == rules[0] => (),
            r => return Err(format!("the single rule {:?} is read back as {:?}", one, r)),
        }
    }
    let _ = parse_rules(&text);
    ctx.trace();
    ctx.outcome("read back");
    ctx.input(hash_bytes(text.as_bytes()));
    ctx.sample(|| text.clone());
    Ok(())
}

pub fn rule_pool() -> Vec<Rule> {
    let r = |s: &str| s.to_string();
    vec![
        Rule::Arg(0, r("a")),
        Rule::Arg(1, r("")),
        Rule::Arg(2, r("'")),
        Rule::Arg(3, r("\\")),
        Rule::Arg(4, r(",")),
        Rule::Arg(5, r("a,b'c\\d=e é")),
        Rule::Arg(63, r("\\'")),
        Rule::Arg(0, r("'\\")),
        Rule::Arg(10, r(",member=M")),
        Rule::Arg(0, r("=")),
        Rule::Arg(0, r(" ")),
        Rule::Type(1),
        Rule::Type(2),
        Rule::Type(3),
        Rule::Type(4),
        Rule::Sender(r(":1.5")),
        Rule::Sender(r("a.b-c")),
        Rule::Interface(r("a.b")),
        Rule::Member(r("M")),
        Rule::Path(r("/")),
        Rule::Path(r("/a/b")),
        Rule::PathNs(r("/")),
        Rule::PathNs(r("/a_9")),
        Rule::Dest(r(":1.9")),
        Rule::ArgPath(0, r("/")),
        Rule::ArgPath(63, r("/a/b")),
        Rule::Arg0Ns(r("a.b.c")),
        Rule::Eaves(true),
        Rule::Eaves(false),
    ]
}

pub fn c15_families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let al: &'static [char] = &['\'', '\\', ',', '=', 'a', ' ', 'é', '"'];
    let len = if th { 7 } else { 6 };
    let n = words_upto(8, len);
    fs.push(family("argument words", format!("every argument over 8 characters up to length {}, alone, followed by and following another rule", len), n, move |i, ctx| {
        let t: String = word(i, 8).iter().map(|k| al[*k]).collect();
        round_trip(&[Rule::Arg(0, t.clone())], ctx)?;
        round_trip(&[Rule::Arg(7, t.clone()), Rule::Member("M".into())], ctx)?;
        round_trip(&[Rule::Path("/a".into()), Rule::Arg(63, t)], ctx)
    }));
    let n2 = words_upto(5, 4);
    let al2: &'static [char] = &['\'', '\\', ',', '=', 'a'];
    fs.push(family("argument pairs", "every pair of arguments over {' \\ , = a} up to length 4", n2 * n2, move |i, ctx| {
        let d = digits(i, &[n2, n2]);
        let t = |k: usize| -> String { word(k as u64, 5).iter().map(|k| al2[*k]).collect() };
        round_trip(&[Rule::Arg(0, t(d[0])), Rule::Arg(1, t(d[1]))], ctx)
    }));
    let n3 = words_upto(4, if th { 11 } else { 9 });
    fs.push(family("long argument words", "every argument over {' \\ , a} up to length 9 (thorough 11)", n3, move |i, ctx| {
        let t: String = word(i, 4).iter().map(|k| ['\'', '\\', ',', 'a'][*k]).collect();
        round_trip(&[Rule::Arg(1, t), Rule::Eaves(true)], ctx)
    }));
    fs.push(family("characters", "every Unicode character in an argument, alone, between letters, between quotes and backslashes", 0x110000, |i, ctx| {
        let c = match char::from_u32(i as u32) {
            Some(c) => c,
            None => return Ok(()),
        };
        round_trip(&[Rule::Arg(0, format!("{}", c)), Rule::Arg(1, format!("a{}b", c)), Rule::Arg(2, format!("'{}\\{}'", c, c)), Rule::Arg(3, format!("{}\\", c)), Rule::Arg(4, format!("\\{}", c))], ctx)
    }));
    fs.push(family("long arguments", "arguments of up to 10^5 repetitions of 8 fragments", 8 * 14, |i, ctx| {
        let d = digits(i, &[8, 14]);
        let n = [0usize, 1, 2, 3, 7, 8, 15, 16, 64, 255, 256, 1000, 65_536, 100_000][d[1]];
        let f = ["'", "\\", ",", "a", "\\'", "'\\", ",'", "é="][d[0]];
        round_trip(&[Rule::Arg(5, f.repeat(n)), Rule::Arg(6, f.repeat(n))], ctx)
    }));
    let ol: &'static [usize] = &[5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024];
    fs.push(family("one special character", "arguments of 26 lengths to 1024 of one of 5 characters, with one of 4 characters or one of 4 pairs at every place", 26 * 5, move |i, ctx| {
        let d = digits(i, &[5, 26]);
        let n = ol[d[1]];
        let f = ['a', ',', '\\', '\'', ' '][d[0]];
        let t: Vec<char> = vec![f; n];
        for k in 0..n {
            for x in [&['\''][..], &['\\'], &[','], &['x'], &['\\', '\''], &['\'', '\\'], &['\'', ','], &[',', '\'']] {
                if k + x.len() > n || (n > 300 && k > 40 && k + 40 < n && k % 13 != 0) {
                    continue;
                }
                let mut y = t.clone();
                y[k..k + x.len()].copy_from_slice(x);
                round_trip(&[Rule::Arg(5, y.into_iter().collect()), Rule::Eaves(true)], ctx)?;
            }
        }
        Ok(())
    }));
    let pool = Arc::new(rule_pool());
    let np = pool.len() as u64;
    let depth = if th { 4 } else { 3 };
    let nw = words_upto(np, depth);
    fs.push(family("rule lists", format!("every list of up to {} of {} rules", depth, np), nw, move |i, ctx| {
        let rs: Vec<Rule> = word(i, np).iter().map(|k| pool[*k].clone()).collect();
        round_trip(&rs, ctx)
    }));
    fs.push(family("indices", "argument and argument-path indices 0..=63", 64, |i, ctx| {
        let n = i as usize;
        round_trip(&[Rule::Arg(n, "v".into()), Rule::ArgPath(n, "/p".into()), Rule::Arg(63 - n, "','".into())], ctx)?;
        round_trip(&[Rule::Arg(n, format!("{}", n))], ctx)?;
        round_trip(&[Rule::ArgPath(n, "/".into())], ctx)
    }));
    // argument-path indices have no upper bound in the library (DESIGN.md): what can be built is read back
    fs.push(family("large path indices", "argument-path indices 0..=70000, around every power of two and of ten, alone and among other rules", 70_001 + 3 * 64 + 3 * 20, |i, ctx| {
        let n = if i <= 70_000 {
            i as usize
        } else if i <= 70_000 + 192 {
            let k = (i - 70_001) as u32;
            (1usize << (k / 3)).wrapping_add(k as usize % 3).wrapping_sub(1)
        } else {
            let k = (i - 70_001 - 192) as u32;
            10usize.pow(k / 3).wrapping_add(k as usize % 3).wrapping_sub(1)
        };
        let p = match ObjectPath::try_from("/a").ok().and_then(|o| ArgPath::try_from((n, o)).ok()) {
            Some(_) => Rule::ArgPath(n, "/a".into()),
            None => {
                if n < 64 {
                    return Err(format!("argument-path index {} cannot be built", n));
                }
                ctx.skip();
                return Ok(());
            }
        };
        round_trip(&[p.clone()], ctx)?;
        round_trip(&[Rule::Arg(3, "7path='/b'".into()), p, Rule::ArgPath(1, "/".into())], ctx)
    }));
    // names and paths in rules: short words over the grammar alphabets
    let al3: &'static [u8] = b"aZ0_-.:/";
    let n4 = words_upto(8, if th { 6 } else { 5 });
    fs.push(family("name words", "every valid name or path over {a Z 0 _ - . : /} up to length 5 (thorough 6), in every key that accepts it", n4, move |i, ctx| {
        let w: String = word(i, 8).iter().map(|k| al3[*k] as char).collect();
        let b = w.as_bytes();
        if is_bus(b) {
            round_trip(&[Rule::Sender(w.clone())], ctx)?;
        }
        if is_unique(b) {
            round_trip(&[Rule::Dest(w.clone())], ctx)?;
        }
        if is_interface(b) {
            round_trip(&[Rule::Interface(w.clone()), Rule::Arg0Ns(w.clone())], ctx)?;
        }
        if is_member(b) {
            round_trip(&[Rule::Member(w.clone())], ctx)?;
        }
        if is_path(b) {
            round_trip(&[Rule::Path(w.clone()), Rule::PathNs(w.clone()), Rule::ArgPath(3, w.clone())], ctx)?;
        }
        Ok(())
    }));
    fs.push(family("special names", "the names, paths and members D-Bus gives a meaning, whole, cut at every place, extended, in every key that accepts them", special_texts().len() as u64, |i, ctx| {
        let w = special_texts()[i as usize].clone();
        let mut rs = vec![Rule::Arg(2, w.clone()), Rule::Sender(w.clone()), Rule::Dest(w.clone()), Rule::Interface(w.clone()), Rule::Arg0Ns(w.clone()), Rule::Member(w.clone()), Rule::Path(w.clone()), Rule::PathNs(w.clone()), Rule::ArgPath(1, w)];
        rs.retain(|r| to_rule(r).is_some());
        for r in &rs {
            round_trip(std::slice::from_ref(r), ctx)?;
        }
        round_trip(&rs, ctx)
    }));
    fs.push(family("many rules", "lists of 0..=300 rules", 301, |i, ctx| {
        let pool = rule_pool();
        let rs: Vec<Rule> = (0..i as usize).map(|k| pool[(k * 7 + k / 5) % pool.len()].clone()).collect();
        round_trip(&rs, ctx)
    }));
    fs
}

// --- C16 -------------------------------------------------------------------------------------

fn judge_text(t: &str, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let exp = parse_rules(t);
    let got = MatchRule::decode(t);
    match (&exp, &got) {
        (Parsed::Open, _) => {
            ctx.outcome("left open");
            return Ok(());
        }
        (Parsed::Rules(e), Ok(g)) => {
            let f = from_rules(g);
            if f != *e {
                return Err(format!("the text {:?} gives {:?}, expected {:?}", short(t), f, e));
            }
            if let ([_], [one]) = (&e[..], &g[..]) {
                match MatchRule::try_from(t) {
                    Ok(r) if r == *one => (),
                    r => return Err(format!("the single rule {:?} gives {:?} on its own", short(t), r)),
                }
            }
            ctx.outcome("parsed");
            ctx.input(hash_bytes(t.as_bytes()));
            ctx.sample(|| format!("{} -> {:?}", t, e));
        }
        (Parsed::Refused(k), Err(_)) => ctx.outcome(k),
        (Parsed::Rules(e), Err(x)) => return Err(format!("the text {:?} is refused ({}), expected {:?}", short(t), x, e)),
        (Parsed::Refused(k), Ok(g)) => return Err(format!("the text {:?} is accepted as {:?}; it must be refused: {}", short(t), from_rules(g), k)),
    }
    ctx.trace();
    Ok(())
}

const KEYS: &[(&str, &str)] = &[
    ("type", "signal"),
    ("type", "method_call"),
    ("type", "method_return"),
    ("type", "error"),
    ("sender", ":1.5"),
    ("sender", "a.b-c"),
    ("interface", "a.bc"),
    ("member", "Mem"),
    ("path", "/a/b"),
    ("path_namespace", "/a/b"),
    ("destination", ":1.9"),
    ("arg0", "ab"),
    ("arg63", "x y"),
    ("arg5path", "/a/b"),
    ("arg0path", "/"),
    ("arg0namespace", "a.b.c"),
    ("eavesdrop", "true"),
    ("eavesdrop", "false"),
];

fn candidate_values() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "a", "A", "_", "0", "-", ".", ":", "/", "a.b", "a.b.c", "a-b.c", ".a", "a.", "a..b", "1.a", "a.1", ":1.2", ":1", ":", ":1.", "::1.2", ":a.b", ":a-b.c", "/a", "/a/b", "/a/", "//", "a/b", "/a//b", "/-", "/é", "é.é", "signal", "method_call", "method_return", "error", "invalid", "Signal", "SIGNAL", "methodcall", "signals", "signa", "true", "false", "True", "1", "yes", "truefalse", " true", "true ", "a b", "\\", "=", "a=b", "\"", "a\0b", "\n",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [253usize, 254, 255, 256, 257] {
        v.push("a".repeat(n));
        v.push(format!("a.{}", "b".repeat(n - 2)));
        v.push(format!(":1.{}", "2".repeat(n - 3)));
        v.push(format!("/{}", "p".repeat(n - 1)));
    }
    v
}

fn quoted(v: &str, style: usize) -> String {
    match style {
        0 => v.to_string(),
        1 => format!("'{}'", v),
        2 => v.chars().map(|c| format!("'{}'", c)).collect(),
        3 => {
            let h = v.chars().count() / 2;
            let (a, b): (String, String) = (v.chars().take(h).collect(), v.chars().skip(h).collect());
            format!("{}'{}'", a, b)
        }
        4 => format!("''{}''''", v),
        5 => format!("{}'", v),
        6 => format!("'{}", v),
        7 => format!("\\{}", v),
        8 => format!("{}\\", v),
        9 => format!("{}\\'", v),
        10 => format!("\\'{}", v),
        _ => format!("'{}\\'", v),
    }
}

pub fn c16_families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let al: &'static [char] = &['\'', '\\', ',', '=', 'a', ' ', 'é'];
    let len = if th { 7 } else { 6 };
    let n = words_upto(7, len);
    fs.push(family("value words", format!("every value over 7 characters up to length {} after 'arg0=', with 4 endings", len), n, move |i, ctx| {
        let t: String = word(i, 7).iter().map(|k| al[*k]).collect();
        for e in ["", ",arg1=z", "'", "',member=M"] {
            judge_text(&format!("arg0={}{}", t, e), ctx)?;
        }
        Ok(())
    }));
    let n1 = words_upto(4, if th { 10 } else { 8 });
    fs.push(family("quoting words", "every value over {' \\ , a} up to length 8 (thorough 10) after 'arg0='", n1, move |i, ctx| {
        let t: String = word(i, 4).iter().map(|k| ['\'', '\\', ',', 'a'][*k]).collect();
        judge_text(&format!("arg0={}", t), ctx)?;
        judge_text(&format!("member=M,arg0={},arg1=a", t), ctx)
    }));
    let toks: &'static [&'static str] = &["arg0", "arg1", "member", "=", "'", ",", "\\", "a", "/"];
    let n2 = words_upto(9, if th { 7 } else { 6 });
    fs.push(family("token words", "every sequence of up to 6 (thorough 7) of 9 tokens", n2, move |i, ctx| {
        let t: String = word(i, 9).iter().map(|k| toks[*k]).collect();
        judge_text(&t, ctx)
    }));
    let n3 = words_upto(5, if th { 9 } else { 8 });
    fs.push(family("text words", "every text over {a = ' , \\} up to length 8 (thorough 9)", n3, move |i, ctx| {
        let t: String = word(i, 5).iter().map(|k| ['a', '=', '\'', ',', '\\'][*k]).collect();
        judge_text(&t, ctx)
    }));
    let nk = KEYS.len() as u64;
    fs.push(family("single edits", format!("{} rules: every ASCII and 4 other characters inserted, replacing or deleted at every place, alone, before and after another rule", nk), nk * 40, move |i, ctx| {
        let d = digits(i, &[nk, 40]);
        let t: Vec<char> = format!("{}={}", KEYS[d[0]].0, KEYS[d[0]].1).chars().collect();
        if d[1] > t.len() {
            return Ok(());
        }
        let run = |c: &[char], ctx: &mut Ctx| -> CaseResult {
            let x: String = c.iter().collect();
            judge_text(&x, ctx)?;
            judge_text(&format!("{},arg2=q", x), ctx)?;
            judge_text(&format!("arg2=q,{}", x), ctx)
        };
        run(&t, ctx)?;
        for c in (0..128u8).map(|c| c as char).chain(['é', '日', '\u{130}', '\u{ff41}']) {
            let mut x = t.clone();
            x.insert(d[1], c);
            run(&x, ctx)?;
            if d[1] < t.len() {
                let mut x = t.clone();
                x[d[1]] = c;
                run(&x, ctx)?;
            }
        }
        if d[1] < t.len() {
            let mut x = t.clone();
            x.remove(d[1]);
            run(&x, ctx)?;
            x.insert(0, t[d[1]]);
            run(&x, ctx)?;
        }
        Ok(())
    }));
    fs.push(family("double edits", format!("{} rules: two characters from 9 inserted or replacing at every pair of places", nk), nk * 40 * 40, move |i, ctx| {
        let d = digits(i, &[nk, 40, 40]);
        let t: Vec<char> = format!("{}={}", KEYS[d[0]].0, KEYS[d[0]].1).chars().collect();
        if d[1] > t.len() || d[2] >= t.len() {
            return Ok(());
        }
        let cs = ['\'', '\\', ',', '=', 'a', '0', ' ', '.', 'P'];
        for a in cs {
            for b in cs {
                let mut x = t.clone();
                x[d[2]] = b;
                x.insert(d[1], a);
                judge_text(&x.iter().collect::<String>(), ctx)?;
            }
        }
        Ok(())
    }));
    let vals = Arc::new(candidate_values());
    let nv = vals.len() as u64;
    fs.push(family("values", format!("{} keys x {} values x 12 quotings", nk, nv), nk * nv * 12, move |i, ctx| {
        let d = digits(i, &[nk, nv, 12]);
        let t = format!("{}={}", KEYS[d[0]].0, quoted(&vals[d[1]], d[2]));
        judge_text(&t, ctx)?;
        judge_text(&format!("arg1='x',{},eavesdrop=true", t), ctx)
    }));
    // short words as values of the name keys
    let nal: &'static [u8] = b"a0_-.:/";
    let nw = words_upto(7, if th { 6 } else { 5 });
    fs.push(family("name values", "every word over {a 0 _ - . : /} up to length 5 (thorough 6) as the value of every key", nw, move |i, ctx| {
        let w: String = word(i, 7).iter().map(|k| nal[*k] as char).collect();
        for k in ["sender", "interface", "member", "path", "path_namespace", "destination", "arg0namespace", "arg1path", "arg2"] {
            judge_text(&format!("{}={}", k, w), ctx)?;
            judge_text(&format!("{}='{}'", k, w), ctx)?;
        }
        Ok(())
    }));
    fs.push(family("indices", "argument indices 0..=1100 and 40 longer digit strings, plain and path, by text and by constructor", 1141, |i, ctx| {
        let t = if i <= 1100 {
            format!("{}", i)
        } else {
            let k = (i - 1101) as u32;
            match k {
                0..=19 => format!("{}", (1u128 << (k + 50)) + 3),
                20 => format!("{}", u64::MAX),
                21 => format!("{}", u64::MAX as u128 + 1),
                22 => format!("{}", u64::MAX as u128 + 5),
                23 => format!("{}", 1u64 << 32),
                24 => format!("{}", (1u64 << 32) + 5),
                25 => format!("{}", 256 + 5),
                26 => format!("{}", 65536 + 5),
                _ => "9".repeat(k as usize),
            }
        };
        judge_text(&format!("arg{}=x", t), ctx)?;
        judge_text(&format!("arg{}path=/x", t), ctx)?;
        judge_text(&format!("arg{}pat=/x", t), ctx)?;
        judge_text(&format!("arg{}namespace=a.b", t), ctx)?;
        judge_text(&format!("arg_{}=x", t), ctx)?;
        judge_text(&format!("arg{}_=x", t), ctx)?;
        if i <= 1100 {
            let ok = i <= 63;
            let r = Arg::try_from((i as usize, "x".to_string()));
            if r.is_ok() != ok {
                return Err(format!("Arg with index {}: {:?}", i, r));
            }
            if let Ok(a) = r {
                if a.get_index() != i as usize || a.get_value() != "x" || a.get_key() != format!("arg{}", i) {
                    return Err(format!("Arg with index {} holds {:?}", i, a));
                }
            }
            let a = ArgPath::from((i as usize, ObjectPath::try_from("/x").unwrap()));
            if a.get_index() != i as usize || a.get_value() != &ObjectPath::try_from("/x").unwrap() || a.get_key() != format!("arg{}path", i) {
                return Err(format!("ArgPath with index {} holds {:?}", i, a));
            }
        }
        Ok(())
    }));
    fs.push(family("characters", "every Unicode character in a value, quoted, after a backslash, in a key and as separator", 0x110000, |i, ctx| {
        let c = match char::from_u32(i as u32) {
            Some(c) => c,
            None => return Ok(()),
        };
        for t in [format!("arg0={}", c), format!("arg0='{}'", c), format!("arg0=\\{}", c), format!("a{}rg0=a", c), format!("{}arg0=a", c), format!("arg0{}a", c), format!("arg0=a{}arg1=b", c), format!("arg{}=x", c)] {
            judge_text(&t, ctx)?;
        }
        Ok(())
    }));
    let ol: &'static [usize] = &[9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024];
    fs.push(family("one special character", "values of 23 lengths to 1024 of one of 5 characters, plain and quoted, with one of 4 characters or one of 4 pairs at every place, alone and before another rule", 23 * 5, move |i, ctx| {
        let d = digits(i, &[5, 23]);
        let n = ol[d[1]];
        let f = ['a', ',', '\\', '\'', '='][d[0]];
        let t: Vec<char> = vec![f; n];
        for k in 0..n {
            for x in [&['\''][..], &['\\'], &[','], &['x'], &['\\', '\''], &['\'', '\\'], &['\'', ','], &[',', '\'']] {
                if k + x.len() > n || (n > 300 && k > 40 && k + 40 < n && k % 13 != 0) {
                    continue;
                }
                let mut y = t.clone();
                y[k..k + x.len()].copy_from_slice(x);
                let y: String = y.into_iter().collect();
                judge_text(&format!("arg5={}", y), ctx)?;
                judge_text(&format!("arg5='{}',member=M", y), ctx)?;
            }
        }
        Ok(())
    }));
    // words a reader might take for a keyword
    let words: Arc<Vec<String>> = Arc::new(keyword_words());
    let nwd = words.len() as u64;
    fs.push(family("keyword words", format!("{} near-keywords as key and as value of type and eavesdrop, in three cases, plain and quoted", nwd), nwd, move |i, ctx| {
        let w = &words[i as usize];
        let mut cap: Vec<char> = w.chars().collect();
        if let Some(c) = cap.first_mut() {
            *c = c.to_ascii_uppercase();
        }
        for w in [w.clone(), w.to_uppercase(), cap.into_iter().collect()] {
            for t in ["type", "eavesdrop", "member", "arg0"] {
                judge_text(&format!("{}={}", t, w), ctx)?;
                judge_text(&format!("{}='{}'", t, w), ctx)?;
            }
            for v in ["", "a", "/a", "a.b", ":1.1", "true", "signal"] {
                judge_text(&format!("{}={}", w, v), ctx)?;
                judge_text(&format!("{}='{}'", w, v), ctx)?;
                judge_text(&format!("member=M,{}={}", w, v), ctx)?;
            }
        }
        Ok(())
    }));
    // names with a meaning
    fs.push(family("special names", "the names, paths and members D-Bus gives a meaning, whole, cut at every place, extended, in every key", special_texts().len() as u64, |i, ctx| {
        let w = &special_texts()[i as usize];
        for (k, _) in KEYS {
            judge_text(&format!("{}={}", k, w), ctx)?;
            judge_text(&format!("{}='{}'", k, w), ctx)?;
        }
        Ok(())
    }));
    fs.push(family("long texts", "0..=300 rules in one text, one of them (at every place) in error or not", 301 * 3, |i, ctx| {
        let d = digits(i, &[301, 3]);
        let n = d[0];
        let bad = ["arg64=x", "path=a", "arg2='q'"][d[1]];
        let r = |k: usize| format!("{}={}", KEYS[k % KEYS.len()].0, KEYS[k % KEYS.len()].1);
        for p in 0..=n {
            if n > 40 && p % 7 != n % 7 && p + 3 < n {
                continue;
            }
            let t: Vec<String> = (0..n).map(|k| if k == p { bad.to_string() } else { r(k) }).collect();
            judge_text(&t.join(","), ctx)?;
        }
        Ok(())
    }));
    // lists of rule texts and joints
    let joints: &'static [&'static str] = &[",", ", ", " ,", ",,", ";", "", "','", "\\,", "=,", ",="];
    fs.push(family("joints", format!("every pair of {} rules joined in 10 ways, and every triple joined by commas", nk), nk * nk * (10 + nk), move |i, ctx| {
        let d = digits(i, &[nk, nk, 10 + nk]);
        let r = |k: usize| format!("{}={}", KEYS[k].0, KEYS[k].1);
        if d[2] < 10 {
            let j = joints[d[2]];
            judge_text(&format!("{}{}{}", r(d[0]), j, r(d[1])), ctx)?;
            judge_text(&format!("{}='{}'{}{}", KEYS[d[0]].0, KEYS[d[0]].1, j, r(d[1])), ctx)?;
            judge_text(&format!("{}{}{}", j, r(d[0]), j), ctx)
        } else {
            judge_text(&format!("{},{},{}", r(d[0]), r(d[1]), r(d[2] - 10)), ctx)
        }
    }));
    fs
}

fn keyword_words() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for a in ["method", "member", "message", "reply", "error", "signal", "", "no", "name", "object", "bus", "property", "arg", "args", "path", "sender", "interface", "unique", "well"] {
        for sep in ["", "_", "-", " ", ".", "0", "N"] {
            for b in ["call", "return", "reply", "returned", "signal", "error", "message", "invocation", "path", "namespace", "name", "value", "type", "owner", "prefix", "pattern", "signature", "serial", "fds", "flags", "", "s", "ns"] {
                v.push(format!("{}{}{}", a, sep, b));
            }
        }
    }
    for w in ["any", "all", "*", "?", "true", "false", "yes", "no", "on", "off", "0", "1", "2", "3", "4", "00", "01", "t", "f", "y", "n", "TRUE", "tRUE", "truthy", "none", "null", "nil", "src", "dst", "dest", "source", "target", "from", "to", "iface", "destinations", "senders", "event", "call", "ret", "err", "sig", "notify", "monitor", "eaves", "eavesdropping", "log", "send_type", "receive_type", "send_destination", "max_match_rules", "unix_fds", "sequence", "serial", "reply_serial", "error_name", "signature", "version"] {
        v.push(w.to_string());
    }
    for n in 0..70 {
        for e in ["", "path", "namespace", "paths", "path_namespace", "_namespace", "_path", "Path", "has", "value", "prefix", "type"] {
            v.push(format!("arg{}{}", n, e));
            v.push(format!("args{}{}", n, e));
        }
    }
    v.sort();
    v.dedup();
    v
}

/// The names with a meaning: whole, cut at every place, extended.
fn special_texts() -> Vec<String> {
    let mut v = Vec::new();
    for t in SP_NAMES.iter().chain(SP_PATHS).chain(SP_MEMBERS) {
        for k in 0..=t.len() {
            v.push(t[..k].to_string());
        }
        for e in [".", "/", "a", ".a", "/a", "-", "0", ".0", "*", ".*", " "] {
            v.push(format!("{}{}", t, e));
        }
    }
    v.sort();
    v.dedup();
    v
}

// --- C17 -------------------------------------------------------------------------------------

fn match_one(r: &Rule, rule: &MatchRule, m: &M, msg: &dbus_message_parser::message::Message, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let exp = match matches(r, m) {
        Some(e) => e,
        None => {
            ctx.outcome("left open");
            return Ok(());
        }
    };
    let got = rule.matching_rule(msg);
    if got != exp {
        return Err(format!("the rule {:?} matches: {}, expected {}; message {}", r, got, exp, short(&format!("{:?}", m))));
    }
    if MatchRule::matching_rules(std::slice::from_ref(rule), msg) != exp {
        return Err(format!("a list of only the rule {:?} matches: {}, expected {}", r, !exp, exp));
    }
    ctx.trace();
    ctx.outcome(if exp { "match" } else { "no match" });
    Ok(())
}

fn texts() -> Vec<String> {
    ["", "a", "A", "ab", "a.b", "a.bc", "a.b.c", "a.b.cd", "a.b.", "a.b..c", ".a.b", "b.a.b", "/", "/a", "/ab", "/a/", "/a/b", "/a/bc", "/a/b/", "/a/b/c", "//", "/a//b", "a/b", "/b", ":1.5", "é", "/é", "a.b/é", "/a/é", "a,b", "'a'", "org.freedesktop.DBus", "/aa/", "/aa", "/a/b/c/d", "a.b c"].iter().map(|s| s.to_string()).collect()
}
const MPATHS: &[&str] = &["/", "/a", "/ab", "/a/b", "/a/bc", "/a/b/c", "/aa/b", "/b", "/b/a", "/_", "/a/b/c/d"];
const MNAMES: &[&str] = &["a.b", "a.bc", "a.b.c", "a.b.c.d", "aa.b", "b.a.b", "A.b", "a._9"];
const MBUS: &[&str] = &[":1.5", ":1.50", ":1.5.1", ":2.5", "a.b", "a.bc", "a.b.c", "a.b-c", "org.freedesktop.DBus"];
const MMEM: &[&str] = &["M", "Mem", "m", "MM", "_9"];

pub fn all_rules() -> Vec<Rule> {
    let mut v = Vec::new();
    for t in 1..=4 {
        v.push(Rule::Type(t));
    }
    for b in MBUS {
        v.push(Rule::Sender(b.to_string()));
        if b.starts_with(':') {
            v.push(Rule::Dest(b.to_string()));
        }
    }
    for n in MNAMES {
        v.push(Rule::Interface(n.to_string()));
        v.push(Rule::Arg0Ns(n.to_string()));
    }
    for n in MMEM {
        v.push(Rule::Member(n.to_string()));
    }
    for p in MPATHS {
        v.push(Rule::Path(p.to_string()));
        v.push(Rule::PathNs(p.to_string()));
        for n in [0usize, 1, 2, 63, 64, 100] {
            v.push(Rule::ArgPath(n, p.to_string()));
        }
    }
    for t in texts() {
        for n in [0usize, 1, 2, 62, 63] {
            v.push(Rule::Arg(n, t.clone()));
        }
    }
    v.push(Rule::Eaves(true));
    v.push(Rule::Eaves(false));
    v
}

fn body_values() -> Vec<V> {
    let mut v: Vec<V> = texts().into_iter().map(V::S).collect();
    v.extend(["/", "/a", "/ab", "/a/b", "/a/b/c", "/b"].iter().map(|p| V::O(p.to_string())));
    for x in ["a", "a.b", "/a"] {
        v.push(var(s(x)));
        v.push(V::A(p(b's'), vec![s(x)]));
        v.push(V::St(vec![s(x)]));
    }
    v.push(V::G(parses("as")));
    v.push(V::Y(b'a'));
    v.push(V::U(1));
    v.push(V::A(p(b'y'), vec![V::Y(b'a')]));
    v.push(V::De(Box::new((s("a"), s("a")))));
    v
}

/// Messages with few fields and values varied one or two at a time.
fn messages() -> Vec<M> {
    let mut v = Vec::new();
    let base = |ty: u8| {
        let mut m = empty_m();
        m.ty = ty;
        m.serial = 9;
        m.rserial = Some(1);
        m
    };
    for ty in 1..=4u8 {
        let mut full = base(ty);
        full.path = Some("/a/b".into());
        full.iface = Some("a.b".into());
        full.member = Some("M".into());
        full.ename = Some("a.b".into());
        full.dest = Some(":1.5".into());
        full.sender = Some("a.b".into());
        full.body = vec![s("a.b"), V::O("/a/b".into())];
        v.push(full.clone());
        for p in MPATHS {
            let mut m = full.clone();
            m.path = Some(p.to_string());
            m.le = false;
            v.push(m);
        }
        for n in MNAMES {
            let mut m = full.clone();
            m.iface = Some(n.to_string());
            v.push(m.clone());
            m.iface = None;
            m.ename = Some(n.to_string());
            v.push(m);
        }
        for n in MBUS {
            let mut m = full.clone();
            m.dest = Some(n.to_string());
            v.push(m.clone());
            m.dest = None;
            m.sender = Some(n.to_string());
            v.push(m.clone());
            m.dest = Some(n.to_string());
            v.push(m);
        }
        for n in MMEM {
            let mut m = full.clone();
            m.member = Some(n.to_string());
            v.push(m);
        }
        for k in 0..64 {
            let mut m = full.clone();
            if k & 1 != 0 {
                m.path = None;
            }
            if k & 2 != 0 {
                m.iface = None;
            }
            if k & 4 != 0 {
                m.member = None;
            }
            if k & 8 != 0 {
                m.dest = None;
            }
            if k & 16 != 0 {
                m.sender = None;
            }
            if k & 32 != 0 {
                m.body.clear();
            }
            v.push(m);
        }
    }
    for x in body_values() {
        for k in 0..4 {
            let mut m = base(1);
            m.path = Some("/".into());
            m.member = Some("M".into());
            m.body = match k {
                0 => vec![x.clone()],
                1 => vec![s("a"), x.clone()],
                2 => vec![x.clone(), x.clone(), s("a")],
                _ => vec![V::Y(1), V::Y(2), x.clone()],
            };
            v.push(m);
        }
    }
    // long bodies, for high indices
    for n in [61usize, 62, 63, 64, 65, 101, 130] {
        for fill in ["a", "/a/b", "a.b"] {
            let mut m = base(4);
            m.path = Some("/a".into());
            m.iface = Some("a.b".into());
            m.member = Some("M".into());
            m.body = (0..n).map(|k| if k + 2 >= n { s(fill) } else { V::Y(k as u8) }).collect();
            v.push(m.clone());
            m.body = (0..n).map(|k| if k == 62 || k == 63 || k == 64 || k == 100 { s(fill) } else { s("zz") }).collect();
            v.push(m);
        }
    }
    v.retain(required_ok);
    v.dedup();
    v
}

fn record(m: &M, r: &Rule) {
    rec::start(mix(0xb000, m.ty as u64));
    rec::step(hash_bytes(format!("{:?}", r).as_bytes()), mix(0xb100, hash_bytes(format!("{:?}", (matches(r, m), m.path.is_some(), m.iface.is_some(), m.body.len().min(3))).as_bytes())));
}

pub fn c17_families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let rs = Arc::new(all_rules());
    let ms = Arc::new(messages());
    let nm = ms.len() as u64;
    let r2 = rs.clone();
    let m2 = ms.clone();
    fs.push(family("rules x messages", format!("every one of {} rules on every one of {} messages", rs.len(), nm), nm, move |i, ctx| {
        let m = &m2[i as usize];
        let msg = to_message(m).ok_or_else(|| format!("explorer: message refused {:?}", m))?;
        let before = format!("{:?}", msg);
        for r in r2.iter() {
            let rule = to_rule_any(r)?;
            match_one(r, &rule, m, &msg, ctx)?;
            record(m, r);
        }
        if format!("{:?}", msg) != before {
            return Err(format!("matching changed the message {}", before));
        }
        ctx.input(hash_bytes(before.as_bytes()));
        ctx.sample(|| short(&before));
        Ok(())
    }));
    // path namespaces: every pair of paths over a small alphabet, as message path and as argument
    let ps: Arc<Vec<String>> = Arc::new({
        let al = b"ab/_";
        (0..words_upto(4, 5)).map(|i| word(i, 4).iter().map(|k| al[*k] as char).collect::<String>()).map(|s| format!("/{}", s)).filter(|s| is_path(s.as_bytes())).collect()
    });
    let np = ps.len() as u64;
    let raw: Arc<Vec<String>> = Arc::new({
        let al = b"ab/.";
        (0..words_upto(4, if th { 6 } else { 5 })).map(|i| word(i, 4).iter().map(|k| al[*k] as char).collect::<String>()).collect()
    });
    let p2 = ps.clone();
    let raw2 = raw.clone();
    fs.push(family("path namespaces", format!("every pair of {} paths for path, path_namespace and argNpath with an object path; every path with {} strings for argNpath", np, raw.len()), np, move |i, ctx| {
        let ns = &p2[i as usize];
        let rules: Vec<(Rule, MatchRule)> = [Rule::Path(ns.clone()), Rule::PathNs(ns.clone()), Rule::ArgPath(0, ns.clone()), Rule::ArgPath(1, ns.clone())]
            .into_iter()
            .map(|r| {
                let x = to_rule(&r).unwrap();
                (r, x)
            })
            .collect();
        for q in p2.iter() {
            let mut m = call();
            m.path = Some(q.clone());
            m.body = vec![V::O(q.clone()), s(q)];
            let msg = to_message(&m).ok_or("explorer: path")?;
            for (r, x) in &rules {
                match_one(r, x, &m, &msg, ctx)?;
                record(&m, r);
            }
        }
        let mut m = call();
        for t in raw2.iter() {
            m.body = vec![s(t), s(t)];
            let msg = to_message(&m).ok_or("explorer: text")?;
            for (r, x) in rules.iter().skip(2) {
                match_one(r, x, &m, &msg, ctx)?;
            }
        }
        Ok(())
    }));
    let nss: Arc<Vec<String>> = Arc::new({
        let al = b"ab._";
        (0..words_upto(4, 5)).map(|i| word(i, 4).iter().map(|k| al[*k] as char).collect::<String>()).filter(|s| is_interface(s.as_bytes())).collect()
    });
    let nn = nss.len() as u64;
    let raw3: Arc<Vec<String>> = Arc::new({
        let al = b"ab._";
        (0..words_upto(4, if th { 7 } else { 6 })).map(|i| word(i, 4).iter().map(|k| al[*k] as char).collect::<String>()).collect()
    });
    fs.push(family("name namespaces", format!("every one of {} names as arg0namespace against {} strings; the same as interface, member, arg", nn, raw3.len()), nn, move |i, ctx| {
        let ns = &nss[i as usize];
        let r = Rule::Arg0Ns(ns.clone());
        let x = to_rule(&r).ok_or("explorer: name")?;
        let ra = Rule::Arg(0, ns.clone());
        let xa = to_rule(&ra).ok_or("explorer: arg")?;
        let mut m = call();
        m.iface = Some(ns.clone());
        for t in raw3.iter() {
            m.body = vec![s(t)];
            let msg = to_message(&m).ok_or("explorer: text")?;
            match_one(&r, &x, &m, &msg, ctx)?;
            match_one(&ra, &xa, &m, &msg, ctx)?;
            record(&m, &r);
        }
        m.body = vec![V::Y(0), s(ns)];
        let msg = to_message(&m).ok_or("explorer: text")?;
        match_one(&r, &x, &m, &msg, ctx)
    }));
    // argument indices
    fs.push(family("indices", "argN and argNpath for every N to 70 on bodies of every length to 70 with the value at every place", 70 * 70, |i, ctx| {
        let d = digits(i, &[70, 70]);
        let len = d[0] + 1;
        if d[1] >= len {
            return Ok(());
        }
        let mut m = call();
        m.body = (0..len).map(|k| if k == d[1] { s("/v") } else { V::Y(k as u8) }).collect();
        let msg = to_message(&m).ok_or("explorer: body")?;
        for n in 0..72 {
            let r = Rule::ArgPath(n, "/v".into());
            match_one(&r, &to_rule(&r).unwrap(), &m, &msg, ctx)?;
            if n <= 63 {
                let r = Rule::Arg(n, "/v".into());
                match_one(&r, &to_rule(&r).unwrap(), &m, &msg, ctx)?;
            }
        }
        ctx.trace();
        Ok(())
    }));
    // strings of slashes and letters against short paths; letter case
    let sl: Arc<Vec<String>> = Arc::new((0..words_upto(3, if th { 9 } else { 7 })).map(|i| word(i, 3).iter().map(|k| ['/', 'a', 'b'][*k]).collect::<String>()).collect());
    let shorts: Arc<Vec<String>> = Arc::new(p2s().into_iter().filter(|p| p.len() <= 5).collect());
    fs.push(family("slashes", format!("argNpath with {} short paths against {} strings of slashes and letters", shorts.len(), sl.len()), shorts.len() as u64, {
        let shorts = shorts.clone();
        move |i, ctx| {
            let r = Rule::ArgPath(0, shorts[i as usize].clone());
            let x = to_rule(&r).ok_or("explorer: path")?;
            for t in sl.iter() {
                let mut m = call();
                m.body = vec![s(t)];
                let msg = to_message(&m).ok_or("explorer: text")?;
                match_one(&r, &x, &m, &msg, ctx)?;
            }
            Ok(())
        }
    }));
    let ca: Arc<Vec<String>> = Arc::new({
        let al = b"aAzZ.";
        (0..words_upto(5, 5)).map(|i| word(i, 5).iter().map(|k| al[*k] as char).collect::<String>()).filter(|s| is_interface(s.as_bytes())).collect()
    });
    let nca = ca.len() as u64;
    fs.push(family("letter case", format!("every pair of {} names of upper- and lower-case letters as interface, sender, arg, arg0namespace, and as elements of path, path_namespace, argNpath", nca), nca, move |i, ctx| {
        let a = &ca[i as usize];
        let path = |t: &str| format!("/{}", t.replace('.', "/"));
        let mem = |t: &str| t.replace('.', "_");
        let rules: Vec<(Rule, MatchRule)> = [Rule::Interface(a.clone()), Rule::Sender(a.clone()), Rule::Arg(0, a.clone()), Rule::Arg0Ns(a.clone()), Rule::Path(path(a)), Rule::PathNs(path(a)), Rule::ArgPath(1, path(a)), Rule::Member(mem(a))]
            .into_iter()
            .map(|r| to_rule_any(&r).map(|x| (r, x)))
            .collect::<Result<_, _>>()?;
        for t in ca.iter() {
            let mut m = call();
            m.iface = Some(t.clone());
            m.sender = Some(t.clone());
            m.path = Some(path(t));
            m.member = Some(mem(t));
            m.body = vec![s(t), s(&path(t))];
            let msg = to_message(&m).ok_or("explorer: message")?;
            for (r, x) in &rules {
                match_one(r, x, &m, &msg, ctx)?;
            }
        }
        Ok(())
    }));
    // long values with one difference
    let vl: &'static [usize] = &[3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 200, 240, 252, 253, 254, 255, 256, 300, 1000];
    fs.push(family("one different character", "names, paths, namespaces and arguments of 29 lengths to 1000, in every key, against the same with one character at every place changed, dropped or doubled, or with more after it", 29 * 9, move |i, ctx| {
        let d = digits(i, &[9, 29]);
        let n = vl[d[1]];
        let dotted = |n: usize| {
            let mut t = letters(n).into_bytes();
            for k in (1..n.saturating_sub(1)).step_by(9) {
                t[k] = b'.';
            }
            String::from_utf8(t).unwrap()
        };
        let val: String = match d[0] {
            0 | 1 | 4 => dotted(n),
            2 => letters(n),
            3 => format!(":1.{}", "7".repeat(n.saturating_sub(3).max(1))),
            5 => letters(n),
            _ => format!("/{}", letters(n.max(2) - 1).chars().enumerate().map(|(k, c)| if k % 11 == 7 && k + 2 < n { '/' } else { c }).collect::<String>()),
        };
        let rule = |t: &str| match d[0] {
            0 => Rule::Interface(t.into()),
            1 => Rule::Sender(t.into()),
            2 => Rule::Member(t.into()),
            3 => Rule::Dest(t.into()),
            4 => Rule::Arg0Ns(t.into()),
            5 => Rule::Arg(0, t.into()),
            6 => Rule::Path(t.into()),
            7 => Rule::PathNs(t.into()),
            _ => Rule::ArgPath(0, t.into()),
        };
        let message = |t: &str| {
            let mut m = call();
            m.iface = Some("x.y".into());
            match d[0] {
                0 => m.iface = Some(t.into()),
                1 => m.sender = Some(t.into()),
                2 => m.member = Some(t.into()),
                3 => m.dest = Some(t.into()),
                6 | 7 => m.path = Some(t.into()),
                _ => m.body = vec![s(t)],
            }
            m
        };
        let r = rule(&val);
        let x = match to_rule(&r) {
            Some(x) => x,
            None => return Ok(()),
        };
        let mut others = vec![val.clone(), format!("{}.a", val), format!("{}/a", val), format!("{}a", val)];
        for k in 0..val.len() {
            let c = val.as_bytes()[k];
            for y in [c ^ 1, c ^ 0x20, b'Q', b'.', b'/'] {
                let mut t = val.clone().into_bytes();
                t[k] = y & 0x7f;
                others.extend(String::from_utf8(t));
            }
            others.push(val[..k].to_string());
            let mut t = val.clone();
            t.remove(k);
            others.push(t);
            let mut t = val.clone();
            t.insert(k, c as char);
            others.push(t);
        }
        for t in &others {
            let m = message(t);
            if let Some(msg) = to_message(&m) {
                match_one(&r, &x, &m, &msg, ctx)?;
            }
            // and the other way round
            let m = message(&val);
            let r2 = rule(t);
            if let (Some(msg), Some(x2)) = (to_message(&m), to_rule(&r2)) {
                match_one(&r2, &x2, &m, &msg, ctx)?;
            }
        }
        ctx.input(mix(i, 9));
        Ok(())
    }));
    // lists
    let pool: Arc<Vec<Rule>> = Arc::new(vec![
        Rule::Type(1),
        Rule::Type(4),
        Rule::Sender("a.b".into()),
        Rule::Sender(":1.5".into()),
        Rule::Interface("a.b".into()),
        Rule::Member("M".into()),
        Rule::Member("Mem".into()),
        Rule::Path("/a/b".into()),
        Rule::PathNs("/a".into()),
        Rule::PathNs("/b".into()),
        Rule::Dest(":1.5".into()),
        Rule::Arg(0, "a.b".into()),
        Rule::Arg(1, "x".into()),
        Rule::ArgPath(1, "/a".into()),
        Rule::Arg0Ns("a.b".into()),
        Rule::Eaves(true),
        Rule::Eaves(false),
    ]);
    let npool = pool.len() as u64;
    let depth = if th { 4 } else { 3 };
    let nw = words_upto(npool, depth);
    let some: Arc<Vec<M>> = Arc::new(ms.iter().step_by(if th { 3 } else { 7 }).cloned().collect());
    fs.push(family("rule lists", format!("every list of up to {} of {} rules on {} messages", depth, npool, some.len()), nw, move |i, ctx| {
        let w: Vec<Rule> = word(i, npool).iter().map(|k| pool[*k].clone()).collect();
        let rules = to_rules(&w).ok_or("explorer: rules")?;
        for m in some.iter() {
            ctx.eval();
            let msg = to_message(m).ok_or("explorer: message")?;
            let mut exp = Some(true);
            for r in &w {
                exp = match (exp, matches(r, m)) {
                    (Some(false), _) | (_, Some(false)) => Some(false),
                    (Some(true), x) => x,
                    (None, _) => None,
                };
            }
            let exp = match exp {
                Some(e) => e,
                None => continue,
            };
            let got = MatchRule::matching_rules(&rules, &msg);
            if got != exp {
                return Err(format!("the list {:?} matches: {}, expected {}; message {}", w, got, exp, short(&format!("{:?}", m))));
            }
            ctx.trace();
        }
        Ok(())
    }));
    // the names with a meaning
    let sp: Arc<Vec<M>> = Arc::new(special_messages());
    let sr: Arc<Vec<Rule>> = Arc::new({
        let mut v = Vec::new();
        for n in SP_NAMES {
            v.push(Rule::Sender(n.to_string()));
            v.push(Rule::Arg(0, n.to_string()));
            v.push(Rule::Arg(1, n.to_string()));
            if is_interface(n.as_bytes()) {
                v.push(Rule::Interface(n.to_string()));
                v.push(Rule::Arg0Ns(n.to_string()));
            }
        }
        for p in SP_PATHS {
            v.push(Rule::Path(p.to_string()));
            v.push(Rule::PathNs(p.to_string()));
            v.push(Rule::ArgPath(0, p.to_string()));
        }
        for n in SP_MEMBERS {
            v.push(Rule::Member(n.to_string()));
        }
        v.extend((1..=4).map(Rule::Type));
        v.extend([":1.1", ":1.5", ":1.7", ":1.9"].iter().map(|d| Rule::Dest(d.to_string())));
        v.extend([true, false].map(Rule::Eaves));
        v.retain(|r| to_rule(r).is_some());
        v
    });
    let nsp = sp.len() as u64;
    fs.push(family("special names", format!("{} rules of names with a meaning on {} messages of such names, flags 0 to 7", sr.len(), nsp), nsp, move |i, ctx| {
        let mut m = sp[i as usize].clone();
        for fl in [m.flags, 0, 1, 2, 4, 7] {
            m.flags = fl;
            for a0 in [None, Some(V::S(SP_NAMES[i as usize % SP_NAMES.len()].into())), Some(V::O(SP_PATHS[i as usize % SP_PATHS.len()].into()))] {
                let mut m = m.clone();
                if let Some(a) = a0 {
                    m.body = vec![a, s(SP_NAMES[0])];
                }
                let msg = to_message(&m).ok_or("explorer: message")?;
                for r in sr.iter() {
                    match_one(r, &to_rule_any(r)?, &m, &msg, ctx)?;
                }
            }
        }
        Ok(())
    }));
    fs.push(family("long lists", "lists of every length to 300 of rules that match, with none or one (at every place) that does not, of 12 kinds", 301 * 12, |i, ctx| {
        let d = digits(i, &[301, 12]);
        let mut m = call();
        m.ty = 1;
        m.path = Some("/a/b".into());
        m.iface = Some("a.b".into());
        m.member = Some("M".into());
        m.sender = Some(":1.7".into());
        m.dest = Some(":1.5".into());
        m.body = vec![s("a.b"), s("/p")];
        let msg = to_message(&m).ok_or("explorer: message")?;
        let hits = [Rule::Type(1), Rule::Path("/a/b".into()), Rule::PathNs("/a".into()), Rule::Interface("a.b".into()), Rule::Member("M".into()), Rule::Sender(":1.7".into()), Rule::Dest(":1.5".into()), Rule::Arg(0, "a.b".into()), Rule::ArgPath(1, "/p".into()), Rule::Arg0Ns("a.b".into()), Rule::Eaves(true), Rule::Eaves(false)];
        let miss = [Rule::Type(4), Rule::Path("/a".into()), Rule::PathNs("/b".into()), Rule::Interface("a.c".into()), Rule::Member("N".into()), Rule::Sender("c.d".into()), Rule::Dest(":1.6".into()), Rule::Arg(0, "a".into()), Rule::ArgPath(1, "/q".into()), Rule::Arg0Ns("a.c".into()), Rule::Arg(5, "".into()), Rule::Arg(63, "".into())];
        let mut bad = to_rule_any(&miss[d[1]])?;
        for same in [false, true] {
            let mut l: Vec<MatchRule> = (0..d[0]).map(|k| to_rule_any(&hits[if same { d[1] } else { k % 12 }])).collect::<Result<_, _>>()?;
            ctx.eval();
            if !MatchRule::matching_rules(&l, &msg) {
                return Err(format!("a list of {} matching rules does not match ({})", d[0], same));
            }
            for p in 0..d[0] {
                std::mem::swap(&mut l[p], &mut bad);
                ctx.eval();
                if MatchRule::matching_rules(&l, &msg) {
                    return Err(format!("a list of {} rules of which rule {} ({:?}) does not match, matches", d[0], p, miss[d[1]]));
                }
                std::mem::swap(&mut l[p], &mut bad);
            }
        }
        ctx.trace();
        ctx.outcome("long list");
        Ok(())
    }));
    // decoded messages match as built ones do
    let m4 = ms.clone();
    fs.push(family("decoded messages", format!("{} messages decoded from their bytes, on every rule", nm), nm, move |i, ctx| {
        let m = &m4[i as usize];
        let w = encode(m, &HeaderForm::default());
        let (msg, _, _) = dbus_message_parser::message::Message::decode_with_fds(crate::wire::b(&w.bytes), &w.fds).map_err(|e| format!("reference bytes refused: {}; {:?}", e, m))?;
        for r in rs.iter() {
            match_one(r, &to_rule_any(r)?, m, &msg, ctx)?;
        }
        Ok(())
    }));
    fs.extend(msg_families(match_all, th).into_iter().filter(|f| !f.name.contains("length")));
    fs
}

/// Every rule of a fixed list, and rules made from the message itself, on one message.
fn match_all(m: &M, ctx: &mut Ctx) -> CaseResult {
    static FIXED: OnceLock<Vec<(Rule, MatchRule)>> = OnceLock::new();
    let fixed = FIXED.get_or_init(|| all_rules().into_iter().step_by(3).filter_map(|r| to_rule(&r).map(|x| (r, x))).collect());
    let msg = match to_message(m) {
        Some(x) => x,
        None => {
            ctx.skip();
            return Ok(());
        }
    };
    for (r, x) in fixed {
        match_one(r, x, m, &msg, ctx)?;
    }
    let mut own = vec![Rule::Type(m.ty)];
    own.extend(m.path.iter().flat_map(|p| vec![Rule::Path(p.clone()), Rule::PathNs(p.clone())]));
    own.extend(m.iface.clone().map(Rule::Interface));
    own.extend(m.member.clone().map(Rule::Member));
    own.extend(m.sender.clone().map(Rule::Sender));
    own.extend(m.dest.clone().map(Rule::Dest));
    for (k, v) in m.body.iter().enumerate() {
        if let V::S(x) | V::O(x) = v {
            own.push(Rule::Arg(k, x.clone()));
            own.push(Rule::Arg(k + 1, x.clone()));
            own.push(Rule::ArgPath(k, x.clone()));
            own.push(Rule::Arg0Ns(x.clone()));
        }
    }
    for r in &own {
        if let Some(x) = to_rule(r) {
            match_one(r, &x, m, &msg, ctx)?;
        }
    }
    ctx.input(hash_bytes(format!("{:?}", m).as_bytes()));
    Ok(())
}

/// Every path over {a b / _} up to 6 bytes.
fn p2s() -> Vec<String> {
    let al = b"ab/_";
    (0..words_upto(4, 5)).map(|i| word(i, 4).iter().map(|k| al[*k] as char).collect::<String>()).map(|s| format!("/{}", s)).filter(|s| is_path(s.as_bytes())).collect()
}

fn to_rule_any(r: &Rule) -> Result<MatchRule, String> {
    to_rule(r).ok_or_else(|| format!("explorer: rule refused {:?}", r))
}
