//! C11 (names) and C12 (object paths); the text inputs of C04.

use crate::engine::*;
use crate::model::*;
use crate::wire::letters;
use dbus_message_parser::value::{Bus, Error, Interface, Member, ObjectPath, UniqueConnectionName, WellKnownBusName};
use std::convert::TryFrom;
use std::sync::Arc;

pub const KINDS: u64 = 6;

fn expected(kind: usize, b: &[u8]) -> bool {
    match kind {
        0 => is_interface(b),
        1 => is_error_name(b),
        2 => is_member(b),
        3 => is_well_known(b),
        4 => is_unique(b),
        5 => is_bus(b),
        _ => is_path(b),
    }
}
fn kind_name(kind: usize) -> &'static str {
    ["interface", "error name", "member", "well-known bus name", "unique connection name", "bus name", "object path"][kind]
}

/// Texts one edit away: case, one character changed, dropped, doubled, swapped, added at an end.
fn near_misses(t: &str) -> Vec<String> {
    let b = t.as_bytes();
    let n = b.len();
    let mut out: Vec<String> = vec![t.to_ascii_uppercase(), t.to_ascii_lowercase(), format!(" {}", t), format!("{} ", t), format!("{}\0", t), format!("{}{}", t, t), t.replace('.', "_"), t.replace('_', "-"), t.replace('-', "_"), t.replace('/', "."), t.chars().rev().collect(), format!(":{}", t), format!(":1.{}", t), format!("{}.{}", t, t), format!("x.{}", t), format!(".{}", t), format!("/{}", t), t[1..].to_string(), t.trim_start_matches(|c: char| !c.is_ascii_alphabetic()).to_string(), t.split(|c| c == '.' || c == '/').last().unwrap_or("").to_string()];
    let mut at: Vec<usize> = if n <= 10 { (0..n).collect() } else { vec![0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, n / 2, n - 2, n - 1] };
    at.retain(|k| *k < n);
    for k in at {
        for c in [b[k] ^ 0x20, b[k] ^ 1, b[k] ^ 0x40, b'Z', b'.', b'_'] {
            let mut x = b.to_vec();
            x[k] = c & 0x7f;
            out.push(String::from_utf8(x).unwrap());
        }
        let mut x = b.to_vec();
        x.remove(k);
        out.push(String::from_utf8(x).unwrap());
        let mut x = b.to_vec();
        x.insert(k, b[k]);
        out.push(String::from_utf8(x).unwrap());
        if k + 1 < n {
            let mut x = b.to_vec();
            x.swap(k, k + 1);
            out.push(String::from_utf8(x).unwrap());
        }
    }
    out.retain(|x| x != t);
    out
}

macro_rules! judge_one {
    ($t:ty, $kind:expr, $bytes:expr, $exp:expr) => {{
        let bytes: &[u8] = $bytes;
        let what = || format!("{} {:?} ({})", kind_name($kind), crate::conv::short(&String::from_utf8_lossy(bytes)), hex(bytes));
        let x = <$t>::try_from(bytes);
        if x.is_ok() != $exp {
            return Err(format!("{} from bytes: accepted {}, expected {}", what(), x.is_ok(), $exp));
        }
        if let Ok(text) = std::str::from_utf8(bytes) {
            let y = <$t>::try_from(text);
            if y.is_ok() != $exp {
                return Err(format!("{} from text: accepted {}, expected {}", what(), y.is_ok(), $exp));
            }
            let z = <$t>::try_from(text.to_string());
            if z.is_ok() != $exp {
                return Err(format!("{} from owned text: accepted {}, expected {}", what(), z.is_ok(), $exp));
            }
            if let (Ok(x), Ok(y), Ok(z)) = (x, y, z) {
                for n in [&x, &y, &z] {
                    let r: &str = n.as_ref();
                    if r != text {
                        return Err(format!("{}: as_ref gives {:?}", what(), r));
                    }
                    if n.to_string() != text {
                        return Err(format!("{}: display gives {:?}", what(), n.to_string()));
                    }
                    if !(*n == *text) {
                        return Err(format!("{}: not equal to its own text", what()));
                    }
                    if String::from(n.clone()) != text {
                        return Err(format!("{}: into String differs", what()));
                    }
                    if *n == *format!("{}x", text) || *n == text[..text.len() - 1] || *n == *format!("{}.x", text) || *n == *"" {
                        return Err(format!("{}: equal to another text", what()));
                    }
                }
                for near in near_misses(text) {
                    if x == *near.as_str() || y == *near.as_str() || z == *near.as_str() {
                        return Err(format!("{}: equal to the text {:?}", what(), crate::conv::short(&near)));
                    }
                    if let Ok(other) = <$t>::try_from(near.as_str()) {
                        if x == other || other == x || x.partial_cmp(&other) == Some(std::cmp::Ordering::Equal) {
                            return Err(format!("{}: equal to the name {:?}", what(), crate::conv::short(&near)));
                        }
                    }
                }
                if x.partial_cmp(&y) != Some(std::cmp::Ordering::Equal) {
                    return Err(format!("{}: not ordered equal to itself", what()));
                }
                if x != y || y != z {
                    return Err(format!("{}: the three constructors give different names", what()));
                }
            }
        }
    }};
}

/// All three constructors, against the grammar.
pub fn judge_name(kind: usize, b: &[u8], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let exp = expected(kind, b);
    match kind {
        0 => judge_one!(Interface, kind, b, exp),
        1 => judge_one!(Error, kind, b, exp),
        2 => judge_one!(Member, kind, b, exp),
        3 => judge_one!(WellKnownBusName, kind, b, exp),
        4 => judge_one!(UniqueConnectionName, kind, b, exp),
        5 => {
            judge_one!(Bus, kind, b, exp);
            if exp {
                let uniq = b[0] == b':';
                let text = std::str::from_utf8(b).unwrap();
                for v in [Bus::try_from(b), Bus::try_from(text), Bus::try_from(text.to_string())] {
                    if let Ok(v) = v {
                        if matches!(v, Bus::UniqueConnectionName(_)) != uniq {
                            return Err(format!("bus name {:?} treated as unique: {}", text, !uniq));
                        }
                    }
                }
            }
        }
        _ => judge_one!(ObjectPath, kind, b, exp),
    }
    ctx.outcome(if exp { "accepted" } else { "refused" });
    ctx.trace();
    if exp {
        ctx.input(mix(hash_bytes(b), kind as u64));
        ctx.sample(|| format!("{} {:?} accepted", kind_name(kind), String::from_utf8_lossy(b)));
    }
    Ok(())
}

/// Families over texts, for the kinds in `kinds`.
fn text_families(kinds: &'static [usize], al: &'static [u8], depth: u32, th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let k = al.len() as u64;
    let n = words_upto(k, depth);
    fs.push(family("words", format!("every word over {:?} up to length {}, {} kinds", String::from_utf8_lossy(al), depth, kinds.len()), n, move |i, ctx| {
        let w: Vec<u8> = word(i, k).iter().map(|x| al[*x]).collect();
        kinds.iter().try_for_each(|kind| judge_name(*kind, &w, ctx))
    }));
    // every byte value in context
    let small: &'static [u8] = if kinds == [6] { b"a0/_" } else { b"a0-.:" };
    let ks = small.len() as u64;
    let np = words_upto(ks, 4);
    let suffixes: &'static [&'static str] = if kinds == [6] { &["", "a", "/a", "/", "a/b"] } else { &["", "a", ".a", "a.b", "0", ".0"] };
    let ns = suffixes.len() as u64;
    fs.push(family("bytes in context", format!("every byte value after every word over {:?} up to length 4 and before {} suffixes", String::from_utf8_lossy(small), ns), np * ns, move |i, ctx| {
        let d = digits(i, &[ns, np]);
        let pre: Vec<u8> = word(d[1] as u64, ks).iter().map(|x| small[*x]).collect();
        for c in 0..=255u8 {
            let mut t = pre.clone();
            t.push(c);
            t.extend_from_slice(suffixes[d[0]].as_bytes());
            kinds.iter().try_for_each(|kind| judge_name(*kind, &t, ctx))?;
        }
        Ok(())
    }));
    // two arbitrary bytes
    let pres: &'static [&'static str] = if kinds == [6] { &["", "/", "/a", "/a/"] } else { &["", "a", "a.", "a.b", ":", ":1.", ":1.2"] };
    let npre = pres.len() as u64;
    fs.push(family("byte pairs", "every pair of byte values after 4 to 7 prefixes, with and without a suffix", npre * 256 * 2, move |i, ctx| {
        let d = digits(i, &[2, 256, npre]);
        for c in 0..=255u8 {
            let mut t = pres[d[2]].as_bytes().to_vec();
            t.push(d[1] as u8);
            t.push(c);
            if d[0] == 1 {
                t.extend_from_slice(if kinds == [6] { b"/a" } else { b".a" });
            }
            kinds.iter().try_for_each(|kind| judge_name(*kind, &t, ctx))?;
        }
        Ok(())
    }));
    // every Unicode scalar value
    fs.push(family("characters", "every Unicode character at the beginning, in the middle and at the end of a name", 0x110000, move |i, ctx| {
        let c = match char::from_u32(i as u32) {
            Some(c) => c,
            None => return Ok(()),
        };
        let ts: &[String] = &if kinds == [6] { [format!("/{}", c), format!("/a{}b", c), format!("/a/{}", c)] } else { [format!("{}.b", c), format!("a.b{}c", c), format!(":1.{}", c)] };
        for t in ts {
            for kind in kinds {
                judge_name(*kind, t.as_bytes(), ctx)?;
            }
        }
        for kind in kinds {
            if *kind == 2 {
                judge_name(2, format!("a{}", c).as_bytes(), ctx)?;
                judge_name(2, format!("{}", c).as_bytes(), ctx)?;
            }
        }
        Ok(())
    }));
    // a special character at every position of names of many lengths
    let lens: Arc<Vec<usize>> = Arc::new({
        let mut v: Vec<usize> = (1..=40).collect();
        v.extend([63, 64, 65, 127, 128, 129, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512]);
        if th {
            v.extend(41..=255);
            v.extend([1023, 1024, 4096]);
        }
        v
    });
    let nl = lens.len() as u64;
    let specials: &'static [u8] = b".-0:/_A\x80";
    fs.push(family("positions", "names of many lengths (to 512) with one or two special characters at every position", nl * 8 * 3, move |i, ctx| {
        let d = digits(i, &[8, 3, nl]);
        let n = lens[d[2]];
        let head: &[u8] = if kinds == [6] { [b"/".as_slice(), b"/a/", b"/_"][d[1]] } else { [b"a.".as_slice(), b":1.", b"a"][d[1]] };
        if head.len() > n {
            return Ok(());
        }
        let mut base = head.to_vec();
        base.resize(n, b'b');
        for p in 0..n {
            let mut t = base.clone();
            t[p] = specials[d[0]];
            kinds.iter().try_for_each(|kind| judge_name(*kind, &t, ctx))?;
            if p + 1 < n {
                for c in [b'.', b'0', b'-', b'/'] {
                    t[p + 1] = c;
                    kinds.iter().try_for_each(|kind| judge_name(*kind, &t, ctx))?;
                    t[p + 1] = b'b';
                }
            }
        }
        Ok(())
    }));
    // many elements of every size
    fs.push(family("elements", "2 to 130 elements of 1 to 5 characters, the last one of 0..=3", 130 * 5 * 4, move |i, ctx| {
        let d = digits(i, &[4, 5, 130]);
        for kind in kinds {
            let sep = if *kind == 6 { '/' } else { '.' };
            let mut t = String::new();
            if *kind == 6 {
                t.push('/');
            }
            for _ in 0..=d[2] {
                t.push_str(&"e".repeat(d[1] + 1));
                t.push(sep);
            }
            t.push_str(&"z".repeat(d[0]));
            judge_name(*kind, t.as_bytes(), ctx)?;
            judge_name(*kind, format!(":{}", t).as_bytes(), ctx)?;
        }
        Ok(())
    }));
    // elements of one character class, of every length
    fs.push(family("long elements", "names of 1 to 3 elements, one of them a run of one character out of 16 of every length to 257, before, between and after others", 257 * 16, move |i, ctx| {
        let d = digits(i, &[16, 257]);
        let run = (b"0159afFxXzZ_-Ee."[d[0]] as char).to_string().repeat(d[1] + 1);
        let ts = if kinds == [6] {
            vec![format!("/{}", run), format!("/a/{}", run), format!("/{}/a", run), format!("/{0}/{0}", run)]
        } else {
            vec![run.clone(), format!("a.{}", run), format!("{}.a", run), format!("a.{}.b", run), format!(":1.{}", run), format!(":{}.1", run), format!(":{0}.{0}", run), format!("a{0}.b{0}", run), format!("a{0}", run), format!("a.b{0}", run)]
        };
        for t in ts {
            kinds.iter().try_for_each(|kind| judge_name(*kind, t.as_bytes(), ctx))?;
        }
        Ok(())
    }));
    // names with a meaning, whole, cut at every place, extended, joined
    let mut sp: Vec<String> = Vec::new();
    for t in crate::wire::SP_NAMES.iter().chain(crate::wire::SP_MEMBERS).chain(crate::wire::SP_PATHS) {
        for k in 0..=t.len() {
            sp.push(t[..k].to_string());
            sp.push(t[k..].to_string());
            sp.push(format!("{}.{}", &t[..k], &t[k..]));
            sp.push(format!("{}/{}", &t[..k], &t[k..]));
            sp.push(format!("{}-{}", &t[..k], &t[k..]));
        }
        for e in [".", ".x", "/", "/x", "1", "-", "_", ":1"] {
            sp.push(format!("{}{}", t, e));
            sp.push(format!("{}{}", e, t));
        }
        for u in crate::wire::SP_NAMES.iter().chain(crate::wire::SP_PATHS) {
            sp.push(format!("{}{}", t, u));
            sp.push(format!("{}.{}", t, u));
        }
    }
    sp.sort();
    sp.dedup();
    let sp = Arc::new(sp);
    let nsp = sp.len() as u64;
    fs.push(family("special names", format!("{} texts made of the names the D-Bus specification gives a meaning: whole, cut and split at every place, extended, joined", nsp), nsp, move |i, ctx| {
        kinds.iter().try_for_each(|kind| judge_name(*kind, sp[i as usize].as_bytes(), ctx))
    }));
    fs
}

fn valid_texts(kind: usize) -> Vec<String> {
    let mut v = Vec::new();
    let al: &[u8] = if kind == 6 { b"/aB_9" } else { b"aB._-9:" };
    for i in 0..words_upto(al.len() as u64, if kind == 6 { 5 } else { 4 }) {
        let w: Vec<u8> = word(i, al.len() as u64).iter().map(|x| al[*x]).collect();
        if expected(kind, &w) {
            v.push(String::from_utf8(w).unwrap());
        }
    }
    v
}

macro_rules! pair_run {
    ($t:ty, $texts:expr, $i:expr, $ctx:expr, $kind:expr) => {{
        let a = <$t>::try_from($texts[$i].as_str()).map_err(|e| format!("{:?} refused: {}", $texts[$i], e))?;
        for u in $texts.iter() {
            $ctx.eval();
            let b = <$t>::try_from(u.as_str()).map_err(|e| format!("{:?} refused: {}", u, e))?;
            let same = *u == $texts[$i];
            if (a == b) != same || (a == *u.as_str()) != same || (a.clone() == b) != same {
                return Err(format!("{} {:?} compared with {:?}: equal {}, expected {}", kind_name($kind), $texts[$i], u, !same, same));
            }
        }
        $ctx.trace();
    }};
}

pub fn name_families(th: bool) -> Vec<Family> {
    let kinds: &'static [usize] = &[0, 1, 2, 3, 4, 5];
    let mut fs = text_families(kinds, b"aZ0_-.:/", if th { 7 } else { 6 }, th);
    fs.push({
        let al: &'static [u8] = b"a0-.:";
        let n = words_upto(5, if th { 10 } else { 8 });
        family("longer words", "every word over {a 0 - . :} up to length 8 (thorough 10)", n, move |i, ctx| {
            let w: Vec<u8> = word(i, 5).iter().map(|x| al[*x]).collect();
            kinds.iter().try_for_each(|kind| judge_name(*kind, &w, ctx))
        })
    });
    for kind in 0..6usize {
        let texts = Arc::new(valid_texts(kind));
        let n = texts.len() as u64;
        fs.push(family(&format!("comparisons: {}", kind_name(kind)), format!("every pair of {} valid names", n), n, move |i, ctx| {
            let i = i as usize;
            match kind {
                0 => pair_run!(Interface, texts, i, ctx, kind),
                1 => pair_run!(Error, texts, i, ctx, kind),
                2 => pair_run!(Member, texts, i, ctx, kind),
                3 => pair_run!(WellKnownBusName, texts, i, ctx, kind),
                4 => pair_run!(UniqueConnectionName, texts, i, ctx, kind),
                _ => pair_run!(Bus, texts, i, ctx, kind),
            }
            Ok(())
        }));
    }
    fs
}

fn path_text(els: &[String]) -> String {
    if els.is_empty() {
        "/".into()
    } else {
        els.iter().map(|e| format!("/{}", e)).collect()
    }
}

fn append_step(o: &mut ObjectPath, els: &mut Vec<String>, e: &str, ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let before = path_text(els);
    let ok = is_element(e.as_bytes());
    let got = o.append(e);
    if got != ok {
        return Err(format!("append({:?}) to {:?} returned {}, expected {}", crate::conv::short(e), before, got, ok));
    }
    if ok {
        els.push(e.to_string());
    }
    rec::step(mix(ok as u64, 9), 0x6100 + els.len() as u64);
    let exp = path_text(els);
    let r: &str = o.as_ref();
    if r != exp {
        return Err(format!("append({:?}) to {:?} gave {:?}, expected {:?}", crate::conv::short(e), before, r, exp));
    }
    if ObjectPath::try_from(r).is_err() {
        return Err(format!("append({:?}) to {:?} gave an invalid path {:?}", e, before, r));
    }
    ctx.outcome(if ok { "appended" } else { "append refused" });
    Ok(())
}

fn lies_under(a: &[String], b: &[String], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    let (ta, tb) = (path_text(a), path_text(b));
    let pa = ObjectPath::try_from(ta.as_str()).map_err(|e| format!("{:?}: {}", ta, e))?;
    let pb = ObjectPath::try_from(tb.as_str()).map_err(|e| format!("{:?}: {}", tb, e))?;
    let under = a.len() > b.len() && a[..b.len()] == *b;
    if pa.starts_with(&pb) != under {
        return Err(format!("{:?} starts_with {:?}: {}, expected {}", ta, tb, !under, under));
    }
    match pa.strip_prefix_elements(&pb) {
        None => {
            if under {
                return Err(format!("stripping {:?} from {:?} gives nothing", tb, ta));
            }
        }
        Some(it) => {
            let got: Vec<&str> = it.collect();
            if !under || got != a[b.len()..] {
                return Err(format!("stripping {:?} from {:?} gives {:?}", tb, ta, got));
            }
        }
    }
    if (pa == pb) != (a == b) || (pa == *tb.as_str()) != (a == b) {
        return Err(format!("{:?} == {:?}", ta, tb));
    }
    rec::start(0x6200 + a.len() as u64);
    rec::step(b.len() as u64, 0x6300 + under as u64);
    ctx.trace();
    ctx.outcome(if under { "under" } else { "not under" });
    Ok(())
}

fn all_paths(els: &[&str], depth: u32) -> Vec<Vec<String>> {
    (0..words_upto(els.len() as u64, depth)).map(|i| word(i, els.len() as u64).iter().map(|k| els[*k].to_string()).collect()).collect()
}

pub fn path_families(th: bool) -> Vec<Family> {
    let mut fs = text_families(&[6], b"/a9_-Z", if th { 8 } else { 7 }, th);
    fs.push(family("long paths", "paths of up to 10^6 bytes, of one or many elements, with an error at the end or not", 40, |i, ctx| {
        let n = [253usize, 254, 255, 256, 257, 511, 4096, 65535, 65536, 1_000_000][(i % 10) as usize];
        let mut t: String = match i / 10 % 2 {
            0 => format!("/{}", "a".repeat(n - 1)),
            _ => "/b".repeat(n / 2),
        };
        if i / 20 == 1 {
            t.push('/');
        }
        judge_name(6, t.as_bytes(), ctx)
    }));
    let els: &'static [&'static str] = &["a", "", "B9", "_", "/", "a/b", "/a", "a/", "-", "é", ".", "a b", "\0", "..", "0"];
    let starts: &'static [&'static str] = &["/", "/x", "/x/y", "/a", "/_/_/_"];
    let depth = if th { 5 } else { 4 };
    let nw = words_upto(15, depth);
    fs.push(family("append sequences", format!("every sequence of up to {} appends of 15 elements (valid and not) to 5 paths", depth), nw * 5, move |i, ctx| {
        let d = digits(i, &[5, nw]);
        let mut o = ObjectPath::try_from(starts[d[0]]).map_err(|e| e.to_string())?;
        let mut m: Vec<String> = starts[d[0]].split('/').filter(|e| !e.is_empty()).map(|e| e.to_string()).collect();
        rec::start(0x6100 + m.len() as u64);
        for k in word(d[1] as u64, 15) {
            append_step(&mut o, &mut m, els[k], ctx)?;
        }
        ctx.input(mix(i, 3));
        ctx.trace();
        let cl = o.clone();
        if cl != o || String::from(cl) != path_text(&m) {
            return Err("clone of an appended path differs".into());
        }
        // an appended path relates to the path it was made from
        let b: Vec<String> = starts[d[0]].split('/').filter(|e| !e.is_empty()).map(|e| e.to_string()).collect();
        lies_under(&m, &b, ctx)?;
        ctx.sample(|| format!("{:?}", m));
        Ok(())
    }));
    fs.push(family("append characters", "appending every Unicode character alone, first and last in an element", 0x110000, |i, ctx| {
        let c = match char::from_u32(i as u32) {
            Some(c) => c,
            None => return Ok(()),
        };
        for e in [format!("{}", c), format!("a{}", c), format!("{}b", c)] {
            let mut o = ObjectPath::default();
            let mut m = Vec::new();
            append_step(&mut o, &mut m, &e, ctx)?;
            append_step(&mut o, &mut m, "z", ctx)?;
        }
        Ok(())
    }));
    fs.push(family("append lengths", "appending elements of 0..=600 and up to 70000 characters, alone and repeatedly", 640, |i, ctx| {
        let n = if i <= 600 { i as usize } else { [1000usize, 4096, 65535, 65536, 70000][(i % 5) as usize] };
        let mut o = ObjectPath::default();
        let mut m = Vec::new();
        let e = "e".repeat(n);
        for _ in 0..3 {
            append_step(&mut o, &mut m, &e, ctx)?;
            append_step(&mut o, &mut m, &format!("{}/", e), ctx)?;
        }
        Ok(())
    }));
    let ps = Arc::new(all_paths(&["a", "ab", "b", "_"], if th { 5 } else { 4 }));
    let n = ps.len() as u64;
    fs.push(family("pairs", format!("every pair of {} paths", n), n, move |i, ctx| {
        let a = &ps[i as usize];
        for b in ps.iter() {
            lies_under(a, b, ctx)?;
        }
        ctx.input(mix(i, 4));
        Ok(())
    }));
    let nums: &'static [&'static str] = &["0", "00", "1", "01", "001", "10", "010", "12", "012", "0x1", "1e0", "1_0", "_1", "a", "A", "aA", "Aa", "a0", "a00", "_", "__"];
    let np3: Arc<Vec<Vec<String>>> = Arc::new(all_paths(nums, 2).into_iter().chain(nums.iter().map(|e| vec!["x".into(), e.to_string(), "y".into()])).chain(nums.iter().map(|e| vec!["x".into(), e.to_string(), "y".into(), "z".into()])).collect());
    let nnp = np3.len() as u64;
    fs.push(family("similar elements", format!("every pair of {} paths of up to 4 elements that are alike as numbers, in letter case or in underscores", nnp), nnp, move |i, ctx| {
        let a = &np3[i as usize];
        for b in np3.iter() {
            lies_under(a, b, ctx)?;
        }
        ctx.input(mix(i, 7));
        Ok(())
    }));
    let elens: &'static [usize] = &[1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 512, 1000];
    fs.push(family("one different character", "paths of 1 to 3 elements of 25 lengths to 1000 (letters or digits), one character at every place made another, dropped, doubled or turned into a separator, related in both directions", 25 * 3 * 2, move |i, ctx| {
        let d = digits(i, &[2, 3, 25]);
        let n = elens[d[2]];
        let el: String = if d[0] == 0 { letters(n) } else { (0..n).map(|k| (b'0' + (k % 10) as u8) as char).collect() };
        for nth in 0..=d[1] {
            let mut a: Vec<String> = vec!["p".into(); d[1] + 1];
            a[nth] = el.clone();
            let mut sub = a.clone();
            sub.push("q".into());
            for k in 0..n {
                let c = el.as_bytes()[k];
                let mut vars: Vec<Vec<String>> = Vec::new();
                for x in [c ^ 1, c ^ 0x20, b'_', b'Z', b'0'] {
                    if x != c && (x == b'_' || x.is_ascii_alphanumeric()) {
                        let mut e = el.clone().into_bytes();
                        e[k] = x;
                        let mut b = a.clone();
                        b[nth] = String::from_utf8(e).unwrap();
                        vars.push(b);
                    }
                }
                let mut e = el.clone();
                e.insert(k, c as char);
                let mut b = a.clone();
                b[nth] = e;
                vars.push(b);
                if n > 1 {
                    let mut e = el.clone();
                    e.remove(k);
                    let mut b = a.clone();
                    b[nth] = e;
                    vars.push(b);
                }
                if k > 0 {
                    let mut b = a.clone();
                    b[nth] = el[..k].to_string();
                    b.insert(nth + 1, el[k..].to_string());
                    vars.push(b);
                }
                for b in vars {
                    lies_under(&sub, &b, ctx)?;
                    lies_under(&a, &b, ctx)?;
                    let mut bs = b.clone();
                    bs.push("q".into());
                    lies_under(&bs, &a, ctx)?;
                }
            }
            ctx.alive();
        }
        ctx.input(mix(i, 8));
        Ok(())
    }));
    fs.push(family("deep pairs", "paths of 0..=40 equal elements, differing at any one position by one more character or another element", 41 * 41, |i, ctx| {
        let d = digits(i, &[41, 41]);
        let a: Vec<String> = (0..d[0]).map(|k| format!("e{}", k)).collect();
        let b: Vec<String> = (0..d[1]).map(|k| format!("e{}", k)).collect();
        lies_under(&a, &b, ctx)?;
        for p in 0..d[1] {
            for x in ["e", "e00", "Z", "_"] {
                let mut c = b.clone();
                c[p] = x.into();
                lies_under(&a, &c, ctx)?;
            }
        }
        Ok(())
    }));
    let maxc: u64 = if th { 160 } else { 70 };
    fs.push(family("long pairs", format!("paths of up to {} elements of two alternating lengths 1..=16 and a last element of 1..=3, against every prefix of themselves, equal, with one more character or one fewer in the last element", maxc), 16 * 16 * 3 * maxc, |i, ctx| {
        let d = digits(i, &[16, 16, 3]);
        let n = (i / (16 * 16 * 3)) as usize + 1;
        let mut a: Vec<String> = (0..n).map(|k| letters(d[k % 2] + 1)).collect();
        a.push("z".repeat(d[2] + 1));
        // the case's own prefix lengths: the last ones, and a spread of the others
        for k in (0..=a.len()).filter(|k| *k + 3 > a.len() || k % 7 == n % 7) {
            let mut b = a[..k].to_vec();
            lies_under(&a, &b, ctx)?;
            if let Some(l) = b.last_mut() {
                l.push('q');
                lies_under(&a, &b, ctx)?;
                lies_under(&b, &a, ctx)?;
                let l = b.last_mut().unwrap();
                l.pop();
                l.pop();
                if !l.is_empty() {
                    lies_under(&a, &b, ctx)?;
                }
            }
        }
        ctx.input(mix(i, 5));
        Ok(())
    }));
    let lens: &'static [usize] = &[1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 255];
    let napp: u64 = if th { 1100 } else { 300 };
    fs.push(family("long appends", format!("{} appends one after the other, of elements of 14 lengths or of mixed lengths, refused elements in between, from 4 starting paths, related to 9 of the paths on the way", napp), 15 * 4, move |i, ctx| {
        let d = digits(i, &[15, 4]);
        let start = ["/", "/a", "/a/b/c/d/e/f/g/h", "/org/freedesktop/DBus"][d[1]];
        let mut o = ObjectPath::try_from(start).map_err(|e| e.to_string())?;
        let mut m: Vec<String> = start.split('/').filter(|e| !e.is_empty()).map(|e| e.to_string()).collect();
        let mut kept: Vec<Vec<String>> = Vec::new();
        for k in 0..napp as usize {
            let l = if d[0] < 14 { lens[d[0]] } else { lens[k * 5 % 14] };
            append_step(&mut o, &mut m, &letters(l), ctx)?;
            if k % 16 == 3 {
                append_step(&mut o, &mut m, ["", "a/b", "-", "/"][k / 16 % 4], ctx)?;
            }
            if k.is_power_of_two() {
                kept.push(m.clone());
            }
            ctx.alive();
        }
        kept.push(m.clone());
        for a in &kept {
            for b in &kept {
                lies_under(a, b, ctx)?;
            }
        }
        ctx.input(mix(i, 6));
        ctx.trace();
        Ok(())
    }));
    fs
}

macro_rules! total_one {
    ($t:ty, $b:expr) => {{
        let b: &[u8] = $b;
        if let Err(p) = no_panic(|| shown(<$t>::try_from(b))) {
            return Err(format!("panic on bytes {}: {}", hex(b), p));
        }
        if let Ok(t) = std::str::from_utf8(b) {
            if let Err(p) = no_panic(|| shown(<$t>::try_from(t)) | shown(<$t>::try_from(t.to_string()))) {
                return Err(format!("panic on text {:?}: {}", crate::conv::short(t), p));
            }
        }
    }};
}
fn total(b: &[u8], ctx: &mut Ctx) -> CaseResult {
    ctx.eval();
    total_one!(Interface, b);
    total_one!(Error, b);
    total_one!(Member, b);
    total_one!(WellKnownBusName, b);
    total_one!(UniqueConnectionName, b);
    total_one!(Bus, b);
    total_one!(ObjectPath, b);
    let _ = (is_bus(b), is_path(b), is_interface(b), is_member(b));
    ctx.trace();
    Ok(())
}

/// C04: names and paths never panic.
pub fn total_families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let al: &'static [&'static [u8]] = &[b"a", b"0", b"_", b"-", b".", b":", b"/", b"\0", b"\xc3\xa9", b"\xff", b" "];
    let n = words_upto(11, if th { 6 } else { 5 });
    fs.push(family("name words (total)", "every word over 11 symbols (valid, invalid, multi-byte, not UTF-8) up to length 5 (thorough 6), every name and path type", n, move |i, ctx| {
        let mut w = Vec::new();
        for k in word(i, 11) {
            w.extend_from_slice(al[k]);
        }
        total(&w, ctx)
    }));
    fs.push(family("name lengths (total)", "names of 0..=1100 and up to 10^7 bytes, valid and with one bad byte at the end", 1120 * 3, |i, ctx| {
        let d = digits(i, &[3, 1120]);
        let n = if d[1] <= 1100 { d[1] } else { [1usize << 16, 1 << 20, 10_000_000][d[1] % 3] };
        let mut b = [b"a.".repeat(n / 2 + 1), vec![b'a'; n], b"/a".repeat(n / 2 + 1)][d[0]].clone();
        b.truncate(n);
        total(&b, ctx)?;
        b.push(0xc3);
        total(&b, ctx)?;
        b.insert(0, b':');
        total(&b, ctx)
    }));
    fs.push(family("path operations (total)", "append and prefix operations on every pair from 40 texts", 40 * 40, |i, ctx| {
        let d = digits(i, &[40, 40]);
        let text = |k: usize| -> String {
            match k {
                0..=9 => "/a".repeat(k + 1),
                10..=19 => format!("/{}", "b".repeat(k)),
                20..=29 => ["", "/", "//", "é", "日本", "\0", "a/", "/a/", "-", "😀"][k - 20].to_string(),
                _ => format!("x{}", "/y".repeat(k - 29)),
            }
        };
        ctx.eval();
        let (a, b) = (text(d[0]), text(d[1]));
        let r = no_panic(|| {
            let pa = ObjectPath::try_from(a.as_str());
            let pb = ObjectPath::try_from(b.as_str());
            if let Ok(mut pa) = pa {
                pa.append(&b);
                if let Ok(pb) = pb {
                    pa.starts_with(&pb);
                    if let Some(x) = pa.strip_prefix_elements(&pb) {
                        x.count();
                    }
                }
            }
        });
        ctx.trace();
        r.map_err(|p| format!("panic on path operations of {:?} and {:?}: {}", a, b, p))
    }));
    fs
}
