//! C24: nothing outlives a call and nothing leaves it.
use super::cost::*;
use crate::bytesfam::*;
use crate::conv::*;
use crate::effects::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::wire::*;
use bytes::Bytes;
use dbus_message_parser::match_rule::MatchRule;
use dbus_message_parser::message::Message;
use dbus_message_parser::value::*;
use std::convert::TryFrom;
use std::hint::black_box;

/// Make and run a call, and drop everything.
fn once(make: &dyn Fn(usize) -> Option<Call>, k: usize) -> Result<bool, String> {
    let f = match make(k) {
        Some(f) => f,
        None => return Ok(false),
    };
    let (r, e) = watched(|| no_panic(f));
    if let Some(e) = e {
        return Err(e);
    }
    r.map(|_| true).map_err(|p| format!("panic: {}", p))
}

/// Memory in use does not grow with the number of calls, each with another argument. Something may be
/// remembered once, or up to a bound of a few thousand things.
fn settles(what: &dyn Fn() -> String, calls: usize, ctx: &mut Ctx, make: &dyn Fn(usize) -> Option<Call>) -> CaseResult {
    ctx.alive();
    let r = aside(|| -> Result<Option<(i64, usize)>, String> {
        let warm = 4 + calls / 4;
        for k in 0..warm {
            if !once(make, k)? {
                return Ok(None);
            }
        }
        let l = live();
        for k in warm..warm + calls {
            once(make, k)?;
        }
        let mut g = live() - l;
        let mut n = warm + calls;
        if g > 0 {
            // Something stayed. Is there an end to it?
            let mut at = Vec::new();
            for upto in [3000, 6000, 12000] {
                for k in n..upto {
                    once(make, k)?;
                }
                n = upto;
                at.push(live());
            }
            g = if at[2] > at[1] && at[1] > at[0] { live() - l } else { 0 };
        }
        Ok(Some((g, n)))
    });
    match r {
        Err(e) => Err(format!("{}: {}", what(), e)),
        Ok(None) => {
            ctx.skip();
            Ok(())
        }
        Ok(Some((g, n))) => {
            ctx.many(n as u64);
            if g > 0 {
                return Err(format!("{}: {} more bytes are in use after {} calls, and there is no end to it", what(), g, n));
            }
            let h = hash_bytes(what().as_bytes());
            rec::start(h);
            rec::step(1, mix(h, 1));
            ctx.input(h);
            ctx.outcome("leaves nothing");
            ctx.trace();
            ctx.sample(|| format!("{}: {} calls leave nothing", what(), n));
            Ok(())
        }
    }
}

/// Message k of this body: every name is another one.
fn nth(body: Vec<V>, k: usize) -> M {
    let mut m = with_body(body, k % 2 == 0);
    m.path = Some(format!("/n{}/x", k));
    m.iface = Some(format!("a.i{}", k));
    m.member = Some(format!("M{}", k));
    m.sender = Some(format!(":1.{}", k));
    m.dest = Some(format!("d.n{}", k));
    m.serial = k as u32 + 1;
    if k % 3 == 0 {
        m.ename = Some(format!("e.r{}", k));
        m.rserial = Some(k as u32 + 1);
    }
    m
}

/// Decoding once more with the same bytes leaves nothing behind, and what is decoded holds only itself.
fn judge_after(x: &[u8], fds: &[i32], ctx: &mut Ctx) -> CaseResult {
    let n = x.len() as i64;
    let r = aside(|| -> Result<bool, String> {
        let mut ok = false;
        let mut run = |held: bool| -> Result<i64, String> {
            let before = live();
            let input = Bytes::from(x.to_vec());
            let (r, e) = watched(|| no_panic(move || Message::decode_with_fds(input, fds)));
            if let Some(e) = e {
                return Err(e);
            }
            let r = r.map_err(|p| format!("panic: {}", p))?;
            ok = r.is_ok();
            let kept = live() - before;
            if held && kept > 8192 + 400 * n {
                return Err(format!("the result keeps {} bytes for {}", kept, n));
            }
            let (r, e) = watched(|| {
                drop(r);
                no_panic(|| black_box(Message::decode(Bytes::copy_from_slice(x)).is_ok()))
            });
            if let Some(e) = e {
                return Err(e);
            }
            r.map_err(|p| format!("panic: {}", p))?;
            Ok(live() - before)
        };
        if run(true)? > 0 && run(false)? > 0 {
            let mut g = 0;
            for _ in 0..40 {
                g = run(false)?;
                if g <= 0 {
                    break;
                }
            }
            if g > 0 {
                return Err(format!("every decode leaves {} bytes", g));
            }
        }
        Ok(ok)
    });
    ctx.many(2);
    match r {
        Err(e) => Err(format!("decoding: {}; bytes {}", e, hex(x))),
        Ok(ok) => {
            if x.len() < 1024 {
                let _ = decode(x, fds);
            }
            ctx.input(hash_bytes(x));
            ctx.outcome(if ok { "decoded, leaves nothing" } else { "refused, leaves nothing" });
            ctx.trace();
            ctx.sample(|| format!("{} bytes leave nothing", n));
            Ok(())
        }
    }
}

/// What is still held of `make`'s result.
fn held<R>(make: impl FnOnce() -> Option<R>) -> Result<Option<i64>, String> {
    aside(|| {
        let l = live();
        let (r, e) = watched(|| no_panic(make));
        if let Some(e) = e {
            return Err(e);
        }
        let r = r.map_err(|p| format!("panic: {}", p))?;
        let k = live() - l;
        Ok(r.map(|r| {
            drop(r);
            k
        }))
    })
}
const JUNK: usize = 4 << 20;

/// The families of another property, for what their calls do on the side only.
fn watch(id: &str, fs: Vec<Family>) -> Vec<Family> {
    fs.into_iter()
        .map(|f| {
            let run = f.run;
            let threads = f.threads;
            family(&format!("{} watched: {}", id, f.name), f.bound, f.n, move |i, ctx| {
                let e = aside(|| watched(|| no_panic(|| (run)(i, ctx)).map(|_| ())).1);
                match e {
                    Some(e) => Err(e),
                    None => Ok(()),
                }
            })
            .threads(threads)
        })
        .collect()
}

pub fn families(th: bool) -> Vec<Family> {
    let mut fs = Vec::new();
    let (no, ns) = (OPS.len() as u64, SHAPES.len() as u64);
    let sizes: &'static [(usize, usize)] = if th { &[(1, 600), (100, 200), (2000, 40), (20000, 8)] } else { &[(1, 120), (100, 40), (2000, 8)] };
    let nz = sizes.len() as u64;
    fs.push(family("messages", format!("{} operations on {} message shapes, each with other names and sizes, (from size, calls) of {:?}", no, ns, sizes), no * ns * nz, move |i, ctx| {
        let d = digits(i, &[no, ns, nz]);
        let (name, body) = SHAPES[d[1]];
        let (from, calls) = sizes[d[2]];
        settles(&|| format!("{}: {} from size {}", OPS[d[0]], name, from), calls, ctx, &|k| {
            let n = (from + k % 64).max(if name.contains("rows") { 64 } else { 1 });
            message_call(name, d[0], nth(body(n), k))
        })
    }));
    let (np, nt) = (TEXT_OPS.len() as u64, TEXTS.len() as u64);
    fs.push(family("texts", format!("{} operations on {} text shapes, each of another length, (from size, calls) of {:?}", np, nt, sizes), np * nt * nz, move |i, ctx| {
        let d = digits(i, &[np, nt, nz]);
        let (a, r, z) = TEXTS[d[1]];
        let (from, calls) = sizes[d[2]];
        settles(&|| format!("{}: {}({})*{} from size {}", TEXT_OPS[d[0]], a, r, z, from), calls, ctx, &|k| {
            text_call(d[0], format!("{}{}{}{}", a, r.repeat((from + k % 64) / r.len()), z, if k % 2 == 0 { String::new() } else { format!("n{}", k) }))
        })
    }));
    let nq = STEPS_OF.len() as u64;
    fs.push(family("repetitions", format!("{} operations repeated or on lists and paths, (from size, calls) of {:?}", nq, sizes), nq * nz, move |i, ctx| {
        let d = digits(i, &[nq, nz]);
        let (from, calls) = sizes[d[1]];
        settles(&|| format!("{} from size {}", STEPS_OF[d[0]], from), calls, ctx, &|k| steps_call(d[0], from + k % 64))
    }));
    fs.push(family("nesting", "8 kinds of containers nested 1 to 64 deep: types printed and parsed, decoded, encoded and compared", 8 * 3, move |i, ctx| {
        let d = digits(i, &[8, 3]);
        settles(&|| format!("nesting of kind {} operation {}", d[0], d[1]), 120, ctx, &|k| nest_call(d[0], d[1], 1 + k % if d[0] == 0 { 10 } else { 64 }))
    }));
    // a result holds only itself
    fs.push(family("held", format!("{} message shapes of 1, 10 and 1000 elements decoded from the front of a buffer of 4 MiB, encoded, cloned and split: what the result holds", ns), ns * 3 * 5, move |i, ctx| {
        let d = digits(i, &[ns, 3, 5]);
        let (name, body) = SHAPES[d[0]];
        let n = [1, 10, 1000][d[1]].max(if name.contains("rows") { 64 } else { 1 });
        let m = nth(body(n), 3);
        let what = ["decoded before 4 MiB", "decoded from a part of a shared buffer", "encoded", "cloned", "split"][d[2]];
        if d[2] < 2 && ["many values", "many strings", "a struct of many members"].contains(&name) && n > 100 {
            ctx.skip();
            return Ok(());
        }
        if d[2] == 2 && name == "different descriptors" && n > 100 {
            ctx.skip();
            return Ok(());
        }
        let w = bytes_of(&m);
        let size = w.bytes.len() as i64;
        let h = held(|| {
            let msg = || to_message(&m);
            match d[2] {
                0 => {
                    let mut x = w.bytes.clone();
                    x.resize(x.len() + JUNK, 0x5a);
                    let r = Message::decode_with_fds(Bytes::from(x), &w.fds).ok()?;
                    Some((Some(r.0), None, None, None))
                }
                1 => {
                    let mut x = vec![0x5a; JUNK];
                    let at = x.len();
                    x.extend_from_slice(&w.bytes);
                    let r = Message::decode_with_fds(Bytes::from(x).slice(at..), &w.fds).ok()?;
                    Some((Some(r.0), None, None, None))
                }
                2 => {
                    let r = msg()?.encode_with_fds().ok()?;
                    Some((None, Some(r), None, None))
                }
                3 => Some((Some(msg()?.clone()), None, None, None)),
                _ => Some((None, None, Some(msg()?.split().ok()?), Some(()))),
            }
        });
        ctx.eval();
        match h {
            Err(e) => Err(format!("{} of {}, {}: {}", name, n, what, e)),
            Ok(None) => {
                ctx.skip();
                Ok(())
            }
            Ok(Some(k)) => {
                if std::env::var("MC_COST").is_ok() {
                    eprintln!("{}\t{}\t{}\t{}\t{}\t{:.1}", name, n, what, size, k, k as f64 / (size + 20) as f64);
                }
                if k > 8192 + 400 * size {
                    return Err(format!("{} of {}, {}: {} bytes are held for a message of {}", name, n, what, k, size));
                }
                ctx.input(mix(hash_bytes(name.as_bytes()), n as u64 * 8 + d[2] as u64));
                ctx.outcome("holds itself");
                ctx.trace();
                Ok(())
            }
        }
    }));
    // what is read from a long text holds only itself as well
    fs.push(family("held of texts", "names, paths, types and rules made from text with 1 MiB of spare capacity, the first and all of 5000 rules of four kinds", 13, move |i, ctx| {
        let spare = |x: &str| {
            let mut t = String::with_capacity(1 << 20);
            t.push_str(x);
            t
        };
        let h = held(|| {
            let d = |x: &dyn std::fmt::Debug| format!("{:?}", x).len();
            Some(match i {
                // A String moved in may keep its capacity; a borrowed text is copied.
                0 => (d(&Interface::try_from(spare("a.b").as_str()).ok()?), Some(vec![Value::ObjectPath(ObjectPath::try_from(spare("/a").as_str()).ok()?)]), None),
                1 => (0, Some(vec![Value::ObjectPath(ObjectPath::try_from(spare("/a").as_bytes()).ok()?)]), None),
                2 => (d(&Member::try_from(spare("a").as_bytes()).ok()?), None, None),
                3 => (d(&Bus::try_from(spare(":1.1").as_str()).ok()?), None, None),
                4 => (0, None, MatchRule::decode(&spare("type='signal',arg0='x'")).ok()),
                5 => (0, None, MatchRule::decode(&format!("arg0='x'{}", ",eavesdrop='true'".repeat(20))).ok().map(|mut r| {
                    r.truncate(1);
                    r.shrink_to_fit();
                    r
                })),
                6 => (0, Some(vec![Value::Signature(Type::from_string_to_signature(&spare("a{sv}")).ok()?)]), None),
                7 => (0, Some(vec![Value::Signature(Type::from_bytes_to_signature(spare("a{sv}(yy)").as_bytes()).ok()?)]), None),
                8 => (d(&UniqueConnectionName::try_from(spare(":1.1").as_str()).ok()?), None, None),
                _ => (0, None, Some({
                    let one = ["arg0='x'", "type='signal'", "path='/a'", "member='a'"][i as usize - 9];
                    let mut r = MatchRule::decode(&vec![one; 5000].join(",")).ok()?;
                    r.shrink_to_fit();
                    r
                })),
            })
        });
        ctx.eval();
        match h {
            Err(e) => Err(format!("text {}: {}", i, e)),
            Ok(None) => Err(format!("text {} is refused", i)),
            Ok(Some(k)) if k > if i < 9 { 8192 } else { 5000 * 160 } => Err(format!("{} bytes are held of text {}", k, i)),
            Ok(Some(_)) => {
                ctx.input(i);
                ctx.outcome("holds itself");
                ctx.trace();
                Ok(())
            }
        }
    }));
    fs.push(family("seen", "the harness itself: system calls, the environment, the clock and growth are seen", 5, move |i, ctx| {
        if !filtered() {
            eprintln!("no seccomp here: system calls are not seen");
            ctx.skip();
            return Ok(());
        }
        let seen = aside(|| {
            let l = live();
            let (_, e) = watched(|| match i {
                0 => drop(std::env::var("MC_NO_SUCH_NAME")),
                1 => drop(black_box(std::time::Instant::now())),
                2 => drop(std::fs::File::open("/nonexistent")),
                3 => eprintln!("(a line the filter holds back)"),
                _ => std::mem::forget(black_box(vec![1u8; 100])),
            });
            e.is_some() || live() - l == 100
        });
        if !seen {
            panic!("effect {} was not seen", i);
        }
        ctx.eval();
        ctx.input(i);
        ctx.outcome("seen");
        ctx.trace();
        Ok(())
    }));
    let bytes = byte_families(judge_after, th);
    let byte: Vec<String> = bytes.iter().map(|f| f.name.clone()).collect();
    fs.extend(bytes);
    for id in ["C07", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20", "C21", "C22"] {
        let mut more = super::families(id, th).unwrap().families;
        // Long contents take their time, and are among the shapes above.
        more.retain(|f| !byte.contains(&f.name) && !(id == "C20" && f.name.contains("length")));
        fs.extend(watch(id, more));
    }
    fs
}
