//! Exhaustive explorer.
//!
//! A check is a list of families. A family is an indexed space 0..n; running index i may itself
//! branch through `Ctx::dfs`, which enumerates every sequence of choices (optionally bounding the
//! number of non-default choices, "deviations"). All indices of all families are run; nothing is
//! sampled. Worker threads take chunks of indices from an atomic counter.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::path::PathBuf;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.rotate_left(25) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    x
}

/// FNV-1a, for hashing labels and inputs.
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h, b.len() as u64)
}

/// Recorder of the abstract states and transitions of the reference models.
pub mod rec {
    use super::*;
    #[derive(Default)]
    pub struct R {
        pub states: IdSet,
        pub trans: IdSet,
        pub cur: u64,
    }
    thread_local! {
        pub static REC: RefCell<R> = RefCell::new(R::default());
        static OFF: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    }
    /// No recording on this thread.
    pub fn off() {
        OFF.with(|c| c.set(true))
    }

    /// Start a trace in state `s`.
    #[inline]
    pub fn start(s: u64) {
        if OFF.with(|c| c.get()) {
            return;
        }
        REC.with(|r| {
            let mut r = r.borrow_mut();
            let s = mix(s, 1);
            r.states.insert(s);
            r.cur = s;
        })
    }
    /// Take the transition `label` to state `s`.
    #[inline]
    pub fn step(label: u64, s: u64) {
        if OFF.with(|c| c.get()) {
            return;
        }
        REC.with(|r| {
            let mut r = r.borrow_mut();
            let s = mix(s, 1);
            let t = mix(mix(r.cur, label), s);
            r.states.insert(s);
            r.trans.insert(t);
            r.cur = s;
        })
    }
    pub fn take() -> (IdSet, IdSet) {
        REC.with(|r| {
            let mut r = r.borrow_mut();
            (std::mem::take(&mut r.states), std::mem::take(&mut r.trans))
        })
    }
}

pub type CaseResult = Result<(), String>;

/// Source of nondeterministic choices within one case.
pub struct Ch {
    path: Vec<(u32, u32)>,
    pos: usize,
    dev: usize,
    bound: usize,
}
impl Ch {
    /// Choose one of `0..n`; 0 is the default.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if self.pos < self.path.len() {
            let (c, m) = self.path[self.pos];
            let eff = if self.dev < self.bound { n } else { 1 };
            assert!(m as usize == eff, "explorer: divergence while replaying a prefix");
            self.pos += 1;
            if c != 0 {
                self.dev += 1;
            }
            c as usize
        } else {
            let eff = if self.dev < self.bound { n } else { 1 };
            self.path.push((0, eff as u32));
            self.pos += 1;
            0
        }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
}

pub struct Ctx {
    pub evals: u64,
    pub traces: u64,
    pub skipped: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub distinct: IdSet,
    distinct_cap: usize,
    pub samples: Vec<String>,
    pub family_sampled: usize,
    pub only: Option<Vec<u32>>,
    pub choices: Vec<u32>,
    slot: Option<Slot>,
    /// Progress seen by the watchdog.
    beat: Option<(Arc<Vec<(AtomicU64, AtomicU64)>>, usize)>,
}

struct Slot {
    file: std::fs::File,
    off: u64,
}

impl Ctx {
    fn new() -> Ctx {
        Ctx {
            evals: 0,
            traces: 0,
            skipped: 0,
            outcomes: BTreeMap::new(),
            distinct: IdSet::default(),
            distinct_cap: 4_000_000,
            samples: Vec::new(),
            family_sampled: 0,
            only: None,
            choices: Vec::new(),
            slot: None,
            beat: None,
        }
    }
    /// Count an outcome class of this execution.
    #[inline]
    pub fn outcome(&mut self, o: &'static str) {
        *self.outcomes.entry(o).or_insert(0) += 1;
    }
    /// A complete model trace was compared with the implementation.
    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    /// One more execution of the implementation within a case.
    #[inline]
    pub fn eval(&mut self) {
        self.evals += 1;
        if self.evals & 15 == 0 {
            self.alive();
        }
    }
    /// Tell the watchdog that this case makes progress.
    #[inline]
    pub fn many(&mut self, n: u64) {
        self.evals += n;
        self.alive();
    }
    pub fn alive(&mut self) {
        if let Some((b, t)) = &self.beat {
            b[*t].1.fetch_add(1, Ordering::Relaxed);
        }
    }
    /// The case lies outside the property's domain.
    #[inline]
    pub fn skip(&mut self) {
        self.skipped += 1;
    }
    /// Record the identity of a non-trivial input (for the distinct count; capped per thread).
    #[inline]
    pub fn input(&mut self, h: u64) {
        if self.distinct.len() < self.distinct_cap {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.family_sampled < 1 {
            self.family_sampled += 1;
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }

    /// Enumerate every choice sequence of `f` with at most `bound` non-default choices.
    pub fn dfs(
        &mut self,
        bound: usize,
        mut f: impl FnMut(&mut Ch, &mut Ctx) -> CaseResult,
    ) -> CaseResult {
        let mut path: Vec<(u32, u32)> = Vec::new();
        let fixed = self.only.clone();
        if let Some(only) = &fixed {
            // Replay: the recorded choices, alternatives irrelevant.
            let mut ch = Ch { path: Vec::new(), pos: 0, dev: 0, bound };
            // run with forced choices
            let mut forced = Forced { only: only.clone() };
            return forced.run(&mut ch, self, &mut f);
        }
        loop {
            let mut ch = Ch { path, pos: 0, dev: 0, bound };
            self.alive();
            self.trace_slot(&ch.path);
            let r = catch(|| f(&mut ch, self));
            if let Err(e) = r {
                self.choices = ch.path.iter().map(|x| x.0).collect();
                return Err(e);
            }
            path = ch.path;
            path.truncate(ch.pos);
            loop {
                match path.pop() {
                    None => return Ok(()),
                    Some((c, n)) => {
                        if c + 1 < n {
                            path.push((c + 1, n));
                            break;
                        }
                    }
                }
            }
        }
    }
    fn trace_slot(&mut self, path: &[(u32, u32)]) {
        if let Some(s) = &self.slot {
            use std::os::unix::fs::FileExt;
            let mut b = Vec::with_capacity(4 + path.len() * 4);
            b.extend_from_slice(&(path.len() as u32).to_le_bytes());
            for (c, _) in path.iter().take(900) {
                b.extend_from_slice(&c.to_le_bytes());
            }
            let _ = s.file.write_all_at(&b, s.off + 16);
        }
    }
}

struct Forced {
    only: Vec<u32>,
}
impl Forced {
    fn run(
        &mut self,
        ch: &mut Ch,
        ctx: &mut Ctx,
        f: &mut impl FnMut(&mut Ch, &mut Ctx) -> CaseResult,
    ) -> CaseResult {
        // Discover arities step by step: run with the default continuation until the path is fixed.
        let mut path: Vec<(u32, u32)> = Vec::new();
        for c in self.only.iter() {
            let mut probe = Ch { path: path.clone(), pos: 0, dev: 0, bound: ch.bound };
            let _ = catch(|| f(&mut probe, ctx));
            if probe.path.len() <= path.len() {
                break;
            }
            let (_, n) = probe.path[path.len()];
            path.push((*c, n));
        }
        let mut last = Ch { path, pos: 0, dev: 0, bound: ch.bound };
        catch(|| f(&mut last, ctx))
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Run a case; a panic of the code under test becomes an error.
pub fn catch(f: impl FnOnce() -> CaseResult) -> CaseResult {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if m.contains("explorer:") {
                eprintln!("internal error: {}", m);
                std::process::exit(3);
            }
            Err(format!("panic: {}", m))
        }
    }
}

/// Is it a success? An error is also displayed.
pub fn shown<T, E: std::fmt::Display + std::fmt::Debug>(r: Result<T, E>) -> bool {
    match r {
        Ok(_) => true,
        Err(e) => {
            use std::fmt::Write;
            struct Null(usize);
            impl Write for Null {
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    self.0 += s.len();
                    Ok(())
                }
            }
            let mut n = Null(0);
            let _ = write!(n, "{} {:?}", e, e);
            std::hint::black_box(n.0);
            false
        }
    }
}

/// Run `f`, turning a panic into Err(message).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

type RunFn = Box<dyn Fn(u64, &mut Ctx) -> CaseResult + Send + Sync>;
pub struct Family {
    pub name: String,
    pub n: u64,
    pub run: RunFn,
    /// At most this many threads (memory-hungry families).
    pub threads: usize,
    pub bound: String,
}
pub fn family(
    name: &str,
    bound: impl Into<String>,
    n: u64,
    run: impl Fn(u64, &mut Ctx) -> CaseResult + Send + Sync + 'static,
) -> Family {
    Family { name: name.to_string(), n, run: Box::new(run), threads: 8, bound: bound.into() }
}
impl Family {
    pub fn threads(mut self, t: usize) -> Family {
        self.threads = t;
        self
    }
}

pub struct Violation {
    pub family: String,
    pub index: u64,
    pub choices: Vec<u32>,
    pub detail: String,
}

pub struct Report {
    pub evals: u64,
    pub traces: u64,
    pub skipped: u64,
    pub states: u64,
    pub transitions: u64,
    pub distinct: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub families: Vec<(String, String, u64, f64)>,
    pub violation: Option<Violation>,
}

pub struct Opts {
    pub thorough: bool,
    pub slot_file: Option<String>,
    pub hang_limit: u64,
    pub only: Option<(String, u64, Vec<u32>)>,
    pub on_hang: Arc<dyn Fn(&str, u64) + Send + Sync>,
    pub family_filter: Option<String>,
    pub verbose: bool,
}

/// Panics are recorded per thread instead of printed.
/// The processor time a thread has used, in seconds.
fn cpu_seconds(task: &OnceLock<PathBuf>) -> u64 {
    let t = match task.get().and_then(|p| std::fs::read_to_string(p).ok()) {
        Some(t) => t,
        None => return 0,
    };
    // fields 14 and 15, in ticks of 1/100 s
    let f: Vec<&str> = t[t.rfind(')').map_or(0, |k| k + 1)..].split_whitespace().collect();
    let n = |k: usize| f.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}

pub fn install_quiet() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info);
        PANIC.with(|p| *p.borrow_mut() = Some(m));
    }));
}

pub fn run(families: Vec<Family>, o: &Opts) -> Report {
    install_quiet();
    let mut rep = Report {
        evals: 0,
        traces: 0,
        skipped: 0,
        states: 0,
        transitions: 0,
        distinct: 0,
        outcomes: BTreeMap::new(),
        samples: Vec::new(),
        families: Vec::new(),
        violation: None,
    };
    let mut states = IdSet::default();
    let mut trans = IdSet::default();
    let mut distinct = IdSet::default();
    for (fi, fam) in families.into_iter().enumerate() {
        if let Some(ff) = &o.family_filter {
            if !fam.name.contains(ff.as_str()) {
                continue;
            }
        }
        let t0 = Instant::now();
        let fam = Arc::new(fam);
        if let Some((f, i, c)) = &o.only {
            if *f != fam.name {
                continue;
            }
            let mut ctx = Ctx::new();
            ctx.only = if c.is_empty() { None } else { Some(c.clone()) };
            let fam2 = fam.clone();
            let i = *i;
            let h = std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    let r = catch(|| (fam2.run)(i, &mut ctx));
                    (r, ctx)
                })
                .unwrap();
            let (r, ctx) = h.join().unwrap();
            if let Err(d) = r {
                rep.violation = Some(Violation {
                    family: fam.name.clone(),
                    index: i,
                    choices: if c.is_empty() { ctx.choices } else { c.clone() },
                    detail: d,
                });
            }
            return rep;
        }
        let next = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let best: Arc<Mutex<Option<Violation>>> = Arc::new(Mutex::new(None));
        let nthreads = fam.threads.min(8).max(1);
        let chunk = (fam.n / (nthreads as u64 * 64)).clamp(1, 4096);
        let beats: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new(
            (0..nthreads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect(),
        );
        let done = Arc::new(AtomicBool::new(false));
        let tasks: Arc<Vec<OnceLock<PathBuf>>> = Arc::new((0..nthreads).map(|_| OnceLock::new()).collect());
        let watchdog = {
            let (beats, done, on_hang, name) =
                (beats.clone(), done.clone(), o.on_hang.clone(), fam.name.clone());
            let tasks = tasks.clone();
            let limit = o.hang_limit;
            std::thread::spawn(move || {
                let mut last: Vec<(u64, u64, Instant, u64)> =
                    beats.iter().map(|_| (u64::MAX, 0, Instant::now(), 0)).collect();
                while !done.load(Ordering::Relaxed) {
                    std::thread::park_timeout(Duration::from_millis(250));
                    for (k, b) in beats.iter().enumerate() {
                        let i = b.0.load(Ordering::Relaxed);
                        let n = b.1.load(Ordering::Relaxed);
                        if (i, n) != (last[k].0, last[k].1) {
                            last[k] = (i, n, Instant::now(), u64::MAX);
                        } else if i != u64::MAX && last[k].2.elapsed().as_secs() >= limit / 4 {
                            // Computing for `limit` seconds of its own time (a busy machine does
                            // not count), or waiting for something for four times as long.
                            let cpu = cpu_seconds(&tasks[k]);
                            if last[k].3 == u64::MAX {
                                last[k].3 = cpu;
                            }
                            if cpu.saturating_sub(last[k].3) >= limit || last[k].2.elapsed().as_secs() >= limit * 4 {
                                on_hang(&name, i);
                            }
                        }
                    }
                }
            })
        };
        let mut hs = Vec::new();
        for tid in 0..nthreads {
            let (fam, next, stop, best, beats) =
                (fam.clone(), next.clone(), stop.clone(), best.clone(), beats.clone());
            let slot_file = o.slot_file.clone();
            let tasks = tasks.clone();
            hs.push(
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn(move || {
                        let mut ctx = Ctx::new();
                        if let Ok(t) = std::fs::read_link("/proc/thread-self") {
                            let _ = tasks[tid].set(PathBuf::from("/proc").join(t).join("stat"));
                        }
                        ctx.beat = Some((beats.clone(), tid));
                        if let Some(p) = slot_file {
                            if let Ok(f) = std::fs::OpenOptions::new().write(true).open(p) {
                                ctx.slot = Some(Slot { file: f, off: 4096 * tid as u64 });
                            }
                        }
                        'outer: loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= fam.n || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            for i in a..(a + chunk).min(fam.n) {
                                beats[tid].0.store(i, Ordering::Relaxed);
                                ctx.alive();
                                if let Some(s) = &ctx.slot {
                                    use std::os::unix::fs::FileExt;
                                    let mut b = [0u8; 20];
                                    b[0..8].copy_from_slice(&(fi as u64 + 1).to_le_bytes());
                                    b[8..16].copy_from_slice(&i.to_le_bytes());
                                    let _ = s.file.write_all_at(&b, s.off);
                                }
                                ctx.choices.clear();
                                let r = catch(|| (fam.run)(i, &mut ctx));
                                if let Err(d) = r {
                                    let mut g = best.lock().unwrap();
                                    if g.as_ref().map_or(true, |v| i < v.index) {
                                        *g = Some(Violation {
                                            family: fam.name.clone(),
                                            index: i,
                                            choices: ctx.choices.clone(),
                                            detail: d,
                                        });
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                        beats[tid].0.store(u64::MAX, Ordering::Relaxed);
                        if let Some(s) = &ctx.slot {
                            use std::os::unix::fs::FileExt;
                            let _ = s.file.write_all_at(&[0u8; 20], s.off);
                        }
                        let (s, t) = rec::take();
                        (ctx, s, t)
                    })
                    .unwrap(),
            );
        }
        let mut fsamples: Vec<String> = Vec::new();
        for h in hs {
            let (ctx, s, t) = match h.join() {
                Ok(x) => x,
                Err(_) => {
                    eprintln!("internal error: worker thread died");
                    std::process::exit(3);
                }
            };
            rep.evals += ctx.evals;
            rep.traces += ctx.traces;
            rep.skipped += ctx.skipped;
            for (k, v) in ctx.outcomes {
                *rep.outcomes.entry(k).or_insert(0) += v;
            }
            if fsamples.is_empty() {
                fsamples = ctx.samples;
            }
            states.extend(s);
            trans.extend(t);
            distinct.extend(ctx.distinct);
        }
        done.store(true, Ordering::Relaxed);
        watchdog.thread().unpark();
        let _ = watchdog.join();
        for s in fsamples.into_iter().take(2) {
            rep.samples.push(format!("[{}] {}", fam.name, s));
        }
        let dt = t0.elapsed().as_secs_f64();
        if o.verbose {
            eprintln!(
                "  family {:<28} n={:<10} evals={:<12} {:.2}s",
                fam.name, fam.n, rep.evals, dt
            );
        }
        rep.families.push((fam.name.clone(), fam.bound.clone(), fam.n, dt));
        let v = best.lock().unwrap().take();
        if v.is_some() {
            rep.violation = v;
            break;
        }
    }
    rep.states = states.len() as u64;
    rep.transitions = trans.len() as u64;
    rep.distinct = distinct.len() as u64;
    rep
}

/// Mixed-radix digits of `i` (least significant first).
pub fn digits(mut i: u64, radices: &[u64]) -> Vec<usize> {
    let mut v = Vec::with_capacity(radices.len());
    for r in radices {
        v.push((i % r) as usize);
        i /= r;
    }
    v
}

/// The i-th word over an alphabet of size k in length-then-value order; `words_upto(k, l)` of them.
pub fn word(mut i: u64, k: u64) -> Vec<usize> {
    let mut len = 0usize;
    let mut count = 1u64;
    while i >= count {
        i -= count;
        len += 1;
        count *= k;
    }
    let mut v = vec![0usize; len];
    for p in (0..len).rev() {
        v[p] = (i % k) as usize;
        i /= k;
    }
    v
}
pub fn words_upto(k: u64, l: u32) -> u64 {
    (0..=l).map(|n| k.pow(n)).sum()
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for (i, x) in b.iter().enumerate() {
        if i >= 400 {
            s.push_str(&format!("...({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}
