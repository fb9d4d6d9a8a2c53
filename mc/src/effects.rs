//! C24: what a call leaves behind or lets out.
//!
//! A call runs on a helper thread under a seccomp filter that lets through what the allocator and the
//! runtime need and turns every other system call into a note (the call itself is not made). Reading the
//! environment or the clock needs no system call: the harness provides `getenv` and `clock_gettime`
//! itself and takes note. The allocator keeps the balance of the thread.

use std::cell::Cell;
use std::sync::mpsc;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    /// The allocator may read how it is to behave.
    static ALLOCATOR: Cell<bool> = const { Cell::new(false) };
    /// The first effect: a system call's number + 1, or one of the codes below.
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static HELPER: std::cell::RefCell<Option<Helper>> = const { std::cell::RefCell::new(None) };
}
const GETENV: u64 = 1 << 32;
const CLOCK: u64 = 2 << 32;

#[inline]
pub fn balance(n: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + n));
}
#[inline]
pub fn allocator<R>(f: impl FnOnce() -> R) -> R {
    let _ = ALLOCATOR.try_with(|c| c.set(true));
    let r = f();
    let _ = ALLOCATOR.try_with(|c| c.set(false));
    r
}
/// Bytes allocated and not released by this thread.
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}
fn note(x: u64) {
    if INSIDE.try_with(|c| c.get()).unwrap_or(false) && !ALLOCATOR.try_with(|c| c.get()).unwrap_or(true) {
        let _ = SEEN.try_with(|c| {
            if c.get() == 0 {
                c.set(x)
            }
        });
    }
}

extern "C" {
    static environ: *const *const u8;
    fn syscall(n: i64, ...) -> i64;
    fn prctl(op: i32, ...) -> i32;
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
}

/// # Safety
/// as in C
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    note(GETENV);
    let n = std::ffi::CStr::from_ptr(name as *const _).to_bytes();
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p as *const _).to_bytes();
        if e.len() > n.len() && e.starts_with(n) && e[n.len()] == b'=' {
            return (*p).add(n.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}
/// # Safety
/// as in C
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut u8) -> i32 {
    note(CLOCK);
    syscall(228, id, t) as i32
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
struct Insn {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct Prog {
    len: u16,
    filter: *const Insn,
}
/// SIGSYS: note the system call and let it seem done (output) or refused (the rest).
unsafe extern "C" fn trapped(_: i32, info: *const u8, ctx: *mut u8) {
    let nr = *(info.add(24) as *const i32) as u64;
    note(nr + 1);
    let greg = |k: usize| ctx.add(40 + 8 * k) as *mut i64;
    let len = *greg(12);
    *greg(13) = if nr == 1 { len } else { -1 };
}

/// What the allocator, panics, locks and thread exits use, and random keys of hash maps.
const ALLOWED: &[u32] = &[9, 10, 11, 12, 14, 15, 24, 25, 28, 60, 131, 186, 202, 218, 219, 228, 231, 234, 273, 318, 334];

fn install() -> bool {
    unsafe {
        let a = SigAction { handler: trapped as *const () as usize, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
        if sigaction(31, &a, std::ptr::null_mut()) != 0 {
            return false;
        }
        let mut f = vec![Insn { code: 0x20, jt: 0, jf: 0, k: 0 }]; // the system call's number
        for (i, n) in ALLOWED.iter().enumerate() {
            f.push(Insn { code: 0x15, jt: (ALLOWED.len() - i) as u8, jf: 0, k: *n });
        }
        f.push(Insn { code: 0x06, jt: 0, jf: 0, k: 0x0003_0000 }); // trap
        f.push(Insn { code: 0x06, jt: 0, jf: 0, k: 0x7fff_0000 }); // allow
        let p = Prog { len: f.len() as u16, filter: f.as_ptr() };
        prctl(38, 1i64, 0i64, 0i64, 0i64) == 0 && prctl(22, 2i64, &p as *const Prog) == 0
    }
}

type Job = Box<dyn FnOnce() + Send>;
struct Helper {
    jobs: mpsc::Sender<Job>,
    done: mpsc::Receiver<bool>,
    filtered: bool,
}
fn helper() -> Helper {
    let (jobs, rx) = mpsc::channel::<Job>();
    let (tx, done) = mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            crate::engine::rec::off();
            let _ = tx.send(install());
            while let Ok(j) = rx.recv() {
                j();
                if tx.send(true).is_err() {
                    break;
                }
            }
        })
        .unwrap();
    let filtered = done.recv().unwrap_or(false);
    Helper { jobs, done, filtered }
}

/// Run `f` on this thread's helper, while this thread waits. `f` must not unwind.
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    HELPER.with(|h| {
        let mut h = h.borrow_mut();
        let h = h.get_or_insert_with(helper);
        let mut out = None;
        {
            let o = &mut out;
            let job: Box<dyn FnOnce() + '_> = Box::new(move || *o = Some(f()));
            // The borrow ends before this function does: it waits for the job.
            let job: Job = unsafe { std::mem::transmute(job) };
            h.jobs.send(job).unwrap();
            h.done.recv().expect("the helper thread died");
        }
        out.unwrap()
    })
}
/// Whether system calls are seen.
pub fn filtered() -> bool {
    HELPER.with(|h| h.borrow_mut().get_or_insert_with(helper).filtered)
}

/// Within `aside`: run `f` and name the first effect it had.
pub fn watched<R>(f: impl FnOnce() -> R) -> (R, Option<String>) {
    SEEN.with(|c| c.set(0));
    INSIDE.with(|c| c.set(true));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            INSIDE.with(|c| c.set(false));
        }
    }
    let off = Off;
    let r = f();
    drop(off);
    let e = match SEEN.with(|c| c.replace(0)) {
        0 => None,
        GETENV => Some("the environment is read".to_string()),
        CLOCK => Some("the clock is read".to_string()),
        n => Some(format!("system call {} ({})", n - 1, name(n - 1))),
    };
    (r, e)
}
fn name(n: u64) -> &'static str {
    match n {
        0 => "read",
        1 => "write",
        2 => "open",
        3 => "close",
        5 => "fstat",
        8 => "lseek",
        16 => "ioctl",
        20 => "writev",
        32 => "dup",
        33 => "dup2",
        35 | 230 => "nanosleep",
        41 => "socket",
        56 | 435 => "clone",
        72 => "fcntl",
        79 => "getcwd",
        257 => "openat",
        _ => "not one the allocator needs",
    }
}
