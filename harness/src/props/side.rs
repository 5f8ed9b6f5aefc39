//! C30: an operation computes and does nothing else. It runs on a thread of its own on which the
//! kernel refuses and reports every system call but those for memory and for waiting, and on which
//! reading the environment and the clock is noticed.
use super::ops::{self, Op};
use super::xplat;
use crate::ctx::*;
use crate::ensure;
use crate::ops_core::{run, Digest};
use crate::model::brief;
use crate::ser;
use crate::tape::Src;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{sync_channel, Receiver, SyncSender};
use std::sync::OnceLock;

thread_local! {
    static GUARDED: Cell<bool> = const { Cell::new(false) };
}
static CALLS: AtomicU64 = AtomicU64::new(0);
static FIRST: [AtomicI64; 4] = [const { AtomicI64::new(0) }; 4];
static ENV: AtomicU64 = AtomicU64::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(0);

#[cfg(feature = "guard")]
mod interpose {
    use super::*;
    extern "C" {
        static environ: *const *const u8;
        fn syscall(n: i64, ...) -> i64;
        fn strlen(p: *const i8) -> usize;
    }
    /// In place of the one of the C library, which std calls.
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
        if GUARDED.try_with(|g| g.get()).unwrap_or(false) {
            ENV.fetch_add(1, SeqCst);
        }
        let n = strlen(name as *const i8);
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            let v = *p;
            if (0..n).all(|i| *v.add(i) == *name.add(i)) && *v.add(n) == b'=' {
                return v.add(n + 1);
            }
            p = p.add(1);
        }
        std::ptr::null()
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32 {
        if GUARDED.try_with(|g| g.get()).unwrap_or(false) {
            CLOCK.fetch_add(1, SeqCst);
            *t = [1_000_000_000, 0];
            return 0;
        }
        syscall(228, clock as i64, t) as i32
    }
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
struct Filter {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct Prog {
    len: u16,
    filter: *const Filter,
}
extern "C" {
    fn sigaction(n: i32, a: *const SigAction, old: *mut SigAction) -> i32;
    fn prctl(o: i32, ...) -> i32;
    fn getppid() -> i32;
    fn mallopt(p: i32, v: i32) -> i32;
    static environ: *const *const u8;
}
/// SIGSYS: notes the call and pretends that it failed (a write: that it succeeded).
unsafe extern "C" fn refused(_: i32, info: *const u8, context: *mut u8) {
    let nr = *(info.add(24) as *const i32) as i64;
    // the registers of the interrupted thread: r8 to r15, rdi, rsi, rbp, rbx, rdx, rax
    let regs = context.add(40) as *mut i64;
    if CALLS.fetch_add(1, SeqCst) == 0 {
        for (f, x) in FIRST.iter().zip([nr, *regs.add(8), *regs.add(9), *regs.add(12)]) {
            f.store(x, SeqCst);
        }
    }
    *regs.add(13) = if nr == 1 { *regs.add(12) } else { -1 };
}
/// What an operation may ask of the kernel: memory, waiting for another thread, random seeds for
/// hash maps, the end of the process.
const ALLOWED: [u32; 15] = [9, 10, 11, 12, 14, 15, 24, 25, 28, 60, 131, 202, 231, 318, 334];
fn guard() -> Result<(), String> {
    let s = |code: u16, jt: u8, jf: u8, k: u32| Filter { code, jt, jf, k };
    let n = ALLOWED.len() as u8;
    let mut f = vec![s(0x20, 0, 0, 4), s(0x15, 0, n + 1, 0xc000_003e), s(0x20, 0, 0, 0)];
    for (i, a) in ALLOWED.iter().enumerate() {
        f.push(s(0x15, n - i as u8, 0, *a));
    }
    f.push(s(0x06, 0, 0, 0x0003_0000));
    f.push(s(0x06, 0, 0, 0x7fff_0000));
    let p = Prog { len: f.len() as u16, filter: f.as_ptr() };
    let a = SigAction { handler: refused as *const () as usize, mask: [0; 16], flags: 4 | 0x4000_0000u32 as i32, restorer: 0 };
    unsafe {
        if sigaction(31, &a, std::ptr::null_mut()) != 0 {
            return Err("no handler for SIGSYS".into());
        }
        if prctl(38, 1usize, 0usize, 0usize, 0usize) != 0 {
            return Err("no_new_privs is refused".into());
        }
        if prctl(22, 2usize, &p as *const Prog) != 0 {
            return Err("a filter of system calls is refused".into());
        }
    }
    Ok(())
}
/// What must be as it was before: the environment and the floating-point mode.
fn around() -> (u64, u32) {
    let mut h = 1u64;
    unsafe {
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            h = h.wrapping_mul(0x100_0000_01b3) ^ *p as u64 ^ ((**p as u64) << 56);
            p = p.add(1);
        }
    }
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    let m = {
        let mut m = 0u32;
        unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut m) };
        m & !0x3f
    };
    #[cfg(not(all(target_arch = "x86_64", not(miri))))]
    let m = 0;
    (h, m)
}
#[derive(Debug)]
struct Seen {
    items: u64,
    panicked: bool,
    calls: u64,
    first: [i64; 4],
    env: u64,
    clock: u64,
    changed: bool,
}
fn watched(f: impl FnOnce() -> u64) -> Seen {
    for x in [&CALLS, &ENV, &CLOCK] {
        x.store(0, SeqCst);
    }
    let before = around();
    GUARDED.with(|g| g.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(false));
    Seen {
        items: *r.as_ref().unwrap_or(&0),
        panicked: r.is_err(),
        calls: CALLS.load(SeqCst),
        first: [0, 1, 2, 3].map(|i| FIRST[i].load(SeqCst)),
        env: ENV.load(SeqCst),
        clock: CLOCK.load(SeqCst),
        changed: around() != before,
    }
}
type Job = (Option<Op>, bool);
fn thread() -> &'static (SyncSender<Job>, std::sync::Mutex<Receiver<Result<Seen, String>>>) {
    static T: OnceLock<(SyncSender<Job>, std::sync::Mutex<Receiver<Result<Seen, String>>>)> = OnceLock::new();
    T.get_or_init(|| {
        let (a, jobs) = sync_channel::<Job>(1);
        let (results, b) = sync_channel(1);
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || {
                let ok = guard();
                for (op, panics) in jobs {
                    let r = ok.clone().map(|_| match op {
                        Some(op) => watched(|| {
                            let mut d = Digest::new(false);
                            run(&op, &mut d);
                            drop(op);
                            d.items
                        }),
                        // a probe of the monitor
                        None => watched(|| {
                            if panics {
                                panic!("probe");
                            }
                            let _ = std::env::var_os("VMON_PROBE");
                            std::hint::black_box(std::time::Instant::now());
                            unsafe { getppid() };
                            println!("SHOULD NOT BE SEEN");
                            1
                        }),
                    });
                    if results.send(r).is_err() {
                        return;
                    }
                }
            })
            .unwrap();
        (a, std::sync::Mutex::new(b))
    })
}
fn ask(job: Job) -> Seen {
    let (a, b) = thread();
    let b = b.lock().unwrap_or_else(|e| e.into_inner());
    a.send(job).unwrap();
    b.recv().unwrap().unwrap_or_else(|e| {
        eprintln!("harness: {}", e);
        std::process::exit(2)
    })
}
/// Before any other thread is started: the C library reads a file before it gives back memory of
/// other than the first arena.
pub fn one_arena() {
    unsafe { mallopt(-8, 1) };
}
/// Once in a process: the monitor sees what it is there for.
fn probe() {
    static DONE: AtomicBool = AtomicBool::new(false);
    if DONE.swap(true, SeqCst) {
        return;
    }
    let s = ask((None, false));
    let p = ask((None, true));
    if s.calls < 2 || s.first[0] != 110 || s.env != 1 || s.clock == 0 || s.panicked || !p.panicked || p.calls + p.env + p.clock != 0 {
        eprintln!("harness: the monitor of system calls does not work: {:?} {:?}", s, p);
        std::process::exit(2);
    }
}
fn one(op: &Op, c: &mut Ctx) -> Out {
    probe();
    c.key_bytes(&ser::op_bytes(op));
    let s = ask((Some(op.clone()), false));
    let what = || brief(&format!("{:?}", op), 1500);
    ensure!(
        s.calls == 0,
        "asks the kernel for system call {}({}, {:#x}, {}), {} calls: {}",
        s.first[0],
        s.first[1],
        s.first[2],
        s.first[3],
        s.calls,
        what()
    );
    ensure!(s.env == 0, "reads {} environment variables: {}", s.env, what());
    ensure!(s.clock == 0, "reads the clock {} times: {}", s.clock, what());
    ensure!(!s.changed, "leaves the environment or the floating-point mode changed: {}", what());
    c.n("operations watched", 1);
    c.n("results watched", s.items);
    if s.panicked {
        c.n("operations which panic", 1);
    }
    c.n(&format!("kind {}", xplat::kind(op)), 1);
    Ok(())
}
pub fn c30(s: &mut Src, c: &mut Ctx) -> Out {
    let op = ops::gen_op(s);
    c.sample(|| format!("{:?}", op));
    one(&op, c)
}
pub fn c30_enums(thorough: bool) -> u64 {
    xplat::c29_enums(thorough)
}
pub fn c30_enum(k: u64, c: &mut Ctx) -> Out {
    for op in xplat::enumerated(k) {
        one(&op, c)?;
    }
    Ok(())
}
