//! SanitizerCoverage callbacks: only the crate under test is compiled with the instrumentation
//! (see ../rustc-wrap.sh). They give the edge hits of the current case (coverage feedback), the
//! number of executed edges (work / termination monitor) and constants compared against.
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

const MAXG: usize = 1 << 14;
static COUNTS: [AtomicU8; MAXG] = [const { AtomicU8::new(0) }; MAXG];
static TOUCHED: [AtomicU32; MAXG] = [const { AtomicU32::new(0) }; MAXG];
static NTOUCHED: AtomicUsize = AtomicUsize::new(0);
static NGUARDS: AtomicU32 = AtomicU32::new(0);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static ON: AtomicBool = AtomicBool::new(false);

const CMPN: usize = 1 << 12;
static CMPS: [AtomicU64; CMPN] = [const { AtomicU64::new(0) }; CMPN];
static NCMP: AtomicUsize = AtomicUsize::new(0);

pub const EXIT_STEPS: i32 = 77;
extern "C" {
    fn _exit(code: i32) -> !;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        let n = NGUARDS.load(Relaxed) + 1;
        NGUARDS.store(n, Relaxed);
        *start = n;
        start = start.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !ON.load(Relaxed) {
        return;
    }
    let s = STEPS.load(Relaxed) + 1;
    STEPS.store(s, Relaxed);
    if s > LIMIT.load(Relaxed) {
        _exit(EXIT_STEPS);
    }
    let g = (*guard as usize) & (MAXG - 1);
    let c = COUNTS[g].load(Relaxed);
    if c == 0 {
        let n = NTOUCHED.load(Relaxed);
        if n < MAXG {
            TOUCHED[n].store(g as u32, Relaxed);
            NTOUCHED.store(n + 1, Relaxed);
        }
    }
    if c != 255 {
        COUNTS[g].store(c + 1, Relaxed);
    }
}

#[inline]
fn note(c: u64, v: u64) {
    if c != v && ON.load(Relaxed) {
        let n = NCMP.load(Relaxed);
        CMPS[n & (CMPN - 1)].store(c, Relaxed);
        NCMP.store(n + 1, Relaxed);
    }
}
macro_rules! cmp {
    ($($c:ident $n:ident $t:ty),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $c(a: $t, b: $t) { note(a as u64, b as u64) }
        #[no_mangle]
        pub unsafe extern "C" fn $n(_a: $t, _b: $t) {}
    )* };
}
cmp!(
    __sanitizer_cov_trace_const_cmp1 __sanitizer_cov_trace_cmp1 u8,
    __sanitizer_cov_trace_const_cmp2 __sanitizer_cov_trace_cmp2 u16,
    __sanitizer_cov_trace_const_cmp4 __sanitizer_cov_trace_cmp4 u32,
    __sanitizer_cov_trace_const_cmp8 __sanitizer_cov_trace_cmp8 u64
);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    if !ON.load(Relaxed) {
        return;
    }
    let n = (*cases).min(24) as usize;
    let k = NCMP.load(Relaxed);
    // one of the case values, rotating
    if n > 0 {
        CMPS[k & (CMPN - 1)].store(*cases.add(2 + k % n), Relaxed);
        NCMP.store(k + 1, Relaxed);
    }
}

pub fn guards() -> usize {
    NGUARDS.load(Relaxed) as usize
}
pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}
/// Start a case.
pub fn begin(limit: u64) {
    let n = NTOUCHED.load(Relaxed);
    for t in TOUCHED.iter().take(n) {
        COUNTS[t.load(Relaxed) as usize].store(0, Relaxed);
    }
    NTOUCHED.store(0, Relaxed);
    NCMP.store(0, Relaxed);
    STEPS.store(0, Relaxed);
    LIMIT.store(limit, Relaxed);
    ON.store(true, Relaxed);
}
/// End a case; afterwards `features` and `cmps` may be read.
pub fn end() {
    ON.store(false, Relaxed);
}
pub fn pause() -> bool {
    ON.swap(false, Relaxed)
}
pub fn resume(on: bool) {
    ON.store(on, Relaxed)
}
fn bucket(c: u8) -> usize {
    match c {
        0..=3 => c as usize,
        4..=7 => 4,
        8..=15 => 5,
        16..=127 => 6,
        _ => 7,
    }
}
/// Calls `f` with (guard, feature id) of everything hit.
pub fn features(mut f: impl FnMut(usize, usize)) {
    let n = NTOUCHED.load(Relaxed);
    for t in TOUCHED.iter().take(n) {
        let g = t.load(Relaxed) as usize;
        f(g, g * 8 + bucket(COUNTS[g].load(Relaxed)));
    }
}
pub const MAXFEAT: usize = MAXG * 8;
pub fn cmps(mut f: impl FnMut(u64)) {
    let n = NCMP.load(Relaxed).min(CMPN);
    for c in CMPS.iter().take(n) {
        f(c.load(Relaxed));
    }
}
