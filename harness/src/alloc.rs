//! Counting global allocator: the monitor for the memory properties. A hard cap turns a runaway
//! allocation into a recognisable exit instead of an out-of-memory kill.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
pub struct Counting;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
pub const EXIT_MEM: i32 = 78;
extern "C" {
    fn _exit(code: i32) -> !;
}
#[inline]
fn add(n: usize) {
    let c = CUR.fetch_add(n, Relaxed).wrapping_add(n);
    TOTAL.store(TOTAL.load(Relaxed).wrapping_add(n), Relaxed);
    if c > PEAK.load(Relaxed) {
        PEAK.store(c, Relaxed);
        if c > CAP.load(Relaxed) {
            unsafe { _exit(EXIT_MEM) }
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        let r = System.realloc(p, l, n);
        CUR.fetch_sub(l.size(), Relaxed);
        r
    }
}
pub fn set_cap(n: usize) {
    CAP.store(n, Relaxed);
}
#[derive(Clone, Copy, Debug)]
pub struct Mark {
    cur: usize,
    total: usize,
}
/// Begin measuring; peak is reset to the current level.
pub fn mark() -> Mark {
    let cur = CUR.load(Relaxed);
    PEAK.store(cur, Relaxed);
    Mark { cur, total: TOTAL.load(Relaxed) }
}
impl Mark {
    pub fn peak(&self) -> usize {
        PEAK.load(Relaxed).saturating_sub(self.cur)
    }
    pub fn net(&self) -> isize {
        CUR.load(Relaxed) as isize - self.cur as isize
    }
    pub fn total(&self) -> usize {
        TOTAL.load(Relaxed).wrapping_sub(self.total)
    }
}
