//! The operations of C29 for wasm32-unknown-unknown: words of 32 bits, and no file descriptors.
#![allow(dead_code)]
#[path = "../../harness/src/conv.rs"]
mod conv;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/ops_core.rs"]
mod ops_core;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/ser.rs"]
mod ser;
#[path = "../../harness/src/xsink.rs"]
mod xsink;

#[cfg(target_arch = "wasm32")]
mod wasm {
    use super::*;
    use std::alloc::{GlobalAlloc, Layout};
    use std::cell::UnsafeCell;

    /// Lists of free blocks of each power of two. One thread only.
    struct Blocks(UnsafeCell<([usize; 32], usize, usize)>);
    unsafe impl Sync for Blocks {}
    fn class(l: &Layout) -> usize {
        l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() as usize
    }
    unsafe impl GlobalAlloc for Blocks {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if l.size() > 1 << 30 {
                return std::ptr::null_mut();
            }
            let (free, at, end) = &mut *self.0.get();
            let c = class(&l);
            if free[c] != 0 {
                let p = free[c];
                free[c] = *(p as *const usize);
                return p as *mut u8;
            }
            // blocks are aligned to their size up to a page
            let a = (1usize << c).min(65536);
            let mut p = (*at + a - 1) & !(a - 1);
            if p + (1 << c) > *end || *at == 0 {
                let pages = (1usize << c).div_ceil(65536) + 16;
                let first = std::arch::wasm32::memory_grow(0, pages);
                if first == usize::MAX {
                    return std::ptr::null_mut();
                }
                if first * 65536 != *end || *at == 0 {
                    *at = first * 65536;
                }
                *end = (first + pages) * 65536;
                p = (*at + a - 1) & !(a - 1);
            }
            *at = p + (1 << c);
            p as *mut u8
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let (free, _, _) = &mut *self.0.get();
            let c = class(&l);
            *(p as *mut usize) = free[c];
            free[c] = p as usize;
        }
    }
    #[global_allocator]
    static A: Blocks = Blocks(UnsafeCell::new(([0; 32], 0, 0)));

    static mut OUT: Vec<u8> = vec![];

    #[no_mangle]
    pub extern "C" fn reserve(n: usize) -> *mut u8 {
        Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
    }
    /// Takes back what `reserve` gave; the result is a length (4 bytes) and that many bytes.
    #[no_mangle]
    pub unsafe extern "C" fn perform(p: *mut u8, n: usize, log: u32) -> *const u8 {
        let b = Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n));
        let op = ser::R(&b).op();
        let k = xsink::observe(&op, log != 0);
        let r = match k.log {
            Some(l) => l.into_bytes(),
            None => k.h.to_le_bytes().to_vec(),
        };
        let mut v = (r.len() as u32).to_le_bytes().to_vec();
        v.extend_from_slice(&r);
        OUT = v;
        (*std::ptr::addr_of!(OUT)).as_ptr()
    }
}
