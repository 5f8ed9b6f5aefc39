//! Stands in for the allocator crate of std, which is not there; the program has its own.
#![no_std]
pub struct Dlmalloc;
impl Dlmalloc {
    pub const fn new() -> Dlmalloc { Dlmalloc }
    pub unsafe fn malloc(&mut self, _: usize, _: usize) -> *mut u8 { core::ptr::null_mut() }
    pub unsafe fn calloc(&mut self, _: usize, _: usize) -> *mut u8 { core::ptr::null_mut() }
    pub unsafe fn free(&mut self, _: *mut u8, _: usize, _: usize) {}
    pub unsafe fn realloc(&mut self, _: *mut u8, _: usize, _: usize, _: usize) -> *mut u8 { core::ptr::null_mut() }
}
