//! System allocator that poisons memory on allocation and on free, so that use of uninitialised or
//! freed memory shows.
use std::alloc::{GlobalAlloc, Layout, System};
pub struct Jemalloc;
const MAX: usize = 64 << 10;
unsafe impl GlobalAlloc for Jemalloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() && l.size() <= MAX {
            std::ptr::write_bytes(p, 0xA5, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() <= MAX {
            std::ptr::write_bytes(p, 0xDD, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
