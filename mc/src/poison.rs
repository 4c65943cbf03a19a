//! An allocator that overwrites memory as it is freed, so that an iterator that outlives what it
//! reads from returns garbage instead of luckily intact data.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Poison;

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() <= 1 << 16 {
            std::ptr::write_bytes(p, 0xDD, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
