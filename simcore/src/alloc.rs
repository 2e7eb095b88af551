//! Allocator with a bound on single requests: a request the input cannot justify fails, as it would on a machine
//! without that much memory, which aborts the process and is reported as a crash of the run.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Guard;
const LIMIT: usize = 512 << 20;

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
