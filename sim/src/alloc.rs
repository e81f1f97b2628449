//! Global allocator that refuses single requests above an armed limit, as an allocator out of memory does.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static DENIED: AtomicU64 = AtomicU64::new(0);

pub struct Limited;

fn denied(size: usize) -> bool {
    if size > LIMIT.load(Relaxed) {
        DENIED.fetch_add(1, Relaxed);
        true
    } else {
        false
    }
}

unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if denied(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if denied(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && denied(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

pub fn arm(limit: usize) {
    LIMIT.store(limit, Relaxed);
}
pub fn disarm() {
    LIMIT.store(usize::MAX, Relaxed);
}
pub fn denied_count() -> u64 {
    DENIED.load(Relaxed)
}
