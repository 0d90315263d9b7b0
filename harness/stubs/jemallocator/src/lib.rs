//! Stand-in for jemallocator used only by the verification harness: forwards to the system allocator
//! and keeps the counters the monitors read (live bytes, largest request). It spares every check the
//! 30 s jemalloc C build and lets AddressSanitizer see the heap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Jemalloc;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static LARGEST: AtomicUsize = AtomicUsize::new(0);
/// Single requests above this size are refused (null => handle_alloc_error) when non zero.
pub static LIMIT: AtomicUsize = AtomicUsize::new(0);

fn note(size: usize) -> bool {
    let limit = LIMIT.load(Relaxed);
    LARGEST.fetch_max(size, Relaxed);
    if limit != 0 && size > limit {
        return false;
    }
    let live = LIVE.fetch_add(size, Relaxed) + size;
    PEAK.fetch_max(live, Relaxed);
    true
}

unsafe impl GlobalAlloc for Jemalloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) { return std::ptr::null_mut(); }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) { return std::ptr::null_mut(); }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !note(n) { return std::ptr::null_mut(); }
        LIVE.fetch_sub(l.size(), Relaxed);
        unsafe { System.realloc(p, l, n) }
    }
}
