//! Counting allocator: peak memory per run, and a limit that stands in for a full memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Counting;
static CUR: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
/// a single request above this fails, as it would on a machine of that size
pub const SINGLE_LIMIT: usize = 512 << 20;

fn add(n: usize) {
    let c = CUR.fetch_add(n as u64, Relaxed) + n as u64;
    if c > PEAK.load(Relaxed) {
        PEAK.store(c, Relaxed);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > SINGLE_LIMIT {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > SINGLE_LIMIT {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > SINGLE_LIMIT {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            CUR.fetch_sub(l.size() as u64, Relaxed);
            add(n);
        }
        q
    }
}
pub fn reset_peak() -> u64 {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    c
}
pub fn peak() -> u64 {
    PEAK.load(Relaxed)
}
