//! Counting allocator: live bytes, peak and number of allocations of the (single threaded) worker.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static LARGEST: AtomicI64 = AtomicI64::new(0);

fn add(n: usize) {
    let live = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    PEAK.fetch_max(live, Relaxed);
    LARGEST.fetch_max(n as i64, Relaxed);
    COUNT.fetch_add(1, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        add(n);
        System.realloc(p, l, n)
    }
}

pub struct Usage {
    pub peak: u64,
    pub count: u64,
    pub largest: u64,
    pub left: i64,
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let before = LIVE.load(Relaxed);
    let count = COUNT.load(Relaxed);
    PEAK.store(before, Relaxed);
    LARGEST.store(0, Relaxed);
    let r = f();
    let u = Usage {
        peak: (PEAK.load(Relaxed) - before).max(0) as u64,
        count: COUNT.load(Relaxed) - count,
        largest: LARGEST.load(Relaxed).max(0) as u64,
        left: LIVE.load(Relaxed) - before,
    };
    (r, u)
}
