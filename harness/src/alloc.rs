//! Counting allocator: live and peak bytes, and a cap that turns allocation bombs into a failed allocation.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static MAX_SINGLE: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
pub static CAPPED: AtomicBool = AtomicBool::new(false);
const CAP: usize = 3 << 30;

fn add(n: usize) {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
    }
    if n > MAX_SINGLE.load(Relaxed) {
        MAX_SINGLE.store(n, Relaxed);
    }
}
fn over(n: usize) -> bool {
    if LIVE.load(Relaxed).saturating_add(n) > CAP {
        CAPPED.store(true, Relaxed);
        // exit at once with a status of its own, so that the parent can tell it from a plain abort
        unsafe { libc::_exit(crate::run::EXIT_ALLOC) }
    }
    false
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        over(l.size());
        let p = System.alloc(l);
        if !p.is_null() {
            TOTAL.fetch_add(l.size(), Relaxed);
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        over(l.size());
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            TOTAL.fetch_add(l.size(), Relaxed);
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        LIVE.fetch_sub(l.size(), Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            over(n - l.size());
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            TOTAL.fetch_add(n, Relaxed);
            if n >= l.size() {
                add(n - l.size());
            } else {
                LIVE.fetch_sub(l.size() - n, Relaxed);
            }
        }
        q
    }
}

pub fn live() -> usize {
    LIVE.load(Relaxed)
}
/// starts a new measurement, returns bytes live now
pub fn reset() -> usize {
    let live = LIVE.load(Relaxed);
    PEAK.store(live, Relaxed);
    MAX_SINGLE.store(0, Relaxed);
    live
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
/// bytes asked for since the program was started
pub fn total() -> usize {
    TOTAL.load(Relaxed)
}
