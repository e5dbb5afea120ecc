//! Counting global allocator: bytes in use, peak, and an optional ceiling. An allocation over the
//! ceiling fails, so the code under test which asks for it aborts (seen by the supervisor).

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

fn grow(n: usize) -> bool {
    let live = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    if live > LIMIT.load(Relaxed) {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(live, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !grow(n - l.size()) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if n < l.size() {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        q
    }
}

#[cfg(feature = "monalloc")]
#[global_allocator]
static GLOBAL: Counting = Counting;

pub fn live() -> usize {
    LIVE.load(Relaxed)
}

/// Starts a new measure of the peak, and allows `budget` more bytes than now.
pub fn begin(budget: usize) -> usize {
    let now = live();
    PEAK.store(now, Relaxed);
    LIMIT.store(now.saturating_add(budget), Relaxed);
    now
}

/// Ends the measure; the peak, relative to `start`.
pub fn end(start: usize) -> usize {
    LIMIT.store(usize::MAX, Relaxed);
    PEAK.load(Relaxed).saturating_sub(start)
}
