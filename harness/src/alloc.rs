//! Counting global allocator: a deterministic oracle for "memory is bounded".
//!
//! `LIMIT` is a cap on live bytes. An allocation that would exceed it fails (returns
//! null): fallible callers see an error, infallible ones abort the process, which the
//! parent of the worker process reports.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(DEFAULT_LIMIT);
static REFUSED: AtomicUsize = AtomicUsize::new(0);

/// Safety net for all checks (eight workers share 32 GB).
pub const DEFAULT_LIMIT: usize = 2 << 30;

fn grow(by: usize) -> bool {
    if by > DEFAULT_LIMIT {
        REFUSED.fetch_add(1, Relaxed);
        return false;
    }
    let live = LIVE.fetch_add(by, Relaxed) + by;
    if live > LIMIT.load(Relaxed) {
        LIVE.fetch_sub(by, Relaxed);
        REFUSED.fetch_add(1, Relaxed);
        return false;
    }
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
    }
    true
}

fn shrink(by: usize) {
    LIVE.fetch_sub(by, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if p.is_null() {
            shrink(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if p.is_null() {
            shrink(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        shrink(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() {
            if !grow(new - l.size()) {
                return std::ptr::null_mut();
            }
            let q = System.realloc(p, l, new);
            if q.is_null() {
                shrink(new - l.size());
            }
            q
        } else {
            let q = System.realloc(p, l, new);
            if !q.is_null() {
                shrink(l.size() - new);
            }
            q
        }
    }
}

pub fn live() -> usize {
    LIVE.load(Relaxed)
}

/// Runs `f` and returns its result with the peak number of bytes it held beyond what was
/// live before.
pub fn measured<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let before = live();
    PEAK.store(before, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(before))
}

/// Runs `f` with at most `budget` further bytes available.
pub fn limited<R>(budget: usize, f: impl FnOnce() -> R) -> R {
    struct Reset(usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            LIMIT.store(self.0, Relaxed);
        }
    }
    let _reset = Reset(LIMIT.swap(live().saturating_add(budget), Relaxed));
    f()
}
