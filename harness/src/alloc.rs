//! Allocation monitor. Counts what the armed thread's code asks for; a request no honest decoder of
//! a small buffer could make is refused, which makes the process abort (the supervisor sees it).

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static ARMED: AtomicBool = AtomicBool::new(false);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static LARGEST: AtomicU64 = AtomicU64::new(0);
pub const REFUSE: usize = 1 << 28;
/// What the process holds; no case needs anywhere near the limit, and a call that never stops
/// allocating then ends in an abort instead of exhausting the machine.
static LIVE: AtomicUsize = AtomicUsize::new(0);
const LIMIT: usize = 2 << 30;

fn take(n: usize) -> bool {
    if LIVE.fetch_add(n, Relaxed) > LIMIT {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    true
}
fn give(n: usize) {
    LIVE.fetch_sub(n, Relaxed);
}

fn note(n: usize) -> bool {
    if ARMED.load(Relaxed) {
        TOTAL.fetch_add(n as u64, Relaxed);
        LARGEST.fetch_max(n as u64, Relaxed);
        return n <= REFUSE;
    }
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) || !take(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) || !take(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        give(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !note(n) || !take(n) {
            return std::ptr::null_mut();
        }
        give(l.size());
        System.realloc(p, l, n)
    }
}

/// Run `f` with the monitor armed; returns (result, bytes requested in total, largest request).
pub fn measured<T, F: FnOnce() -> T>(f: F) -> (T, u64, u64) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ARMED.store(false, Relaxed)
        }
    }
    TOTAL.store(0, Relaxed);
    LARGEST.store(0, Relaxed);
    ARMED.store(true, Relaxed);
    let off = Off;
    let t = f();
    drop(off);
    (t, TOTAL.load(Relaxed), LARGEST.load(Relaxed))
}
