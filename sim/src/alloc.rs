//! Global allocator of the harness: the heap as a fault-injectable resource.
//! It counts allocations made while the current thread has the "denied" flag
//! set (C23) and refuses requests beyond a total cap, so that a runaway
//! allocation ends the worker instead of the machine. Every request is also a
//! place where the simulated scheduler may switch threads (C16).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct SimAlloc;

static LIVE: AtomicUsize = AtomicUsize::new(0);
const CAP: usize = 1 << 30;

thread_local! {
    static DENIED: Cell<bool> = const { Cell::new(false) };
    static HITS: Cell<u64> = const { Cell::new(0) };
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note();
        if LIVE.fetch_add(l.size(), Ordering::Relaxed) + l.size() > CAP {
            LIVE.fetch_sub(l.size(), Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note();
        if n > l.size() && LIVE.load(Ordering::Relaxed) + (n - l.size()) > CAP {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_add(n, Ordering::Relaxed);
            LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        }
        q
    }
}

fn note() {
    crate::sched::point();
    let _ = DENIED.try_with(|d| {
        if d.get() {
            let _ = HITS.try_with(|h| h.set(h.get() + 1));
        }
    });
}

/// Run `f` with the heap denied to this thread; returns the number of
/// allocation requests it made. They are recorded and then served, because
/// a real refusal would abort the process before the check could report.
pub fn denied<R>(f: impl FnOnce() -> R) -> (R, u64) {
    HITS.with(|h| h.set(0));
    DENIED.with(|d| d.set(true));
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            DENIED.with(|d| d.set(false));
        }
    }
    let r = {
        let _reset = Reset;
        f()
    };
    (r, HITS.with(|h| h.get()))
}
