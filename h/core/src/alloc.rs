//! Counting global allocator: per-thread monitors of heap use.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone, Copy, Default, Debug)]
pub struct AllocStat {
    /// number of alloc/realloc calls
    pub calls: u64,
    /// bytes requested in total (growth part of reallocs)
    pub total: u64,
    /// live bytes (may go below zero if freeing memory of another thread)
    pub live: i64,
    /// largest value of live since last reset
    pub peak: i64,
    /// largest single request since last reset
    pub largest: u64,
}

struct Tl {
    calls: Cell<u64>,
    total: Cell<u64>,
    live: Cell<i64>,
    peak: Cell<i64>,
    largest: Cell<u64>,
}

thread_local! {
    static TL: Tl = const { Tl { calls: Cell::new(0), total: Cell::new(0), live: Cell::new(0),
                                 peak: Cell::new(0), largest: Cell::new(0) } };
}

/// Requests above this size fail, so that a runaway allocation ends the worker
/// (abort, attributed to the case in flight) instead of the sandbox.
pub const HARD_CAP: usize = 3 << 30;

pub struct Counting;

/// Bytes one thread may hold.
pub const LIVE_CAP: i64 = 2 << 30;

/// false: the request is to fail
#[inline]
fn on_alloc(grow: usize, size: usize) -> bool {
    TL.try_with(|t| {
        t.calls.set(t.calls.get() + 1);
        t.total.set(t.total.get() + grow as u64);
        let l = t.live.get() + grow as i64;
        t.live.set(l);
        if l > t.peak.get() {
            t.peak.set(l);
        }
        if size as u64 > t.largest.get() {
            t.largest.set(size as u64);
        }
        l <= LIVE_CAP
    })
    .unwrap_or(true)
        && size <= HARD_CAP
}
#[inline]
fn on_free(n: usize) {
    let _ = TL.try_with(|t| t.live.set(t.live.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size(), l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size(), l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let ok = if n >= l.size() {
            on_alloc(n - l.size(), n)
        } else {
            on_free(l.size() - n);
            on_alloc(0, n)
        };
        if !ok {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// Resets peak/largest to the current level and returns the current counters.
pub fn mark() -> AllocStat {
    TL.with(|t| {
        t.peak.set(t.live.get());
        t.largest.set(0);
        AllocStat {
            calls: t.calls.get(),
            total: t.total.get(),
            live: t.live.get(),
            peak: t.live.get(),
            largest: 0,
        }
    })
}

/// Usage since `m` was taken.
pub fn since(m: &AllocStat) -> AllocStat {
    TL.with(|t| AllocStat {
        calls: t.calls.get() - m.calls,
        total: t.total.get() - m.total,
        live: t.live.get() - m.live,
        peak: t.peak.get() - m.live,
        largest: t.largest.get(),
    })
}
