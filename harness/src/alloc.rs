//! Per-thread accounting of heap use; a check installs it with `#[global_allocator]`.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

fn note(d: i64, alloc: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    if alloc > 0 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        let _ = BIGGEST.try_with(|a| {
            if alloc > a.get() {
                a.set(alloc)
            }
        });
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64, n);
        System.realloc(p, l, n)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Use {
    /// number of allocations and reallocations
    pub allocs: u64,
    /// peak of live bytes above the level at the start
    pub peak: i64,
    /// largest single request
    pub biggest: usize,
}

/// heap use of this thread while running `f` (its result is still alive at the end)
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let a0 = ALLOCS.with(|a| a.get());
    let l0 = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l0));
    BIGGEST.with(|b| b.set(0));
    let t = f();
    let u = Use {
        allocs: ALLOCS.with(|a| a.get()) - a0,
        peak: PEAK.with(|p| p.get()) - l0,
        biggest: BIGGEST.with(|b| b.get()),
    };
    (t, u)
}
