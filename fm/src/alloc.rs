//! A counting allocator: what the current thread allocates.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

#[derive(Clone, Copy, Default, Debug)]
pub struct Tally {
    /// Calls of alloc, alloc_zeroed and realloc.
    pub allocs: u64,
    pub frees: u64,
    /// Bytes in use by this thread's reckoning, and its peak.
    pub now: i64,
    pub peak: i64,
    /// The largest single request.
    pub largest: u64,
}

thread_local! {
    static TALLY: Cell<Tally> = const { Cell::new(Tally { allocs: 0, frees: 0, now: 0, peak: 0, largest: 0 }) };
}

#[inline]
fn note(f: impl FnOnce(&mut Tally)) {
    let _ = TALLY.try_with(|t| {
        let mut v = t.get();
        f(&mut v);
        v.peak = v.peak.max(v.now);
        t.set(v);
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(|t| {
            t.allocs += 1;
            t.now += l.size() as i64;
            t.largest = t.largest.max(l.size() as u64);
        });
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(|t| {
            t.allocs += 1;
            t.now += l.size() as i64;
            t.largest = t.largest.max(l.size() as u64);
        });
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(|t| {
            t.allocs += 1;
            t.now += n as i64 - l.size() as i64;
            t.largest = t.largest.max(n as u64);
        });
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(|t| {
            t.frees += 1;
            t.now -= l.size() as i64;
        });
        System.dealloc(p, l)
    }
}

/// Start counting anew.
pub fn reset() {
    let _ = TALLY.try_with(|t| t.set(Tally::default()));
}

pub fn tally() -> Tally {
    TALLY.try_with(|t| t.get()).unwrap_or_default()
}

/// The allocator is in place and counts.
pub fn working() -> bool {
    reset();
    let b = std::hint::black_box(Box::new([1u8; 100]));
    let t = tally();
    drop(b);
    t.allocs == 1 && t.largest == 100 && tally().frees == 1
}
