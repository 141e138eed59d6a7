//! Counts the live heap bytes of the current thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        add(layout.size() as i64);
        System.alloc(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        add(layout.size() as i64);
        System.alloc_zeroed(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        add(-(layout.size() as i64));
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        // While the block moves, both copies may be live.
        add(new_size as i64);
        add(-(layout.size() as i64));
        System.realloc(ptr, layout, new_size)
    }
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Runs `f`; returns its result and how far the live bytes rose above the level at the start.
pub fn peak_over<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = live();
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, PEAK.with(|p| p.get()) - base)
}
