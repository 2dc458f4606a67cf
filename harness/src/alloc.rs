//! Notes the largest single allocation of each thread, and how much it has in use.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Watch;

thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn note(n: usize) {
    let _ = LARGEST.try_with(|l| {
        if n > l.get() {
            l.set(n)
        }
    });
}

fn change(by: isize) {
    let _ = LIVE.try_with(|l| {
        let n = l.get() + by;
        l.set(n);
        let _ = PEAK.try_with(|p| {
            if n > p.get() {
                p.set(n)
            }
        });
    });
}

/// The largest allocation since this was last asked, of this thread
pub fn take_largest() -> usize {
    LARGEST.with(|l| l.replace(0))
}

/// Bytes this thread has allocated and not given back
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

/// The most it had since this was last asked
pub fn take_peak() -> isize {
    PEAK.with(|p| p.replace(live()))
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        change(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        change(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        change(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        change(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}
