//! The global allocator: counts what each thread requests, and fails absurd requests the way a
//! machine without the memory would (the process then aborts, which is reported as a crash).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

const LARGEST: usize = 1 << 31;

pub struct Counting;

fn count(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
}

// SAFETY: defers to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        if l.size() > LARGEST {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size());
        if l.size() > LARGEST {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n);
        if n > LARGEST {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// Bytes requested by this thread so far.
pub fn bytes() -> u64 {
    BYTES.with(|b| b.get())
}
