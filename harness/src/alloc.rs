//! Counting allocator: remembers the largest single request each thread made
//! and refuses absurd requests, so that a decoder that sizes a buffer from an
//! untrusted length is visible without endangering the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub const HARD_CAP: usize = 1 << 30;

thread_local! {
    static MAX_REQ: Cell<usize> = const { Cell::new(0) };
}

pub struct Counting;

fn note(size: usize) {
    let _ = MAX_REQ.try_with(|m| {
        if size > m.get() {
            m.set(size);
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > HARD_CAP {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > HARD_CAP {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        if n > HARD_CAP {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// Runs `f` and returns its result with the largest single allocation request.
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, usize) {
    MAX_REQ.with(|m| m.set(0));
    let r = f();
    let max = MAX_REQ.with(Cell::get);
    (r, max)
}
