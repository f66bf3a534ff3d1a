//! Allocator that remembers the largest single request of the current thread.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

struct Watching;

thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}

fn saw(n: usize) {
    let _ = LARGEST.try_with(|l| l.set(l.get().max(n)));
}

unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        saw(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        saw(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        saw(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Watching = Watching;

/// Runs `f` and returns its result with the largest allocation requested meanwhile.
pub fn largest<T>(f: impl FnOnce() -> T) -> (T, usize) {
    LARGEST.with(|l| l.set(0));
    let out = f();
    (out, LARGEST.with(|l| l.get()))
}
