//! An allocator that counts, and that spoils memory as it's freed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

fn bump(live: isize) {
    let _ = LIVE.try_with(|c| c.set(c.get() + live));
    if live > 0 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump(1);
        let p = System.alloc(l);
        if !p.is_null() && !cfg!(miri) {
            std::ptr::write_bytes(p, 0xC5, l.size());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        bump(-1);
        if !cfg!(miri) {
            std::ptr::write_bytes(p, 0xDD, l.size());
        }
        System.dealloc(p, l)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

/// How many allocations this thread makes
pub fn count<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = COUNT.with(|c| c.get());
    let r = f();
    (r, COUNT.with(|c| c.get()) - before)
}

/// Allocations made by this thread minus frees by this thread
pub fn live() -> isize {
    LIVE.with(|c| c.get())
}
