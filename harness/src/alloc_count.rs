//! Counts the bytes each thread has live on the heap (for C18).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static GROUP: Cell<Option<&'static AtomicI64>> = const { Cell::new(None) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
    if let Ok(Some(g)) = GROUP.try_with(|g| g.get()) {
        g.fetch_add(n, Ordering::SeqCst);
    }
}

/// Count what this thread allocates from here to its very end (destructors of
/// its thread-locals included) in `to` as well.
pub fn join_group(to: &'static AtomicI64) {
    GROUP.with(|g| g.set(Some(to)));
}

/// Run harness code whose allocations do not count.
pub fn excluded<T>(f: impl FnOnce() -> T) -> T {
    let before = live();
    let group = GROUP.with(|g| g.take());
    let r = f();
    LIVE.with(|l| l.set(before));
    GROUP.with(|g| g.set(group));
    r
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
