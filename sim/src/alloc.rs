//! Global allocator with a per-thread budget: allocations beyond the budget fail (as on a machine
//! without that memory), and the largest request is recorded.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Budget;
thread_local! {
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static MAXREQ: Cell<usize> = const { Cell::new(0) };
    static DENIED: Cell<usize> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Budget {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if deny(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if deny(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if deny(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
#[inline]
fn deny(n: usize) -> bool {
    if n < (1 << 20) {
        return false;
    }
    let _ = MAXREQ.try_with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
    let over = LIMIT.try_with(|l| n > l.get()).unwrap_or(false);
    if over {
        let _ = DENIED.try_with(|d| d.set(d.get().max(n)));
    }
    over
}
/// Single requests above `limit` fail on this thread from now on.
pub fn set_limit(limit: usize) {
    LIMIT.with(|l| l.set(limit));
    MAXREQ.with(|m| m.set(0));
    DENIED.with(|m| m.set(0));
}
pub fn clear_limit() -> (usize, usize) {
    LIMIT.with(|l| l.set(usize::MAX));
    (MAXREQ.with(|m| m.get()), DENIED.with(|m| m.get()))
}
