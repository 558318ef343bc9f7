//! Counting allocator: records, per thread, the largest single allocation request, so that
//! "a short input never makes the code reserve an unbounded amount of memory" is decided on a
//! deterministic quantity rather than on the memory of the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// Exit status of a run which spent its deterministic allocation budget.
pub const FUEL_EXIT: i32 = 77;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
fn note(n: usize) {
    let _ = MAX.try_with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
    let _ = COUNT.try_with(|c| {
        c.set(c.get() + 1);
        if c.get() > FUEL.try_with(|f| f.get()).unwrap_or(u64::MAX) {
            unsafe { libc::_exit(FUEL_EXIT) }
        }
    });
}
/// Starts a case: clears the counters and sets the work budget (number of allocations).
pub fn reset() {
    MAX.with(|m| m.set(0));
    COUNT.with(|c| c.set(0));
    FUEL.with(|f| f.set(400_000_000));
}
pub fn reset_max() { MAX.with(|m| m.set(0)); }
pub fn max_request() -> usize { MAX.with(|m| m.get()) }
