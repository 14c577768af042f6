//! Records the largest request for memory of each thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! { static MAX: Cell<usize> = const { Cell::new(0) }; }
pub struct Meter;
fn note(n: usize) { let _ = MAX.try_with(|m| if n > m.get() { m.set(n) }); }
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); if l.size() > 1 << 33 { return std::ptr::null_mut(); } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n); if n > 1 << 33 { return std::ptr::null_mut(); } System.realloc(p, l, n) }
}
pub fn reset() { MAX.with(|m| m.set(0)) }
pub fn max() -> usize { MAX.with(|m| m.get()) }
