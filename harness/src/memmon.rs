//! Allocation monitor: the largest single request of the current thread since the last reset.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::{Relaxed, SeqCst}};

pub struct Mon;
thread_local! { static MAX: Cell<usize> = const { Cell::new(0) }; }

#[inline]
fn see(n: usize) {
    let _ = MAX.try_with(|m| if n > m.get() { m.set(n) });
    if n > 16 << 30 {
        let msg = b"MONITOR: a single allocation of more than 16 GB was requested\n";
        unsafe { libc::write(2, msg.as_ptr().cast(), msg.len()); }
    }
}
/// Bytes and blocks allocated and not freed while counting is on (relative to when it was switched on).
pub static COUNTING: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
#[inline]
fn live(bytes: i64, blocks: i64) { if COUNTING.load(Relaxed) { LIVE.fetch_add(bytes, Relaxed); BLOCKS.fetch_add(blocks, Relaxed); } }
pub fn in_use() -> (i64, i64) { (LIVE.load(SeqCst), BLOCKS.load(SeqCst)) }

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { see(l.size()); live(l.size() as i64, 1); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { see(l.size()); live(l.size() as i64, 1); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { live(-(l.size() as i64), -1); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { see(n); live(n as i64 - l.size() as i64, 0); System.realloc(p, l, n) }
}
pub fn reset() { MAX.with(|m| m.set(0)) }
pub fn largest() -> usize { MAX.with(|m| m.get()) }
