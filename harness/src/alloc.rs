//! A counting allocator: how far did the heap grow since a mark?
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
pub struct Count;
thread_local!(static CUR: Cell<(i64, i64)> = const { Cell::new((0, 0)) });
/// No operation on the small inputs used here has any business asking for
/// this much at once.
const HUGE: usize = 256 << 20;
fn add(n: i64) { let _ = CUR.try_with(|c| { let (a, m) = c.get(); let a = a + n; c.set((a, m.max(a))); }); }
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > HUGE { crate::watch::huge(l.size()); } add(l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n > HUGE { crate::watch::huge(n); } add(n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
thread_local!(static OURS: Cell<i64> = const { Cell::new(0) });
/// Do something of the harness's own, whose memory does not count.
pub fn ours<T>(f: impl FnOnce() -> T) -> T {
    let (a0, m0) = CUR.with(|c| c.get());
    let r = f();
    CUR.with(|c| { let d = c.get().0 - a0; c.set((a0 + d, m0 + d)); OURS.with(|o| o.set(o.get() + d)); });
    r
}
/// Start measuring; returns the current level.
pub fn mark() -> u64 { OURS.with(|o| o.set(0)); CUR.with(|c| { let (a, _) = c.get(); c.set((a, a)); a.max(0) as u64 }) }
/// The highest level since the mark, relative to it.
pub fn peak_since(level: u64) -> u64 { CUR.with(|c| (c.get().1 - level as i64 - OURS.with(|o| o.get())).max(0) as u64) }
