//! A counting allocator: live and peak bytes per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}
thread_local! {
    /// Called at every allocation and release of this thread.
    static POINT: Cell<Option<fn()>> = const { Cell::new(None) };
}
/// Sets what runs at every allocation and release of this thread.
pub fn at_points(f: Option<fn()>) {
    POINT.with(|p| p.set(f));
}
fn point() {
    let _ = POINT.try_with(|p| {
        if let Some(f) = p.take() {
            f();
            p.set(Some(f));
        }
    });
}
/// Whether a block that grows always moves, so that the work does not depend on the heap.
pub static MOVES: AtomicBool = AtomicBool::new(false);
pub struct Counting;
fn add(n: isize) {
    if n > 0 {
        let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v);
                }
            });
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        add(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        add(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        add(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        // the old block may be alive while it is copied
        add(n as isize);
        if MOVES.load(Relaxed) {
            let r = unsafe { System.alloc(Layout::from_size_align_unchecked(n, l.align())) };
            if !r.is_null() {
                unsafe { std::ptr::copy_nonoverlapping(p, r, n.min(l.size())) };
                unsafe { System.dealloc(p, l) };
            }
            add(-(l.size() as isize));
            return r;
        }
        let r = unsafe { System.realloc(p, l, n) };
        add(-(l.size() as isize));
        r
    }
}
/// The most bytes `f` had live at once on this thread beyond what was live before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, (PEAK.with(Cell::get) - base).max(0) as usize)
}
/// The bytes `f` allocated on this thread, released or not.
pub fn total<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let base = TOTAL.with(Cell::get);
    let r = f();
    (r, TOTAL.with(Cell::get) - base)
}
