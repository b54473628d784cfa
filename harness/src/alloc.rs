//! Counts what each thread allocates and frees.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}
pub struct Counting;
#[inline]
fn add(n: i64) {
    let live = LIVE.try_with(|l| {
        l.set(l.get() + n);
        l.get()
    });
    if live.unwrap_or(0) > 3 << 29 {
        // runaway allocation: end like any other call that does not terminate
        let m = b"HANG memory bound exceeded\n";
        unsafe {
            libc::write(1, m.as_ptr() as *const _, m.len());
            libc::_exit(77);
        }
    }
    let _ = BLOCKS.try_with(|l| l.set(l.get() + n.signum()));
    if n > 0 {
        let _ = TOTAL.try_with(|l| l.set(l.get() + n as u64));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64);
        add(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}
/// bytes this thread has allocated and not freed, and number of such blocks
pub fn live() -> (i64, i64) {
    (LIVE.with(|l| l.get()), BLOCKS.with(|l| l.get()))
}
pub fn total() -> u64 {
    TOTAL.with(|l| l.get())
}
