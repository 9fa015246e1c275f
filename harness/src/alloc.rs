//! Counting global allocator: live and peak bytes per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
/// What this thread may hold in all: the monitors' own needs.
const NO_CAP: isize = 12 << 30;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static CAP: Cell<isize> = const { Cell::new(NO_CAP) };
}

fn add(n: usize) -> bool {
    LIVE.with(|l| {
        let v = l.get() + n as isize;
        if v > CAP.with(|c| c.get()) {
            return false;
        }
        l.set(v);
        PEAK.with(|p| p.set(p.get().max(v)));
        TOTAL.with(|t| t.set(t.get() + n as u64));
        CALLS.with(|t| t.set(t.get() + 1));
        true
    })
}
fn sub(n: usize) {
    LIVE.with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc(l) };
        if p.is_null() {
            sub(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc_zeroed(l) };
        if p.is_null() {
            sub(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both blocks may exist while the contents move
        if !add(n) {
            return std::ptr::null_mut();
        }
        let q = unsafe { System.realloc(p, l, n) };
        sub(if q.is_null() { n } else { l.size() });
        q
    }
}

/// Runs `f`, in which this thread may allocate `n` more bytes; beyond that
/// allocation fails, which ends the process before the machine is exhausted.
pub fn capped<T>(n: u64, f: impl FnOnce() -> T) -> T {
    struct Reset(isize);
    impl Drop for Reset {
        fn drop(&mut self) {
            CAP.with(|c| c.set(self.0));
        }
    }
    let _r = Reset(CAP.with(|c| c.get()));
    CAP.with(|c| c.set((live() + n.min(8 << 30) as isize).min(c.get())));
    f()
}
/// Starts measuring on this thread; returns the live bytes.
pub fn start() -> isize {
    let l = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l));
    l
}
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
pub fn peak() -> isize {
    PEAK.with(|l| l.get())
}
pub fn total() -> u64 {
    TOTAL.with(|l| l.get())
}
pub fn calls() -> u64 {
    CALLS.with(|l| l.get())
}
