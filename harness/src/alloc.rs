//! Counting allocator: while switched on, the live and peak heap bytes of the whole process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::Relaxed, Ordering::SeqCst};

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);

fn add(n: isize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if n > 0 {
        PEAK.fetch_max(l, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ON.load(Relaxed) && !p.is_null() {
            add(l.size() as isize);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if ON.load(Relaxed) && !p.is_null() {
            add(l.size() as isize);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        if ON.load(Relaxed) {
            add(-(l.size() as isize));
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if ON.load(Relaxed) && !q.is_null() {
            // both blocks exist for a moment unless the block could be extended
            add(n as isize);
            add(-(l.size() as isize));
        }
        q
    }
}

pub fn start() {
    LIVE.store(0, SeqCst);
    PEAK.store(0, SeqCst);
    ON.store(true, SeqCst);
}
pub fn live() -> isize {
    LIVE.load(SeqCst)
}
pub fn peak() -> isize {
    PEAK.load(SeqCst)
}
pub fn stop() {
    ON.store(false, SeqCst);
}
