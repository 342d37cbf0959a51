//! A global allocator that counts, per thread
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

#[derive(Clone, Copy, Default, Debug)]
pub struct Heap {
    /// Bytes asked for in all
    pub bytes: u64,
    /// Number of allocations and reallocations
    pub count: u64,
    /// Bytes held now
    pub live: i64,
    /// Most bytes held since the last `reset_peak`
    pub peak: i64,
}

thread_local! {
    static HEAP: Cell<Heap> = const { Cell::new(Heap { bytes: 0, count: 0, live: 0, peak: 0 }) };
}

thread_local! {
    /// Where else this thread counts what it holds
    static WATCH: Cell<Option<&'static AtomicI64>> = const { Cell::new(None) };
}

/// From here on, to the end of this thread, count what it takes and gives back in `at` as well
pub fn watch(at: &'static AtomicI64) {
    WATCH.with(|w| w.set(Some(at)));
}

fn note(add: usize, sub: usize) {
    if let Ok(Some(at)) = WATCH.try_with(|w| w.get()) {
        at.fetch_add(add as i64 - sub as i64, Ordering::Relaxed);
    }
    let _ = HEAP.try_with(|h| {
        let mut v = h.get();
        if add > 0 {
            v.bytes += add as u64;
            v.count += 1;
        }
        v.live += add as i64 - sub as i64;
        if v.live > v.peak {
            v.peak = v.live;
        }
        h.set(v);
    });
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(0, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n, l.size());
        System.realloc(p, l, n)
    }
}

pub fn heap() -> Heap {
    HEAP.with(|h| h.get())
}

pub fn reset_peak() {
    HEAP.with(|h| {
        let mut v = h.get();
        v.peak = v.live;
        h.set(v);
    })
}
