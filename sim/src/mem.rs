//! What the library holds in memory: a global allocator that remembers for
//! which owner each piece was taken.
//!
//! While a library call runs under `Disk::call`, its allocations belong to the
//! library, but not those made by the simulated storage underneath.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// Room before each piece, of at least its alignment.
fn room(l: &Layout) -> usize {
    l.align().max(16)
}

fn grown(n: i64) {
    let _ = LIVE.try_with(|c| {
        let x = c.get() + n;
        c.set(x);
        let _ = PEAK.try_with(|p| {
            if x > p.get() {
                p.set(x);
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let r = room(&l);
        let Ok(full) = Layout::from_size_align(l.size() + r, r) else {
            return std::ptr::null_mut();
        };
        let p = System.alloc(full);
        if p.is_null() {
            return p;
        }
        let lib = IN_LIB.try_with(|c| c.get()).unwrap_or(false);
        let q = p.add(r);
        *q.sub(1) = lib as u8;
        if lib {
            grown(l.size() as i64);
        }
        q
    }

    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let r = room(&l);
        if *q.sub(1) == 1 {
            grown(-(l.size() as i64));
        }
        System.dealloc(q.sub(r), Layout::from_size_align_unchecked(l.size() + r, r));
    }

    unsafe fn realloc(&self, q: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let r = room(&l);
        let full = Layout::from_size_align_unchecked(l.size() + r, r);
        let p = System.realloc(q.sub(r), full, new + r);
        if p.is_null() {
            return p;
        }
        let q = p.add(r);
        // (the piece keeps its owner)
        if *q.sub(1) == 1 {
            grown(new as i64 - l.size() as i64);
        }
        q
    }
}

/// Restores the owner when it goes, also when a panic passes by.
pub struct Owner(bool);

impl Drop for Owner {
    fn drop(&mut self) {
        IN_LIB.with(|c| c.set(self.0));
    }
}

pub fn library() -> Owner {
    Owner(IN_LIB.with(|c| c.replace(true)))
}

pub fn simulator() -> Owner {
    Owner(IN_LIB.with(|c| c.replace(false)))
}

/// Bytes that the library's calls on this thread have taken and that are still
/// not given back.
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}

/// The most of them since the last call of this function.
pub fn peak() -> i64 {
    PEAK.with(|p| p.replace(live()))
}
