//! Counting allocator: per-thread live and peak bytes inside a measured call, plus a hard cap so
//! that a runaway request ends the process instead of the machine.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

/// A single request above this fails.
const CAP: usize = 3 << 30;

fn add(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let l = LIVE.with(|x| {
                let l = x.get() + n;
                x.set(l);
                l
            });
            if n > 0 {
                TOTAL.with(|t| t.set(t.get() + n as u64));
                CALLS.with(|t| t.set(t.get() + 1));
                PEAK.with(|p| {
                    if l > p.get() {
                        p.set(l)
                    }
                });
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > CAP {
            return std::ptr::null_mut();
        }
        // Both blocks may exist while the contents move.
        add(n as i64);
        let q = System.realloc(p, l, n);
        add(-(l.size() as i64));
        q
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Used {
    pub peak: u64,
    pub total: u64,
    pub calls: u64,
    /// Still allocated at the end, beyond what was there at the start.
    pub live: i64,
}

/// Run f and report what it allocated on this thread (relative to the start).
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Used) {
    LIVE.with(|x| x.set(0));
    PEAK.with(|x| x.set(0));
    TOTAL.with(|x| x.set(0));
    CALLS.with(|x| x.set(0));
    ON.with(|x| x.set(true));
    let r = f();
    ON.with(|x| x.set(false));
    (
        r,
        Used {
            peak: PEAK.with(|x| x.get()).max(0) as u64,
            total: TOTAL.with(|x| x.get()),
            calls: CALLS.with(|x| x.get()),
            live: LIVE.with(|x| x.get()),
        },
    )
}
