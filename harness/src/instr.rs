//! Deterministic instrumentation of the crate under test: an edge callback that counts fuel and
//! records coverage, and an allocator that counts bytes. Both are per thread, so that eight shards
//! can run side by side and each case is still a pure function of its input.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub const MAP: usize = 1 << 13;

thread_local! {
    static FUEL: Cell<i64> = const { Cell::new(i64::MAX) };
    static ALLOC: Cell<i64> = const { Cell::new(i64::MAX) };
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static COV: UnsafeCell<[u8; MAP]> = const { UnsafeCell::new([0; MAP]) };
}

pub const EXIT_FUEL: i32 = 98;
pub const EXIT_ALLOC: i32 = 97;

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let _ = FUEL.try_with(|f| {
        let left = f.get() - 1;
        f.set(left);
        if left < 0 {
            unsafe { libc::_exit(EXIT_FUEL) }
        }
    });
    if TRACK.try_with(|t| t.get()).unwrap_or(false) {
        let _ = COV.try_with(|c| unsafe {
            let cell = &mut (*c.get())[(*guard as usize) & (MAP - 1)];
            *cell = cell.saturating_add(1);
        });
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    use std::sync::atomic::{AtomicU32, Ordering};
    static NEXT: AtomicU32 = AtomicU32::new(1);
    unsafe {
        let mut p = start;
        while p < stop {
            if *p == 0 {
                *p = NEXT.fetch_add(1, Ordering::Relaxed);
            }
            p = p.add(1);
        }
    }
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        charge(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        charge(n.saturating_sub(l.size()));
        System.realloc(p, l, n)
    }
}

fn charge(n: usize) {
    let _ = ALLOC.try_with(|a| {
        let left = a.get().saturating_sub(n as i64);
        a.set(left);
        if left < 0 {
            unsafe { libc::_exit(EXIT_ALLOC) }
        }
    });
}

/// Runs one call into the crate under test with a budget of edges and bytes that is generous for
/// an input of `size` units (characters or tokens), and far below what a runaway call would use.
pub fn budgeted<T>(size: usize, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            FUEL.with(|f| f.set(i64::MAX));
            ALLOC.with(|f| f.set(i64::MAX));
        }
    }
    let _reset = Reset;
    // Overlong numbers decompose into symbols one by one, which takes quadratic time
    let n = size as i64;
    FUEL.with(|f| f.set(20_000_000 + 100_000 * n + 100 * n * n));
    ALLOC.with(|f| f.set((64 << 20) + (256 << 10) * size as i64));
    f()
}

/// Switches coverage tracking of this thread on (with a clean map) or off.
pub fn track(on: bool) {
    TRACK.with(|t| t.set(on));
    if on {
        COV.with(|c| unsafe { (*c.get()).fill(0) });
    }
}

/// The coverage map of this thread, hit counts in buckets.
pub fn coverage(out: &mut Vec<(u16, u8)>) {
    out.clear();
    COV.with(|c| unsafe {
        for (i, n) in (*c.get()).iter().enumerate() {
            if *n > 0 {
                let bucket = match *n {
                    1 => 1,
                    2 => 2,
                    3 => 3,
                    4..=7 => 4,
                    8..=15 => 5,
                    16..=31 => 6,
                    32..=127 => 7,
                    _ => 8,
                };
                out.push((i as u16, bucket));
            }
        }
    });
}
