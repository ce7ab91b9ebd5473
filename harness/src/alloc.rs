//! The system allocator, with a ledger for every thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Ledger;

#[global_allocator]
static LEDGER: Ledger = Ledger;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}

thread_local! {
    static JITTER: Cell<u64> = const { Cell::new(0) };
}

/// From now on this thread gives way to others now and then, when it asks for memory.
pub fn jitter(seed: u64) {
    JITTER.set(seed);
}

#[inline]
fn delay() {
    let _ = JITTER.try_with(|j| {
        let mut x = j.get();
        if x != 0 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            j.set(x);
            match x % 64 {
                0..3 => std::thread::yield_now(),
                3..8 => (0..x % 500).for_each(|_| std::hint::spin_loop()),
                _ => (),
            }
        }
    });
}

fn grow(by: i64, request: usize) {
    let _ = LIVE.try_with(|l| {
        let live = l.get() + by;
        l.set(live);
        let _ = PEAK.try_with(|p| p.set(p.get().max(live)));
    });
    let _ = LARGEST.try_with(|x| x.set(x.get().max(request as u64)));
    let _ = CALLS.try_with(|x| x.set(x.get() + 1));
}

fn blocks(by: i64) {
    let _ = BLOCKS.try_with(|b| b.set(b.get() + by));
}

unsafe impl GlobalAlloc for Ledger {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        delay();
        grow(l.size() as i64, l.size());
        blocks(1);
        unsafe { System.alloc(l) }
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64, l.size());
        blocks(1);
        steps(l.size() as u64 / 16);
        unsafe { System.alloc_zeroed(l) }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        delay();
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        blocks(-1);
        unsafe { System.dealloc(p, l) }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        grow(new as i64 - l.size() as i64, new);
        // as if it were always copied
        steps(l.size().min(new) as u64 / 16);
        unsafe { System.realloc(p, l, new) }
    }
}

/// What happened on this thread since `start`.
#[derive(Clone, Copy, Debug, Default)]
pub struct Used {
    pub peak: u64,
    /// bytes and blocks that are still allocated
    pub kept: i64,
    pub blocks: i64,
    pub largest: u64,
    pub calls: u64,
    pub steps: u64,
}

pub fn measured<T>(f: impl FnOnce() -> T) -> (T, Used) {
    let (live, blocks, calls) = (LIVE.get(), BLOCKS.get(), CALLS.get());
    PEAK.set(live);
    LARGEST.set(0);
    let s = steps_now();
    let t = f();
    let s = steps_now() - s;
    let u = Used {
        peak: (PEAK.get() - live) as u64,
        kept: LIVE.get() - live,
        blocks: BLOCKS.get() - blocks,
        largest: LARGEST.get(),
        calls: CALLS.get() - calls,
        steps: s,
    };
    (t, u)
}

#[cfg(not(feature = "probe"))]
fn steps(n: u64) {
    crate::steps::add(n);
}

#[cfg(not(feature = "probe"))]
fn steps_now() -> u64 {
    crate::steps::now()
}

#[cfg(feature = "probe")]
fn steps(_: u64) {}

#[cfg(feature = "probe")]
fn steps_now() -> u64 {
    0
}
