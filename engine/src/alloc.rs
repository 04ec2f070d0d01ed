//! A counting allocator: the deterministic oracle for "the call produces a bounded amount of output".
//!
//! While a case runs, exceeding the live-bytes, the cumulative-bytes or the number-of-allocations budget ends the
//! process with `RUNAWAY_EXIT`. All budgets are orders of magnitude above what any generated case needs, and do not depend on time or load.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub const RUNAWAY_EXIT: i32 = 86;
pub const LIVE_BUDGET: i64 = 1 << 30;
pub const TOTAL_BUDGET: u64 = 1 << 35;
pub const COUNT_BUDGET: u64 = 20_000_000;

static ARMED: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);

pub struct Counting;

fn account(size: usize) {
    let live = LIVE.fetch_add(size as i64, Relaxed).wrapping_add(size as i64);
    let total = TOTAL.fetch_add(size as u64, Relaxed).wrapping_add(size as u64);
    let count = COUNT.fetch_add(1, Relaxed).wrapping_add(1);
    // LIVE may be below zero if memory from before arming is freed
    if ARMED.load(Relaxed) && (live > LIVE_BUDGET || total > TOTAL_BUDGET || count > COUNT_BUDGET) {
        unsafe { libc::_exit(RUNAWAY_EXIT) }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        account(layout.size());
        System.alloc(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        account(layout.size());
        System.alloc_zeroed(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        LIVE.fetch_sub(layout.size() as i64, Relaxed);
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        account(new_size);
        LIVE.fetch_sub(layout.size() as i64, Relaxed);
        System.realloc(ptr, layout, new_size)
    }
}

pub fn arm() {
    LIVE.store(0, Relaxed);
    TOTAL.store(0, Relaxed);
    COUNT.store(0, Relaxed);
    ARMED.store(true, Relaxed);
}

pub fn disarm() {
    ARMED.store(false, Relaxed);
}
