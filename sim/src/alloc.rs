//! The allocator seam: counts, tracks and fails heap allocations of the code under test.
//!
//! Allocations made while the current thread is in "tracked" mode carry the epoch of the
//! run in a header, so that the number of live tracked allocations of a run is known
//! wherever they are freed.  Harness code runs untracked.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

pub struct SimAlloc;

thread_local! {
    static TRACKED: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FAIL_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAILED: Cell<bool> = const { Cell::new(false) };
}

static EPOCH: AtomicU64 = AtomicU64::new(1);
static LIVE: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static PEAK_BYTES: AtomicI64 = AtomicI64::new(0);
static TOTAL_BYTES: AtomicI64 = AtomicI64::new(0);
const MEMORY_CAP: i64 = 1 << 30;

fn header(layout: Layout) -> usize {
    layout.align().max(16)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let tracked = TRACKED.try_with(|x| x.get()).unwrap_or(false);
        if tracked {
            let n = COUNT.with(|c| {
                let n = c.get();
                c.set(n + 1);
                n
            });
            if FAIL_AT.with(|f| f.get()) == n {
                FAIL_AT.with(|f| f.set(u64::MAX));
                FAILED.with(|f| f.set(true));
                return std::ptr::null_mut();
            }
        }
        let h = header(layout);
        let full = match Layout::from_size_align(layout.size() + h, h) {
            Ok(full) => full,
            Err(_) => return std::ptr::null_mut(),
        };
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let p = base.add(h);
        let tag = if tracked {
            LIVE.fetch_add(1, Ordering::Relaxed);
            let size = layout.size() as i64;
            let live = LIVE_BYTES.fetch_add(size, Ordering::Relaxed) + size;
            PEAK_BYTES.fetch_max(live, Ordering::Relaxed);
            TOTAL_BYTES.fetch_add(size, Ordering::Relaxed);
            if live > MEMORY_CAP {
                // runaway allocation: report through the supervisor
                TRACKED.with(|x| x.set(false));
                eprintln!("SIM-ABORT memory runaway");
                std::process::abort();
            }
            EPOCH.load(Ordering::Relaxed)
        } else {
            0
        };
        (p.sub(8) as *mut u64).write(tag);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let h = header(layout);
        let tag = (p.sub(8) as *mut u64).read();
        if tag != 0 && tag == EPOCH.load(Ordering::Relaxed) {
            LIVE.fetch_sub(1, Ordering::Relaxed);
            LIVE_BYTES.fetch_sub(layout.size() as i64, Ordering::Relaxed);
        }
        System.dealloc(
            p.sub(h),
            Layout::from_size_align_unchecked(layout.size() + h, h),
        );
    }
}

pub fn new_epoch() {
    EPOCH.fetch_add(1, Ordering::Relaxed);
    LIVE.store(0, Ordering::Relaxed);
    LIVE_BYTES.store(0, Ordering::Relaxed);
}

/// Starts to look for the peak, returns what is live.
pub fn mark() -> i64 {
    let live = LIVE_BYTES.load(Ordering::Relaxed);
    PEAK_BYTES.store(live, Ordering::Relaxed);
    TOTAL_BYTES.store(0, Ordering::Relaxed);
    live
}

/// The peak, the sum of all that was asked for, and what is live.
pub fn since_mark() -> (i64, i64, i64) {
    (
        PEAK_BYTES.load(Ordering::Relaxed),
        TOTAL_BYTES.load(Ordering::Relaxed),
        LIVE_BYTES.load(Ordering::Relaxed),
    )
}

pub fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}

/// Resets the per thread allocation counter.
pub fn reset_count() {
    COUNT.with(|c| c.set(0));
    FAIL_AT.with(|f| f.set(u64::MAX));
    FAILED.with(|f| f.set(false));
}

pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}

/// Lets the nth tracked allocation (counted from the last reset) of this thread fail.
pub fn fail_at(n: u64) {
    FAIL_AT.with(|f| f.set(n));
}

pub fn failed() -> bool {
    FAILED.with(|f| f.get())
}

pub struct ModeGuard(bool);

impl Drop for ModeGuard {
    fn drop(&mut self) {
        let _ = TRACKED.try_with(|x| x.set(self.0));
    }
}

/// Code under test: allocations are tracked until the guard is dropped.
pub fn tracked() -> ModeGuard {
    ModeGuard(TRACKED.with(|x| x.replace(true)))
}

/// Harness code: allocations are not tracked until the guard is dropped.
pub fn untracked() -> ModeGuard {
    ModeGuard(TRACKED.try_with(|x| x.replace(false)).unwrap_or(false))
}

pub struct AllocFailure;

pub fn install_error_hook() {
    std::alloc::set_alloc_error_hook(|_| {
        let _g = untracked();
        std::panic::resume_unwind(Box::new(AllocFailure));
    });
}
