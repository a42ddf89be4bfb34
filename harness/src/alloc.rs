//! Counting allocator: the logical clock of the resource monitors.
//!
//! Per thread it keeps the number of allocations, the bytes ever allocated, the live bytes and their peak. A case that
//! exceeds its (generous) budget is reported from inside the allocator, so that a runaway loop that allocates is
//! caught by what it did and not by a wall-clock deadline.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Counting;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

#[cold]
#[inline(never)]
fn blown() {
    LIMIT.with(|l| l.set(u64::MAX));
    crate::ctx::budget_blown("allocation budget exceeded");
}

#[inline]
fn add(size: usize) {
    let _ = COUNT.try_with(|c| {
        c.set(c.get() + 1);
        BYTES.with(|b| b.set(b.get() + size as u64));
        LIVE.with(|l| {
            let v = l.get() + size as i64;
            l.set(v);
            PEAK.with(|p| {
                if v > p.get() {
                    p.set(v);
                }
            });
        });
        // one allocation weighs at least 64 bytes, so a loop of small allocations is bounded as well
        if BYTES.with(|b| b.get()) + c.get() * 64 > LIMIT.with(|l| l.get()) {
            blown();
        }
    });
}

#[inline]
fn sub(size: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - size as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        add(layout.size());
        System.alloc(layout)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        add(layout.size());
        System.alloc_zeroed(layout)
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        sub(layout.size());
        System.dealloc(p, layout)
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        sub(layout.size());
        add(new_size);
        System.realloc(p, layout, new_size)
    }
}

/// Start a case: zero the counters and arm the budget.
pub fn arm(limit: u64) {
    COUNT.with(|c| c.set(0));
    BYTES.with(|c| c.set(0));
    LIMIT.with(|l| l.set(limit));
}

pub fn disarm() {
    LIMIT.with(|l| l.set(u64::MAX));
}

pub struct Measure {
    count: u64,
    bytes: u64,
    live: i64,
}

pub struct Used {
    pub count: u64,
    pub bytes: u64,
    /// highest live bytes above the level at the start
    pub peak: i64,
    /// live bytes now above the level at the start
    pub live: i64,
}

pub fn measure() -> Measure {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    Measure { count: COUNT.with(|c| c.get()), bytes: BYTES.with(|c| c.get()), live }
}

impl Measure {
    pub fn used(&self) -> Used {
        Used {
            count: COUNT.with(|c| c.get()) - self.count,
            bytes: BYTES.with(|c| c.get()) - self.bytes,
            peak: PEAK.with(|p| p.get()) - self.live,
            live: LIVE.with(|l| l.get()) - self.live,
        }
    }
}
