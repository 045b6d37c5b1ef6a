//! The simulated global allocator: seam `GlobalAlloc`.
//!
//! Requests made while the system under test runs (`sut`) go into an exact ledger and may be refused according to the
//! fault plan; requests of the harness itself pass through.  Freed ledger blocks are poisoned and quarantined.

use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum St {
    Empty,
    Live,
    Freed,
}
#[derive(Clone, Copy)]
pub struct Blk {
    pub ptr: usize,
    pub size: usize,
    pub align: usize,
    pub st: St,
    pub id: u32,
}
const N: usize = 1 << 14;

pub struct Ledger {
    pub in_sut: bool,
    pub blocks: [Blk; N],
    pub used: usize,
    pub live: usize,
    pub live_bytes: usize,
    pub requests: u64,
    // fault plan
    pub fail_at: u64,      // fail the n-th request from now (1-based), 0 = off
    pub fail_grow: bool,   // fail reallocs
    pub fail_from: usize,  // fail requests of at least this size (0 = off)
    pub deny_all: bool,
    pub injected: u64,
    // first ledger error
    pub error: Option<&'static str>,
    pub error_ptr: [usize; 4],
    // hook called on every SUT request (alloc stall)
    pub on_request: Option<fn()>,
    next_id: u32,
}
pub static mut L: Ledger = Ledger {
    in_sut: false,
    blocks: [Blk { ptr: 0, size: 0, align: 0, st: St::Empty, id: 0 }; N],
    used: 0,
    live: 0,
    live_bytes: 0,
    requests: 0,
    fail_at: 0,
    fail_grow: false,
    fail_from: 0,
    deny_all: false,
    injected: 0,
    error: None,
    error_ptr: [0; 4],
    on_request: None,
    next_id: 0,
};
#[inline(always)]
pub fn l() -> &'static mut Ledger {
    unsafe { &mut *std::ptr::addr_of_mut!(L) }
}

fn slot(ptr: usize) -> Option<usize> {
    let mut i = (ptr >> 4).wrapping_mul(0x9e37_79b9) & (N - 1);
    let l = l();
    loop {
        let b = &l.blocks[i];
        if b.st == St::Empty {
            return None;
        }
        if b.ptr == ptr {
            return Some(i);
        }
        i = (i + 1) & (N - 1);
    }
}
fn insert(ptr: usize, size: usize, align: usize) {
    let l = l();
    let mut i = (ptr >> 4).wrapping_mul(0x9e37_79b9) & (N - 1);
    while l.blocks[i].st != St::Empty && l.blocks[i].ptr != ptr {
        i = (i + 1) & (N - 1);
    }
    l.next_id += 1;
    if l.blocks[i].st == St::Empty {
        l.used += 1;
        assert!(l.used < N - 16, "ledger full");
    }
    l.blocks[i] = Blk { ptr, size, align, st: St::Live, id: l.next_id };
    l.live += 1;
    l.live_bytes += size;
}

fn refuse(size: usize, grow: bool) -> bool {
    let l = l();
    l.requests += 1;
    if l.deny_all {
        l.injected += 1;
        return true;
    }
    if l.fail_at > 0 {
        l.fail_at -= 1;
        if l.fail_at == 0 {
            l.injected += 1;
            return true;
        }
    }
    if (grow && l.fail_grow) || (l.fail_from > 0 && size >= l.fail_from) {
        l.injected += 1;
        return true;
    }
    false
}

fn release(ptr: *mut u8, layout: Layout) -> bool {
    // true: handled (ledger block)
    let l = l();
    if l.used == 0 {
        return false;
    }
    match slot(ptr as usize) {
        None => {
            if l.in_sut && l.error.is_none() {
                // memory the system under test never obtained in a tracked call: may be a harness-owned object
                // (e.g. a Vec returned by a callback); nothing to account for.
            }
            false
        }
        Some(i) => {
            let b = &mut l.blocks[i];
            if b.st == St::Freed {
                if l.error.is_none() {
                    l.error = Some("double-free");
                    l.error_ptr = [b.id as usize, b.size, layout.size(), 0];
                }
                return true;
            }
            if (b.size != layout.size() || b.align != layout.align()) && l.error.is_none() {
                l.error = Some("layout-mismatch");
                l.error_ptr = [b.size, b.align, layout.size(), layout.align()];
            }
            b.st = St::Freed;
            l.live -= 1;
            l.live_bytes -= b.size;
            unsafe { std::ptr::write_bytes(ptr, 0xdd, b.size) };
            true
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let l = l();
        if !l.in_sut {
            return System.alloc(layout);
        }
        if let Some(f) = l.on_request {
            l.in_sut = false;
            f();
            self::l().in_sut = true;
        }
        if refuse(layout.size(), false) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(layout);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0xaa, layout.size());
            insert(p as usize, layout.size(), layout.align());
        }
        p
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if !release(ptr, layout) {
            System.dealloc(ptr, layout)
        }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let l = l();
        if !l.in_sut {
            return System.alloc_zeroed(layout);
        }
        let p = self.alloc(layout);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, layout.size());
        }
        p
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        let l = l();
        let known = l.used != 0 && slot(ptr as usize).is_some();
        if !l.in_sut && !known {
            return System.realloc(ptr, layout, new);
        }
        if let (true, Some(f)) = (l.in_sut, l.on_request) {
            l.in_sut = false;
            f();
            self::l().in_sut = true;
        }
        if l.in_sut && refuse(new, new > layout.size()) {
            return std::ptr::null_mut();
        }
        let nl = Layout::from_size_align_unchecked(new, layout.align());
        let p = System.alloc(nl);
        if p.is_null() {
            return p;
        }
        std::ptr::write_bytes(p, 0xaa, new);
        std::ptr::copy_nonoverlapping(ptr, p, layout.size().min(new));
        if l.in_sut {
            insert(p as usize, new, layout.align());
        }
        if !release(ptr, layout) {
            System.dealloc(ptr, layout);
        }
        p
    }
}

/// Run a piece of the system under test: its allocations are ledgered and subject to the fault plan.
#[inline]
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            l().in_sut = self.0;
        }
    }
    let _g = G(std::mem::replace(&mut l().in_sut, true));
    f()
}
/// Run harness code from within a callback made by the system under test.
#[inline]
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            l().in_sut = self.0;
        }
    }
    let _g = G(std::mem::replace(&mut l().in_sut, false));
    f()
}

pub enum Outcome<R> {
    Done(R),
    Oom,
    Panicked(String),
}
pub struct OomPanic;
pub struct SimPanic; // panics raised by simulated callbacks

/// Run SUT code, catching panics.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Outcome<R> {
    let before = l().in_sut;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sut(f)));
    l().in_sut = before;
    match r {
        Ok(r) => Outcome::Done(r),
        Err(e) => {
            if e.is::<OomPanic>() {
                return Outcome::Oom;
            }
            if e.is::<SimPanic>() {
                return Outcome::Panicked("SimPanic".into());
            }
            Outcome::Panicked(payload(&*e))
        }
    }
}
pub fn payload(e: &(dyn std::any::Any + Send)) -> String {
    let loc = unsafe { (*std::ptr::addr_of!(crate::LAST_PANIC)).clone() }.unwrap_or_default();
    if let Some(s) = e.downcast_ref::<&str>() {
        format!("{s} at {loc}")
    } else if let Some(s) = e.downcast_ref::<String>() {
        format!("{s} at {loc}")
    } else {
        format!("panic at {loc}")
    }
}

pub fn clear_plan() {
    let l = l();
    l.fail_at = 0;
    l.fail_grow = false;
    l.fail_from = 0;
    l.deny_all = false;
}
