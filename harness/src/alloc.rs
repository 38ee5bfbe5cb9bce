//! Instrumented global allocator: per-thread live bytes, allocation counts, and a budget.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU16, Ordering};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<i64> = const { Cell::new(i64::MAX) };
}

pub struct Counting;

/// What fresh memory is filled with (256: left as it comes). Reads of memory nobody wrote then show in every oracle.
static JUNK: AtomicU16 = AtomicU16::new(256);
pub fn set_junk(byte: u16) {
    if !cfg!(miri) {
        JUNK.store(byte, Ordering::Relaxed)
    }
}
/// Fills the ends of a fresh block (all of it, unless it is huge).
#[inline]
unsafe fn fill(p: *mut u8, n: usize) {
    let j = JUNK.load(Ordering::Relaxed);
    if j > 255 || p.is_null() {
        return;
    }
    const LIM: usize = 4 << 20;
    if n <= LIM {
        std::ptr::write_bytes(p, j as u8, n);
    } else {
        std::ptr::write_bytes(p, j as u8, LIM / 2);
        std::ptr::write_bytes(p.add(n - LIM / 2), j as u8, LIM / 2);
    }
}

/// Memory must be given back (or resized) with the size and alignment it was asked for: both are noted in front of it.
/// (Miri and AddressSanitizer have their own ways; nothing is put in front of the memory there.)
const NOTED: bool = cfg!(not(any(miri, mon_san)));
#[inline]
fn head(l: Layout) -> usize {
    if NOTED {
        l.align().max(16)
    } else {
        0
    }
}
#[inline]
fn outer(l: Layout) -> Option<Layout> {
    Layout::from_size_align(l.size().checked_add(head(l))?, l.align().max(if NOTED { 16 } else { 1 })).ok()
}
#[inline]
unsafe fn note(p: *mut u8, l: Layout) -> *mut u8 {
    if !NOTED || p.is_null() {
        return p;
    }
    let q = p.add(head(l));
    (q as *mut usize).sub(1).write(l.size() ^ MARK);
    (q as *mut usize).sub(2).write(l.align());
    q
}
const MARK: usize = 0x5a5a_1234;
#[inline]
unsafe fn check_size(p: *mut u8, l: Layout) {
    if !NOTED {
        return;
    }
    let q = p as *const usize;
    if q.sub(1).read() ^ MARK != l.size() || q.sub(2).read() != l.align() {
        let _ = BUDGET.try_with(|b| b.set(i64::MAX));
        crate::run::raw_stderr(b"\nMON-UB memory given back with another size than it was allocated with, in ");
        crate::run::raw_case_id();
        crate::run::raw_stderr(b"\n");
        crate::run::quit(97);
    }
}

#[inline]
fn charge(n: i64) -> bool {
    LIVE.try_with(|l| {
        let now = l.get() + n;
        if n > 0 && now > BUDGET.try_with(|b| b.get()).unwrap_or(i64::MAX) {
            return false;
        }
        l.set(now);
        true
    })
    .unwrap_or(true)
}

#[inline]
fn count() {
    let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
}

fn over_budget() {
    // No allocation here: the process aborts through handle_alloc_error right after.
    let _ = BUDGET.try_with(|b| b.set(i64::MAX));
    crate::run::raw_stderr(b"\nMON-ALLOC-BUDGET ");
    crate::run::raw_case_id();
    crate::run::raw_stderr(b"\n");
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !charge(l.size() as i64) {
            over_budget();
            return std::ptr::null_mut();
        }
        count();
        let p = match outer(l) {
            Some(o) => note(System.alloc(o), l),
            None => std::ptr::null_mut(),
        };
        fill(p, l.size());
        if p.is_null() {
            charge(-(l.size() as i64));
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !charge(l.size() as i64) {
            over_budget();
            return std::ptr::null_mut();
        }
        count();
        let p = match outer(l) {
            Some(o) => note(System.alloc_zeroed(o), l),
            None => std::ptr::null_mut(),
        };
        if p.is_null() {
            charge(-(l.size() as i64));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        check_size(p, l);
        charge(-(l.size() as i64));
        // what is freed must not be used any more
        fill(p, l.size().min(4096));
        if NOTED {
            System.dealloc(p.sub(head(l)), outer(l).unwrap_unchecked())
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check_size(p, l);
        let d = n as i64 - l.size() as i64;
        if !charge(d) {
            over_budget();
            return std::ptr::null_mut();
        }
        count();
        let new = Layout::from_size_align_unchecked(n, l.align());
        let q = match (outer(l), outer(new)) {
            (Some(o), Some(w)) => note(System.realloc(p.sub(head(l)), o, w.size()), new),
            _ => std::ptr::null_mut(),
        };
        if q.is_null() {
            charge(-d);
        } else if n > l.size() {
            fill(q.add(l.size()), n - l.size());
        }
        q
    }
}

/// Bytes this thread has allocated and not freed.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// Number of allocation calls (alloc, realloc) made by this thread.
pub fn allocs() -> u64 {
    ALLOCS.with(|a| a.get())
}
/// Limit on this thread's live bytes, relative to now.
pub fn set_budget(extra: i64) {
    let l = live();
    BUDGET.with(|b| b.set(l.saturating_add(extra)));
}
