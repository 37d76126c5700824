//! Process-level seams: hash seeds (getrandom), allocation failure, memory limits.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
    /// countdown of matching allocations until one fails; u64::MAX = never
    static FAIL_IN: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAIL_ON: Cell<bool> = const { Cell::new(false) };
    static FAIL_MIN: Cell<usize> = const { Cell::new(0) };
    static FAIL_EXACT: Cell<usize> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// std's RandomState keys come from here, so the run decides them.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut p = crate::choices::Prng::new(HASH_SEED.with(|s| s.get()));
    for i in 0..len {
        unsafe { *buf.add(i) = p.next() as u8 };
    }
    len as isize
}

pub struct Alloc;

#[inline]
fn refuse(layout: &Layout, size: usize) -> bool {
    if size > LIMIT.with(|l| l.get()) {
        FAILED.with(|f| f.set(f.get() + 1));
        return true;
    }
    if FAIL_ON.with(|f| f.get()) && layout.align() == 1 && size >= FAIL_MIN.with(|m| m.get()) {
        let exact = FAIL_EXACT.with(|m| m.get());
        if exact != 0 && exact != size {
            return false;
        }
        let n = FAIL_IN.with(|f| f.get());
        if n == u64::MAX {
            return false;
        }
        if n == 0 {
            FAIL_IN.with(|f| f.set(u64::MAX));
            FAILED.with(|f| f.set(f.get() + 1));
            return true;
        }
        FAIL_IN.with(|f| f.set(n - 1));
    }
    false
}

fn account(delta: i64, size: usize) {
    LIVE.with(|l| {
        let v = l.get().saturating_add(delta);
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    BIGGEST.with(|b| {
        if size > b.get() {
            b.set(size)
        }
    });
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if refuse(&layout, layout.size()) {
            return std::ptr::null_mut();
        }
        account(layout.size() as i64, layout.size());
        unsafe { System.alloc(layout) }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        account(-(layout.size() as i64), 0);
        unsafe { System.dealloc(ptr, layout) }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if refuse(&layout, layout.size()) {
            return std::ptr::null_mut();
        }
        account(layout.size() as i64, layout.size());
        unsafe { System.alloc_zeroed(layout) }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if new_size > layout.size() && refuse(&layout, new_size) {
            return std::ptr::null_mut();
        }
        account(new_size as i64 - layout.size() as i64, new_size);
        unsafe { System.realloc(ptr, layout, new_size) }
    }
}

#[global_allocator]
static GLOBAL: Alloc = Alloc;

/// Run `f` on a fresh thread whose hash tables are keyed by `seed`.
pub fn with_hash_seed<T: Send>(seed: u64, stack: usize, f: impl FnOnce() -> T + Send) -> std::thread::Result<T> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(s, move || {
                HASH_SEED.with(|h| h.set(seed));
                f()
            })
            .unwrap()
            .join()
    })
}

/// While `f` runs, the `nth` fallible byte-buffer allocation of at least `min` bytes fails
/// (exactly `exact` bytes if non-zero). Returns whether it fired.
pub fn with_alloc_failure<T>(nth: u64, min: usize, exact: usize, f: impl FnOnce() -> T) -> (T, bool) {
    let before = FAILED.with(|x| x.get());
    FAIL_IN.with(|x| x.set(nth));
    FAIL_MIN.with(|x| x.set(min));
    FAIL_EXACT.with(|x| x.set(exact));
    FAIL_ON.with(|x| x.set(true));
    let r = f();
    FAIL_ON.with(|x| x.set(false));
    FAIL_IN.with(|x| x.set(u64::MAX));
    (r, FAILED.with(|x| x.get()) != before)
}

/// Refuse single allocations above `bytes` while `f` runs.
pub fn with_alloc_limit<T>(bytes: usize, f: impl FnOnce() -> T) -> T {
    let old = LIMIT.with(|l| l.replace(bytes));
    let r = f();
    LIMIT.with(|l| l.set(old));
    r
}

pub fn mem_reset() {
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())));
    BIGGEST.with(|b| b.set(0));
}
/// (peak live bytes above the level at mem_reset, biggest single request)
pub fn mem_peak() -> (i64, usize) {
    (PEAK.with(|p| p.get()) - LIVE.with(|l| l.get()), BIGGEST.with(|b| b.get()))
}

/// Code of the harness itself must not consume injected failures.
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    let old = FAIL_ON.with(|x| x.replace(false));
    let r = f();
    FAIL_ON.with(|x| x.set(old));
    r
}
