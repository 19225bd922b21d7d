//! The allocator of the harness: fresh memory has a chosen content, every block lies between two guarded strips,
//! a block is overwritten before it is given back, and an allocation can be made to fail.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Heap;

const PAD: usize = 32;
const GUARD: u64 = 0xc96c_5795_d787_0f42;
/// blocks are filled up to this length
const FILL_MAX: usize = 4 << 20;

thread_local! {
    /// content of fresh memory
    static FILL: Cell<u64> = const { Cell::new(0x5aa5_c33c_0ff0_9669) };
    /// the content changes from word to word
    static VARY: Cell<bool> = const { Cell::new(false) };
    static ON: Cell<bool> = const { Cell::new(false) };
    /// number of allocations since the last arm()
    static COUNT: Cell<u64> = const { Cell::new(0) };
    /// which of them fails; 0: none
    static FAIL: Cell<u64> = const { Cell::new(0) };
    /// those after it fail, too
    static EVER: Cell<bool> = const { Cell::new(false) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    static DAMAGE: Cell<u64> = const { Cell::new(0) };
}

pub fn set_fill(word: u64, vary: bool) {
    FILL.with(|c| c.set(word));
    VARY.with(|c| c.set(vary));
}

pub fn reset_fill() {
    set_fill(0x5aa5_c33c_0ff0_9669, false);
}

/// Starts counting; allocation number `k` of this thread fails (0: none does), and all later ones if `ever` is set.
pub fn arm(k: u64, ever: bool) {
    COUNT.with(|c| c.set(0));
    FAILED.with(|c| c.set(0));
    EVER.with(|c| c.set(ever));
    FAIL.with(|c| c.set(k));
    ON.with(|c| c.set(true));
}

/// No allocation fails from here on; returns the number of allocations and of failed ones.
pub fn disarm() -> (u64, u64) {
    let _ = ON.try_with(|c| c.set(false));
    (COUNT.try_with(|c| c.get()).unwrap_or(0), FAILED.try_with(|c| c.get()).unwrap_or(0))
}

/// Number of blocks found with a damaged strip since the last call.
pub fn take_damage() -> u64 {
    DAMAGE.with(|c| c.replace(0))
}

fn refuse() -> bool {
    if !ON.try_with(|c| c.get()).unwrap_or(false) {
        return false;
    }
    let n = COUNT.try_with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let (n, k) = match (n, FAIL.try_with(|c| c.get())) {
        (Ok(n), Ok(k)) => (n, k),
        _ => return false,
    };
    if k == 0 || n < k || (n > k && !EVER.with(|c| c.get())) {
        return false;
    }
    FAILED.with(|c| c.set(c.get() + 1));
    true
}

fn front(l: &Layout) -> usize {
    l.align().max(PAD)
}

fn outer(l: &Layout) -> Option<Layout> {
    let sz = l.size().checked_add(front(l) + PAD)?;
    Layout::from_size_align(sz, l.align()).ok()
}

unsafe fn fill(p: *mut u8, n: usize) {
    let mut w = FILL.try_with(|c| c.get()).unwrap_or(0);
    let vary = VARY.try_with(|c| c.get()).unwrap_or(false);
    let n = n.min(FILL_MAX);
    let mut i = 0;
    while i + 8 <= n {
        (p.add(i) as *mut u64).write_unaligned(w);
        if vary {
            w = w.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29).wrapping_add(0x1234_5677);
        }
        i += 8;
    }
    while i < n {
        p.add(i).write(w as u8);
        i += 1;
    }
    if vary {
        let _ = FILL.try_with(|c| c.set(w));
    }
}

unsafe fn guard(p: *mut u8, n: usize) {
    for i in 0..n / 8 {
        (p.add(8 * i) as *mut u64).write_unaligned(GUARD);
    }
}

unsafe fn intact(p: *const u8, n: usize) -> bool {
    (0..n / 8).all(|i| (p.add(8 * i) as *const u64).read_unaligned() == GUARD)
}

unsafe fn take(l: Layout, zero: bool) -> *mut u8 {
    let Some(o) = outer(&l) else { return std::ptr::null_mut() };
    let p = if zero { System.alloc_zeroed(o) } else { System.alloc(o) };
    if p.is_null() {
        return p;
    }
    guard(p, PAD);
    let body = p.add(front(&l));
    guard(body.sub(PAD), PAD);
    guard(body.add(l.size()), PAD);
    if !zero {
        fill(body, l.size());
    }
    body
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        take(l, false)
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        take(l, true)
    }

    unsafe fn dealloc(&self, body: *mut u8, l: Layout) {
        if !intact(body.sub(PAD), PAD) || !intact(body.add(l.size()), PAD) {
            let _ = DAMAGE.try_with(|c| c.set(c.get() + 1));
        }
        fill(body, l.size().min(4096));
        let o = outer(&l).unwrap();
        System.dealloc(body.sub(front(&l)), o)
    }

    /// always moves
    unsafe fn realloc(&self, body: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = match Layout::from_size_align(n, l.align()) {
            Ok(x) => x,
            Err(_) => return std::ptr::null_mut(),
        };
        if refuse() {
            return std::ptr::null_mut();
        }
        let q = take(nl, false);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(body, q, l.size().min(n));
            self.dealloc(body, l);
        }
        q
    }
}
