//! Monitoring heap: counts allocations and live bytes per thread, fills fresh
//! and freed memory with junk, and keeps canaries around every block so that a
//! write outside a block is seen when the block is released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Heap;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

/// Blocks whose canaries were damaged when they were released.
pub static DAMAGED: AtomicU64 = AtomicU64::new(0);
/// No workload asks for a block this large: such a request is itself wrong.
pub const CAP: usize = 8 << 30;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Snap {
    pub live: i64,
    pub allocs: u64,
    pub frees: u64,
    pub bytes: u64,
}

pub fn snap() -> Snap {
    Snap {
        live: LIVE.with(|c| c.get()),
        allocs: ALLOCS.with(|c| c.get()),
        frees: FREES.with(|c| c.get()),
        bytes: BYTES.with(|c| c.get()),
    }
}
/// Restart peak tracking from the current live size and return that size.
pub fn reset_peak() -> i64 {
    let l = LIVE.with(|c| c.get());
    PEAK.with(|c| c.set(l));
    l
}
pub fn peak() -> i64 {
    PEAK.with(|c| c.get())
}

fn on_alloc(n: usize) {
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n as i64;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
}
fn on_free(n: usize) {
    let _ = LIVE.try_with(|c| c.set(c.get() - n as i64));
    let _ = FREES.try_with(|c| c.set(c.get() + 1));
}

#[cfg(not(any(miri, feature = "plainheap")))]
mod guarded {
    use super::*;
    const PRE: u8 = 0xC7;
    const POST: u8 = 0xC9;
    const REAR: usize = 64;
    fn front(l: &Layout) -> usize {
        l.align().max(64)
    }
    fn outer(l: &Layout) -> Option<Layout> {
        let size = l.size().checked_add(front(l))?.checked_add(REAR)?;
        Layout::from_size_align(size, l.align()).ok()
    }
    unsafe fn dress(base: *mut u8, l: &Layout) -> *mut u8 {
        let f = front(l);
        std::ptr::write_bytes(base, PRE, f);
        std::ptr::write_bytes(base.add(f + l.size()), POST, REAR);
        base.add(f)
    }
    unsafe impl GlobalAlloc for Heap {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if l.size() > CAP {
                return std::ptr::null_mut();
            }
            let o = match outer(&l) {
                Some(o) => o,
                None => return std::ptr::null_mut(),
            };
            let b = System.alloc(o);
            if b.is_null() {
                return b;
            }
            on_alloc(l.size());
            let p = dress(b, &l);
            std::ptr::write_bytes(p, 0xA5, l.size());
            p
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            if l.size() > CAP {
                return std::ptr::null_mut();
            }
            let o = match outer(&l) {
                Some(o) => o,
                None => return std::ptr::null_mut(),
            };
            let b = System.alloc_zeroed(o);
            if b.is_null() {
                return b;
            }
            on_alloc(l.size());
            dress(b, &l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let f = front(&l);
            let base = p.sub(f);
            let pre = std::slice::from_raw_parts(base, f);
            let post = std::slice::from_raw_parts(p.add(l.size()), REAR);
            if pre.iter().any(|&x| x != PRE) || post.iter().any(|&x| x != POST) {
                DAMAGED.fetch_add(1, Ordering::SeqCst);
            }
            on_free(l.size());
            // junk in freed memory; wipe the canaries so that a second release is seen
            std::ptr::write_bytes(base, 0x5A, f + l.size() + REAR);
            System.dealloc(base, outer(&l).unwrap());
        }
    }
}

#[cfg(any(miri, feature = "plainheap"))]
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP {
            return std::ptr::null_mut();
        }
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP {
            return std::ptr::null_mut();
        }
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
}

#[global_allocator]
static GLOBAL: Heap = Heap;
