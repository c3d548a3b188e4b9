//! Allocator that makes memory errors visible: fresh memory is filled with a
//! pattern that is a huge index and a NaN-like float, freed memory with
//! another, and a canary follows every block (checked when it is freed).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Poison;
const TAIL: usize = 16;
const CANARY: u8 = 0xC7;
const FRESH: u8 = 0xFE; // 0xFEFE.. : f64 -5e303, f32 -1.7e38, u64 huge
const FREED: u8 = 0xF9;

/// Live heap, for the leak checks.
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static BYTES: AtomicI64 = AtomicI64::new(0);

fn padded(l: Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + TAIL, l.align()) }
}

// Large blocks are only poisoned at their ends, to keep big builds fast.
const FULL: usize = 1 << 16;

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(padded(l));
        if !p.is_null() {
            BLOCKS.fetch_add(1, Relaxed);
            BYTES.fetch_add(l.size() as i64, Relaxed);
            p.write_bytes(FRESH, l.size().min(FULL));
            if l.size() > FULL {
                p.add(l.size() - FULL).write_bytes(FRESH, FULL);
            }
            p.add(l.size()).write_bytes(CANARY, TAIL);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(padded(l));
        if !p.is_null() {
            BLOCKS.fetch_add(1, Relaxed);
            BYTES.fetch_add(l.size() as i64, Relaxed);
            p.add(l.size()).write_bytes(CANARY, TAIL);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..TAIL {
            if *p.add(l.size() + i) != CANARY {
                extern "C" {
                    fn write(fd: i32, b: *const core::ffi::c_void, n: usize) -> isize;
                    fn abort() -> !;
                }
                let m = b"POISON-ALLOC: write past the end of a heap block\n";
                write(2, m.as_ptr() as *const _, m.len());
                abort();
            }
        }
        BLOCKS.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        p.write_bytes(FREED, l.size().min(FULL));
        System.dealloc(p, padded(l));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
