//! A global allocator that remembers the size of every block, so that a free with a wrong size
//! and a leak are seen.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

pub struct Checked;
pub static MISMATCH: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicI64 = AtomicI64::new(0);

fn wide(l: Layout) -> Option<Layout> {
    if l.align() > 16 {
        return None;
    }
    Layout::from_size_align(l.size().checked_add(16)?, 16).ok()
}
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            return System.alloc(l);
        }
        let Some(w) = wide(l) else { return std::ptr::null_mut() };
        let p = System.alloc(w);
        if p.is_null() {
            return p;
        }
        *(p as *mut usize) = l.size();
        LIVE.fetch_add(1, Relaxed);
        p.add(16)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 {
            return System.dealloc(p, l);
        }
        let q = p.sub(16);
        let size = *(q as *mut usize);
        if size != l.size() {
            MISMATCH.store(true, Relaxed);
        }
        LIVE.fetch_sub(1, Relaxed);
        System.dealloc(q, Layout::from_size_align_unchecked(size + 16, 16));
    }
}
