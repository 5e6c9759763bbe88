//! Global allocator with a size limit: a request no honest run makes (a corrupted
//! length prefix, for instance) ends the run as "discarded" instead of taking the
//! machine's memory.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::Ordering,
};

pub struct Limited;
const LIMIT: usize = 1 << 30;

unsafe impl GlobalAlloc for Limited {
    #[inline(never)]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        System.alloc(l)
    }
    #[inline(never)]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        System.alloc_zeroed(l)
    }
    #[inline(never)]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        guard(n);
        System.realloc(p, l, n)
    }
    #[inline(never)]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[inline]
fn guard(n: usize) {
    if n > LIMIT && crate::sched::active() {
        crate::shm::shm().note.store(3, Ordering::SeqCst);
        unsafe { libc::_exit(77) }
    }
}
