//! Shared memory between the driver and the forked run.
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub const OUT_CAP: usize = 8 << 20;
pub const EDGE_CAP: usize = 1 << 20;

#[repr(C)]
pub struct Shm {
    pub status: AtomicU32, // 0 running, 1 outcome written
    pub out_len: AtomicU32,
    pub steps: AtomicU64,
    pub phase_len: AtomicU32,
    pub note: AtomicU32, // 1 deadlock, 2 step cap, 3 huge allocation, 4 too many threads
    pub phase: [u8; 256],
    pub out: [u8; OUT_CAP],
}

pub unsafe fn map_shared(len: usize) -> *mut u8 {
    let p = libc::mmap(
        std::ptr::null_mut(),
        len,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    assert!(p != libc::MAP_FAILED, "mmap failed");
    p as *mut u8
}

pub static mut SHM: *mut Shm = std::ptr::null_mut();
/// One byte per instrumented edge, shared by all runs of all workers.
pub static mut EDGES: *mut u8 = std::ptr::null_mut();

pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}

pub fn set_phase(s: &str) {
    let h = shm();
    let b = s.as_bytes();
    let n = b.len().min(256);
    h.phase[..n].copy_from_slice(&b[..n]);
    h.phase_len.store(n as u32, Ordering::Relaxed);
}

pub fn phase() -> String {
    let h = shm();
    let n = h.phase_len.load(Ordering::Relaxed) as usize;
    String::from_utf8_lossy(&h.phase[..n.min(256)]).into_owned()
}
