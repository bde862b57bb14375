//! Allocator that can put every allocation right before an inaccessible page and make freed memory
//! inaccessible, so that out-of-bounds and use-after-free accesses end the execution with a signal.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed},
};

const ARENA: usize = 64 << 30;
static ON: AtomicBool = AtomicBool::new(false);
static LO: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);

pub struct Guard;
fn pages(n: usize) -> usize {
    (n + 4095) & !4095
}
unsafe fn protect(a: usize, n: usize, p: i32) {
    libc::syscall(libc::SYS_mprotect, a, n, p);
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) || l.size() == 0 || l.align() > 4096 {
            return System.alloc(l);
        }
        // more than any message needs
        if l.size() > 64 << 20 {
            return std::ptr::null_mut();
        }
        let n = pages(l.size());
        let a = NEXT.fetch_add(n + 4096, Relaxed);
        if a + n + 4096 > LO.load(Relaxed) + ARENA {
            return std::ptr::null_mut();
        }
        protect(a, n, libc::PROT_READ | libc::PROT_WRITE);
        LIVE.fetch_add(1, Relaxed);
        let p = (a + n - l.size()) & !(l.align() - 1);
        // fresh memory is not zero: uninitialised bytes that reach anybody are visible
        std::ptr::write_bytes(a as *mut u8, 0xd7, n);
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let lo = LO.load(Relaxed);
        if lo == 0 || (p as usize) < lo || p as usize >= lo + ARENA {
            return System.dealloc(p, l);
        }
        LIVE.fetch_sub(1, Relaxed);
        let a = p as usize & !4095;
        let n = pages(p as usize - a + l.size());
        libc::syscall(libc::SYS_madvise, a, n, libc::MADV_DONTNEED);
        protect(a, n, libc::PROT_NONE);
    }
}
/// From now on, in this (forked) process.
pub fn on() {
    unsafe {
        if LO.load(Relaxed) == 0 {
            let r = libc::syscall(libc::SYS_mmap, 0usize, ARENA, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1i64, 0usize);
            if r < 0 && r > -4096 {
                crate::fail!("harness", "no arena");
            }
            LO.store(r as usize, Relaxed);
            NEXT.store(r as usize, Relaxed);
        }
    }
    ON.store(true, Relaxed)
}

/// Blocks allocated since `on` and not freed yet.
pub fn live() -> usize {
    LIVE.load(Relaxed)
}
