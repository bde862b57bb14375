//! Binding to engine.c (see engine.h).
#![allow(dead_code)]
use std::{ffi::CString, os::raw::c_char};

pub const MAXCH: usize = 60000;
pub const MSG: usize = 8192;
pub const LOG: usize = 256 * 1024;
pub const PCTAB: usize = 4096;

pub const OUT_NONE: u32 = 0;
pub const OUT_OK: u32 = 1;
pub const OUT_FAIL: u32 = 2;
pub const OUT_DEADLOCK: u32 = 3;
pub const OUT_HORIZON: u32 = 4;
pub const OUT_DIVERGED: u32 = 5;
pub const OUT_PANIC: u32 = 6;
pub const OUT_ENGINE: u32 = 7;
// set by the worker that waits for the execution
pub const OUT_CRASH: u32 = 8;
pub const OUT_HANG: u32 = 9;

pub const CH_PREEMPT: u8 = 0;
pub const CH_FREE: u8 = 1;
pub const CH_DATA: u8 = 2;
pub const CH_FAULT: u8 = 3;

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Choice {
    pub n: u8,
    pub chosen: u8,
    pub nsched: u8,
    pub kind: u8,
}

#[repr(C)]
pub struct Slot {
    pub prefix_len: u32,
    pub horizon: u32,
    pub fair_k: u32,
    pub atom_mode: u32,
    pub free_switch_cost: u32,
    pub verbose: u32,
    pub sndbuf: u32,
    pub nosched: u32,
    pub proc_sched_mask: u32,
    pub prefix: [Choice; MAXCH],
    pub nch: u32,
    pub outcome: u32,
    pub steps: u32,
    pub watchdog: u32,
    pub preemptions: u32,
    pub faults: u32,
    pub nontrivial: u32,
    pub newpc: u32,
    pub obs: u64,
    pub loglen: u32,
    pub atompoints: u32,
    pub counters: [u64; 16],
    pub ch: [Choice; MAXCH],
    pub chst: [u64; MAXCH],
    pub sig: [u8; 256],
    pub msg: [u8; MSG],
    pub log: [u8; LOG],
}

#[repr(C)]
pub struct PcTab {
    pub pc: [u64; PCTAB],
    pub learned: [u8; PCTAB],
    pub active: [u8; PCTAB],
}

pub const F_KILL: u32 = 1;
pub const F_TIMER: u32 = 2;
pub const F_EINTR_EPOLL: u32 = 4;
pub const F_EINTR_SEND: u32 = 8;
pub const F_EMFILE: u32 = 16;
pub const F_NOMEM: u32 = 32;
pub const F_ENOBUFS: u32 = 64;
pub const F_EINTR_RECV: u32 = 128;
pub const F_EINTR_ACCEPT: u32 = 256;

pub const K_SOCK: i32 = 1;
pub const K_EPOLL: i32 = 2;
pub const K_EVENT: i32 = 3;
pub const K_MEM: i32 = 4;
pub const K_OTHER: i32 = 5;

extern "C" {
    pub fn mc_begin(s: *mut Slot, p: *mut PcTab);
    pub fn mc_end() -> !;
    fn mc_fail(sig: *const c_char, msg: *const c_char) -> !;
    fn mc_panic(sig: *const c_char, msg: *const c_char) -> !;
    pub fn mc_explore(on: i32);
    pub fn mc_set_proc(p: i32);
    pub fn mc_proc() -> i32;
    pub fn mc_set_next_proc(p: i32);
    pub fn mc_now() -> i64;
    pub fn mc_choose(n: u32) -> u32;
    pub fn mc_faults(mask: u32, procs: u32, kills: u32, max: i32);
    pub fn mc_fault_count() -> u32;
    pub fn mc_quiesce();
    pub fn mc_idle(ns: i64);
    pub fn mc_wait_flag(f: *mut i32);
    pub fn mc_set_flag(f: *mut i32);
    pub fn mc_yield();
    pub fn mc_kill(p: i32);
    pub fn mc_is_dead(p: i32) -> i32;
    pub fn mc_fd_count(p: i32) -> i32;
    pub fn mc_fd_count_kind(p: i32, k: i32) -> i32;
    pub fn mc_fd_owner(fd: i32) -> i32;
    pub fn mc_fd_adopt(fd: i32, p: i32);
    pub fn mc_bad_close() -> i32;
    pub fn mc_non_cloexec(b: *mut c_char, n: i32) -> i32;
    pub fn mc_non_cloexec_open(p: i32) -> i32;
    pub fn mc_active() -> i32;
    fn mc_note(s: *const c_char);
    fn mc_set_name(s: *const c_char);
    pub fn mc_self_id() -> i32;
    pub fn mc_engine_off(off: i32);
    pub fn mc_threads_alive(p: i32) -> i32;
    pub fn mc_advance(ns: i64);
    pub fn mc_maps() -> i32;
    pub fn mc_cut(p: i32, room: i32);
    pub fn mc_bad_unmap() -> i32;
}

fn cs(s: &str) -> CString {
    CString::new(s.replace('\0', "\\0")).unwrap()
}
pub fn fail(sig: &str, msg: &str) -> ! {
    unsafe { mc_fail(cs(sig).as_ptr(), cs(msg).as_ptr()) }
}
pub fn panicked(sig: &str, msg: &str) -> ! {
    unsafe { mc_panic(cs(sig).as_ptr(), cs(msg).as_ptr()) }
}
pub fn note(s: &str) {
    unsafe { mc_note(cs(s).as_ptr()) }
}
pub fn set_name(s: &str) {
    unsafe { mc_set_name(cs(s).as_ptr()) }
}
pub fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
