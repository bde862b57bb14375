//! Run-time of a scenario: simulated processes and threads, observations, failures.
#![allow(dead_code)]
use crate::eng::*;
use std::{cell::UnsafeCell, panic, time::Duration};

struct G {
    slot: *mut Slot,
    worker: usize,
    expect_panic: bool,
}
struct Cell(UnsafeCell<G>);
unsafe impl Sync for Cell {}
static CTX: Cell = Cell(UnsafeCell::new(G { slot: std::ptr::null_mut(), worker: 0, expect_panic: false }));
fn g() -> &'static mut G {
    unsafe { &mut *CTX.0.get() }
}

/// First thing a child does.
pub fn enter(slot: *mut Slot, worker: usize) {
    g().slot = slot;
    g().worker = worker;
    panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let short: String = msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(90).collect();
        let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
        panicked(&format!("{short} ({file})"), &format!("panic at {loc}: {msg}"));
    }));
}

/// A bus name of fixed length, different for every concurrently running execution.
pub fn ident(tag: &str) -> String {
    format!("mc{:07}w{:02}-{}", unsafe { libc::getppid() } % 10_000_000, g().worker, tag)
}

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($a:tt)*) => { $crate::eng::fail(&$sig, &format!($($a)*)) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { $crate::eng::fail(&$sig, &format!($($a)*)) } };
}
#[macro_export]
macro_rules! note {
    ($($a:tt)*) => { $crate::rt::note(|| format!($($a)*)) };
}
pub fn note(f: impl FnOnce() -> String) {
    if unsafe { (*g().slot).verbose } > 0 {
        crate::eng::note(&format!("# {}", f()));
    }
}

/// Adds to the observation hash of this execution (order matters).
pub fn obs(v: u64) {
    let s = unsafe { &mut *g().slot };
    let mut h = s.obs ^ v.wrapping_add(0x9e3779b97f4a7c15).wrapping_add(s.obs << 6);
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    s.obs = h ^ (h >> 32);
}
pub fn obs_s(s: &str) {
    for b in s.as_bytes() {
        obs(*b as u64);
    }
}
pub fn count(i: usize, n: u64) {
    unsafe { (*g().slot).counters[i] += n }
}

/// A value shared between the simulated threads of an execution. Only one of them runs at a time and a switch
/// happens only at scheduling points, so plain access is exclusive as long as a borrow does not span one.
pub struct Sh<T>(*mut T);
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0)
    }
}
impl<T> Copy for Sh<T> {}
unsafe impl<T> Send for Sh<T> {}
impl<T> Sh<T> {
    pub fn new(v: T) -> Self {
        Sh(Box::into_raw(Box::new(v)))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0 }
    }
}

/// A flag a simulated thread can block on.
#[derive(Clone, Copy)]
pub struct Flag(*mut i32);
unsafe impl Send for Flag {}
impl Flag {
    pub fn new() -> Self {
        Flag(Box::into_raw(Box::new(0)))
    }
    pub fn set(&self) {
        unsafe { mc_set_flag(self.0) }
    }
    pub fn is_set(&self) -> bool {
        unsafe { std::ptr::read_volatile(self.0) != 0 }
    }
    pub fn wait(&self) {
        unsafe { mc_wait_flag(self.0) }
    }
}

extern "C" fn tramp(p: *mut libc::c_void) -> *mut libc::c_void {
    let b: Box<(String, Flag, Box<dyn FnOnce()>)> = unsafe { Box::from_raw(p as *mut _) };
    let (name, flag, f) = *b;
    set_name(&name);
    f();
    flag.set();
    std::ptr::null_mut()
}

/// Starts a thread of simulated process `proc`; the flag is set when it ends.
pub fn spawn(proc: i32, name: &str, f: impl FnOnce() + 'static) -> Flag {
    let flag = Flag::new();
    let b: Box<(String, Flag, Box<dyn FnOnce()>)> = Box::new((name.to_string(), flag, Box::new(f)));
    unsafe {
        mc_set_next_proc(proc);
        let mut pt: libc::pthread_t = 0;
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        let r = libc::pthread_create(&mut pt, &attr, tramp, Box::into_raw(b) as _);
        assert_eq!(r, 0);
    }
    flag
}

/// Lets everything run until every thread is blocked (virtual time does not move).
pub fn quiesce() {
    unsafe { mc_quiesce() }
}
/// Lets virtual time pass (everything that becomes due runs).
pub fn pass(d: Duration) {
    unsafe { mc_idle(d.as_nanos() as i64) }
}
/// Lets virtual time pass until nothing has a deadline any more.
pub fn pass_all() {
    unsafe { mc_idle(-1) }
}
pub fn now() -> Duration {
    Duration::from_nanos(unsafe { mc_now() } as u64)
}
pub fn choose(n: usize) -> usize {
    unsafe { mc_choose(n as u32) as usize }
}
pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
pub fn kill(p: i32) {
    unsafe { mc_kill(p) }
}
pub fn end() -> ! {
    unsafe { mc_end() }
}
/// Runs `f` as a thread of simulated process `p` (descriptors it opens belong to `p`).
pub fn at<T>(p: i32, f: impl FnOnce() -> T) -> T {
    unsafe {
        let old = mc_proc();
        mc_set_proc(p);
        let r = f();
        mc_set_proc(old);
        r
    }
}
/// Schedule and fault alternatives are explored only while this is on.
pub fn explore_on(on: bool) {
    unsafe { mc_explore(on as i32) }
}
