//! The C interface as its header declares it.
use std::ffi::{c_char, c_void, CString};

pub type H = *mut c_void;
pub const INF: u32 = !0;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Options {
    pub identifier: *const c_char,
    pub label: *const H,
    pub token: *const c_char,
    pub controller_affinity: bool,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Selector {
    pub label_op: *const H,
    pub mode: i32,
    pub ttl: u32,
}
extern "C" {
    pub fn ipmb_rstring_data(s: *const H, ptr: *mut *const u8, size: *mut usize);
    pub fn ipmb_rstring_drop(s: H);
    pub fn ipmb_version(major: *mut u8, minor: *mut u8, patch: *mut u8);
    pub fn ipmb_version_pre() -> H;
    pub fn ipmb_join(o: Options, timeout: u32, tx: *mut H, rx: *mut H) -> i32;
    pub fn ipmb_sender_drop(h: H);
    pub fn ipmb_send(tx: *mut H, m: H) -> i32;
    pub fn ipmb_receiver_drop(h: H);
    pub fn ipmb_recv(rx: *mut H, m: *mut H, timeout: u32) -> i32;
    pub fn ipmb_memory_registry() -> H;
    pub fn ipmb_memory_registry_drop(h: H);
    pub fn ipmb_memory_registry_alloc(r: *mut H, min: usize, tag: *const c_char, out: *mut H) -> i32;
    pub fn ipmb_memory_registry_alloc_with_free(r: *mut H, min: usize, tag: *const c_char, ctx: *mut c_void, free: Option<extern "C" fn(*mut c_void)>, out: *mut H) -> i32;
    pub fn ipmb_memory_registry_maintain(r: *mut H);
    pub fn ipmb_message(s: Selector, format: u16, p: *const u8, size: u32) -> H;
    pub fn ipmb_message_drop(m: H);
    pub fn ipmb_message_bytes_data(m: *const H, format: *mut u16, p: *mut *const u8, size: *mut u32);
    pub fn ipmb_message_object_append(m: *mut H, o: u64);
    pub fn ipmb_message_object_retrieve(m: *mut H, i: usize) -> u64;
    pub fn ipmb_message_object_get(m: *const H, i: usize) -> u64;
    pub fn ipmb_object_drop(o: u64);
    pub fn ipmb_message_memory_region_append(m: *mut H, r: H);
    pub fn ipmb_message_memory_region_retrieve(m: *mut H, i: usize) -> H;
    pub fn ipmb_message_memory_region_get(m: *mut H, i: usize) -> H;
    pub fn ipmb_memory_region(size: usize, out: *mut H) -> i32;
    pub fn ipmb_memory_region_drop(r: H);
    pub fn ipmb_memory_region_map(r: *mut H, offset: usize, size: isize, real: *mut isize) -> *mut u8;
    pub fn ipmb_memory_region_ref_count(r: *const H) -> u32;
    pub fn ipmb_memory_region_clone(r: *const H, out: *mut H) -> i32;
    pub fn ipmb_label() -> H;
    pub fn ipmb_label_drop(l: H);
    pub fn ipmb_label_insert(l: *mut H, s: *const c_char);
    pub fn ipmb_label_op_bool(v: bool) -> H;
    pub fn ipmb_label_op_leaf(s: *const c_char) -> H;
    pub fn ipmb_label_op_drop(l: H);
    pub fn ipmb_label_op_not(l: H) -> H;
    pub fn ipmb_label_op_and(l: H, r: H) -> H;
    pub fn ipmb_label_op_or(l: H, r: H) -> H;
}

extern "C" {
    fn via_join(id: *const c_char, token: *const c_char, label: *const c_char, affinity: bool, timeout: u32, tx: *mut H, rx: *mut H) -> i32;
    fn via_message(to: *const c_char, multicast: bool, ttl: u32, format: u16, p: *const u8, n: u32) -> H;
    fn via_send(tx: *mut H, m: H) -> i32;
    fn via_recv(rx: *mut H, m: *mut H, timeout: u32) -> i32;
    fn via_payload(m: *mut H, format: *mut u16, p: *mut *const u8, size: *mut u32);
}
/// Whether the calls below are made through the C++ interface.
static mut CPP: bool = false;
pub fn through_cpp(on: bool) {
    unsafe { CPP = on }
}
fn cpp() -> bool {
    unsafe { CPP }
}

pub const BAD: H = 0x5a5a5a5a as H;
pub fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}
pub fn label(s: &str) -> H {
    unsafe {
        let mut l = ipmb_label();
        for e in s.split(' ').filter(|e| !e.is_empty()) {
            ipmb_label_insert(&mut l, cs(e).as_ptr());
        }
        l
    }
}
/// Joins; the code is the caller's business.
pub fn join_code(id: &[u8], token: &[u8], lab: &str, affinity: bool, timeout: u32, tx: *mut H, rx: *mut H) -> i32 {
    unsafe {
        let (i, t) = (CString::new(id).unwrap(), CString::new(token).unwrap());
        if cpp() {
            return via_join(i.as_ptr(), t.as_ptr(), cs(lab).as_ptr(), affinity, timeout, tx, rx);
        }
        let l = label(lab);
        let c = ipmb_join(Options { identifier: i.as_ptr(), label: &l, token: t.as_ptr(), controller_affinity: affinity }, timeout, tx, rx);
        ipmb_label_drop(l);
        c
    }
}
pub fn join(proc: i32, id: &str, lab: &str) -> (H, H) {
    mc::rt::at(proc, || {
        let (mut t, mut r) = (BAD, BAD);
        let c = join_code(id.as_bytes(), b"tok", lab, true, INF, &mut t, &mut r);
        mc::check!(c == 0, "join failed", "code {c}");
        mc::check!(t != BAD && r != BAD, "an out-parameter is not written", "");
        (t, r)
    })
}
/// A message to the endpoints with a label element.
pub fn message(to: &str, multicast: bool, ttl: u32, format: u16, data: &[u8]) -> H {
    unsafe {
        if cpp() {
            return via_message(cs(to).as_ptr(), multicast, ttl, format, data.as_ptr(), data.len() as u32);
        }
        let op = ipmb_label_op_leaf(cs(to).as_ptr());
        let m = ipmb_message(Selector { label_op: &op, mode: multicast as i32, ttl }, format, data.as_ptr(), data.len() as u32);
        ipmb_label_op_drop(op);
        m
    }
}
pub fn payload(m: &H) -> (u16, Vec<u8>) {
    unsafe {
        let (mut f, mut p, mut n) = (0xabcd, std::ptr::null(), u32::MAX);
        if cpp() {
            let mut h = *m;
            via_payload(&mut h, &mut f, &mut p, &mut n);
        } else {
            ipmb_message_bytes_data(m, &mut f, &mut p, &mut n);
        }
        let v = if n == 0 { vec![] } else { std::slice::from_raw_parts(p, n as usize).to_vec() };
        (f, v)
    }
}
pub fn send_code(tx: &mut H, m: H) -> i32 {
    unsafe {
        if cpp() {
            // others may use the handle at the same time
            let mut h = *tx;
            via_send(&mut h, m)
        } else {
            ipmb_send(tx, m)
        }
    }
}
pub fn recv_code(rx: &mut H, m: &mut H, timeout: u32) -> i32 {
    unsafe {
        if cpp() {
            let mut h = *rx;
            via_recv(&mut h, m, timeout)
        } else {
            ipmb_recv(rx, m, timeout)
        }
    }
}
pub fn send(proc: i32, tx: &mut H, m: H) {
    let c = mc::rt::at(proc, || send_code(tx, m));
    mc::check!(c == 0, "send failed", "code {c}");
}
/// What waits for the endpoint, in order.
pub fn drain(proc: i32, rx: &mut H) -> Vec<(u16, Vec<u8>)> {
    let mut v = vec![];
    mc::rt::at(proc, || unsafe {
        loop {
            let mut m = BAD;
            match recv_code(rx, &mut m, 0) {
                0 => {
                    mc::check!(m != BAD, "an out-parameter is not written", "");
                    v.push(payload(&m));
                    ipmb_message_drop(m);
                }
                -2 => {
                    mc::check!(m == BAD, "an out-parameter is written on failure", "");
                    return;
                }
                c => mc::fail!("recv failed", "code {c}"),
            }
        }
    });
    v
}
