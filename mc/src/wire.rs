//! Peers that do not use the library: they speak (or break) its wire format by hand.
use crate::{fail, rt::*};
use ipmb::{Label, LabelOp, SelectorMode, Version};
use serde::{Deserialize, Serialize};
use std::{mem, ptr, time::Duration};

pub const CONNECT: [u8; 16] = uuid("b2c1deb330914a74a99cc8e8d710d4b2");
pub const ACK: [u8; 16] = uuid("c3de9eb4c3104c149747093d62c09998");
pub const BYTES: [u8; 16] = uuid("dd95ba8e127947cf925e83e614e79588");
pub const M_UUID: [u8; 16] = uuid("7b07473e96594d47a5028245d71c0078");

const fn uuid(s: &str) -> [u8; 16] {
    const fn h(c: u8) -> u8 {
        if c <= b'9' { c - b'0' } else { c - b'a' + 10 }
    }
    let b = s.as_bytes();
    let mut r = [0; 16];
    let mut i = 0;
    while i < 16 {
        r[i] = h(b[2 * i]) * 16 + h(b[2 * i + 1]);
        i += 1;
    }
    r
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sel {
    pub label_op: LabelOp,
    pub mode: SelectorMode,
    pub uuid: [u8; 16],
    pub regions: u16,
    pub ttl: Duration,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Connect {
    pub version: (u8, u8, u8),
    pub token: String,
    pub label: Label,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Ack {
    Ok([u8; 16]),
    ErrVersion((u8, u8, u8)),
    ErrToken,
}
pub fn sel(op: LabelOp, mode: SelectorMode, uuid: [u8; 16]) -> Sel {
    Sel { label_op: op, mode, uuid, regions: 0, ttl: Duration::ZERO }
}
pub fn ver(v: Version) -> (u8, u8, u8) {
    (v.major(), v.minor(), v.patch())
}
pub fn bin<T: Serialize>(t: T) -> Vec<u8> {
    bincode::serde::encode_to_vec(t, bincode::config::standard()).unwrap()
}
pub fn unbin<T: for<'a> Deserialize<'a>>(b: &[u8]) -> Option<T> {
    bincode::serde::decode_from_slice(b, bincode::config::standard()).ok().map(|x| x.0)
}
fn pad4(v: &mut Vec<u8>) {
    while v.len() % 4 != 0 {
        v.push(0)
    }
}
/// A message with the given header version.
pub fn frame_v(v: (u8, u8, u8), sel: &[u8], payload: &[u8]) -> Vec<u8> {
    let mut b = vec![0xff, v.0, v.1, v.2];
    b.extend((sel.len() as u32).to_ne_bytes());
    b.extend(sel);
    pad4(&mut b);
    b.extend((payload.len() as u32).to_ne_bytes());
    b.extend(payload);
    pad4(&mut b);
    b
}
pub fn frame(sel: &[u8], payload: &[u8]) -> Vec<u8> {
    frame_v(ver(ipmb::version()), sel, payload)
}
/// (header version, selector, payload)
pub fn parse(b: &[u8]) -> Option<((u8, u8, u8), Sel, Vec<u8>)> {
    if b.len() < 12 || b[0] != 0xff {
        return None;
    }
    let u = |i: usize| -> Option<usize> { Some(u32::from_ne_bytes(b.get(i..i + 4)?.try_into().ok()?) as usize) };
    let sl = u(4)?;
    let s = unbin(b.get(8..8 + sl)?)?;
    let at = 8 + (sl + 3) / 4 * 4;
    let pl = u(at)?;
    Some(((b[1], b[2], b[3]), s, b.get(at + 4..at + 4 + pl)?.to_vec()))
}

fn addr(id: &str) -> libc::sockaddr_un {
    let mut a: libc::sockaddr_un = unsafe { mem::zeroed() };
    a.sun_family = libc::AF_UNIX as _;
    for (i, c) in id.bytes().take(106).enumerate() {
        a.sun_path[i + 1] = c as _;
    }
    a
}
pub fn socket() -> i32 {
    let fd = unsafe { libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0) };
    if fd < 0 {
        fail!("harness", "socket");
    }
    fd
}
pub fn connect(id: &str) -> i32 {
    let fd = socket();
    let a = addr(id);
    let r = unsafe { libc::connect(fd, &a as *const _ as _, mem::size_of_val(&a) as _) };
    if r != 0 {
        fail!("raw connect refused", "the bus does not accept connections any more: {}", std::io::Error::last_os_error());
    }
    fd
}
pub fn listen(id: &str) -> i32 {
    let fd = socket();
    let a = addr(id);
    unsafe {
        if libc::bind(fd, &a as *const _ as _, mem::size_of_val(&a) as _) != 0 || libc::listen(fd, 8) != 0 {
            fail!("harness", "bind/listen: {}", std::io::Error::last_os_error());
        }
    }
    fd
}
pub fn accept(fd: i32) -> i32 {
    let r = unsafe { libc::accept4(fd, ptr::null_mut(), ptr::null_mut(), libc::SOCK_CLOEXEC) };
    if r < 0 {
        fail!("harness", "accept");
    }
    r
}
pub fn pair() -> (i32, i32) {
    let mut p = [0; 2];
    unsafe {
        if libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()) != 0 {
            fail!("harness", "socketpair");
        }
        libc::shutdown(p[0], libc::SHUT_WR);
        libc::shutdown(p[1], libc::SHUT_RD);
    }
    (p[0], p[1])
}
pub fn close(fd: i32) {
    unsafe {
        libc::close(fd);
    }
}
/// Sends one packet (without waiting); true if it went out.
pub fn send(fd: i32, data: &[u8], fds: &[i32]) -> bool {
    unsafe {
        let mut iov = libc::iovec { iov_base: data.as_ptr() as _, iov_len: data.len() };
        let mut h: libc::msghdr = mem::zeroed();
        h.msg_iov = &mut iov;
        h.msg_iovlen = 1;
        let mut ctl = vec![0u64; 200];
        if !fds.is_empty() {
            h.msg_control = ctl.as_mut_ptr() as _;
            h.msg_controllen = libc::CMSG_SPACE((fds.len() * 4) as _) as _;
            let c = libc::CMSG_FIRSTHDR(&h);
            (*c).cmsg_level = libc::SOL_SOCKET;
            (*c).cmsg_type = libc::SCM_RIGHTS;
            (*c).cmsg_len = libc::CMSG_LEN((fds.len() * 4) as _) as _;
            ptr::copy_nonoverlapping(fds.as_ptr(), libc::CMSG_DATA(c) as *mut i32, fds.len());
        }
        libc::sendmsg(fd, &h, libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT) == data.len() as isize
    }
}
pub enum Got {
    Nothing,
    Closed,
    Packet(Vec<u8>, Vec<i32>),
}
/// What waits on a channel, without waiting.
pub fn recv(fd: i32) -> Got {
    unsafe {
        let mut buf = vec![0u8; 140_000];
        let mut iov = libc::iovec { iov_base: buf.as_mut_ptr() as _, iov_len: buf.len() };
        let mut ctl = vec![0u64; 200];
        let mut h: libc::msghdr = mem::zeroed();
        h.msg_iov = &mut iov;
        h.msg_iovlen = 1;
        h.msg_control = ctl.as_mut_ptr() as _;
        h.msg_controllen = 1600;
        let r = libc::recvmsg(fd, &mut h, libc::MSG_DONTWAIT | libc::MSG_CMSG_CLOEXEC);
        if r < 0 {
            return if *libc::__errno_location() == libc::EAGAIN { Got::Nothing } else { Got::Closed };
        }
        if r == 0 {
            return Got::Closed;
        }
        buf.truncate(r as usize);
        let mut fds = vec![];
        let mut c = libc::CMSG_FIRSTHDR(&h);
        while !c.is_null() {
            let n = ((*c).cmsg_len as usize - libc::CMSG_LEN(0) as usize) / 4;
            let d = libc::CMSG_DATA(c) as *const i32;
            for i in 0..n {
                fds.push(ptr::read_unaligned(d.add(i)));
            }
            c = libc::CMSG_NXTHDR(&h, c);
        }
        Got::Packet(buf, fds)
    }
}
pub fn connect_frame(header: (u8, u8, u8), version: (u8, u8, u8), token: &str, label: Label) -> Vec<u8> {
    let s = bin(sel(LabelOp::True, SelectorMode::Unicast, CONNECT));
    frame_v(header, &s, &bin(Connect { version, token: token.into(), label }))
}

/// An endpoint that speaks the protocol by hand.
pub struct Raw {
    pub proc: i32,
    pub conn: i32,
    pub rx: i32,
    pub ack: Option<((u8, u8, u8), Ack)>,
}
impl Raw {
    pub fn join_with(proc: i32, id: &str, data: &[u8]) -> Raw {
        at(proc, || {
            let conn = connect(id);
            let (rx, tx) = pair();
            if !send(conn, data, &[tx]) {
                fail!("harness", "connect message not sent");
            }
            close(tx);
            Raw { proc, conn, rx, ack: None }
        })
    }
    pub fn join(proc: i32, id: &str, token: &str, label: Label) -> Raw {
        let v = ver(ipmb::version());
        let mut r = Raw::join_with(proc, id, &connect_frame(v, v, token, label));
        quiesce();
        r.take_ack();
        r
    }
    /// The acknowledgement, if it has come.
    pub fn take_ack(&mut self) -> Option<((u8, u8, u8), Ack)> {
        at(self.proc, || {
            if let Got::Packet(b, _) = recv(self.rx) {
                match parse(&b) {
                    Some((v, s, p)) if s.uuid == ACK => self.ack = unbin(&p).map(|a| (v, a)),
                    _ => fail!("no acknowledgement", "the first message is not an acknowledgement: {b:?}"),
                }
            }
        });
        self.ack.clone()
    }
    pub fn close(self) {
        at(self.proc, || {
            close(self.conn);
            close(self.rx);
        })
    }
}
