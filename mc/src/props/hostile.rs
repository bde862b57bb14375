//! C12: hand-made input against the controller and against endpoints.
use ipmb::{LabelOp, Message, RecvError, SelectorMode};
use mc::{bus::*, check, explore::*, fail, guard, note, rt::*, wire, *};
use std::time::Duration;

// ---- kernel objects

pub const OBJECTS: [&str; 12] = [
    "memfd-ok", "memfd-empty", "memfd-5", "memfd-12", "memfd-lying", "memfd-readonly", "eventfd", "socket", "pipe", "null", "memfd-sealed", "memfd-huge-count",
];
fn memfd(size: i64, header: Option<(u32, u64)>) -> i32 {
    unsafe {
        let fd = libc::memfd_create(c"x".as_ptr(), libc::MFD_CLOEXEC | libc::MFD_ALLOW_SEALING);
        if fd < 0 || libc::ftruncate(fd, size) != 0 {
            fail!("harness", "memfd");
        }
        if let Some((rc, len)) = header {
            let mut b = rc.to_ne_bytes().to_vec();
            b.extend(len.to_ne_bytes());
            if libc::pwrite(fd, b.as_ptr() as _, b.len(), 0) != b.len() as isize {
                fail!("harness", "memfd write");
            }
        }
        fd
    }
}
pub fn object(kind: &str) -> i32 {
    unsafe {
        let fd = match kind {
            "memfd-ok" => memfd(12 + 100, Some((2, 100))),
            "memfd-empty" => memfd(0, None),
            "memfd-5" => memfd(5, None),
            "memfd-12" => memfd(12, Some((2, 0))),
            "memfd-lying" => memfd(12 + 100, Some((2, 1 << 40))),
            "memfd-huge-count" => memfd(12 + 100, Some((u32::MAX, u64::MAX))),
            "memfd-readonly" => {
                let fd = memfd(12 + 100, Some((2, 100)));
                let p = std::ffi::CString::new(format!("/proc/self/fd/{fd}")).unwrap();
                let r = libc::open(p.as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC);
                libc::close(fd);
                r
            }
            "memfd-sealed" => {
                let fd = memfd(12 + 100, Some((2, 100)));
                libc::fcntl(fd, libc::F_ADD_SEALS, libc::F_SEAL_WRITE | libc::F_SEAL_SHRINK);
                fd
            }
            "eventfd" => libc::eventfd(0, libc::EFD_CLOEXEC),
            "socket" => wire::socket(),
            "pipe" => {
                let mut p = [0; 2];
                libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
                libc::close(p[0]);
                p[1]
            }
            _ => libc::open(c"/dev/null".as_ptr(), libc::O_RDWR | libc::O_CLOEXEC),
        };
        if fd < 0 {
            fail!("harness", "object {kind}");
        }
        fd
    }
}

// ---- mutations of a valid message

pub struct Bad {
    pub what: String,
    pub data: Vec<u8>,
    pub objs: Vec<&'static str>,
}
const SIZES: [u32; 14] = [0, 1, 2, 3, 4, 5, 11, 64, 4096, 65535, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc, 0xffff_ffff];

fn base(label: &str, mode: SelectorMode, regions: u16) -> (Vec<u8>, Vec<u8>) {
    let mut s = wire::sel(LabelOp::from(label).or(!LabelOp::from("zz").and("all")), mode, wire::M_UUID);
    s.regions = regions;
    (wire::bin(s), wire::bin(mp(77, 5)))
}
/// Chooses one mutation of a message to `label`.
pub fn mutate(label: &str, mode: SelectorMode) -> Bad {
    let (s, p) = base(label, mode, 0);
    let good = wire::frame(&s, &p);
    let at = 8 + (s.len() + 3) / 4 * 4;
    let bad = |what: String, data: Vec<u8>| Bad { what, data, objs: vec![] };
    match choose(9) {
        // every length
        0 => {
            let n = 1 + choose(good.len().min(120));
            bad(format!("cut to {n} of {} bytes", good.len()), good[..n].to_vec())
        }
        // every byte
        1 => {
            let i = choose(good.len().min(120));
            let mut d = good.clone();
            let v = [0, 1, 0x7f, 0x80, 0xfb, 0xfc, 0xfd, 0xff, d[i] ^ 1, d[i] ^ 0x80][choose(10)];
            d[i] = v;
            bad(format!("byte {i} set to {v:#x}"), d)
        }
        // the selector's size
        2 => {
            let k = choose(SIZES.len() + 5);
            let v = if k < SIZES.len() { SIZES[k] } else { (good.len() as i64 - 8 - 2 + (k - SIZES.len()) as i64) as u32 };
            let mut d = good.clone();
            d[4..8].copy_from_slice(&v.to_ne_bytes());
            bad(format!("selector size {v:#x}"), d)
        }
        // the payload's size
        3 => {
            let k = choose(SIZES.len() + 5);
            let v = if k < SIZES.len() { SIZES[k] } else { (good.len() as i64 - at as i64 - 4 - 2 + (k - SIZES.len()) as i64) as u32 };
            let mut d = good.clone();
            d[at..at + 4].copy_from_slice(&v.to_ne_bytes());
            bad(format!("payload size {v:#x}"), d)
        }
        // both, with every amount of trailing bytes
        4 => {
            let v = SIZES[choose(SIZES.len())];
            let w = SIZES[choose(SIZES.len())];
            let mut d = good.clone();
            d[4..8].copy_from_slice(&v.to_ne_bytes());
            if at + 4 <= d.len() {
                d[at..at + 4].copy_from_slice(&w.to_ne_bytes());
            }
            d.truncate(at + 4);
            bad(format!("sizes {v:#x} {w:#x}"), d)
        }
        // number of regions against what is attached
        5 => {
            let r = [0u16, 1, 2, 3, 252, 253, 254, 65535][choose(8)];
            let n = [0usize, 1, 2, 4][choose(4)];
            let (s, p) = base(label, mode, r);
            Bad { what: format!("{r} regions of {n} attachments"), data: wire::frame(&s, &p), objs: vec!["memfd-ok"; n] }
        }
        // what is attached as a region, alone and after or before a good one
        6 => {
            let k = OBJECTS[choose(OBJECTS.len())];
            let objs = [vec![k], vec![k, "memfd-ok"], vec!["memfd-ok", k], vec!["eventfd", k, k]][choose(4)].clone();
            let r = [1u16, 1, 2, 2][objs.len()];
            let r = if objs.len() == 2 { 2 } else { r };
            let (s, p) = base(label, mode, r);
            Bad { what: format!("{objs:?} as {r} regions"), data: wire::frame(&s, &p), objs }
        }
        // other kinds of message
        7 => {
            let k = choose(20);
            let deep = |n: usize, b: u8| {
                // an expression of n nested nodes (1 byte each), then True
                let t = wire::bin(wire::sel(LabelOp::True, mode, wire::M_UUID));
                let mut v = vec![b; n];
                v.extend(t);
                v
            };
            let not = wire::bin(!LabelOp::True)[0];
            let and = wire::bin(LabelOp::True.and(LabelOp::True))[0];
            let or = wire::bin(LabelOp::True.or(LabelOp::True))[0];
            let pl = wire::bin(m(77));
            let other = |u| wire::frame(&wire::bin(wire::sel(LabelOp::True, mode, u)), &pl);
            let d = match k {
                0 => wire::frame(&deep(200, not), &pl),
                1 => wire::frame(&deep(5_000, not), &pl),
                2 => wire::frame(&deep(60_000, not), &pl),
                3 => wire::frame(&deep(60_000, and), &pl),
                4 => wire::frame(&deep(60_000, or), &pl),
                5 => other(wire::ACK),
                6 => other(wire::CONNECT),
                7 => other([0; 16]),
                8 => other([0xff; 16]),
                9 => wire::frame(&[], &[]),
                10 => wire::frame(&s, &[]),
                11 => wire::frame(&s, &vec![0xff; 60_000]),
                12 => vec![0xff; 60_000],
                14..=19 => wire::frame(&deep([999, 1000, 1001][k % 3], [not, not, and, and, or, or][k - 14]), &pl),
                _ => {
                    let mut q = wire::sel(LabelOp::from(label), mode, wire::M_UUID);
                    q.ttl = Duration::new(u64::MAX, 999_999_999);
                    wire::frame(&wire::bin(q), &[0xff; 3])
                }
            };
            bad(format!("other message {k}"), d)
        }
        // bytes beyond the end
        _ => {
            let n = choose(9);
            let mut d = good.clone();
            d.extend(vec![0xee; n]);
            bad(format!("{n} bytes too many"), d)
        }
    }
}
fn send_bad(fd: i32, b: &Bad) {
    let fds: Vec<i32> = b.objs.iter().map(|k| object(k)).collect();
    wire::send(fd, &b.data, &fds);
    for f in fds {
        wire::close(f);
    }
}

fn touch(mut msg: Message<M>) -> u32 {
    for r in msg.memory_regions.iter_mut() {
        if let Ok(b) = r.map(..) {
            if !b.is_empty() {
                let n = b.len();
                b[0] = 1;
                b[n - 1] = b[0];
            }
        }
    }
    obs(msg.objects.len() as u64);
    msg.payload.n
}
/// Receives what waits; payloads that cannot be decoded are fine here.
fn take(proc: i32, rx: &mut Rx) -> Vec<u32> {
    let mut v = vec![];
    at(proc, || loop {
        match rx.recv(Some(Duration::ZERO)) {
            Ok(m) => v.push(touch(m)),
            Err(RecvError::Decode(_)) => {}
            Err(RecvError::Timeout) => break v,
            Err(e) => fail!("recv failed", "recv: {e:?}"),
        }
    })
}

/// A process sends malformed input to the bus; bit 0: after joining; bit 1: multicast.
fn bus(arg: u32) {
    explore_on(false);
    guard::on();
    let id = ident("hostile");
    let (t1, mut r1) = join(1, &id, "host all");
    let (t2, mut r2) = join(2, &id, "two all");
    let mode = if arg & 2 != 0 { SelectorMode::Multicast } else { SelectorMode::Unicast };
    let target = if mode == SelectorMode::Multicast { "all" } else { ["host", "two"][choose(2)] };
    let bad = mutate(target, mode);
    note!("malformed: {}", bad.what);
    let (conn, raw) = at(9, || {
        if arg & 1 != 0 {
            let r = wire::Raw::join(9, &id, "tok", lab("nine all"));
            (r.conn, Some(r))
        } else {
            (wire::connect(&id), None)
        }
    });
    at(9, || {
        send_bad(conn, &bad);
    });
    quiesce();
    if choose(2) == 0 {
        at(9, || send_bad(conn, &bad));
        quiesce();
    }
    serves(&id, (1, &t1, &mut r1), (2, &t2, &mut r2));
    match raw {
        Some(r) => r.close(),
        None => at(9, || wire::close(conn)),
    }
    quiesce();
    serves(&id, (1, &t1, &mut r1), (2, &t2, &mut r2));
}
/// The bus works as if nothing had happened.
fn serves(id: &str, a: (i32, &Tx, &mut Rx), b: (i32, &Tx, &mut Rx)) {
    send(a.0, a.1, uni("two"), m(1001));
    quiesce();
    let g = take(b.0, b.2);
    check!(g.iter().filter(|&&n| n == 1001).count() == 1, "the bus stops serving", "endpoint two receives {g:?}");
    send(b.0, b.1, uni("host"), m(1002));
    quiesce();
    let g = take(a.0, a.2);
    check!(g.iter().filter(|&&n| n == 1002).count() == 1, "the bus stops serving", "endpoint host receives {g:?}");
    let id = id.to_string();
    let got = Sh::new(None);
    let f = spawn(3, "late", move || *got.get() = Some(join(3, &id, "three all")));
    quiesce();
    check!(f.is_set(), "the bus does not admit endpoints any more", "");
    let (t3, mut r3) = got.get().take().unwrap();
    send(3, &t3, multi("all"), m(1003));
    quiesce();
    for g in [take(3, &mut r3), take(a.0, a.2), take(b.0, b.2)] {
        check!(g.iter().filter(|&&n| n == 1003).count() == 1, "the bus stops serving", "an endpoint receives {g:?}");
    }
    at(3, || drop((t3, r3)));
    quiesce();
}

/// Join requests of every malformed kind.
fn connects(_: u32) {
    explore_on(false);
    guard::on();
    let id = ident("connects");
    let (t1, mut r1) = join(1, &id, "host all");
    let (t2, mut r2) = join(2, &id, "two all");
    let v = wire::ver(ipmb::version());
    let s = wire::bin(wire::sel(LabelOp::True, SelectorMode::Unicast, wire::CONNECT));
    let token = ["tok", "no"][choose(2)];
    let version = if choose(2) == 0 { v } else { (9, 9, 9) };
    let c = wire::bin(wire::Connect { version, token: token.into(), label: lab("nine") });
    let conn = at(9, || wire::connect(&id));
    let mut keep = vec![];
    let mut data = wire::frame(&s, &c);
    let fds: Vec<i32> = at(9, || match choose(4) {
        // the payload
        0 => {
            let n = choose(c.len() + 1);
            data = wire::frame(&s, &c[..n]);
            let (rx, tx) = wire::pair();
            keep.push(rx);
            vec![tx]
        }
        1 => {
            let i = choose(c.len());
            let mut d = c.clone();
            d[i] = [0, 0x7f, 0x80, 0xfc, 0xff][choose(5)];
            data = wire::frame(&s, &d);
            let (rx, tx) = wire::pair();
            keep.push(rx);
            vec![tx]
        }
        // the channel to answer to
        2 => {
            let k = choose(OBJECTS.len() + 9);
            note!("reply channel {k}");
            match k.wrapping_sub(OBJECTS.len()) {
                0 => vec![],
                1 => {
                    let (rx, tx) = wire::pair();
                    let (rx2, tx2) = wire::pair();
                    keep.extend([rx, rx2]);
                    vec![tx, tx2]
                }
                // nobody listens
                2 => {
                    let (rx, tx) = wire::pair();
                    wire::close(rx);
                    vec![tx]
                }
                // the reading end
                3 => {
                    let (rx, tx) = wire::pair();
                    keep.push(tx);
                    vec![rx]
                }
                // full: an answer has no room
                4 => {
                    let (rx, tx) = wire::pair();
                    while wire::send(tx, &[1; 4096], &[]) {}
                    keep.push(rx);
                    vec![tx]
                }
                // the connection itself
                5 => vec![unsafe { libc::fcntl(conn, libc::F_DUPFD_CLOEXEC, 0) }],
                // another connection to the bus
                6 => vec![wire::connect(&id)],
                // stream and datagram sockets
                7 | 8 => {
                    let t = if k - OBJECTS.len() == 7 { libc::SOCK_STREAM } else { libc::SOCK_DGRAM };
                    let mut p = [0; 2];
                    unsafe { libc::socketpair(libc::AF_UNIX, t | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()) };
                    keep.push(p[0]);
                    vec![p[1]]
                }
                _ => vec![object(OBJECTS[k])],
            }
        }
        // the selector
        _ => {
            let mut q = wire::sel([LabelOp::False, LabelOp::from("host"), !LabelOp::True][choose(3)].clone(), [SelectorMode::Unicast, SelectorMode::Multicast][choose(2)], wire::CONNECT);
            q.regions = [0u16, 1, 2][choose(3)];
            q.ttl = [Duration::ZERO, Duration::MAX][choose(2)];
            data = wire::frame(&wire::bin(q), &c);
            let (rx, tx) = wire::pair();
            keep.push(rx);
            vec![tx]
        }
    });
    at(9, || {
        wire::send(conn, &data, &fds);
        for f in fds {
            wire::close(f);
        }
    });
    quiesce();
    serves(&id, (1, &t1, &mut r1), (2, &t2, &mut r2));
    at(9, || {
        keep.into_iter().for_each(wire::close);
        wire::close(conn);
    });
    quiesce();
    serves(&id, (1, &t1, &mut r1), (2, &t2, &mut r2));
}

/// A controller served by hand sends malformed input to an endpoint.
fn endpoint(arg: u32) {
    explore_on(false);
    guard::on();
    let id = ident("victim");
    let lfd = at(1, || wire::listen(&id));
    let got = Sh::new(vec![]);
    let tx = Sh::new(None);
    let id2 = id.clone();
    spawn(2, "victim", move || {
        let mut o = opt(&id2, "two all");
        o.controller_affinity = false;
        let (t, mut r) = ipmb::join::<M, M>(o, None).unwrap_or_else(|e| fail!("join failed", "{e:?}"));
        *tx.get() = Some(t);
        loop {
            match r.recv(None) {
                Ok(m) => got.get().push(touch(m)),
                Err(RecvError::Decode(_)) => {}
                Err(e) => fail!("recv failed", "{e:?}"),
            }
        }
    });
    // the endpoint's connection, its channel, and the new one if it connects again
    let admit = |bad: Option<&Bad>| -> Option<(i32, i32)> {
        at(1, || {
            for _ in 0..4 {
                quiesce();
                let mut p = libc::pollfd { fd: lfd, events: libc::POLLIN, revents: 0 };
                if unsafe { libc::poll(&mut p, 1, 0) } != 1 {
                    pass(ms(2100));
                    continue;
                }
                let c = wire::accept(lfd);
                quiesce();
                let (b, fds) = match wire::recv(c) {
                    wire::Got::Packet(b, f) => (b, f),
                    _ => fail!("no connect message", ""),
                };
                check!(matches!(wire::parse(&b), Some((_, s, _)) if s.uuid == wire::CONNECT) && fds.len() == 1, "no connect message", "{b:?}");
                if let Some(bad) = bad {
                    send_bad(fds[0], bad);
                } else {
                    let sel = wire::bin(wire::sel(LabelOp::True, SelectorMode::Unicast, wire::ACK));
                    wire::send(fds[0], &wire::frame(&sel, &wire::bin(wire::Ack::Ok([7; 16]))), &[]);
                }
                quiesce();
                return Some((c, fds[0]));
            }
            None
        })
    };
    let good = |n: u32| wire::frame(&wire::bin(wire::sel(LabelOp::from("two"), SelectorMode::Unicast, wire::M_UUID)), &wire::bin(m(n)));
    let (mut c, mut ch);
    if arg == 0 {
        (c, ch) = admit(None).unwrap_or_else(|| fail!("no connection", ""));
        let bad = mutate("two", SelectorMode::Unicast);
        note!("malformed: {}", bad.what);
        at(1, || send_bad(ch, &bad));
        quiesce();
    } else {
        // instead of the answer to its request to join
        let bad = match choose(2) {
            0 => mutate("two", SelectorMode::Unicast),
            _ => {
                let a = wire::bin([wire::Ack::Ok([7; 16]), wire::Ack::ErrVersion((1, 2, 3)), wire::Ack::ErrToken][choose(3)].clone());
                let n = choose(a.len());
                let sel = wire::bin(wire::sel(LabelOp::True, SelectorMode::Unicast, wire::ACK));
                Bad { what: format!("answer cut to {n} bytes"), data: wire::frame(&sel, &a[..n]), objs: vec![] }
            }
        };
        note!("malformed: {}", bad.what);
        // an answer of an incompatible version is a definite one
        if bad.data.len() >= 4 && !(bad.data[0] == 0xff && bad.data[1] == wire::ver(ipmb::version()).0 && bad.data[2] == wire::ver(ipmb::version()).1) {
            return;
        }
        (c, ch) = admit(Some(&bad)).unwrap_or_else(|| fail!("no connection", ""));
        pass(ms(2100));
    }
    // the endpoint goes on with this connection, or with a new one
    at(1, || wire::send(ch, &good(1001), &[]));
    quiesce();
    if !got.get().contains(&1001) {
        at(1, || {
            wire::close(c);
            wire::close(ch);
        });
        (c, ch) = admit(None).unwrap_or_else(|| fail!("the endpoint stops serving", "it neither receives nor reconnects"));
        at(1, || wire::send(ch, &good(1001), &[]));
        quiesce();
    }
    check!(got.get().contains(&1001), "the endpoint stops serving", "received {:?}", got.get());
    send(2, tx.get().as_ref().unwrap_or_else(|| fail!("the endpoint stops serving", "not joined")), uni("x"), m(5));
    at(1, || match wire::recv(c) {
        wire::Got::Packet(b, _) => {
            let n = wire::parse(&b).and_then(|(_, _, p)| wire::unbin::<M>(&p)).map(|m| m.n);
            check!(n == Some(5), "the endpoint sends something else", "{n:?}");
        }
        _ => fail!("the endpoint stops serving", "it does not send"),
    });
}

/// The memory of a region becomes shorter after it has been sent: while the message waits in the controller (0),
/// before the endpoint has received it (1), after it has (2).
fn shrink(arg: u32) {
    explore_on(false);
    let id = ident("shrink");
    let (t1, mut r1) = join(1, &id, "host all");
    let (t2, mut r2) = join(2, &id, "two all");
    let conn = at(9, || wire::connect(&id));
    let mut q = wire::sel(LabelOp::from(if arg == 0 { "later" } else { "two" }), SelectorMode::Unicast, wire::M_UUID);
    q.regions = 1;
    q.ttl = Duration::from_secs(5);
    let fd = at(9, || object("memfd-ok"));
    at(9, || wire::send(conn, &wire::frame(&wire::bin(q), &wire::bin(mp(77, 5))), &[fd]));
    quiesce();
    let held = if arg == 2 { at(2, || r2.recv(Some(Duration::ZERO)).ok()) } else { None };
    unsafe { libc::ftruncate(fd, 0) };
    drop(held);
    let g = take(2, &mut r2);
    obs(g.len() as u64);
    let later = Sh::new(None);
    let id2 = id.clone();
    spawn(4, "later", move || *later.get() = Some(join(4, &id2, "later")));
    quiesce();
    serves(&id, (1, &t1, &mut r1), (2, &t2, &mut r2));
}

pub fn c12(t: Tier) -> Vec<Scn> {
    let _ = t;
    vec![
        scn("C12/bus", bus, 0, "every mutation, sent to the bus by a process that has not joined", data()),
        scn("C12/bus-joined", bus, 1, "every mutation, sent to the bus by a joined process", data()),
        scn("C12/bus-multicast", bus, 3, "every mutation of a multicast", data()),
        scn("C12/connects", connects, 0, "every mutation of a request to join, every reply channel", data()),
        scn("C12/endpoint", endpoint, 0, "every mutation, sent to an endpoint over its channel", data()),
        scn("C12/answer", endpoint, 1, "every mutation, instead of the answer to a join", data()),
        scn("C12/shrink-waiting", shrink, 0, "a region's memory is cut while the message waits in the controller", data()),
        scn("C12/shrink-queued", shrink, 1, "a region's memory is cut before the message is received", data()),
        scn("C12/shrink-held", shrink, 2, "a region's memory is cut after the message was received", data()),
    ]
}
