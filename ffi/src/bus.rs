//! The bus through the C calls: what arrives, results, timeouts, threads.
use crate::{attach::data_cfg, c::*};
use ipmb::{BytesMessage, Message};
use mc::{bus::{lab, multi, ttl, uni}, check, eng, explore::*, fail, guard, note, rt::*, wire, *};
use std::{ptr, time::Duration};

type LTx = ipmb::EndpointSender<BytesMessage>;
type LRx = ipmb::EndpointReceiver<BytesMessage>;
fn ljoin(proc: i32, id: &str, label: &str) -> (LTx, LRx) {
    at(proc, || ipmb::join::<BytesMessage, BytesMessage>(ipmb::Options::new(id, lab(label), "tok"), None).unwrap_or_else(|e| fail!("join failed", "{e:?}")))
}
fn ldrain(proc: i32, rx: &mut LRx) -> Vec<(u16, Vec<u8>)> {
    let mut v = vec![];
    at(proc, || loop {
        match rx.recv(Some(Duration::ZERO)) {
            Ok(m) => v.push((m.payload.format, m.payload.data)),
            Err(ipmb::RecvError::Timeout) => break,
            Err(e) => fail!("recv failed", "{e:?}"),
        }
    });
    v
}
fn bytes(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 + (i >> 8) * 7 + 3) as u8).collect()
}

/// Every format, size, mode and route between users of C and of the library.
fn contents(cpp: u32) {
    explore_on(false);
    through_cpp(cpp == 1);
    guard::on();
    let id = ident("cdata");
    let first = choose(2);
    let mk = |p: i32, l: &str| join(p, &id, l);
    let (mut c1, mut l1, mut c2, mut l2);
    if first == 0 {
        c1 = mk(1, "c1 c all");
        l1 = ljoin(2, &id, "l1 l all");
    } else {
        l1 = ljoin(2, &id, "l1 l all");
        c1 = mk(1, "c1 c all");
    }
    c2 = mk(3, "c2 c all");
    l2 = ljoin(4, &id, "l2 l all");
    quiesce();
    let n = [0, 1, 3, 4, 250, 251, 65535, 65536, 100_000, 130_000][choose(10)];
    let format = [0, 1, 250, 251, 256, 65535][choose(6)];
    let d = bytes(n);
    let to = ["c1", "c2", "l1", "l2", "c", "l", "all", "nobody"];
    for t in to {
        for m in [false, true] {
            for from in 0..4 {
                note!("{n} bytes, format {format} from {from} to {t}, multicast {m}");
                match from {
                    0 | 2 => {
                        let msg = at(1 + from, || {
                            if n == 0 && m {
                                // nothing at all
                                unsafe {
                                    let op = ipmb_label_op_leaf(cs(t).as_ptr());
                                    let x = ipmb_message(Selector { label_op: &op, mode: 1, ttl: 0 }, format, ptr::null(), 0);
                                    ipmb_label_op_drop(op);
                                    return x;
                                }
                            }
                            message(t, m, 0, format, &d)
                        });
                        check!(payload(&msg) == (format, d.clone()), "wrong data", "in a new message");
                        send(1 + from, if from == 0 { &mut c1.0 } else { &mut c2.0 }, msg);
                    }
                    _ => at(1 + from, || {
                        let msg = Message::new(if m { multi(t) } else { uni(t) }, BytesMessage { format, data: d.clone() });
                        (if from == 1 { &l1.0 } else { &l2.0 }).send(msg).unwrap_or_else(|e| fail!("send failed", "{e:?}"))
                    }),
                }
                quiesce();
                let got = [drain(1, &mut c1.1), ldrain(2, &mut l1.1), drain(3, &mut c2.1), ldrain(4, &mut l2.1)];
                let matching: Vec<bool> = [["c1", "c", "all"], ["l1", "l", "all"], ["c2", "c", "all"], ["l2", "l", "all"]].iter().map(|l| l.contains(&t)).collect();
                let total: usize = got.iter().map(|g| g.len()).sum();
                let want = matching.iter().filter(|&&x| x).count();
                check!(total == if m { want } else { want.min(1) }, "wrong number of copies", "to {t}, multicast {m}: {total} of {want}");
                for (i, g) in got.iter().enumerate() {
                    check!(g.len() <= matching[i] as usize, "a message at the wrong endpoint", "to {t}: at {i}");
                    check!(g.iter().all(|x| *x == (format, d.clone())), "wrong data", "{n} bytes, format {format}");
                }
            }
        }
    }
    check!(unsafe { eng::mc_bad_close() } == 0, "a descriptor is closed twice", "");
    obs(n as u64 * 100_000 + format as u64);
    std::mem::forget((l1, l2));
}

/// The time to live is in milliseconds, and zero means not to wait.
fn lives(cpp: u32) {
    explore_on(false);
    through_cpp(cpp == 1);
    let id = ident("cttl");
    let (mut t1, _r1) = join(1, &id, "one");
    quiesce();
    let t = [0, 1, 200, 1000, 5000, 100_000_000, u32::MAX][choose(7)];
    let m = choose(2) == 1;
    let delta = [-300i64, -1, 1, 300][choose(4)];
    let after = Duration::from_millis((t as i64 + delta).max(0) as u64);
    let lib = choose(2) == 1;
    note!("ttl {t} ms, an endpoint after {after:?}");
    let msg = message("late", m, t, 5, b"hello");
    send(1, &mut t1, msg);
    pass(after);
    let mut got = if lib {
        let (t, mut r) = ljoin(2, &id, "late");
        quiesce();
        std::mem::forget(t);
        ldrain(2, &mut r)
    } else {
        let (_t, mut r) = join(2, &id, "late");
        quiesce();
        drain(2, &mut r)
    };
    // the bus checks expiry at its own pace: no verdict close to it
    if t == 0 || (delta < 0 && t >= 300) || delta == 300 {
        let want = t != 0 && delta < 0;
        let g = got.pop();
        check!(got.is_empty(), "duplicate", "");
        check!(g == want.then(|| (5, b"hello".to_vec())), if want { "message lost within its time to live" } else { "message kept beyond its time to live" }, "ttl {t} ms, {after:?}: {g:?}");
    }
    obs(t as u64 * 1000 + (delta + 500) as u64);
}

/// Joins that fail: the code, the time, nothing written, nothing left.
fn joins(cpp: u32) {
    explore_on(false);
    through_cpp(cpp == 1);
    let id = ident("cjoin");
    let case = choose(8);
    let half = choose(4); // which out-parameters are asked for
    let me = wire::ver(ipmb::version());
    let mut keep = None;
    let mut lfd = -1;
    match case {
        0 | 1 | 5 | 6 => {
            let mut h = (BAD, BAD);
            let c = at(1, || join_code(id.as_bytes(), b"tok", "host", true, INF, &mut h.0, &mut h.1));
            check!(c == 0, "join failed", "code {c}");
            keep = Some(h);
        }
        2 | 3 | 7 => lfd = at(1, || wire::listen(&id)),
        _ => {}
    }
    quiesce();
    let timeout = match case {
        4 | 7 => [0, 1, 250, 2500][choose(4)],
        _ => [INF, 0, 60_000][choose(3)],
    };
    // a timeout of zero may also run out
    let (mut tx, mut rx) = (BAD, BAD);
    let (ptx, prx): (*mut H, *mut H) = (if half & 1 == 0 { &mut tx } else { ptr::null_mut() }, if half & 2 == 0 { &mut rx } else { ptr::null_mut() });
    let t0 = now();
    let res = Sh::new(None);
    let (p1, p2) = (ptx as usize, prx as usize);
    let id2 = id.clone();
    let f = spawn(3, "join", move || {
        let tok: &[u8] = match case {
            1 => b"wrong",
            5 => b"\xff\xfe",
            _ => b"tok",
        };
        let mut name = id2.into_bytes();
        if case == 6 {
            name.push(0x80);
        }
        let c = join_code(&name, tok, "three all", false, timeout, p1 as *mut H, p2 as *mut H);
        *res.get() = Some((c, now()));
    });
    if lfd >= 0 && case != 7 {
        for _ in 0..8 {
            quiesce();
            if f.is_set() {
                break;
            }
            at(1, || {
                let mut p = libc::pollfd { fd: lfd, events: libc::POLLIN, revents: 0 };
                if unsafe { libc::poll(&mut p, 1, 0) } != 1 {
                    return;
                }
                let cfd = wire::accept(lfd);
                quiesce();
                let fds = match wire::recv(cfd) {
                    wire::Got::Packet(_, f) => f,
                    _ => fail!("no connect message", ""),
                };
                let sel = wire::bin(wire::sel(ipmb::LabelOp::True, ipmb::SelectorMode::Unicast, wire::ACK));
                let a = if case == 2 { wire::Ack::ErrVersion((me.0, me.1 + 1, 0)) } else { wire::Ack::ErrToken };
                wire::send(fds[0], &wire::frame_v(me, &sel, &wire::bin(a)), &[]);
                for fd in fds {
                    wire::close(fd);
                }
                wire::close(cfd);
            });
            if !f.is_set() {
                pass(ms(500));
            }
        }
    }
    if timeout != INF {
        pass(Duration::from_millis(timeout as u64) + Duration::from_secs(3));
    }
    quiesce();
    check!(f.is_set(), "join does not return", "case {case}, timeout {timeout}");
    let (c, t) = res.get().take().unwrap();
    let took = t - t0;
    note!("case {case}: code {c} after {took:?}");
    let allowed: &[i32] = match case {
        0 => &[0],
        1 | 3 => &[-5],
        2 => &[-4],
        4 | 7 => &[-2],
        _ => &[-1],
    };
    check!(allowed.contains(&c) || (timeout == 0 && c == -2), "wrong error code", "case {case}, timeout {timeout}: {c}");
    if c == -2 {
        check!(took >= Duration::from_millis(timeout as u64) && took <= Duration::from_millis(timeout as u64 + 2100), "a timeout is not in milliseconds", "{timeout}: {took:?}");
    } else {
        check!(took < ms(600), "not decided promptly", "{took:?}");
    }
    check!((tx != BAD) == (c == 0 && half & 1 == 0), "the out-parameters disagree with the result", "code {c}");
    check!((rx != BAD) == (c == 0 && half & 2 == 0), "the out-parameters disagree with the result", "code {c}");
    if c == 0 {
        if tx != BAD {
            at(3, || unsafe { ipmb_sender_drop(tx) });
        }
        if rx != BAD {
            at(3, || unsafe { ipmb_receiver_drop(rx) });
        }
        quiesce();
    }
    check!(unsafe { eng::mc_fd_count(3) } == 0, "a descriptor is left", "{}", unsafe { eng::mc_fd_count(3) });
    check!(unsafe { eng::mc_bad_close() } == 0, "a descriptor is closed twice", "");
    let _ = keep;
    obs(case as u64 * 10 + (c + 6) as u64);
}

/// What a receive returns.
fn recvs(cpp: u32) {
    explore_on(false);
    through_cpp(cpp == 1);
    guard::on();
    let id = ident("crecv");
    let (mut t1, _r1) = join(1, &id, "host");
    let (t2, mut r2) = join(2, &id, "two");
    quiesce();
    let raw = wire::Raw::join(3, &id, "tok", lab("raw"));
    quiesce();
    let case = choose(5);
    let timeout = [0, 1, 300, 4000, INF][choose(5)];
    let late = choose(2) == 1; // it arrives while the receive waits
    if timeout == INF && case == 0 || late && timeout < 300 {
        return;
    }
    let me = wire::ver(ipmb::version());
    let mut bad_sel = wire::sel(ipmb::LabelOp::from("two"), ipmb::SelectorMode::Unicast, wire::BYTES);
    bad_sel.ttl = Duration::ZERO;
    let mut give = move |case: usize| match case {
        0 => {}
        1 => {
            let msg = message("two", false, 0, 5, b"good");
            send(1, &mut t1, msg)
        }
        // a payload that does not decode
        2 => check!(at(3, || wire::send(raw.conn, &wire::frame_v(me, &wire::bin(&bad_sel), &[5, 200, 1, 2]), &[])), "harness", "raw send"),
        // of another type: skipped
        _ => {
            let mut s = wire::sel(ipmb::LabelOp::from("two"), ipmb::SelectorMode::Unicast, [9; 16]);
            s.ttl = Duration::ZERO;
            check!(at(3, || wire::send(raw.conn, &wire::frame_v(me, &wire::bin(&s), &[1, 2, 3, 4]), &[])), "harness", "raw send");
            if case == 4 {
                let msg = message("two", false, 0, 5, b"good");
                quiesce();
                send(1, &mut t1, msg)
            }
        }
    };
    if timeout == INF && case == 3 {
        return;
    }
    if !late {
        give(case);
        quiesce();
    }
    let t0 = now();
    let out = Sh::new((BAD, -99, t0));
    let f = spawn(2, "recv", move || unsafe {
        let mut m = BAD;
        let c = recv_code(&mut r2, &mut m, timeout);
        *out.get() = (m, c, now());
    });
    quiesce();
    if late {
        check!(!f.is_set(), "recv returned before its timeout", "timeout {timeout}");
        pass(ms(100));
        give(case);
        quiesce();
    }
    if timeout != INF {
        pass(Duration::from_millis(timeout as u64) + ms(200));
    }
    quiesce();
    check!(f.is_set(), "recv does not return", "case {case}, timeout {timeout}");
    let (m, c, t) = *out.get();
    let took = t - t0;
    let want = match case {
        0 | 3 => -2,
        2 => -3,
        _ => 0,
    };
    check!(c == want, "wrong error code", "case {case}, timeout {timeout}: {c} instead of {want}");
    check!((m != BAD) == (c == 0), "the out-parameter disagrees with the result", "code {c}");
    if c == 0 {
        check!(payload(&m) == (5, b"good".to_vec()), "wrong data", "{:?}", payload(&m));
        unsafe { ipmb_message_drop(m) };
    }
    if c == -2 {
        let t = Duration::from_millis(timeout as u64);
        check!(took >= t && took <= t + ms(150), "a timeout is not in milliseconds", "{timeout}: {took:?}");
    } else {
        check!(took <= ms(150), "a receive is late", "{took:?}");
    }
    obs(case as u64 * 100 + timeout as u64 % 97 + late as u64);
    let _ = t2;
}

/// The controller is replaced by one that refuses.
fn refused(cpp: u32) {
    explore_on(false);
    through_cpp(cpp == 1);
    let id = ident("crefuse");
    let lfd = at(1, || wire::listen(&id));
    let me = wire::ver(ipmb::version());
    let sel = wire::bin(wire::sel(ipmb::LabelOp::True, ipmb::SelectorMode::Unicast, wire::ACK));
    let case = choose(2);
    let by = choose(2); // who finds out: recv or send
    let h = Sh::new((BAD, BAD));
    let res = Sh::new(vec![]);
    let broken = Flag::new();
    let id2 = id.clone();
    let f = spawn(3, "user", move || unsafe {
        let (t, r) = h.get();
        let c = join_code(id2.as_bytes(), b"tok", "three", false, INF, t, r);
        check!(c == 0, "join failed", "code {c}");
        if by == 1 {
            broken.wait();
        }
        for _ in 0..2 {
            if by == 0 {
                let mut m = BAD;
                let c = recv_code(r, &mut m, INF);
                check!(m == BAD, "an out-parameter is written on failure", "");
                res.get().push(c);
            } else {
                let m = message("x", false, 0, 1, b"x");
                res.get().push(send_code(t, m));
            }
        }
    });
    let mut conns = vec![];
    for round in 0..5 {
        quiesce();
        if f.is_set() {
            break;
        }
        at(1, || {
            let mut p = libc::pollfd { fd: lfd, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 0) } == 1 {
                let cfd = wire::accept(lfd);
                quiesce();
                if let wire::Got::Packet(_, fds) = wire::recv(cfd) {
                    let a = if round == 0 {
                        wire::Ack::Ok([3; 16])
                    } else if case == 0 {
                        wire::Ack::ErrToken
                    } else {
                        wire::Ack::ErrVersion((me.0, me.1 + 1, 0))
                    };
                    wire::send(fds[0], &wire::frame_v(me, &sel, &wire::bin(a)), &[]);
                    if round == 0 {
                        conns = fds;
                        conns.push(cfd);
                        quiesce();
                        // the first connection breaks
                        for fd in conns.drain(..) {
                            wire::close(fd);
                        }
                        broken.set();
                    } else {
                        for fd in fds {
                            wire::close(fd);
                        }
                        wire::close(cfd);
                    }
                }
            }
        });
        pass(ms(500));
    }
    check!(f.is_set(), "a call does not return", "{:?}", res.get());
    let want = if case == 0 { -5 } else { -4 };
    check!(res.get().iter().all(|&c| c == want), "wrong error code", "{:?} instead of {want}", res.get());
    obs(case as u64 * 2 + by as u64);
    let _ = (ttl, lfd);
}

/// Threads that share handles: a receiver blocked in C, senders, and drops.
fn threads(arg: u32) {
    explore_on(false);
    guard::on();
    let id = ident("cthr");
    let (t1, r1) = join(1, &id, "one all");
    let (t2, r2) = join(2, &id, "two all");
    quiesce();
    let (t1, r1, t2) = (Sh::new(t1), Sh::new(r1), Sh::new(t2));
    let got = Sh::new(vec![]);
    explore_on(true);
    let n = 2 + arg as usize;
    let f = spawn(1, "recv", move || unsafe {
        for _ in 0..n {
            let mut m = BAD;
            let c = recv_code(r1.get(), &mut m, INF);
            check!(c == 0 && m != BAD, "recv failed", "code {c}");
            got.get().push(payload(&m).0);
            ipmb_message_drop(m);
        }
        ipmb_receiver_drop(*r1.get());
    });
    let g = spawn(1, "send1", move || {
        for k in 0..arg as u16 {
            let msg = message("one", false, 0, 10 + k, b"");
            send(1, t1.get(), msg);
        }
        unsafe { ipmb_sender_drop(*t1.get()) };
    });
    let h = spawn(2, "send2", move || {
        for k in 0..2 {
            let msg = message("all", true, 0, 20 + k, b"q");
            send(2, t2.get(), msg);
        }
    });
    g.wait();
    h.wait();
    f.wait();
    explore_on(false);
    quiesce();
    for lo in [10, 20] {
        let v: Vec<u16> = got.get().iter().copied().filter(|x| x / 10 * 10 == lo).collect();
        let want: Vec<u16> = (lo..lo + if lo == 10 { arg as u16 } else { 2 }).collect();
        check!(v == want, "lost or reordered", "{:?}", got.get());
    }
    let mut r2 = r2;
    check!(drain(2, &mut r2).len() == 2, "lost or reordered", "");
    check!(unsafe { eng::mc_bad_close() } == 0, "a descriptor is closed twice", "");
    for x in got.get().iter() {
        obs(*x as u64);
    }
}

pub fn scns(t: Tier) -> Vec<Scn> {
    vec![
        scn("C20/contents", contents, 0, "all formats and sizes of the boundary set on all routes between users of C and of the library", data_cfg()),
        scn("C20/ttl", lives, 0, "times to live of the boundary set and endpoints before and after them", data_cfg()),
        scn("C20/join", joins, 0, "every way a join ends", data_cfg()),
        scn("C20/recv", recvs, 0, "every way a receive ends", data_cfg()),
        scn("C20/refused", refused, 0, "a connection that cannot be restored", data_cfg()),
        scn("C20/cc-contents", contents, 1, "the contents, with the users of C being users of C++", data_cfg()),
        scn("C20/cc-ttl", lives, 1, "the times to live, through C++", data_cfg()),
        scn("C20/cc-join", joins, 1, "every way a join in C++ ends", data_cfg()),
        scn("C20/cc-recv", recvs, 1, "every way a receive in C++ ends", data_cfg()),
        scn("C20/cc-refused", refused, 1, "a connection that cannot be restored, in C++", data_cfg()),
        scn("C20/threads", threads, 1, "handles used by several threads", sched(t.pick(2, 3))),
    ]
}
