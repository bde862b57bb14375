//! C16: descriptors and mappings are released exactly once and not inherited.
use super::form::{controllers, opts};
use super::hostile::object;
use ipmb::{JoinError, MemoryRegion, Message, Object, RecvError};
use mc::{bus::*, check, eng, explore::*, fail, note, rt::*, wire, *};
use std::time::Duration;

fn fds(p: i32) -> i32 {
    unsafe { eng::mc_fd_count(p) }
}
fn maps() -> i32 {
    unsafe { eng::mc_maps() }
}
fn closes(what: &str) {
    unsafe {
        check!(eng::mc_bad_close() == 0, "a descriptor was closed twice or by somebody else", "{what}: {} bad closes", eng::mc_bad_close());
        check!(eng::mc_bad_unmap() == 0, "memory was unmapped that was not mapped", "{what}: {} bad unmaps", eng::mc_bad_unmap());
        let mut b = [0 as libc::c_char; 64];
        let n = eng::mc_non_cloexec(b.as_mut_ptr(), 64);
        if n != 0 {
            let op = std::ffi::CStr::from_ptr(b.as_ptr()).to_string_lossy().into_owned();
            fail!(format!("a descriptor is inherited by started programs: {op}"), "{what}: {n} descriptors without close-on-exec, the first from {op}");
        }
    }
}
fn obj() -> Object {
    unsafe { Object::from_raw(object("memfd-ok")) }
}
fn msg(sel: ipmb::Selector, n: u32, nobj: usize, nreg: usize) -> Message<M> {
    let mut v = Message::new(sel, m(n));
    for _ in 0..nobj {
        v.objects.push(obj());
    }
    for _ in 0..nreg {
        v.memory_regions.push(MemoryRegion::new(64).expect("region"));
    }
    v
}
fn post(p: i32, tx: &Tx, v: Message<M>) {
    at(p, || {
        if let Err(e) = tx.send(v) {
            fail!("send failed", "{e:?}");
        }
    })
}
/// Brings a bus to the state in which its controller has noticed whatever left, and returns how many descriptors
/// the controller's process holds.
fn settle(id: &str, ctl: i32) -> i32 {
    for _ in 0..2 {
        pass(Duration::from_secs(31));
        let e = at(15, || match ipmb::join::<M, M>(opts(id, "temporary", false), Some(ms(3000))) {
            Ok(e) => e,
            Err(e) => fail!("join failed", "the controller does not serve any more: {e:?}"),
        });
        at(15, || drop(e));
        quiesce();
    }
    check!(fds(15) == 0, "an endpoint that left keeps descriptors", "{} descriptors", fds(15));
    fds(ctl)
}
/// What a controller process holds when its endpoint has gone and nobody else is there.
fn idle_controller() -> i32 {
    let id = ident("idle");
    let e = join(14, &id, "x");
    at(14, || drop(e));
    quiesce();
    settle(&id, 14)
}

/// Nothing the library opens in ordinary use is inherited by started programs.
fn cloexec(_: u32) {
    explore_on(false);
    let id = ident("exec");
    let (t1, mut r1) = join(1, &id, "host all");
    closes("becoming controller");
    let (t2, mut r2) = join(2, &id, "two all");
    closes("joining");
    let mut o = opts(&id, "three", true);
    o.token = "wrong".into();
    check!(matches!(at(3, || ipmb::join::<M, M>(o, None)), Err(JoinError::TokenMismatch)), "joined with a wrong token", "");
    quiesce();
    closes("a refused join");
    for (p, tx) in [(1, &t1), (2, &t2)] {
        for to in ["host", "two", "all"] {
            post(p, tx, at(p, || msg(multi(to), 1, 2, 1)));
            quiesce();
            closes("sending");
            for (q, rx) in [(1, &mut r1), (2, &mut r2)] {
                at(q, || loop {
                    match rx.recv(Some(Duration::ZERO)) {
                        Ok(v) => {
                            for r in &v.memory_regions {
                                drop(r.clone());
                            }
                            for o in &v.objects {
                                drop(o.clone());
                            }
                        }
                        Err(_) => break,
                    }
                });
                closes("receiving");
            }
        }
    }
    kill(1);
    let mut o = at(2, || r2.recv(Some(ms(5000))));
    closes("becoming controller later");
    if let Ok(v) = &mut o {
        v.objects.clear();
    }
}

/// Every sequence of operations; then everything is dropped and nothing may be left.
fn seq(depth: u32) {
    explore_on(false);
    let idle = idle_controller();
    let m0 = maps();
    let id = ident("seq");
    let (t1, r1) = join(1, &id, "host all");
    let mut r1 = Some(r1);
    let (t3, r3) = join(3, &id, "sender");
    let mut a: Option<(Tx, Option<Rx>)> = None;
    let mut kept: Vec<Message<M>> = vec![];
    let mut n = 0;
    // processes that have received something they keep
    for _ in 0..depth {
        n += 1;
        match choose(16) {
            0 => {
                if a.is_some() {
                    return;
                }
                note!("two joins");
                let (t, r) = join(2, &id, "two all");
                a = Some((t, Some(r)));
            }
            1 => {
                let Some(e) = a.take() else { return };
                note!("two leaves");
                at(2, || drop(e));
            }
            2 => {
                let Some((_, r @ Some(_))) = &mut a else { return };
                note!("two drops its receiver");
                at(2, || drop(r.take()));
            }
            3 => {
                let Some((_, Some(r))) = &mut a else { return };
                note!("two receives");
                at(2, || match r.recv(Some(Duration::ZERO)) {
                    Ok(v) => kept.push(v),
                    Err(RecvError::Timeout) => {}
                    Err(RecvError::Decode(_)) => {}
                    Err(e) => fail!("recv failed", "{e:?}"),
                });
            }
            4 => {
                if a.is_none() {
                    return;
                }
                note!("two dies");
                at(2, || kept.clear());
                kill(2);
                std::mem::forget(a.take());
                return; // (its mappings cannot be told apart: see `die`)
            }
            5 => post(3, &t3, at(3, || msg(uni("two"), n, 2, 1))),
            6 => post(3, &t3, at(3, || msg(multi("all"), n, 1, 1))),
            7 => post(3, &t3, at(3, || msg(ttl(uni("two"), ms(5000)), n, 1, 1))),
            8 => post(3, &t3, at(3, || msg(uni("nobody"), n, 1, 2))),
            9 => {
                note!("a message too large for the transport");
                at(3, || {
                    let mut v = msg(multi("all"), n, 1, 1);
                    v.payload.pad = vec![1; 300_000];
                    check!(t3.send(v).is_err(), "a message too large was sent", "");
                });
            }
            10 => {
                note!("too many objects");
                at(3, || check!(t3.send(msg(multi("all"), n, 254, 1)).is_err(), "254 objects were sent", ""));
            }
            11 => {
                note!("a message of a type nobody declared");
                at(3, || {
                    let v = msg(multi("all"), n, 1, 1);
                    wrong_type(&id, v);
                });
            }
            12 => {
                if r1.is_none() {
                    return;
                }
                note!("the host drops its receiver");
                at(1, || drop(r1.take()));
            }
            13 => {
                let Some(r) = &mut r1 else { return };
                at(1, || match r.recv(Some(Duration::ZERO)) {
                    Ok(v) => drop(v),
                    Err(RecvError::Timeout) => {}
                    Err(e) => fail!("recv failed", "{e:?}"),
                });
            }
            14 => post(1, &t1, at(1, || msg(multi("all"), n, 1, 1))),
            _ => {
                note!("time passes");
                pass(ms(6000));
            }
        }
        quiesce();
    }
    at(2, || kept.clear());
    at(2, || drop(a));
    at(3, || drop((t3, r3)));
    at(1, || drop((t1, r1)));
    quiesce();
    for p in 2..=4 {
        check!(fds(p) == 0, "descriptors are left after everything was dropped", "process {p} holds {}", fds(p));
    }
    let left = settle(&id, 1);
    check!(left == idle, "the controller keeps descriptors", "{left} instead of {idle}");
    check!(maps() == m0, "mappings are left after everything was dropped", "{} instead of {m0}", maps());
    closes("at the end");
    obs(n as u64);
}
fn wrong_type(id: &str, v: Message<M>) {
    // a short-lived endpoint of another process that sends another type
    let e = at(4, || ipmb::join::<ipmb::BytesMessage, M>(opt(id, "other"), None).unwrap_or_else(|e| fail!("join failed", "{e:?}")));
    quiesce();
    let mut b = Message::new(multi("all"), ipmb::BytesMessage { format: 1, data: vec![] });
    // attachments made by process 3
    drop(v);
    at(4, || {
        b.objects.push(obj());
        b.memory_regions.push(MemoryRegion::new(64).expect("region"));
        e.0.send(b).unwrap_or_else(|e| fail!("send failed", "{e:?}"));
    });
    quiesce();
    at(4, || drop(e));
}

/// Joins that fail, for every reason.
fn failed(_: u32) {
    explore_on(false);
    let idle = idle_controller();
    let m0 = maps();
    let id = ident("fail");
    let kind = choose(8);
    let affinity = choose(2) == 0;
    let me = wire::ver(ipmb::version());
    let s = |uuid, p: &[u8]| wire::frame(&wire::bin(wire::sel(ipmb::LabelOp::True, ipmb::SelectorMode::Unicast, uuid)), p);
    // a controller that answers the given packet, if any, to every request
    let answer: Option<Option<Vec<u8>>> = match kind {
        0 | 1 => None,
        2 => Some(None),
        3 => Some(Some(s(wire::ACK, &wire::bin(wire::Ack::ErrVersion((me.0 + 1, 0, 0)))))),
        4 => Some(Some(s(wire::ACK, &wire::bin(wire::Ack::ErrToken)))),
        5 => Some(Some(s(wire::M_UUID, &[]))),
        6 => Some(Some(vec![1, 2, 3])),
        _ => Some(Some(vec![])),
    };
    let mut host = None;
    if kind == 0 {
        host = Some(join(1, &id, "host"));
    }
    if let Some(answer) = answer {
        let l = at(1, || wire::listen(&id));
        spawn(1, "false controller", move || loop {
            let c = wire::accept(l);
            let mut p = libc::pollfd { fd: c, events: libc::POLLIN, revents: 0 };
            unsafe { libc::poll(&mut p, 1, -1) };
            if let wire::Got::Packet(_, f) = wire::recv(c) {
                if let Some(a) = &answer {
                    if a.is_empty() {
                        wire::close(c);
                    } else {
                        wire::send(f[0], a, &[]);
                    }
                }
                for x in f {
                    wire::close(x);
                }
            }
        });
    }
    quiesce();
    let mut o = opts(&id, "x", affinity);
    if kind == 0 {
        o.token = "wrong".into();
    }
    let wait = [ms(0), ms(2500), ms(30_000)][choose(3)];
    note!("joins, case {kind}, allowed {affinity}, timeout {wait:?}");
    let r = at(2, || ipmb::join::<M, M>(o, Some(wait)));
    quiesce();
    match r {
        Ok(_) if kind == 1 && affinity => return,
        Ok(_) => fail!("a join that cannot succeed did", "case {kind}"),
        Err(e) => {
            note!("{e:?}");
            obs_s(&format!("{kind}{e:?}"));
        }
    }
    check!(fds(2) == 0, "a failed join leaves descriptors", "case {kind}: {}", fds(2));
    check!(maps() == m0, "a failed join leaves mappings", "case {kind}");
    if host.is_some() {
        at(1, || drop(host));
        quiesce();
        let left = settle(&id, 1);
        check!(left == idle, "a refused join leaves descriptors in the controller", "{left} instead of {idle}");
    }
    closes("failed join");
}

/// Descriptors run out at every point (of one process) while endpoints join, send, receive and leave.
fn scarce(arg: u32) {
    explore_on(false);
    let idle = idle_controller();
    let m0 = maps();
    let id = ident("few");
    let (t1, mut r1) = join(1, &id, "host all");
    let (t2, mut r2) = join(2, &id, "two all");
    unsafe { eng::mc_faults(eng::F_EMFILE | eng::F_ENOBUFS, if arg == 0 { !2 } else { 2 }, 0, 2) }
    explore_on(true);
    let e3 = at(3, || ipmb::join::<M, M>(opts(&id, "three all", true), Some(ms(9000))));
    quiesce();
    let v = at(2, || msg(multi("all"), 1, 2, 1));
    let _ = at(2, || t2.send(v));
    quiesce();
    let mut e3 = match e3 {
        Ok(e) => Some(e),
        Err(JoinError::Timeout) => None,
        Err(e) => fail!("join failed", "{e:?}"),
    };
    let got2 = at(2, || r2.recv(Some(ms(10))));
    let got3 = e3.as_mut().map(|e| at(3, || e.1.recv(Some(ms(10)))));
    let got1 = at(1, || r1.recv(Some(ms(10))));
    explore_on(false);
    unsafe { eng::mc_faults(0, 0, 0, 0) }
    obs(got1.is_ok() as u64 + 2 * got2.is_ok() as u64 + 4 * matches!(got3, Some(Ok(_))) as u64);
    at(1, || drop(got1));
    at(2, || drop(got2));
    at(3, || drop(got3));
    pass(ms(3000));
    // and everything works again
    send(2, &t2, uni("host"), m(5));
    quiesce();
    check!(nums(&drain(1, &mut r1)).last() == Some(&5), "the bus does not recover", "");
    at(2, || drop((t2, r2)));
    at(3, || drop(e3));
    at(1, || drop((t1, r1)));
    quiesce();
    for p in 2..=3 {
        check!(fds(p) == 0, "descriptors are left after everything was dropped", "process {p} holds {}", fds(p));
    }
    let left = settle(&id, 1);
    check!(left == idle, "the controller keeps descriptors", "{left} instead of {idle}");
    check!(maps() == m0, "mappings are left after everything was dropped", "{} instead of {m0}", maps());
    closes("at the end");
}

/// The descriptor limit lets only some of the attachments of a message in.
fn truncated(_: u32) {
    explore_on(false);
    let idle = idle_controller();
    let m0 = maps();
    let id = ident("cut");
    let (t1, mut r1) = join(1, &id, "host all");
    let (t2, mut r2) = join(2, &id, "two all");
    let to_host = choose(2) == 0;
    let (nobj, nreg) = [(1, 0), (3, 0), (0, 1), (2, 2)][choose(4)];
    let room = choose(nobj + nreg + 2);
    note!("{nobj} objects and {nreg} regions with room for {room}");
    let v = at(if to_host { 2 } else { 1 }, || msg(uni(if to_host { "host" } else { "two" }), 1, nobj, nreg));
    if to_host {
        // the controller runs out of descriptors
        at(2, || check!(t2.send(v).is_ok(), "send failed", ""));
        unsafe { eng::mc_cut(1, room as i32) }
        quiesce();
    } else {
        post(1, &t1, v);
        quiesce();
        unsafe { eng::mc_cut(2, room as i32) }
        let r = at(2, || r2.recv(Some(ms(1))));
        obs(matches!(r, Ok(_)) as u64);
        if let Ok(v) = &r {
            check!(v.objects.len() == nobj && v.memory_regions.len() == nreg, "attachments are missing", "{} objects, {} regions", v.objects.len(), v.memory_regions.len());
        }
        at(2, || drop(r));
    }
    pass(ms(3000));
    let _ = at(2, || r2.recv(Some(ms(3000))));
    quiesce();
    // and everything works again
    for k in [5, 6] {
        send(2, &t2, uni("host"), m(k));
        quiesce();
    }
    let g = nums(&drain(1, &mut r1));
    check!(g.ends_with(&[5, 6]), "the bus does not recover", "{g:?}");
    send(1, &t1, uni("two"), m(7));
    quiesce();
    let g = nums(&drain(2, &mut r2));
    check!(g.ends_with(&[7]), "the bus does not recover", "{g:?}");
    at(2, || drop((t2, r2)));
    at(1, || drop((t1, r1)));
    quiesce();
    check!(fds(2) == 0, "descriptors are left after everything was dropped", "process 2 holds {}", fds(2));
    let left = settle(&id, 1);
    check!(left == idle, "the controller keeps descriptors", "{left} instead of {idle}");
    check!(maps() == m0, "mappings are left after everything was dropped", "{} instead of {m0}", maps());
    closes("at the end");
}

/// Handles are dropped while the others are in use and messages are under way.
fn race(arg: u32) {
    explore_on(false);
    let idle = idle_controller();
    let m0 = maps();
    let id = ident("race");
    let (t1, r1) = join(1, &id, "host");
    let (t2, r2) = join(2, &id, "two all");
    let (t3, r3) = join(3, &id, "three all");
    quiesce();
    let mut fl = vec![];
    explore_on(true);
    let send2 = move |p: i32, name: &'static str, tx: Tx, to: &'static str| {
        let v = at(p, || msg(multi(to), p as u32 * 100, 1, 1));
        spawn(p, name, move || {
            if let Err(e) = tx.send(v) {
                fail!("send failed", "{e:?}");
            }
            drop(tx);
        })
    };
    let drop_it = |p: i32, name: &'static str, rx: Rx| spawn(p, name, move || drop(rx));
    let take = |p: i32, name: &'static str, mut rx: Rx| {
        spawn(p, name, move || {
            let v = rx.recv(Some(ms(6000)));
            drop(rx);
            drop(v);
        })
    };
    match arg {
        // receivers go while messages arrive
        0 => {
            fl.push(send2(3, "send", t3, "all"));
            fl.push(drop_it(2, "drop rx2", r2));
            at(2, || drop(t2));
            fl.push(take(3, "recv3", r3));
        }
        // sender and receiver of one endpoint go at the same time
        1 => {
            fl.push(send2(2, "send", t2, "all"));
            fl.push(take(2, "recv2", r2));
            fl.push(take(3, "recv3", r3));
            at(3, || drop(t3));
        }
        // the host leaves while messages are routed to it
        2 => {
            fl.push(send2(3, "send", t3, "host"));
            fl.push(drop_it(1, "drop rx1", r1));
            fl.push(drop_it(3, "drop rx3", r3));
            fl.push(take(2, "recv2", r2));
            at(2, || drop(t2));
            for f in fl {
                f.wait();
            }
            explore_on(false);
            at(1, || drop(t1));
            end_of(&id, idle, m0, 1);
            return;
        }
        // the controller dies: its successor and the others start again
        _ => {
            fl.push(send2(2, "send", t2, "all"));
            fl.push(take(2, "recv2", r2));
            fl.push(take(3, "recv3", r3));
            at(3, || drop(t3));
            kill(1);
            std::mem::forget((t1, r1));
            for f in fl {
                f.wait();
            }
            explore_on(false);
            quiesce();
            pass(ms(10_000));
            let c = controllers(8);
            for p in 2..=3 {
                if !c.contains(&p) {
                    check!(fds(p) == 0, "descriptors are left after everything was dropped", "process {p} holds {}", fds(p));
                }
            }
            if c.len() == 1 {
                let left = settle(&id, c[0]);
                check!(left == idle, "the controller keeps descriptors", "{left} instead of {idle}");
            }
            closes("at the end");
            return;
        }
    }
    for f in fl {
        f.wait();
    }
    explore_on(false);
    at(1, || drop((t1, r1)));
    end_of(&id, idle, m0, 1);
}
fn end_of(id: &str, idle: i32, m0: i32, ctl: i32) {
    quiesce();
    for p in 2..=3 {
        check!(fds(p) == 0, "descriptors are left after everything was dropped", "process {p} holds {}", fds(p));
    }
    let left = settle(id, ctl);
    check!(left == idle, "the controller keeps descriptors", "{left} instead of {idle}");
    check!(maps() == m0, "mappings are left after everything was dropped", "{} instead of {m0}", maps());
    closes("at the end");
}

/// Objects and regions on their own: clones, conversions, drops.
fn values(depth: u32) {
    explore_on(false);
    let m0 = maps();
    let mut objs: Vec<Object> = vec![];
    let mut regs: Vec<MemoryRegion> = vec![];
    let mut raw: Vec<i32> = vec![];
    let done = at(1, || {
        for _ in 0..depth {
            match choose(10) {
                0 => objs.push(obj()),
                1 => regs.push(MemoryRegion::new(5000).expect("region")),
                2 => match objs.last() {
                    Some(o) => objs.push(o.clone().expect("clone")),
                    None => return false,
                },
                3 => match regs.last() {
                    Some(r) => regs.push(r.clone().expect("clone")),
                    None => return false,
                },
                4 => match objs.pop() {
                    Some(o) => raw.push(o.into_raw()),
                    None => return false,
                },
                5 => match raw.pop() {
                    Some(r) => objs.push(unsafe { Object::from_raw(r) }),
                    None => return false,
                },
                6 => match regs.last_mut() {
                    Some(r) => {
                        let _ = r.map(100..200).map(|s| s[0] = 1);
                        let _ = r.map(4080..4090).map(|s| s[0] = 1);
                        let _ = r.map(4990..5000).map(|s| s[0] = 1);
                        let _ = r.map(..4090).map(|s| s[0] = 1);
                        let _ = r.map(..).map(|s| s[0] = 1);
                        let _ = r.map(4990..5001);
                    }
                    None => return false,
                },
                7 => match regs.last() {
                    Some(r) => regs.push(MemoryRegion::from_object(r.object().clone().expect("clone"))),
                    None => return false,
                },
                8 => {
                    if objs.is_empty() {
                        return false;
                    }
                    objs.remove(0);
                }
                _ => {
                    if regs.is_empty() {
                        return false;
                    }
                    regs.remove(0);
                }
            }
            let want = (objs.len() + regs.len() + raw.len()) as i32;
            check!(fds(1) == want, "handles and descriptors do not correspond", "{} descriptors for {want} handles", fds(1));
        }
        objs.clear();
        regs.clear();
        for r in raw.drain(..) {
            wire::close(r);
        }
        true
    });
    if !done {
        return;
    }
    check!(fds(1) == 0, "descriptors are left after everything was dropped", "{}", fds(1));
    check!(maps() == m0, "mappings are left after everything was dropped", "{} instead of {m0}", maps());
    closes("at the end");
}

/// Ranges at every place around a page boundary, of regions of every size around one.
fn ranges(_: u32) {
    explore_on(false);
    let m0 = maps();
    let edge = [1usize, 4083, 4084, 4085, 4096, 4097, 8179, 8180, 8181, 8192, 9000];
    let size = edge[choose(edge.len())];
    let at_ = |i: usize| [0, 1, 4083, 4084, 4085, 4096, 4097, 8180, 8181, size][i];
    let (a, b) = (at_(choose(10)), at_(choose(10)));
    if a > b || b > size {
        return;
    }
    at(1, || {
        let mut r = MemoryRegion::new(size).expect("region");
        if choose(2) == 1 {
            let c = r.clone().expect("clone");
            drop(std::mem::replace(&mut r, c));
        }
        for _ in 0..2 {
            if let Ok(s) = r.map(a..b) {
                s.iter_mut().for_each(|x| *x = 7);
            }
        }
        closes("mapping");
        drop(r);
    });
    check!(fds(1) == 0, "descriptors are left after everything was dropped", "{}", fds(1));
    check!(maps() == m0, "mappings are left after everything was dropped", "{} instead of {m0}", maps());
    closes("at the end");
    obs(a as u64);
}

/// Regions that cannot be created or mapped, and descriptors or memory that run out, leave nothing.
fn impossible(_: u32) {
    explore_on(false);
    let m0 = maps();
    let big = [usize::MAX, usize::MAX - 11, usize::MAX - 12, usize::MAX / 2, usize::MAX / 2 - 12, usize::MAX / 2 + 1, 1 << 62, 1 << 45, 1 << 47];
    let s = big[choose(big.len())];
    let kind = choose(5);
    let faults = kind < 4 && choose(2) == 1;
    let n = at(1, || {
        if faults {
            unsafe { eng::mc_faults(eng::F_NOMEM | eng::F_EMFILE, 2, 0, 2) }
            explore_on(true);
        }
        let s = if faults { 5000 } else { s };
        let mut n = 0;
        match kind {
            0 => {
                if let Some(mut r) = MemoryRegion::new(s) {
                    n += r.map(..).is_ok() as u32;
                    n += r.map(0..1).is_ok() as u32;
                    n += r.map(s - 1..s).is_ok() as u32;
                }
            }
            1 => {
                let mut reg = ipmb::MemoryRegistry::default();
                for tag in [None, Some("a"), None] {
                    if let Some(mut r) = reg.alloc(s, tag) {
                        n += r.map(..).is_ok() as u32;
                    }
                }
                check!(reg.alloc(10, None).is_some() || faults, "no allocation", "after one of {s}");
            }
            2 => {
                let mut reg = ipmb::MemoryRegistry::default();
                let a = reg.alloc_with_free(s, None, || ());
                let b = reg.alloc_with_free(s, None, || ());
                n += a.is_some() as u32 + b.is_some() as u32;
                drop(reg);
            }
            3 => {
                if let Some(r) = MemoryRegion::new(s) {
                    let c = r.clone();
                    let o = r.object().clone();
                    n += c.is_ok() as u32 + o.is_ok() as u32;
                    // (without resources this is a panic: the function cannot fail)
                    if let (Ok(o), false) = (o, faults) {
                        let mut q = MemoryRegion::from_object(o);
                        n += q.map(..10).is_ok() as u32;
                    }
                    drop(r);
                    if let Ok(mut c) = c {
                        n += c.map(..10).is_ok() as u32;
                    }
                }
            }
            _ => {
                // a region that claims to be larger than it is
                let mut q = MemoryRegion::from_object(obj());
                n += q.map(..).is_ok() as u32;
                n += q.map(s - 1..s).is_ok() as u32;
                n += q.map(0..s).is_ok() as u32;
            }
        }
        explore_on(false);
        unsafe { eng::mc_faults(0, 0, 0, 0) }
        n
    });
    check!(fds(1) == 0, "descriptors are left after everything was dropped", "{}, case {kind}", fds(1));
    check!(maps() == m0, "mappings are left after everything was dropped", "{} instead of {m0}, case {kind}", maps());
    closes("at the end");
    obs(n as u64);
}

pub fn c16(t: Tier) -> Vec<Scn> {
    vec![
        scn("C16/cloexec", cloexec, 0, "every call that opens or receives descriptors", data()),
        scn("C16/values", values, t.pick(5, 6), "all sequences of operations on objects and regions", data()),
        scn("C16/ranges", ranges, 0, "ranges around page boundaries, regions of sizes around one", data()),
        scn("C16/impossible", impossible, 0, "regions of impossible sizes; descriptors or memory run out at any call", faulty(2, 2)),
        scn("C16/failed", failed, 0, "joins that fail for each reason, with each timeout", data()),
        scn("C16/truncated", truncated, 0, "the descriptor limit cuts the attachments of a message at each point", data()),
        scn("C16/scarce", scarce, 1, "descriptors or kernel memory run out at any call of the controller", faulty(t.pick(1, 2), 2)),
        scn("C16/scarce-clients", scarce, 0, "descriptors or kernel memory run out at any calls of the others", faulty(t.pick(1, 2), 2)),
        scn("C16/race-recv", race, 0, "a receiver dropped while a message arrives", sched(t.pick(2, 3))),
        scn("C16/race-both", race, 1, "sender and receiver of an endpoint dropped while used", sched(t.pick(2, 3))),
        scn("C16/race-host", race, 2, "the host's handles dropped while used", sched(t.pick(2, 3))),
        scn("C16/race-die", race, 3, "handles dropped while the controller dies", sched(t.pick(2, 3))),
        scn("C16/seq", seq, t.pick(4, 5), "all sequences of joins, sends, failures, receives, drops and time", data()),
    ]
}
