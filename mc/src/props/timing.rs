//! C11: timeouts of recv and join, in virtual time.
use super::form::opts;
use ipmb::{JoinError, Message, RecvError};
use mc::{bus::*, check, eng, explore::*, fail, note, rt::*, wire, *};
use std::time::Duration;

/// What a wait may take longer than asked: the resolution of the system's wait calls.
const GRAIN: Duration = Duration::from_millis(1);
/// What a join may add for the handshake with a controller.
const HANDSHAKE: Duration = Duration::from_secs(2);

fn timeouts() -> Vec<Duration> {
    let n = Duration::from_nanos;
    vec![
        n(0),
        n(1),
        n(999_999),
        n(1_000_000),
        n(1_500_000),
        n(2_000_000_000),
        n(2_000_000_001),
        Duration::from_secs(60),
        // around what fits into the milliseconds of an int, and into 32 bits
        Duration::from_millis(i32::MAX as u64 - 1),
        Duration::from_millis(i32::MAX as u64),
        Duration::from_millis(i32::MAX as u64 + 1),
        Duration::from_millis(u32::MAX as u64),
        Duration::from_millis(u32::MAX as u64 + 3),
        Duration::from_secs(5_000_000_000),
        Duration::from_secs(i64::MAX as u64 / 1000),
        Duration::from_secs(i64::MAX as u64),
        Duration::from_secs(u64::MAX),
        Duration::MAX,
    ]
}
/// Longer than any test waits.
fn endless(t: Duration) -> bool {
    t > Duration::from_secs(4_000_000_000)
}

/// One endpoint waits with a timeout; others do things at certain times of the wait.
fn waits(_: u32) {
    explore_on(false);
    let id = ident("wait");
    let role = choose(3);
    let (t1, r1) = join(1, &id, "host all");
    let (t2, r2) = join(2, &id, "two all");
    // role 0: the endpoint of the controller, 1: another one, 2: another one after a reconnect
    let (mut rx, p, _keep) = match role {
        0 => (r1, 1, (t1, t2)),
        1 => (r2, 2, (t1, t2)),
        _ => {
            let (t3, r3) = join(3, &id, "three");
            quiesce();
            kill(1);
            std::mem::forget((t1, r1));
            let (id, what) = (id.clone(), r3);
            // process 3 reconnects first and becomes the controller
            let mut r3 = what;
            at(3, || check!(matches!(r3.recv(Some(ms(1))), Err(RecvError::Timeout)), "recv failed", ""));
            std::mem::forget(r3);
            let _ = id;
            let mut r2 = r2;
            at(2, || check!(matches!(r2.recv(Some(ms(1))), Err(RecvError::Timeout)), "recv failed", ""));
            quiesce();
            (r2, 2, (t3, t2))
        }
    };
    let to = &if p == 1 { "host" } else { "two" };
    let all = timeouts();
    let t = all[choose(all.len())];
    let dist = choose(6);
    let step = if endless(t) { Duration::from_secs(1000) } else { t / 4 };
    // another endpoint that sends what is asked for
    let other: ipmb::EndpointSender<ipmb::BytesMessage> = at(5, || {
        let mut o = opts(&id, "other", false);
        o.label = lab("other");
        ipmb::join::<ipmb::BytesMessage, M>(o, None).unwrap_or_else(|e| fail!("join failed", "{e:?}")).0
    });
    let good = at(5, || ipmb::join::<M, M>(opts(&id, "good", false), None).unwrap_or_else(|e| fail!("join failed", "{e:?}")).0);
    quiesce();
    let junk = |o: &ipmb::EndpointSender<ipmb::BytesMessage>, to: &str| {
        at(5, || o.send(Message::new(uni(to), ipmb::BytesMessage { format: 0, data: vec![] })).unwrap_or_else(|e| fail!("send failed", "{e:?}")))
    };
    let stop = Sh::new(false);
    note!("role {role}, timeout {t:?}, disturbance {dist}");
    let t0 = now();
    let to2 = to.to_string();
    let junks = move |n: u32, o: ipmb::EndpointSender<ipmb::BytesMessage>| {
        spawn(5, "junk", move || {
            for _ in 0..n {
                std::thread::sleep(step);
                if *stop.get() {
                    break;
                }
                junk(&o, &to2);
            }
            std::mem::forget(o);
        })
    };
    match dist {
        0 => std::mem::forget((other, good)),
        // unwanted messages, also beyond the end
        1 => {
            junks(12, other);
            std::mem::forget(good);
        }
        // a message in the middle, after unwanted ones
        2 => {
            junks(1, other);
            let to2 = to.to_string();
            spawn(5, "good", move || {
                std::thread::sleep(step * 2);
                send(5, &good, uni(to2.as_str()), m(7));
                std::mem::forget(good);
            });
        }
        // waiting already, behind unwanted ones
        3 => {
            junk(&other, to);
            junk(&other, to);
            send(5, &good, uni(*to), m(7));
            quiesce();
            std::mem::forget((other, good));
        }
        // too late
        4 => {
            let to2 = to.to_string();
            spawn(5, "good", move || {
                std::thread::sleep(t.saturating_add(ms(10)));
                send(5, &good, uni(to2.as_str()), m(7));
                std::mem::forget(good);
            });
            std::mem::forget(other);
        }
        // other endpoints come and go
        _ => {
            let id = id.clone();
            spawn(6, "guest", move || {
                for _ in 0..2 {
                    std::thread::sleep(step);
                    let e = at(6, || ipmb::join::<M, M>(opts(&id, "guest", false), Some(ms(100))));
                    drop(e);
                }
            });
            std::mem::forget((other, good));
        }
    }
    let res = Sh::new(None);
    let f = spawn(p, "waiter", move || {
        let r = rx.recv(Some(t));
        *res.get() = Some((r.map(|m| m.payload.n), now()));
        std::mem::forget(rx);
    });
    if endless(t) {
        // nothing but a message ends it
        pass(Duration::from_secs(3_000_000));
        let must = dist == 2 || dist == 3;
        check!(f.is_set() == must, if must { "a waiting message was not received" } else { "recv returned before its timeout" }, "timeout {t:?}: {:?}", res.get());
        obs(must as u64);
        return;
    }
    f.wait();
    *stop.get() = true;
    let (r, end) = res.get().take().unwrap();
    let took = end - t0;
    note!("{r:?} after {took:?}");
    match r {
        Ok(n) => {
            check!(n == 7 && (dist == 2 || dist == 3), "a wrong message", "{n}");
            check!(took <= t.saturating_add(GRAIN), "recv returned after its timeout", "timeout {t:?}, returned after {took:?}");
        }
        Err(RecvError::Timeout) => {
            check!(dist != 3 && (dist != 2 || t < ms(4)), "a waiting message was not received", "timeout {t:?}");
            check!(took >= t, "recv returned before its timeout", "timeout {t:?}, returned after {took:?}");
            check!(took <= t.saturating_add(GRAIN), "recv returned after its timeout", "timeout {t:?}, returned after {took:?}");
        }
        Err(e) => fail!("recv failed", "{e:?}"),
    }
    obs(dist as u64);
}

/// Joins with every timeout, to buses that exist, do not, appear in time or too late, or do not answer.
fn joining(_: u32) {
    explore_on(false);
    let id = ident("jt");
    let all = timeouts();
    let t = all[choose(all.len())];
    // (a join tries every two seconds)
    let endless = |t: Duration| t > Duration::from_secs(600);
    let kind = choose(7);
    let affinity = choose(2) == 1;
    note!("timeout {t:?}, case {kind}, allowed {affinity}");
    let half = if endless(t) { Duration::from_secs(100) } else { t / 2 };
    let mut appears = None;
    match kind {
        0 => {}
        1 => std::mem::forget(join(1, &id, "host")),
        2 | 3 => {
            // appears in the middle or after the end
            let d = if kind == 2 { half } else { t.saturating_add(ms(5000)) };
            appears = Some(d);
            let id = id.clone();
            if d < Duration::from_secs(1 << 40) {
                spawn(1, "late host", move || {
                    std::thread::sleep(d);
                    std::mem::forget(join(1, &id, "host"));
                });
            }
        }
        4 | 5 => {
            // accepts connections or not, but never answers
            let l = at(1, || wire::listen(&id));
            if kind == 4 {
                spawn(1, "silent", move || loop {
                    wire::accept(l);
                });
            }
        }
        _ => {
            // closes every connection
            let l = at(1, || wire::listen(&id));
            spawn(1, "closing", move || loop {
                wire::close(wire::accept(l));
            });
        }
    }
    quiesce();
    let t0 = now();
    let res = Sh::new(None);
    let id2 = id.clone();
    let f = spawn(2, "joiner", move || {
        let r = ipmb::join::<M, M>(opts(&id2, "two", affinity), Some(t));
        *res.get() = Some((r, now()));
    });
    if endless(t) {
        pass(Duration::from_secs(600));
    } else {
        f.wait();
    }
    let can = affinity && (kind == 0 || kind == 2 || kind == 3) || kind == 1;
    match res.get().take() {
        None => {
            check!(!can && kind != 2, "a join that can succeed does not", "case {kind}, timeout {t:?}");
        }
        Some((r, end)) => {
            let took = end - t0;
            match r {
                Ok(e) => {
                    std::mem::forget(e);
                    check!(can || appears.is_some(), "a join that cannot succeed did", "case {kind}");
                    if can {
                        check!(took <= GRAIN, "a join that can succeed at once took long", "{took:?}");
                    }
                    check!(took <= t.saturating_add(HANDSHAKE), "join returned after its timeout", "timeout {t:?}, returned after {took:?}");
                }
                Err(JoinError::Timeout) => {
                    check!(!can, "a join that can succeed timed out", "case {kind}, timeout {t:?}");
                    check!(took >= t, "join returned before its timeout", "timeout {t:?}, returned after {took:?}");
                    check!(took <= t.saturating_add(HANDSHAKE).saturating_add(GRAIN), "join returned after its timeout", "timeout {t:?}, returned after {took:?}");
                    if let Some(d) = appears {
                        check!(t < d.saturating_add(Duration::from_secs(3)), "a join that can succeed timed out", "case {kind}, timeout {t:?}");
                    }
                }
                Err(e) => {
                    // who never answers is taken for another version in the end
                    check!(matches!(e, JoinError::VersionMismatch(_)) && kind >= 4, "wrong error of a join", "case {kind}: {e:?}");
                    check!(took <= t.saturating_add(HANDSHAKE).saturating_add(GRAIN), "join returned after its timeout", "timeout {t:?}, returned after {took:?}");
                }
            }
        }
    }
    obs(kind as u64);
}

/// Signals interrupt the waits of recv (without timeout, with one) and join.
fn signals(arg: u32) {
    explore_on(false);
    let id = ident("sig");
    let (t1, mut r1) = join(1, &id, "host all");
    let case = choose(4);
    let mut two = if case < 3 { Some(join(2, &id, "two all")) } else { None };
    quiesce();
    unsafe { eng::mc_faults(eng::F_EINTR_EPOLL, 0b110, 0, arg as i32) }
    explore_on(true);
    let t0 = now();
    match case {
        // nothing comes
        0 => {
            let r = at(2, || two.as_mut().unwrap().1.recv(Some(ms(5000))).map(|m| m.payload.n));
            let took = now() - t0;
            check!(matches!(r, Err(RecvError::Timeout)), "wrong result of recv", "{r:?}");
            check!(took >= ms(5000), "recv returned before its timeout", "after {took:?} of 5 s");
            check!(took <= ms(5000) + GRAIN, "recv returned after its timeout", "after {took:?} of 5 s");
        }
        // something comes, with and without timeout
        1 | 2 => {
            spawn(1, "sender", move || {
                std::thread::sleep(ms(20_000));
                send(1, &t1, uni("two"), m(7));
                std::mem::forget(t1);
            });
            let r = at(2, || two.as_mut().unwrap().1.recv(if case == 1 { None } else { Some(ms(30_000)) }).map(|m| m.payload.n));
            match r {
                Ok(7) => check!(now() - t0 == ms(20_000), "received late", "{:?}", now() - t0),
                Err(RecvError::Timeout) if case == 1 => fail!("a recv without timeout reports one", ""),
                Err(RecvError::Timeout) => fail!("recv returned before its timeout", "after {:?} of 30 s", now() - t0),
                r => fail!("wrong result of recv", "{r:?}"),
            }
        }
        _ => {
            let e = at(2, || ipmb::join::<M, M>(opts(&id, "two", true), Some(ms(5000))));
            let e = e.unwrap_or_else(|e| fail!("join failed", "{e:?}"));
            check!(now() - t0 <= ms(10), "a join that can succeed at once took long", "{:?}", now() - t0);
            two = Some(e);
        }
    }
    unsafe { eng::mc_faults(0, 0, 0, 0) }
    explore_on(false);
    // and the controller, whose waits were interrupted too, still serves
    let two = two.as_ref().unwrap();
    send(2, &two.0, uni("host"), m(9));
    quiesce();
    check!(nums(&drain(1, &mut r1)) == [9], "message lost", "");
    obs(case as u64);
}

/// recv with a timeout while the endpoint reconnects: the controller is dead, a successor may appear later or
/// never; another thread of the endpoint may be the one who reconnects.
fn reconnects(arg: u32) {
    explore_on(false);
    let id = ident("rec");
    let h = join(1, &id, "host");
    let (t2, mut r2) = at(2, || ipmb::join::<M, M>(opts(&id, "two", false), None).unwrap_or_else(|e| fail!("join failed", "{e:?}")));
    quiesce();
    let t = [ms(0), ms(1), ms(700), ms(2500), ms(9000)][choose(5)];
    let when = choose(3); // the controller dies before, in the middle of, or just before the end of the wait
    let succ = [None, Some(ms(300)), Some(ms(3000))][choose(3)];
    let senders = arg;
    note!("timeout {t:?}, death {when}, successor {succ:?}, {senders} sending threads");
    std::mem::forget(h);
    let death = [Duration::ZERO, t / 2, t.saturating_sub(ms(1))][when];
    let die = move || {
        kill(1);
        if let Some(s) = succ {
            let id = id.clone();
            spawn(3, "successor", move || {
                std::thread::sleep(s);
                std::mem::forget(join(3, &id, "three"));
            });
        }
    };
    let t0 = now();
    if when == 0 {
        die();
    } else {
        spawn(4, "death", move || {
            std::thread::sleep(death);
            die();
        });
    }
    explore_on(true);
    for k in 0..senders {
        let tx = at(2, || t2.clone());
        spawn(2, &format!("send{k}"), move || {
            // (may wait for a controller for ever)
            if when != 0 {
                std::thread::sleep(death);
            }
            let _ = tx.send(Message::new(uni("three"), m(k)));
            std::mem::forget(tx);
        });
    }
    let res = Sh::new(None);
    let f = spawn(2, "waiter", move || {
        let r = r2.recv(Some(t)).map(|m| m.payload.n);
        *res.get() = Some((r, now() - t0));
        std::mem::forget(r2);
    });
    pass(t + Duration::from_secs(60));
    check!(f.is_set(), "recv with a timeout does not return", "timeout {t:?}, not after 60 s more");
    let (r, took) = res.get().take().unwrap();
    match r {
        Err(RecvError::Timeout) => {
            check!(took >= t, "recv returned before its timeout", "timeout {t:?}, returned after {took:?}");
        }
        r => fail!("wrong result of recv", "{r:?}"),
    }
    check!(took <= t + HANDSHAKE + GRAIN, "recv returned after its timeout", "timeout {t:?}, returned after {took:?}");
    obs(took.as_millis() as u64);
    std::mem::forget(t2);
}

/// The controller is held up (it waits for an endpoint that does not read), and so many endpoints try to join
/// that the queue of connections is full. All give up in time, and afterwards the bus serves everybody.
fn crowded(n: u32) {
    explore_on(false);
    let id = ident("crowded");
    let (t1, mut r1) = join(1, &id, "host all");
    let (t2, mut r2) = join(2, &id, "two all");
    let full = 20;
    spawn(1, "sender", move || {
        for k in 0..full {
            send(1, &t1, uni("two"), m(k));
        }
        std::mem::forget(t1);
    });
    quiesce();
    let n = [1, 33, 34, n][choose(4)] as i32;
    let t = [Some(ms(0)), Some(ms(1)), Some(ms(3000)), Some(Duration::from_secs(60)), None][choose(5)];
    note!("{n} endpoints join with timeout {t:?}");
    let t0 = now();
    let res: Vec<_> = (0..n).map(|_| Sh::new(None)).collect();
    let joiners: Vec<_> = (0..n)
        .map(|k| {
            let (id, r) = (id.clone(), res[k as usize].clone());
            spawn(4 + k % 8, "joiner", move || {
                let x = ipmb::join::<M, M>(opts(&id, "late", k % 2 == 0), t);
                *r.get() = Some((x, now()));
            })
        })
        .collect();
    let stuck = [Duration::from_secs(1), Duration::from_secs(7), Duration::from_secs(90)][choose(3)];
    pass(stuck);
    let over = now() - t0;
    for (k, r) in res.iter().enumerate() {
        match r.get() {
            None => check!(t.is_none_or(|t| t + HANDSHAKE >= over), "join returned after its timeout", "joiner {k}: timeout {t:?}, not returned after {over:?}"),
            Some((Ok(_), _)) => fail!("a join that cannot succeed did", "joiner {k}"),
            Some((Err(e), at)) => {
                let took = *at - t0;
                match t {
                    // who does not answer is taken for another version in the end
                    _ if matches!(e, JoinError::VersionMismatch(_)) => check!(took >= HANDSHAKE * 5, "wrong error of a join", "joiner {k}: {e:?} after {took:?}"),
                    Some(t) => {
                        check!(matches!(e, JoinError::Timeout), "wrong error of a join", "joiner {k}: {e:?}");
                        check!(took >= t, "join returned before its timeout", "joiner {k}: timeout {t:?}, returned after {took:?}");
                        check!(took <= t + HANDSHAKE + GRAIN, "join returned after its timeout", "joiner {k}: timeout {t:?}, returned after {took:?}");
                    }
                    None => fail!("a join without timeout ended", "joiner {k}: {e:?} after {took:?}"),
                }
            }
        }
    }
    // the receiver reads, and the bus goes on
    let mut got = vec![];
    at(2, || loop {
        match r2.recv(Some(ms(1))) {
            Ok(v) => got.push(v.payload.n),
            Err(RecvError::Timeout) => break,
            Err(e) => fail!("recv failed", "{e:?}"),
        }
    });
    check!(got == (0..full).collect::<Vec<_>>(), "messages are lost", "{got:?}");
    for f in joiners {
        f.wait();
    }
    let mut late = 0;
    for r in &res {
        match r.get() {
            Some((Ok(_), _)) => late += 1,
            Some((Err(JoinError::Timeout | JoinError::VersionMismatch(_)), _)) => (),
            Some((Err(e), _)) => fail!("wrong error of a join", "{e:?}"),
            None => fail!("harness", "joined threads have no result"),
        }
    }
    if t.is_none_or(|t| t > over + Duration::from_secs(5)) && over < HANDSHAKE * 5 {
        check!(late == n, "a join that can succeed does not", "{late} of {n}");
    }
    let (t3, mut r3) = join(3, &id, "three");
    quiesce();
    send(3, &t3, multi("all"), m(100));
    send(2, &t2, uni("three"), m(101));
    quiesce();
    check!(nums(&drain(3, &mut r3)) == [101] && nums(&drain(1, &mut r1)) == [100] && nums(&drain(2, &mut r2)) == [100], "the bus does not serve its endpoints", "");
    std::mem::forget(res);
    obs(late as u64);
}

pub fn c11(t: Tier) -> Vec<Scn> {
    vec![
        scn("C11/recv", waits, 0, "all timeouts of the boundary set, endpoints and disturbances", data()),
        scn("C11/join", joining, 0, "all timeouts of the boundary set, states of the bus, permissions", data()),
        scn("C11/crowded", crowded, t.pick(60, 80), "many endpoints join while the controller is held up", Cfg { sndbuf: 1, ..data() }),
        scn("C11/signals", signals, t.pick(3, 5), "signals interrupt the waits at any points", faulty(t.pick(1, 2), t.pick(3, 5))),
        scn("C11/reconnect", reconnects, 0, "the controller dies before or during the wait", Cfg { prune: true, ..sched(t.pick(1, 2)) }),
        scn("C11/reconnect-send", reconnects, 1, "the same while another thread of the endpoint sends", sched(t.pick(2, 4))),
        scn("C11/reconnect-sends", reconnects, 2, "the same while two other threads of the endpoint send", sched(t.pick(2, 3))),
    ]
}
