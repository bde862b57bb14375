//! C07 (election), C08 (death of the controller), C09 (death of another endpoint).
use ipmb::{JoinError, Message, Options};
use mc::{bus::*, check, eng, explore::*, fail, note, rt::*, wire, *};
use std::time::Duration;

pub fn opts(id: &str, label: &str, affinity: bool) -> Options {
    let mut o = opt(id, label);
    o.controller_affinity = affinity;
    o
}
/// As in a host that does not ignore SIGPIPE (anything but a Rust program).
pub fn sigpipe_default() {
    unsafe {
        libc::signal(libc::SIGPIPE, libc::SIG_DFL);
    }
}
pub fn controllers(n: i32) -> Vec<i32> {
    // a process whose driver threads have ended keeps only the thread of its bus controller
    (1..=n).filter(|&p| unsafe { eng::mc_threads_alive(p) } > 0).collect()
}

/// Every endpoint multicasts to all; each must get exactly one copy of each.
pub fn one_bus(eps: &mut [(i32, Tx, Rx)], base: u32) {
    for (k, (p, tx, _)) in eps.iter().enumerate() {
        send(*p, tx, multi(ipmb::LabelOp::True), m(base + k as u32 * 100));
        quiesce();
    }
    let want: Vec<u32> = (0..eps.len()).map(|k| base + k as u32 * 100).collect();
    for (p, _, rx) in eps.iter_mut() {
        let mut g: Vec<u32> = nums(&drain(*p, rx)).into_iter().filter(|n| *n >= base).collect();
        g.sort();
        check!(g == want, "endpoints are not on one bus", "endpoint of process {p} received {g:?} instead of {want:?}");
    }
}

struct J {
    proc: i32,
    affinity: bool,
    delay: Duration,
}
fn joins(js: &[J], limit: Duration) -> Vec<(i32, Tx, Rx)> {
    let id = ident("form");
    let out = Sh::new(vec![]);
    let took = Sh::new(vec![]);
    let t0 = now();
    let mut flags = vec![];
    for (k, j) in js.iter().enumerate() {
        let (p, a, d) = (j.proc, j.affinity, j.delay);
        let id = id.clone();
        flags.push(spawn(p, &format!("join{k}"), move || {
            if !d.is_zero() {
                std::thread::sleep(d);
            }
            match ipmb::join::<M, M>(opts(&id, &format!("e{k}"), a), None) {
                Ok((t, r)) => out.get().push((p, t, r)),
                Err(e) => fail!("join failed", "join of process {p}: {e:?}"),
            }
            took.get().push((p, now() - t0));
        }));
    }
    for f in flags {
        f.wait();
    }
    explore_on(false);
    quiesce();
    for (p, d) in took.get().iter() {
        check!(*d <= limit, "join took too long", "process {p} joined after {d:?}");
        obs(*p as u64 * 1000 + d.as_millis() as u64);
    }
    std::mem::take(out.get())
}
fn elect(arg: u32) {
    explore_on(false);
    let z = Duration::ZERO;
    let j = |proc, affinity| J { proc, affinity, delay: z };
    let js = match arg {
        0 => vec![j(1, true), j(2, true)],
        1 => vec![j(1, true), j(2, true), j(3, true)],
        2 => vec![j(1, true), j(1, true)],
        3 => vec![j(1, false), j(2, true)],
        4 => vec![j(1, false), j(2, false), J { proc: 3, affinity: true, delay: ms(3000) }],
        5 => vec![j(1, true), j(2, false), j(3, true)],
        6 => (1..=12).map(|p| j(p, p % 3 != 0)).collect(),
        _ => vec![j(1, true), j(2, true)],
    };
    if arg == 7 {
        unsafe { eng::mc_faults(eng::F_TIMER, !0, 0, 1) }
    }
    explore_on(true);
    let mut eps = joins(&js, Duration::from_secs(if arg == 7 { 12 } else if arg == 4 { 8 } else { 5 }));
    let c = controllers(12);
    check!(c.len() == 1 && (js.len() != 2 || js[0].proc != js[1].proc || unsafe { eng::mc_threads_alive(1) } == 1), "not exactly one controller", "controllers {c:?}");
    check!(js.iter().any(|j| j.proc == c[0] && j.affinity), "an endpoint became controller without being allowed to", "controllers {c:?}");
    obs(c[0] as u64);
    one_bus(&mut eps, 1000);
}
/// Sequential joins of every combination of permissions, with timeouts.
fn perms(n: u32) {
    explore_on(false);
    let id = ident("perm");
    let mut eps: Vec<(i32, Tx, Rx)> = vec![];
    let mut formed = false;
    for k in 0..n as i32 {
        let a = choose(2) == 1;
        let t = [None, Some(ms(0)), Some(ms(1)), Some(ms(2500))][choose(4)];
        if t.is_none() && !a && !formed {
            return; // would wait for ever, as it should
        }
        let p = k + 1;
        let t0 = now();
        note!("process {p} joins, allowed {a}, timeout {t:?}");
        let r = at(p, || ipmb::join::<M, M>(opts(&id, "x", a), t));
        match r {
            Ok((tx, rx)) => {
                check!(formed || a, "joined a bus nobody controls", "process {p}");
                check!(now() - t0 < ms(100), "join took too long", "{:?}", now() - t0);
                formed = true;
                eps.push((p, tx, rx));
            }
            Err(JoinError::Timeout) => check!(!formed && !a, "join timed out", "process {p} with timeout {t:?} although a controller exists or could be made"),
            Err(e) => fail!("join failed", "process {p}: {e:?}"),
        }
        // while nobody controls, a later join must still be able to
        obs(formed as u64);
    }
    let c = controllers(n as i32);
    check!(c.len() == formed as usize, "not exactly one controller", "{c:?}");
    one_bus(&mut eps, 1000);
}
/// The controller dies and leaves only endpoints that may not become one, each in every state; a later one may.
fn shy(arg: u32) {
    explore_on(false);
    let id = ident("shy");
    let j = |p: i32, a: bool, t: Option<Duration>| at(p, || ipmb::join::<M, M>(opts(&id, "x", a), t));
    let ok = |p: i32, a: bool| match j(p, a, Some(ms(9000))) {
        Ok((t, r)) => (p, t, r),
        Err(e) => fail!("join failed", "process {p}: {e:?}"),
    };
    let host = ok(1, true);
    let mut eps = vec![ok(2, false), ok(3, false)];
    quiesce();
    explore_on(true);
    kill(1);
    std::mem::forget(host);
    let mut flags = vec![];
    for (p, tx, rx) in eps.iter_mut() {
        let p = *p;
        match choose(4) {
            0 => {}
            1 => {
                note!("process {p} waits for a message");
                match at(p, || rx.recv(Some(ms(3000)))) {
                    Err(ipmb::RecvError::Timeout) => {}
                    r => fail!("received something", "{:?}", r.map(|v| v.payload.n)),
                }
            }
            2 => {
                note!("process {p} sends");
                let tx = tx.clone();
                flags.push((p, spawn(p, "send", move || {
                    send(p, &tx, multi("nobody"), m(1));
                    std::mem::forget(tx);
                })));
                quiesce();
            }
            _ => {
                note!("process {p} sends with a lifetime");
                let tx = tx.clone();
                flags.push((p, spawn(p, "send", move || {
                    send(p, &tx, ttl(uni("nobody"), ms(1000)), m(1));
                    std::mem::forget(tx);
                })));
                pass(ms(2000));
            }
        }
    }
    quiesce();
    pass(Duration::from_secs(30));
    let nobody = |what: &str| {
        for p in 2..=8 {
            let mine = flags.iter().filter(|(q, f)| *q == p && !f.is_set()).count() as i32;
            let n = unsafe { eng::mc_threads_alive(p) };
            check!(n <= mine, "an endpoint became controller without being allowed to", "process {p}, {what}");
        }
    };
    nobody("after the death of the controller");
    if arg == 1 {
        match j(4, false, Some([ms(0), ms(2500)][choose(2)])) {
            Err(JoinError::Timeout) => {}
            Ok(_) => fail!("joined a bus nobody controls", ""),
            Err(e) => fail!("join failed", "{e:?}"),
        }
        nobody("after a join");
    }
    let e = ok(5, true);
    pass(Duration::from_secs(10));
    for (_, f) in &flags {
        check!(f.is_set(), "the bus did not re-form", "a send is still waiting");
    }
    explore_on(false);
    eps.push(e);
    for (p, _, rx) in eps.iter_mut() {
        let _ = at(*p, || rx.recv(Some(ms(3000))));
    }
    quiesce();
    let c = controllers(8);
    check!(c == [5], "an endpoint became controller without being allowed to", "{c:?}");
    one_bus(&mut eps, 1000);
}
/// Something holds the name of the bus for a while: it answers no join, or wrongly; endpoints of all permissions join.
fn pretender(n: u32) {
    explore_on(false);
    let id = ident("pret");
    let lfd = at(9, || wire::listen(&id));
    let attempts = choose(n as usize + 1);
    let a = [choose(2) == 1, choose(2) == 1];
    let id2 = id.clone();
    let out = Sh::new(vec![]);
    let mut flags = vec![];
    let count = 1 + choose(2);
    let to = [None, Some(Duration::from_secs(30))][choose(2)];
    for k in 0..count {
        let id = id2.clone();
        let p = 1 + k as i32;
        let a = a[k];
        flags.push(spawn(p, "join", move || {
            out.get().push((p, ipmb::join::<M, M>(opts(&id, "x", a), to)));
        }));
    }
    for _ in 0..attempts {
        let how = choose(3);
        // one more attempt to join
        let mut got = None;
        for _ in 0..30 {
            quiesce();
            got = at(9, || {
                let mut p = libc::pollfd { fd: lfd, events: libc::POLLIN, revents: 0 };
                if unsafe { libc::poll(&mut p, 1, 0) } == 1 { Some(wire::accept(lfd)) } else { None }
            });
            if got.is_some() {
                break;
            }
            pass(ms(500));
        }
        let Some(cfd) = got else { break };
        note!("the pretender takes a connection and {}", ["is silent", "closes it", "answers nonsense"][how]);
        quiesce();
        at(9, || match how {
            0 => pass(ms(2500)),
            1 => wire::close(cfd),
            _ => {
                if let wire::Got::Packet(_, fds) = wire::recv(cfd) {
                    for fd in fds {
                        wire::send(fd, &wire::frame(b"nonsense", b"nonsense"), &[]);
                        wire::close(fd);
                    }
                }
                wire::close(cfd);
            }
        });
        quiesce();
    }
    note!("the pretender goes");
    kill(9);
    pass(Duration::from_secs(8));
    let c = controllers(4);
    let allowed: Vec<i32> = (0..count).filter(|&k| a[k]).map(|k| k as i32 + 1).collect();
    let failed = out.get().iter().filter(|(_, r)| r.is_err()).count();
    for (p, r) in out.get().iter() {
        if let Err(e) = r {
            // it may have been silent for longer than anyone is patient
            check!(matches!(e, JoinError::VersionMismatch(_)) && attempts > 5 || matches!(e, JoinError::Timeout) && to.is_some(), "join failed", "process {p}: {e:?}");
        }
    }
    if failed > 0 {
        obs(99);
    } else if allowed.is_empty() {
        check!(c.iter().all(|p| flags[*p as usize - 1].is_set() == false), "an endpoint became controller without being allowed to", "{c:?}");
        check!(out.get().is_empty(), "joined a bus nobody controls", "");
    } else {
        check!(out.get().len() == count, "join took too long", "{} of {count} have joined", out.get().len());
    }
    // one that may comes
    let last = at(4, || ipmb::join::<M, M>(opts(&id, "x", true), Some(ms(5000))).unwrap_or_else(|e| fail!("join failed", "{e:?}")));
    pass(Duration::from_secs(8));
    let c = controllers(4);
    let mut eps = vec![(4, last.0, last.1)];
    for (p, r) in std::mem::take(out.get()) {
        if let Ok((t, r)) = r {
            eps.push((p, t, r));
        }
    }
    check!(c.len() == 1 && (c == [4] || allowed.contains(&c[0])), "an endpoint became controller without being allowed to", "{c:?}");
    check!(eps.len() == count + 1 - failed, "join took too long", "{} of {count} have joined", eps.len() - 1);
    obs(c[0] as u64);
    one_bus(&mut eps, 1000);
}
pub fn c07(t: Tier) -> Vec<Scn> {
    let d = t.pick(2, 3);
    // an endpoint that finds the address taken but nobody listening retries at once: cut such loops early
    let sched = |p| Cfg { fair_k: 60, ..sched(p) };
    vec![
        scn("C07/perms", perms, t.pick(3, 4), "sequential joins, all permissions and timeouts", data()),
        scn("C07/shy", shy, 0, "the controller dies and leaves endpoints that may not become one, in every state", Cfg { fair_k: 400, ..data() }),
        scn("C07/shy-join", shy, 1, "as shy; another one tries to join", Cfg { fair_k: 400, ..data() }),
        scn("C07/pretender", pretender, t.pick(3, 5), "something that answers no join holds the name of the bus for a while", data()),
        scn("C07/two", elect, 0, "two processes join at once: all interleavings", sched(t.pick(3, 4))),
        scn("C07/same-process", elect, 2, "two joins of one process at once: all interleavings", sched(t.pick(3, 4))),
        scn("C07/affinity", elect, 3, "one that may and one that may not become controller", sched(t.pick(4, 5))),
        scn("C07/wait", elect, 4, "two that may not become controller wait for one that comes later", sched(d)),
        scn("C07/three", elect, 1, "three processes join at once: all interleavings", sched(t.pick(2, 3))),
        scn("C07/mixed", elect, 5, "three processes, one not allowed: all interleavings", sched(t.pick(2, 3))),
        scn("C07/slow", elect, 7, "two joins, one slow enough for a handshake timeout: all interleavings", faulty(d, 1)),
        scn("C07/many", elect, 6, "twelve joins at once", sched(t.pick(1, 2))),
    ]
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Copy, PartialEq)]
enum How {
    Idle,      // killed by the driver while everybody is idle
    AnyPoint,  // killed at any step it takes
}
struct Shape {
    how: How,
    survivors: &'static [bool], // processes 2.., may become controller
    sender_threads: u32,        // of process 2, sending while the controller may die
    joiner: bool,               // the last survivor joins meanwhile
    drop_rx: bool,              // process 2 has dropped its receiver
    again: bool,                // the next controller dies too
    region: bool,
}
const SHAPES: [Shape; 10] = [
    Shape { how: How::Idle, survivors: &[true, true], sender_threads: 0, joiner: false, drop_rx: false, again: false, region: false },
    Shape { how: How::AnyPoint, survivors: &[true, true], sender_threads: 1, joiner: false, drop_rx: false, again: false, region: false },
    Shape { how: How::AnyPoint, survivors: &[true, true], sender_threads: 0, joiner: true, drop_rx: false, again: false, region: false },
    Shape { how: How::Idle, survivors: &[true, true], sender_threads: 2, joiner: false, drop_rx: false, again: false, region: false },
    Shape { how: How::Idle, survivors: &[false, true], sender_threads: 1, joiner: false, drop_rx: false, again: false, region: false },
    Shape { how: How::Idle, survivors: &[true, true], sender_threads: 1, joiner: false, drop_rx: true, again: false, region: false },
    Shape { how: How::Idle, survivors: &[true, true, true], sender_threads: 0, joiner: false, drop_rx: false, again: true, region: false },
    Shape { how: How::AnyPoint, survivors: &[true, true], sender_threads: 1, joiner: false, drop_rx: false, again: false, region: true },
    Shape { how: How::Idle, survivors: &[true], sender_threads: 2, joiner: false, drop_rx: false, again: false, region: false },
    Shape { how: How::AnyPoint, survivors: &[true, true], sender_threads: 1, joiner: true, drop_rx: false, again: false, region: false },
];

fn live_send(p: i32, tx: &Tx, n: u32, region: bool) {
    at(p, || {
        let mut msg = Message::new(multi(ipmb::LabelOp::True), m(n));
        if region {
            msg.memory_regions.push(ipmb::MemoryRegion::new(64).unwrap());
        }
        if let Err(e) = tx.send(msg) {
            fail!("send failed", "send by process {p}: {e:?}");
        }
    })
}
fn death(arg: u32) {
    explore_on(false);
    sigpipe_default();
    let s = &SHAPES[arg as usize];
    let id = ident("death");
    let id2 = id.clone();
    // all threads of process 1 live in spawned threads, since the process may be killed at any step
    let f = spawn(1, "host", move || {
        let (tx, rx) = join(1, &id2, "host");
        std::mem::forget(tx);
        receiver(1, "recv1", rx);
    });
    f.wait();
    quiesce();
    let n = s.survivors.len();
    let mut txs: Vec<Sh<Option<Tx>>> = vec![];
    let mut got: Vec<Sh<Vec<u32>>> = vec![];
    let mut joinflag = None;
    let start = |k: usize, id: &str| {
        let p = k as i32 + 2;
        let (tx, rx) = at(p, || match ipmb::join::<M, M>(opts(id, &format!("e{p}"), s.survivors[k]), None) {
            Ok(v) => v,
            Err(e) => fail!("join failed", "join of process {p}: {e:?}"),
        });
        (tx, rx)
    };
    for k in 0..n {
        let p = k as i32 + 2;
        let slot = Sh::new(None);
        txs.push(slot);
        if s.joiner && k + 1 == n {
            let g = Sh::new(vec![]);
            got.push(g);
            let id = id.clone();
            // joins once exploration has started
            let go = Flag::new();
            joinflag = Some((
                go,
                spawn(p, "join", move || {
                    go.wait();
                    let (tx, mut rx) = match ipmb::join::<M, M>(opts(&id, &format!("e{p}"), true), None) {
                        Ok(v) => v,
                        Err(e) => fail!("join failed", "join of process {p}: {e:?}"),
                    };
                    *slot.get() = Some(tx);
                    spawn(p, "recvj", move || loop {
                        match rx.recv(None) {
                            Ok(m) => g.get().push(m.payload.n),
                            Err(e) => fail!("recv failed", "recv: {e:?}"),
                        }
                    });
                }),
            ));
        } else {
            let (tx, rx) = start(k, &id);
            *slot.get() = Some(tx);
            if k == 0 && s.drop_rx {
                at(p, || drop(rx));
                got.push(Sh::new(vec![]));
            } else {
                got.push(receiver(p, &format!("recv{p}"), rx));
            }
        }
    }
    quiesce();
    if s.how == How::AnyPoint {
        unsafe { eng::mc_faults(eng::F_KILL, 0, 1 << 1, 1) }
    }
    explore_on(true);
    if s.how == How::Idle {
        kill(1);
    }
    let mut flags = vec![];
    if let Some((go, f)) = &joinflag {
        go.set();
        flags.push(*f);
    }
    let t2 = txs[0].get().as_ref().unwrap().clone();
    for th in 0..s.sender_threads {
        let tx = at(2, || t2.clone());
        let region = s.region;
        flags.push(spawn(2, &format!("send{th}"), move || {
            for k in 0..2 {
                live_send(2, &tx, 100 + th * 100 + k, region);
            }
            std::mem::forget(tx);
        }));
    }
    for f in flags {
        f.wait();
    }
    unsafe { eng::mc_faults(0, 0, 0, 0) }
    let mut dead = vec![1];
    if unsafe { eng::mc_is_dead(1) } == 0 {
        quiesce();
        kill(1);
    }
    let mut base = 1000;
    for round in 0..1 + s.again as usize {
        quiesce();
        explore_on(false);
        // the survivors re-form within a bounded time
        pass(Duration::from_secs(30));
        let before: Vec<usize> = got.iter().map(|g| g.get().len()).collect();
        let mut want = vec![];
        for k in 0..n {
            let p = k as i32 + 2;
            if dead.contains(&p) {
                continue;
            }
            let tx = txs[k].get().take().unwrap();
            let slot = txs[k];
            let num = base + k as u32 * 100;
            want.push(num);
            spawn(p, "after", move || {
                live_send(p, &tx, num, false);
                *slot.get() = Some(tx);
            })
            .wait();
            quiesce();
            if k == 0 {
                // a sender whose endpoint was not receiving re-forms the bus only now
                pass(Duration::from_secs(10));
            }
        }
        // the first sends may have re-formed the bus: once more, from everybody
        let mut again = vec![];
        for k in 0..n {
            let p = k as i32 + 2;
            if dead.contains(&p) {
                continue;
            }
            let tx = txs[k].get().take().unwrap();
            let slot = txs[k];
            let num = base + k as u32 * 100 + 50;
            again.push(num);
            spawn(p, "after", move || {
                live_send(p, &tx, num, false);
                *slot.get() = Some(tx);
            })
            .wait();
            quiesce();
        }
        for k in 0..n {
            let p = k as i32 + 2;
            if dead.contains(&p) || (k == 0 && s.drop_rx) {
                continue;
            }
            let g = got[k].get();
            let mut fresh: Vec<u32> = g[before[k]..].iter().copied().filter(|n| *n >= base && n % 100 < 50).collect();
            let mut last: Vec<u32> = g[before[k]..].iter().copied().filter(|n| *n >= base && n % 100 >= 50).collect();
            fresh.sort();
            last.sort();
            check!(last == again, "the bus did not re-form", "process {p} received {last:?} of {again:?} (all {g:?})");
            // blocked receivers had re-formed the bus before the sends
            check!(fresh == want, "message lost after the bus re-formed", "process {p} received {fresh:?} of {want:?} (all {g:?})");
        }
        let c: Vec<i32> = (2..2 + n as i32).filter(|p| !dead.contains(p) && unsafe { eng::mc_threads_alive(*p) } > (if *p == 2 && s.drop_rx { 0 } else { 1 })).collect();
        check!(c.len() == 1, "not exactly one controller", "controllers {c:?} after the death of {dead:?}");
        check!(s.survivors[c[0] as usize - 2], "an endpoint became controller without being allowed to", "{c:?}");
        obs(c[0] as u64);
        if round == 0 && s.again {
            explore_on(true);
            kill(c[0]);
            dead.push(c[0]);
            base = 5000;
        }
    }
    for (k, g) in got.iter().enumerate() {
        let mut v = g.get().clone();
        for x in &v {
            obs(*x as u64);
        }
        in_order(&format!("process {}", k + 2), &v);
        v.sort();
        let l = v.len();
        v.dedup();
        check!(v.len() == l, "duplicate", "process {} received {:?}", k + 2, g.get());
    }
}
/// Controllers die one after the other in the middle of the handshake with an endpoint that joins (who = 0) or comes back
/// after the death of another controller, to receive (1) or to send (2).
fn handshake(most: u32) {
    explore_on(false);
    sigpipe_default();
    let id = ident("hand");
    let who = choose(3);
    let deaths = choose(most as usize + 1) as i32;
    let survivor = (who > 0).then(|| {
        let h = join(1, &id, "host");
        let e = join(2, &id, "two");
        quiesce();
        kill(1);
        std::mem::forget(h);
        e
    });
    let res: Sh<Option<(Tx, Option<Rx>)>> = Sh::new(survivor.map(|(t, r)| (t, Some(r))));
    let got: Sh<Vec<u32>> = Sh::new(vec![]);
    let mut done = None;
    let mut start = |id: &str| {
        let id = id.to_string();
        done = Some(spawn(2, "two", move || match who {
            0 => *res.get() = Some(match ipmb::join::<M, M>(opts(&id, "two", true), None) {
                Ok((t, r)) => (t, Some(r)),
                Err(e) => fail!("join failed", "{e:?}"),
            }),
            1 => {
                let mut rx = res.get().as_mut().unwrap().1.take().unwrap();
                match rx.recv(None) {
                    Ok(v) => got.get().push(v.payload.n),
                    Err(e) => fail!("recv failed", "{e:?}"),
                }
                res.get().as_mut().unwrap().1 = Some(rx);
            }
            _ => {
                let tx = res.get().as_ref().unwrap().0.clone();
                send(2, &tx, ttl(uni("five"), ms(60_000)), m(77));
                std::mem::forget(tx);
            }
        }));
    };
    for k in 0..deaths {
        let p = 10 + k;
        let stage = choose(3);
        note!("process {p} is a controller that dies in the handshake, after {}", ["the connection", "accepting it", "reading the request"][stage]);
        let l = at(p, || wire::listen(&id));
        let seen = Flag::new();
        spawn(p, "false controller", move || {
            let mut f = libc::pollfd { fd: l, events: libc::POLLIN, revents: 0 };
            unsafe { libc::poll(&mut f, 1, -1) };
            if stage > 0 {
                let c = wire::accept(l);
                if stage > 1 {
                    let mut f = libc::pollfd { fd: c, events: libc::POLLIN, revents: 0 };
                    unsafe { libc::poll(&mut f, 1, -1) };
                    let _ = wire::recv(c);
                }
            }
            seen.set();
        });
        if k == 0 {
            start(&id);
        }
        seen.wait();
        pass(ms(500));
        kill(p);
        obs(stage as u64);
    }
    if deaths == 0 {
        start(&id);
    }
    quiesce();
    pass(Duration::from_secs(30));
    let (t5, mut r5) = join(5, &id, "five");
    quiesce();
    if who == 1 {
        send(5, &t5, uni("two"), m(88));
    }
    done.unwrap().wait();
    quiesce();
    let g = nums(&drain(5, &mut r5));
    check!(g == if who == 2 { vec![77] } else { vec![] }, "the bus did not re-form", "{g:?}");
    check!(*got.get() == if who == 1 { vec![88] } else { vec![] }, "the bus did not re-form", "{:?}", got.get());
    let (t2, r2) = res.get().take().unwrap();
    let mut eps = vec![(2, t2, r2.unwrap()), (5, t5, r5)];
    one_bus(&mut eps, 1000);
    obs(who as u64);
}
/// Many endpoints lose one controller after the other.
fn crowd(arg: u32) {
    explore_on(false);
    let id = ident("c08crowd");
    let n = [5, 12, 28][choose(3)];
    // all wait for messages; every second one; none
    let waiting = choose(3);
    let shy = choose(2) == 1;
    let deaths = 1 + if shy && n == 5 { 0 } else { choose(2) };
    let waits = |p: i32| match waiting {
        0 => true,
        1 => p % 2 == 0,
        _ => false,
    };
    let mut txs: Vec<(i32, Tx)> = vec![];
    let mut gots: Vec<(i32, Sh<Vec<u32>>)> = vec![];
    let mut rxs: Vec<(i32, Rx)> = vec![];
    for p in 1..=n {
        let o = opts(&id, "all", p == 1 || !shy || p % 3 == 0);
        let (tx, rx) = join_opt(p, o);
        txs.push((p, tx));
        if waits(p) {
            gots.push((p, receiver(p, &format!("recv{p}"), rx)));
        } else {
            rxs.push((p, rx));
        }
    }
    quiesce();
    let mut base = 1000;
    let round = |base: &mut u32, txs: &[(i32, Tx)], gots: &mut Vec<(i32, Sh<Vec<u32>>)>, rxs: &mut Vec<(i32, Rx)>| {
        *base += 1000;
        // those that did nothing since come back with their first call
        for (p, tx) in txs {
            send(*p, tx, multi("nobody"), m(0));
        }
        for (p, rx) in rxs.iter_mut() {
            at(*p, || match rx.recv(Some(ms(1))) {
                Ok(_) | Err(ipmb::RecvError::Timeout) => {}
                Err(e) => fail!("recv failed", "{e:?}"),
            });
        }
        quiesce();
        for (k, (p, tx)) in txs.iter().enumerate() {
            send(*p, tx, multi("all"), m(*base + k as u32));
            quiesce();
        }
        let want: Vec<u32> = (0..txs.len() as u32).map(|k| *base + k).collect();
        for (p, g) in gots.iter() {
            let v: Vec<u32> = g.get().iter().copied().filter(|k| *k >= *base).collect();
            check!(v == want, "endpoints are not on one bus", "endpoint of process {p} received {v:?}");
        }
        for (p, rx) in rxs.iter_mut() {
            let v: Vec<u32> = nums(&drain_all(*p, rx)).into_iter().filter(|k| *k >= *base).collect();
            check!(v == want, "endpoints are not on one bus", "endpoint of process {p} received {v:?}");
        }
    };
    round(&mut base, &txs, &mut gots, &mut rxs);
    note!("{n} endpoints, waiting {waiting}, some may not control: {shy}, {deaths} deaths");
    for _ in 0..deaths {
        let c: Vec<i32> = txs.iter().map(|x| x.0).filter(|&p| unsafe { eng::mc_threads_alive(p) } > waits(p) as i32).collect();
        check!(c.len() == 1, "not exactly one controller", "{c:?}");
        let c = c[0];
        check!(!shy || c == 1 || c % 3 == 0, "an endpoint became controller without being allowed to", "{c}");
        explore_on(arg == 1);
        kill(c);
        let i = txs.iter().position(|x| x.0 == c).unwrap();
        std::mem::forget(txs.remove(i));
        if let Some(i) = rxs.iter().position(|x| x.0 == c) {
            std::mem::forget(rxs.remove(i));
        }
        gots.retain(|x| x.0 != c);
        quiesce();
        pass(Duration::from_secs(10));
        explore_on(false);
        // those that may control first
        txs.sort_by_key(|x| (shy && x.0 % 3 != 0, x.0));
        round(&mut base, &txs, &mut gots, &mut rxs);
        obs(c as u64);
    }
}
pub fn c08(t: Tier) -> Vec<Scn> {
    let d = t.pick(2, 3);
    let k = t.pick(1, 2);
    let what = [
        "controller dies while two endpoints wait for messages: all interleavings of the re-election",
        "controller dies at any step while messages are sent: all interleavings",
        "controller dies at any step while an endpoint joins",
        "controller dies, two threads send while the third is blocked in recv",
        "controller dies, one of the survivors may not become controller",
        "controller dies, an endpoint without receiver sends",
        "controller dies, and so does the next one",
        "controller dies at any step while regions are sent",
        "controller dies, one survivor with three threads",
        "controller dies at any step while one endpoint joins and another sends",
    ];
    let mut v: Vec<Scn> = (0..10)
        .map(|i| {
            let cfg = if SHAPES[i].how == How::AnyPoint { faulty(k, 1) } else { sched(d) };
            scn(&format!("C08/{}", ["idle", "sending", "joining", "threads", "affinity", "noreceiver", "twice", "region", "alone", "both"][i]), death, i as u32, what[i], cfg)
        })
        .collect();
    v.insert(0, scn("C08/crowd", crowd, 0, "many endpoints lose one controller after the other", data()));
    v.insert(0, scn("C08/handshake", handshake, t.pick(4, 5), "controllers die one after the other in the handshake with one endpoint", data()));
    v
}

// ---------------------------------------------------------------- C09

/// Process 3 dies at any step of what it does; 1 (controller), 2 and 4 must not notice.
fn peer(arg: u32) {
    explore_on(false);
    sigpipe_default();
    let id = ident("peer");
    let (_t1, r1) = join(1, &id, "host all");
    let g1 = receiver(1, "recv1", r1);
    let (t2, r2) = join(2, &id, "two all");
    let g2 = receiver(2, "recv2", r2);
    let (t4, r4) = join(4, &id, "four all");
    let g4 = receiver(4, "recv4", r4);
    quiesce();
    let base_fds = unsafe { eng::mc_fd_count(1) };
    let id3 = id.clone();
    let go = Flag::new();
    // what the dying process does
    let busy = arg != 5;
    let f3 = match arg {
        0 => spawn(3, "joiner", move || {
            go.wait();
            std::mem::forget(join(3, &id3, "three all"))
        }),
        _ => {
            let ready = Flag::new();
            let f = spawn(3, "victim", move || {
                let (tx, mut rx) = join(3, &id3, "three all");
                ready.set();
                go.wait();
                match arg {
                    1 => {
                        for k in 0..2 {
                            send(3, &tx, multi("all"), m(300 + k));
                        }
                    }
                    2 => {
                        let mut msg = Message::new(multi("all"), m(300));
                        msg.memory_regions.push(ipmb::MemoryRegion::new(5000).unwrap());
                        msg.objects.push(ipmb::MemoryRegion::new(10).unwrap().object().clone().unwrap());
                        let _ = tx.send(msg);
                    }
                    3 => {
                        for _ in 0..2 {
                            let _ = rx.recv(None);
                        }
                    }
                    4 => {
                        let rx2 = rx;
                        drop(rx2);
                        drop(tx);
                        return;
                    }
                    _ => {}
                }
                std::mem::forget(tx);
                std::mem::forget(rx);
            });
            ready.wait();
            f
        }
    };
    quiesce();
    unsafe { eng::mc_faults(eng::F_KILL, 0, 1 << 3, 1) }
    explore_on(true);
    go.set();
    if !busy {
        kill(3);
    }
    // process 2 talks to everybody meanwhile
    let f2 = spawn(2, "send2", move || {
        for k in 0..3 {
            send(2, &t2, multi("all"), m(200 + k));
        }
        std::mem::forget(t2);
    });
    let f4 = spawn(4, "send4", move || {
        send(4, &t4, uni("two"), m(400));
        send(4, &t4, uni(ipmb::LabelOp::from("three").or("host")), m(401));
        std::mem::forget(t4);
    });
    f2.wait();
    f4.wait();
    if unsafe { eng::mc_is_dead(3) } == 0 {
        if arg != 3 {
            f3.wait();
        }
        quiesce();
        unsafe { eng::mc_faults(0, 0, 0, 0) }
        if arg == 4 {
            // left in good order
        }
        kill(3);
    }
    unsafe { eng::mc_faults(0, 0, 0, 0) }
    explore_on(false);
    quiesce();
    let f = |g: Sh<Vec<u32>>, lo: u32, hi: u32| -> Vec<u32> { g.get().iter().copied().filter(|n| *n >= lo && *n < hi).collect() };
    for (who, g) in [("process 1", g1), ("process 2", g2), ("process 4", g4)] {
        let v = f(g, 200, 300);
        check!(v == [200, 201, 202], "the death of another endpoint disturbed delivery", "{who} received {:?}", g.get());
        let v = f(g, 300, 400);
        check!(v == [300, 301] || v == [300] || v.is_empty(), "messages of the dead endpoint repeated or reordered", "{who} received {:?}", g.get());
        for x in g.get().iter() {
            obs(*x as u64);
        }
        obs(9);
    }
    check!(f(g2, 400, 500) == [400], "the death of another endpoint disturbed delivery", "process 2 received {:?}", g2.get());
    check!(f(g1, 401, 500).len() <= 1, "duplicate", "process 1 received {:?}", g1.get());
    // somebody else can join, and after a while everything of the dead endpoint is released
    let id5 = id.clone();
    let late = Sh::new(None);
    spawn(5, "late", move || *late.get() = Some(join(5, &id5, "five all"))).wait();
    quiesce();
    let (t5, mut r5) = late.get().take().unwrap();
    send(5, &t5, uni(ipmb::LabelOp::from("three").or("four")), m(500));
    quiesce();
    check!(f(g4, 500, 600) == [500], "message lost to a dead endpoint", "process 4 received {:?}", g4.get());
    pass(Duration::from_secs(31));
    for k in 0..2 {
        send(5, &t5, uni("two"), m(501 + k));
        quiesce();
    }
    check!(f(g2, 500, 600) == [501, 502], "the death of another endpoint disturbed delivery", "process 2 received {:?}", g2.get());
    check!(drain(5, &mut r5).is_empty(), "unexpected message", "");
    let fds = unsafe { eng::mc_fd_count(1) };
    // the new endpoint has two descriptors there: its connection and its receiving channel
    check!(fds == base_fds + 2, "resources of a dead endpoint are kept", "{fds} descriptors in the controller, {} expected", base_fds + 2);
}
/// Endpoints that nobody talks to die, in every order and in every state: what the controller holds for
/// them is released by the traffic after the next check for reachability.
fn silent(n: u32) {
    explore_on(false);
    let id = ident("silent");
    let (_t1, mut r1) = join(1, &id, "host");
    let (t2, mut r2) = join(2, &id, "two");
    let base = unsafe { eng::mc_fd_count(1) };
    for k in 0..n as i32 {
        let p = 10 + k;
        let (tx, rx) = join(p, &id, "quiet");
        let unread = choose(3);
        for u in 0..unread {
            at(2, || {
                let mut msg = Message::new(uni("quiet"), m(u as u32));
                if u == 1 {
                    msg.memory_regions.push(ipmb::MemoryRegion::new(64).unwrap());
                }
                t2.send(msg).unwrap();
            });
            quiesce();
        }
        match choose(4) {
            0 => {
                std::mem::forget((tx, rx));
                kill(p);
            }
            1 => {
                // leaves in good order
                at(p, || drop((tx, rx)));
            }
            2 => {
                at(p, || drop((rx, tx)));
            }
            _ => {
                std::mem::forget((tx, rx));
                // stays
                break;
            }
        }
        obs(unread as u64);
    }
    pass(Duration::from_secs([1, 31, 3600][choose(3)]));
    for k in 0..3 {
        send(2, &t2, uni("host"), m(100 + k));
        quiesce();
        pass(Duration::from_secs(31));
    }
    let got = nums(&drain(1, &mut r1));
    check!(got == [100, 101, 102], "the death of another endpoint disturbed delivery", "{got:?}");
    check!(drain(2, &mut r2).is_empty(), "unexpected message", "");
    let live = (0..n as i32).filter(|k| unsafe { eng::mc_fd_count(10 + k) } > 0).count() as i32;
    let fds = unsafe { eng::mc_fd_count(1) };
    check!(fds == base + 2 * live, "resources of a dead endpoint are kept", "{fds} descriptors in the controller, {} expected", base + 2 * live);
}
/// All other endpoints of the bus die or leave, so that only the controller's process is left.
fn last(n: u32) {
    explore_on(false);
    let id = ident("last");
    let (t1, mut r1) = join(1, &id, "host all");
    let base = unsafe { eng::mc_fd_count(1) };
    let n = 1 + choose(n as usize) as i32;
    let mut live = vec![];
    let mut seq = 0;
    let mut want = vec![];
    for k in 0..n {
        let p = 10 + k;
        let (tx, rx) = join(p, &id, "other all");
        match choose(3) {
            0 => (),
            1 => {
                seq += 1;
                want.push(seq);
                send(p, &tx, uni("host"), m(seq));
            }
            _ => {
                seq += 1;
                want.push(seq);
                send(1, &t1, multi("all"), m(seq));
            }
        }
        if choose(2) == 1 {
            quiesce();
        }
        live.push((p, tx, rx));
    }
    let forward = n == 1 || choose(2) == 0;
    if !forward {
        live.reverse();
    }
    for (p, tx, rx) in live {
        match choose(3) {
            0 => {
                std::mem::forget((tx, rx));
                kill(p);
            }
            1 => at(p, || drop((tx, rx))),
            _ => at(p, || drop((rx, tx))),
        }
        if choose(2) == 1 {
            quiesce();
            pass(Duration::from_secs(31));
        }
    }
    quiesce();
    for _ in 0..choose(2) * 3 {
        pass(Duration::from_secs(31));
        seq += 1;
        want.push(seq);
        send(1, &t1, uni("all"), m(seq));
        quiesce();
    }
    let (t2, mut r2) = join(2, &id, "two");
    pass(Duration::from_secs(31));
    send(2, &t2, uni("host"), m(50));
    send(1, &t1, uni("two"), m(51));
    quiesce();
    want.push(50);
    let mut got = nums(&drain(1, &mut r1));
    got.sort();
    check!(got == want, "the death of another endpoint disturbed delivery", "{got:?} instead of {want:?}");
    let got = nums(&drain(2, &mut r2));
    check!(got == [51], "the death of another endpoint disturbed delivery", "{got:?}");
    let fds = unsafe { eng::mc_fd_count(1) };
    check!(fds == base + 2, "resources of a dead endpoint are kept", "{fds} descriptors in the controller, {} expected", base + 2);
    obs(seq as u64);
}
/// Many endpoints; many of them die or leave, at once or one after the other.
fn many_die(n: u32) {
    explore_on(false);
    let n = [5, 12, n][choose(3)] as i32;
    let id = ident("manydie");
    let (t1, mut r1) = join(1, &id, "host all");
    let (t2, mut r2) = join(2, &id, "two all");
    let base = unsafe { eng::mc_fd_count(1) };
    let mut eps: Vec<Option<(Tx, Rx)>> = (0..n).map(|k| Some(join(4 + k, &id, &format!("e{k} all")))).collect();
    quiesce();
    let kind = choose(4);
    let traffic = choose(2) == 1;
    let how = choose(2);
    let mut k = 0;
    let mut sent = vec![];
    for i in 0..n {
        let go = match kind {
            0 => i % 2 == 0,
            1 => i < n - 1,
            2 => i > 0,
            _ => true,
        };
        if !go {
            continue;
        }
        let e = eps[i as usize].take().unwrap();
        if how == 0 || i % 3 == 1 {
            std::mem::forget(e);
            kill(4 + i);
        } else {
            at(4 + i, || drop(e));
        }
        if traffic {
            k += 1;
            let (p, t) = if k % 2 == 0 { (1, &t1) } else { (2, &t2) };
            send(p, t, multi("all"), m(k));
            sent.push(k);
        }
    }
    note!("{n} endpoints, kind {kind}, traffic {traffic}, {how}");
    let early = k;
    for _ in 0..3 {
        k += 1;
        send(2, &t2, multi("all"), m(k));
        sent.push(k);
        quiesce();
        pass(Duration::from_secs(31));
    }
    // two senders: in the order of each
    let order = |v: Vec<u32>| -> Vec<u32> {
        let (a, b): (Vec<u32>, Vec<u32>) = v.into_iter().partition(|k| k % 2 == 0 && *k <= early);
        a.into_iter().chain(b).collect()
    };
    let sent = order(sent);
    for (p, r) in [(1, &mut r1), (2, &mut r2)] {
        let g = order(nums(&drain(p, r)));
        check!(g == sent, "the death of another endpoint disturbed delivery", "endpoint of process {p}: {g:?} instead of {sent:?}");
    }
    let mut live = 0;
    for i in 0..n {
        if let Some((_, r)) = eps[i as usize].as_mut() {
            live += 1;
            let g = order(nums(&drain(4 + i, r)));
            check!(g == sent, "the death of another endpoint disturbed delivery", "endpoint {i} of {n}: {g:?} instead of {sent:?}");
        }
    }
    let fds = unsafe { eng::mc_fd_count(1) };
    check!(fds == base + 2 * live, "resources of a dead endpoint are kept", "{fds} descriptors in the controller, {} expected", base + 2 * live);
    obs(fds as u64);
}
/// As `silent`, on a bus with regular traffic: what is held for the dead is released within two minutes.
fn busy(_: u32) {
    explore_on(false);
    let id = ident("busy");
    let (_t1, mut r1) = join(1, &id, "host");
    let (t2, mut r2) = join(2, &id, "two");
    let base = unsafe { eng::mc_fd_count(1) };
    for p in 10..12 {
        let e = join(p, &id, "quiet");
        match choose(3) {
            0 => at(p, || drop(e)),
            1 => {
                let (tx, rx) = e;
                at(p, || drop(rx));
                std::mem::forget(tx);
                kill(p);
            }
            _ => {
                std::mem::forget(e);
                kill(p);
            }
        }
    }
    let every = [100u64, 1000, 7000, 10_000, 29_000, 30_000, 31_000, 60_000][choose(8)];
    let who = choose(3);
    note!("a message every {every} ms, {who}");
    let n = 120_000 / every;
    let (mut g1, mut g2) = (vec![], vec![]);
    for k in 0..n as u32 {
        pass(ms(every));
        match who {
            0 => send(2, &t2, uni("host"), m(k)),
            1 => send(1, &_t1, uni("two"), m(k)),
            _ => send(2, &t2, ttl(uni("nobody"), ms(10)), m(k)),
        }
        quiesce();
        g1.append(&mut nums(&drain(1, &mut r1)));
        g2.append(&mut nums(&drain(2, &mut r2)));
    }
    let w: Vec<u32> = (0..n as u32).collect();
    check!(g1 == if who == 0 { w.clone() } else { vec![] }, "the death of another endpoint disturbed delivery", "{g1:?}");
    check!(g2 == if who == 1 { w } else { vec![] }, "the death of another endpoint disturbed delivery", "{g2:?}");
    let fds = unsafe { eng::mc_fd_count(1) };
    check!(fds == base, "resources of a dead endpoint are kept", "{fds} descriptors in the controller, {base} expected");
    obs(n);
}
/// The controller waits for room in the queue of an endpoint that does not receive; it dies.
fn full(arg: u32) {
    explore_on(false);
    sigpipe_default();
    let id = ident("full");
    let (t1, r1) = join(1, &id, "host all");
    let g1 = receiver(1, "recv1", r1);
    let (t2, r2) = join(2, &id, "two all");
    let g2 = receiver(2, "recv2", r2);
    let (t3, r3) = join(3, &id, "three all");
    std::mem::forget((t3, r3));
    let (t4, r4) = join(4, &id, "four all");
    let g4 = receiver(4, "recv4", r4);
    std::mem::forget(t4);
    quiesce();
    explore_on(true);
    let n = 6;
    let f2 = spawn(2, "send2", move || {
        for k in 0..n {
            live_send_to(2, &t2, multi("all"), 200 + k);
        }
        std::mem::forget(t2);
    });
    let f1 = spawn(1, "send1", move || {
        for k in 0..2 {
            live_send_to(1, &t1, if arg == 0 { multi("all") } else { uni("two") }, 100 + k);
        }
        std::mem::forget(t1);
    });
    quiesce();
    // the queue of 3 is full, everything is stuck behind it
    check!(g4.get().len() < n as usize, "the queue did not fill up", "{:?}", g4.get());
    kill(3);
    f2.wait();
    f1.wait();
    quiesce();
    let want2: Vec<u32> = (200..200 + n).collect();
    for (who, g) in [("process 1", g1), ("process 2", g2), ("process 4", g4)] {
        let v: Vec<u32> = g.get().iter().copied().filter(|x| *x >= 200).collect();
        check!(v == want2, "the death of another endpoint disturbed delivery", "{who} received {:?}", g.get());
        let v: Vec<u32> = g.get().iter().copied().filter(|x| *x < 200).collect();
        if arg == 0 || who == "process 2" {
            check!(v == [100, 101], "the death of another endpoint disturbed delivery", "{who} received {:?}", g.get());
        }
        for x in g.get().iter() {
            obs(*x as u64);
        }
    }
}
fn live_send_to(p: i32, tx: &Tx, sel: ipmb::Selector, n: u32) {
    at(p, || {
        if let Err(e) = tx.send(Message::new(sel, mp(n, 1500))) {
            fail!("send failed", "send by process {p}: {e:?}");
        }
    })
}
pub fn c09(t: Tier) -> Vec<Scn> {
    let k = t.pick(1, 2);
    let mk = |n: &str, i, w, d| scn(&format!("C09/{n}"), peer, i, w, faulty(d, 1));
    vec![
        mk("joining", 0, "an endpoint dies at any step of its join", k),
        mk("sending", 1, "an endpoint dies at any step of its sends", k),
        mk("attach", 2, "an endpoint dies at any step of sending attachments", k),
        mk("receiving", 3, "an endpoint dies at any step of its receives", k),
        mk("leaving", 4, "an endpoint dies at any step of its departure", k),
        mk("idle", 5, "an endpoint dies while messages are on their way to it", t.pick(2, 3)),
        scn("C09/silent", silent, t.pick(2, 3), "endpoints nobody talks to die, in every state", data()),
        scn("C09/last", last, t.pick(2, 3), "all others die or leave, and others come", data()),
        scn("C09/many", many_die, t.pick(20, 27), "many endpoints die or leave, with and without traffic", data()),
        scn("C09/busy", busy, 0, "endpoints nobody talks to die on a bus with regular traffic", data()),
        scn("C09/full", full, 0, "an endpoint with a full queue dies while the controller waits for it", Cfg { sndbuf: 1, ..sched(t.pick(1, 2)) }),
        scn("C09/full-unicast", full, 1, "the same with unicasts from the controller's process", Cfg { sndbuf: 1, ..sched(t.pick(1, 2)) }),
    ]
}
