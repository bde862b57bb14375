//! C19: dropping a receiver, or all handles, of an endpoint.
use super::form::opts;
use ipmb::{LabelOp, Message};
use mc::{bus::*, check, explore::*, fail, note, rt::*, *};
use std::time::Duration;

struct Ep {
    proc: i32,
    a: bool,
    tx: Option<Tx>,
    rx: Option<Rx>,
    got: Vec<u32>,
    alive: bool,
}
impl Ep {
    fn open(&self) -> bool {
        self.alive && self.rx.is_some()
    }
    fn drain(&mut self) {
        if self.alive {
            if let Some(r) = &mut self.rx {
                self.got.extend(nums(&drain(self.proc, r)));
            }
        }
    }
}

/// All sequences of drops, sends, joins and a controller's death.
/// Endpoints 1 (the first controller), 2 and 3 have "a"; 4 watches and sends.
fn seq(arg: u32) {
    explore_on(false);
    let id = ident("half");
    let mut e: Vec<Ep> = vec![];
    let depth = arg & 15;
    for (p, l) in [(1, "a one"), (2, "a two"), (3, "a three"), (4, "four")] {
        let (tx, rx) = join(p, &id, l);
        e.push(Ep { proc: p, a: p < 4, tx: Some(tx), rx: Some(rx), got: vec![], alive: true });
    }
    quiesce();
    // arg & 16: 2 and 3 have dropped their receivers already, arg & 32: so has 1
    for (x, bit) in [(0, 32), (1, 16), (2, 16)] {
        if arg & bit != 0 {
            let r = e[x].rx.take();
            at(e[x].proc, || drop(r));
            quiesce();
        }
    }
    let mut n = 0;
    let mut buffered: Vec<u32> = vec![]; // waiting for an "a"
    let mut dead = false;
    let mut joined = 0;
    for _ in 0..depth {
        // drop the receiver of 1..3, the senders of 1..3, the death of process 1,
        // unicast or multicast with and without time to live by each who can, a new endpoint
        let c = choose(13);
        match c {
            0..=2 => {
                note!("endpoint {} drops its receiver", c + 1);
                let x = &mut e[c];
                if x.rx.is_none() || !x.alive {
                    return;
                }
                let r = x.rx.take();
                at(x.proc, || drop(r));
            }
            3..=5 => {
                note!("endpoint {} drops its sender", c - 2);
                let x = &mut e[c - 3];
                if x.tx.is_none() || !x.alive {
                    return;
                }
                let t = x.tx.take();
                at(x.proc, || drop(t));
            }
            6 => {
                if dead {
                    return;
                }
                note!("process 1 dies");
                dead = true;
                e[0].drain();
                let x = &mut e[0];
                std::mem::forget((x.tx.take(), x.rx.take()));
                x.alive = false;
                kill(1);
                buffered.clear();
                quiesce();
                // everyone notices: by receiving, or by sending
                for i in 1..e.len() {
                    if e[i].rx.is_some() {
                        e[i].drain();
                    } else if e[i].tx.is_some() {
                        send(e[i].proc, e[i].tx.as_ref().unwrap(), uni("nobody"), m(9999));
                    }
                    quiesce();
                }
            }
            7..=11 => {
                // 7: unicast by 4; 8: multicast by 4; 9: unicast that waits by 4; 10, 11: unicast by 2, 1
                let from = match c {
                    10 => 1,
                    11 => 0,
                    _ => 3,
                };
                if e[from].tx.is_none() || !e[from].alive {
                    return;
                }
                n += 1;
                let op = LabelOp::from("a");
                let s = match c {
                    8 => multi(op),
                    9 => ttl(uni(op), Duration::from_secs(3600)),
                    _ => uni(op),
                };
                note!("endpoint {} sends {n} ({})", from + 1, ["unicast", "multicast", "waiting unicast", "unicast", "unicast"][c - 7]);
                send(e[from].proc, e[from].tx.as_ref().unwrap(), s, m(n));
                quiesce();
                for x in e.iter_mut() {
                    x.drain();
                }
                let who: Vec<usize> = (0..e.len()).filter(|&i| e[i].got.contains(&n)).collect();
                let cand: Vec<usize> = (0..e.len()).filter(|&i| e[i].a && e[i].open()).collect();
                if c == 8 {
                    check!(who == cand, "a multicast reached the wrong endpoints after drops", "message {n}: {who:?}, open {cand:?}");
                } else if cand.is_empty() {
                    check!(who.is_empty(), "a unicast reached the wrong endpoint after drops", "message {n}: {who:?}, open {cand:?}");
                    if c == 9 {
                        buffered.push(n);
                    }
                } else {
                    check!(who.len() == 1, "a unicast was lost to a dropped receiver", "message {n}: {who:?}, open {cand:?}");
                    check!(cand.contains(&who[0]), "a unicast reached the wrong endpoint after drops", "message {n}: {who:?}, open {cand:?}");
                }
                for &w in &who {
                    obs(w as u64 + 10);
                }
            }
            _ => {
                if joined == 2 {
                    return;
                }
                joined += 1;
                let p = 4 + joined;
                note!("endpoint {p} joins");
                let (tx, rx) = join(p, &id, "a new");
                quiesce();
                let mut x = Ep { proc: p, a: true, tx: Some(tx), rx: Some(rx), got: vec![], alive: true };
                x.drain();
                check!(x.got == buffered, "the messages that wait did not reach a new endpoint", "{:?}, waiting {buffered:?}", x.got);
                buffered.clear();
                e.push(x);
            }
        }
        quiesce();
    }
    // nothing twice, nothing late; the bus works
    for x in e.iter_mut() {
        x.drain();
    }
    for k in 1..=n {
        let c: usize = e.iter().map(|x| x.got.iter().filter(|&&g| g == k).count()).sum();
        let most = e.iter().map(|x| x.got.iter().filter(|&&g| g == k).count()).max().unwrap_or(0);
        check!(most <= 1, "delivered twice", "message {k}: {c} times");
    }
    for x in &e {
        check!(!x.got.contains(&9999), "a message reached the wrong endpoint", "");
    }
    obs(c_hash(&e));
}
fn c_hash(e: &[Ep]) -> u64 {
    e.iter().fold(0, |a, x| a * 17 + x.got.len() as u64 * 4 + x.alive as u64 * 2 + x.rx.is_some() as u64)
}

/// A unicast to "a" by another endpoint while an endpoint with "a", whose receiver is dropped already (arg & 1: that
/// drops it now), comes back after its controller died (arg & 2: nobody dies). arg & 4: it becomes the controller; arg & 8: nobody else is there to get it yet.
fn back(arg: u32) {
    explore_on(false);
    let id = ident("back");
    let dies = arg & 2 == 0;
    let dropped = arg & 1 == 0;
    let host = arg & 4 != 0;
    let h = join(1, &id, "host");
    let (t2, r2) = at(2, || {
        let mut o = opts(&id, "a two", host || !dies);
        o.label = lab("a two");
        ipmb::join::<M, M>(o, None).unwrap_or_else(|e| fail!("join failed", "{e:?}"))
    });
    let three = at(3, || ipmb::join::<M, M>(opts(&id, "three", !host), None).unwrap_or_else(|e| fail!("join failed", "{e:?}")));
    let (t3, mut r3) = three;
    quiesce();
    let mut r2 = Some(r2);
    if dropped {
        let r = r2.take();
        at(2, || drop(r));
        quiesce();
    }
    if dies {
        std::mem::forget(h);
        kill(1);
        quiesce();
        if !host {
            // the next controller is there already
            drain(3, &mut r3);
            quiesce();
        }
    } else {
        std::mem::forget(h);
    }
    // the one who should get it
    let four = if host && dies || arg & 8 != 0 { None } else { Some(join(4, &id, "a four")) };
    quiesce();
    explore_on(true);
    let f2 = spawn(2, "back", move || {
        if !dropped {
            drop(r2);
        }
        send(2, &t2, ttl(uni("three"), Duration::from_secs(100)), m(200));
        std::mem::forget(t2);
    });
    let id2 = id.clone();
    let late = Sh::new(four);
    let f3 = spawn(3, "send", move || {
        for k in 0..2 {
            send(3, &t3, ttl(uni("a"), Duration::from_secs(100)), m(300 + k));
        }
        std::mem::forget(t3);
    });
    f2.wait();
    f3.wait();
    quiesce();
    explore_on(false);
    if late.get().is_none() {
        *late.get() = Some(join(4, &id2, "a four"));
        quiesce();
    }
    let (t4, r4) = late.get().as_mut().unwrap();
    let mut g = nums(&drain(4, r4));
    if dropped {
        // (one that had been routed to endpoint 2 comes back)
        g.sort();
        check!(g == [300, 301], "a unicast was lost to a dropped receiver", "endpoint 4 received {g:?}");
    } else {
        // what came before the drop is gone with it
        check!([vec![300, 301], vec![301], vec![]].contains(&g), "wrong messages", "endpoint 4 received {g:?}");
    }
    let n = g.len();
    send(4, t4, uni("three"), m(400));
    send(4, t4, uni("a"), m(401));
    quiesce();
    g = nums(&drain(4, r4));
    check!(g == [401], "a unicast was lost to a dropped receiver", "endpoint 4 received {g:?}");
    let g3 = nums(&drain(3, &mut r3));
    check!(g3 == [200, 400], "a sender whose receiver is dropped does not work", "endpoint 3 received {g3:?}");
    obs(n as u64);
    std::mem::forget(r3);
}

/// A receiver is dropped while messages for it are on the way and its senders send: all interleavings.
/// arg & 1: in the controller's process; arg & 2: tiny queues and a sender that waits for it
fn during(arg: u32) {
    explore_on(false);
    let id = ident("dur");
    let host = arg & 1 != 0;
    let small = arg & 2 != 0;
    let one = join(1, &id, if host { "a one" } else { "one" });
    let two = join(2, &id, if host { "two" } else { "a two" });
    let (_t3, r3) = join(3, &id, "a three");
    let (mut t4, mut r4) = join(4, &id, "four");
    let p = if host { 1 } else { 2 };
    let ((tx, rx), _keep) = if host { (one, two) } else { (two, one) };
    quiesce();
    explore_on(true);
    let len = if small { 1500 } else { 0 };
    let per: u32 = if small { 4 } else { 2 };
    let g3 = receiver(3, "recv3", r3);
    let dropped = Sh::new(false);
    let begun = Sh::new(0u32);
    let fd = spawn(p, "drop", move || {
        drop(rx);
        *dropped.get() = true;
    });
    // those sent after the drop must reach endpoint 3
    let must = Sh::new(vec![]);
    let f4 = spawn(4, "send4", move || {
        for k in 0..per {
            if *dropped.get() {
                must.get().push(400 + k);
            }
            *begun.get() = k;
            send(4, &t4, uni("a"), mp(400 + k, len));
        }
        std::mem::forget(t4);
    });
    let f5 = spawn(p, "send", move || {
        send(p, &tx, uni("three"), m(500));
        send(p, &tx, uni("four"), m(501));
        std::mem::forget(tx);
    });
    fd.wait();
    f4.wait();
    f5.wait();
    quiesce();
    explore_on(false);
    in_order("endpoint 3", g3.get());
    for n in must.get() {
        check!(g3.get().contains(n), "a unicast was lost to a dropped receiver", "{n} was sent after the drop, endpoint 3 received {:?}", g3.get());
    }
    check!(g3.get().contains(&500), "a sender whose receiver is dropped does not work", "{:?}", g3.get());
    let g = nums(&drain(4, &mut r4));
    check!(g == [501], "a sender whose receiver is dropped does not work", "{g:?}");
    obs(g3.get().len() as u64);
    t4 = at(4, || join(4, &id, "x").0);
    send(4, &t4, uni("a"), m(600));
    quiesce();
    check!(g3.get().contains(&600), "a unicast was lost to a dropped receiver", "{:?}", g3.get());
    std::mem::forget((t4, r4));
}

/// The receiver of an endpoint is dropped when the endpoint's queue is full, the controller waits for room in it, and
/// the endpoint's own senders wait for the controller. Everybody must get on.
/// arg: 0 its own messages fill the queue, 1 another's do, 2 those of the controller's process; + 4: multicasts
fn drop_full(arg: u32) {
    explore_on(false);
    let id = ident("dfull");
    let (t1, r1) = join(1, &id, "one");
    let (t2, r2) = join(2, &id, "two");
    let (t3, r3) = join(3, &id, "three");
    let g1 = receiver(1, "recv1", r1);
    let g3 = receiver(3, "recv3", r3);
    quiesce();
    explore_on(true);
    let to = |l: &str| if arg & 4 != 0 { multi(l) } else { uni(l) };
    let mut fl = vec![];
    let (p, t) = match arg & 3 {
        0 => (2, at(2, || t2.clone())),
        1 => (3, at(3, || t3.clone())),
        _ => (1, at(1, || t1.clone())),
    };
    let sel = to("two");
    fl.push(spawn(p, "flood", move || {
        for k in 0..8 {
            send(p, &t, sel.clone(), mp(k, 1500));
        }
        std::mem::forget(t);
    }));
    let c = at(2, || t2.clone());
    fl.push(spawn(2, "send", move || {
        for k in 0..8 {
            send(2, &c, uni(if k % 2 == 0 { "one" } else { "three" }), mp(100 + k, 1500));
        }
        std::mem::forget(c);
    }));
    let waits = choose(2) == 1;
    fl.push(spawn(2, "drop", move || {
        if waits {
            quiesce();
        }
        drop(r2);
    }));
    for f in fl {
        f.wait();
    }
    quiesce();
    check!(*g1.get() == [100, 102, 104, 106] && *g3.get() == [101, 103, 105, 107], "a sender whose receiver is dropped does not work", "{:?} {:?}", g1.get(), g3.get());
    send(2, &t2, uni("three"), m(200));
    send(3, &t3, uni("one"), m(201));
    quiesce();
    check!(g1.get().last() == Some(&201) && g3.get().last() == Some(&200), "a sender whose receiver is dropped does not work", "{:?} {:?}", g1.get(), g3.get());
    std::mem::forget((t1, t2, t3));
}

/// All handles of the controller's endpoint are dropped, in every order and with others at work: the process goes on
/// serving; joins, sends and expiry work as before.
fn served(_: u32) {
    explore_on(false);
    let id = ident("serv");
    let (t1, r1) = join(1, &id, "a one");
    let (t2, mut r2) = join(2, &id, "two");
    let clone = if choose(2) == 0 { Some(at(1, || t1.clone())) } else { None };
    let msgs = choose(3); // nothing, a message, a message with region waits for endpoint 1
    if msgs > 0 {
        let mut msg = Message::new(uni("one"), m(1));
        if msgs == 2 {
            msg.memory_regions.push(at(2, || ipmb::MemoryRegion::new(100).unwrap()));
        }
        at(2, || t2.send(msg).unwrap_or_else(|e| fail!("send failed", "{e:?}")));
    }
    // one waits for an endpoint yet to come
    send(2, &t2, ttl(uni("late"), Duration::from_secs(10)), m(2));
    quiesce();
    match choose(3) {
        0 => at(1, || drop((t1, r1, clone))),
        1 => at(1, || {
            drop(r1);
            drop(clone);
            quiesce();
            drop(t1);
        }),
        _ => at(1, || {
            drop(t1);
            drop(clone);
            quiesce();
            drop(r1);
        }),
    }
    quiesce();
    check!(now() > Duration::ZERO, "", "");
    let (t3, mut r3) = join(3, &id, "late three");
    quiesce();
    check!(nums(&drain(3, &mut r3)) == [2], "the controller stops serving when its endpoint is dropped", "");
    send(2, &t2, uni("three"), m(3));
    send(3, &t3, uni("two"), m(4));
    // nobody there, it waits for the next
    send(3, &t3, ttl(uni("a"), Duration::from_secs(10)), m(5));
    send(3, &t3, ttl(multi("a"), Duration::from_secs(1)), m(6));
    quiesce();
    check!(nums(&drain(3, &mut r3)) == [3] && nums(&drain(2, &mut r2)) == [4], "the controller stops serving when its endpoint is dropped", "");
    pass(Duration::from_secs(5));
    // (from the same process as well)
    let p = if choose(2) == 0 { 1 } else { 4 };
    let (t4, mut r4) = join(p, &id, "a four");
    quiesce();
    let g = nums(&drain(p, &mut r4));
    check!(g == [5], "wrong messages wait for an endpoint", "{g:?}");
    send(p, &t4, uni("two"), m(7));
    quiesce();
    check!(nums(&drain(2, &mut r2)) == [7], "the controller stops serving when its endpoint is dropped", "");
    // and the bus is the old one: its controller was not replaced
    std::mem::forget((t2, r2, t3, r3, t4, r4));
    obs(msgs as u64 * 2 + (p == 1) as u64);
}

/// A payload whose decoder panics.
#[derive(type_uuid::TypeUuid)]
#[uuid = "7b07473e-9659-4d47-a502-8245d71c0c19"]
struct Boom;
impl serde::Serialize for Boom {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u8(1)
    }
}
impl<'de> serde::Deserialize<'de> for Boom {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Boom, D::Error> {
        // (without the hook that makes panics violations)
        std::panic::resume_unwind(Box::new(()))
    }
}
/// The user's decoder panics in a receive; the receiver is dropped by the unwinding or afterwards.
fn decoder(_: u32) {
    explore_on(false);
    let id = ident("decoder");
    let at_host = choose(2) == 1;
    let h = if at_host { None } else { Some(join(1, &id, "host")) };
    let (p, o) = if at_host { (1, 2) } else { (2, 1) };
    let (btx, mut brx) = at(p, || ipmb::join::<Boom, Boom>(opt(&id, "a"), None)).unwrap_or_else(|e| fail!("join failed", "{e:?}"));
    let (tx, mut rx) = h.unwrap_or_else(|| join(o, &id, "host"));
    let (t3, mut r3) = join(3, &id, "a");
    let b = at(o, || ipmb::join::<Boom, Boom>(opt(&id, "c"), None)).unwrap_or_else(|e| fail!("join failed", "{e:?}"));
    quiesce();
    for _ in 0..2 {
        at(o, || b.0.send(Message::new(multi("a"), Boom))).unwrap();
        quiesce();
    }
    let unwinding = choose(2) == 0;
    let timeout = [Some(ms(5)), None][choose(2)];
    let r = at(p, || {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if unwinding {
                let mut r = brx;
                let _ = r.recv(timeout);
                None
            } else {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(brx.recv(timeout))));
                Some(brx)
            }
        }))
    });
    unsafe { eng::mc_set_proc(0) };
    at(p, || drop(r));
    quiesce();
    // the endpoint still sends, and the others exchange messages
    for (from, t, n) in [(o, &tx, 1), (3, &t3, 2)] {
        send(from, t, uni("host"), m(n));
        send(from, t, uni("a"), m(n));
        quiesce();
    }
    let got = nums(&drain(o, &mut rx));
    check!(got == [1, 2], "dropping a receiver disturbs the bus", "{got:?}");
    let got = nums(&drain(3, &mut r3));
    check!(got == [1, 2], "dropping a receiver disturbs the bus", "{got:?}");
    at(p, || drop(btx));
    quiesce();
    obs(at_host as u64 * 2 + unwinding as u64);
}

pub fn c19(t: Tier) -> Vec<Scn> {
    let small = |c: Cfg| Cfg { sndbuf: 1, ..c };
    let d = t.pick(3, 4);
    vec![
        scn("C19/seq", seq, t.pick(4, 5), "drops, sends, joins, a controller's death: all sequences", data()),
        scn("C19/seq-last", seq, 16 | t.pick(4, 5), "the same as seq, only the controller's process still receives", data()),
        scn("C19/seq-host", seq, 32 | t.pick(3, 4), "the same as seq, the controller's process does not receive any more", data()),
        scn("C19/seq-none", seq, 48 | t.pick(4, 5), "the same as seq, nobody receives any more", data()),
        scn("C19/served", served, 0, "all handles of the controller's endpoint are dropped", data()),
        scn("C19/decoder", decoder, 0, "a receiver is dropped after its user's decoder panicked", data()),
        scn("C19/during", during, 0, "a receiver is dropped under traffic", sched(d)),
        scn("C19/during-host", during, 1, "the same in the controller's process", sched(d)),
        scn("C19/during-full", during, 2, "tiny queues", small(sched(t.pick(1, 2)))),
        scn("C19/drop-full-own", drop_full, 0, "a receiver whose queue is full with its endpoint's messages is dropped while its senders wait", small(sched(t.pick(1, 2)))),
        scn("C19/drop-full", drop_full, 1, "the same with another's messages", small(sched(t.pick(1, 2)))),
        scn("C19/drop-full-host", drop_full, 2, "the same with messages of the controller's process", small(sched(t.pick(1, 2)))),
        scn("C19/drop-full-multi", drop_full, 5, "the same with multicasts", small(sched(t.pick(1, 2)))),
        scn("C19/drop-now", back, 3, "a receiver is dropped while messages for it are sent", sched(d)),
        scn("C19/back", back, 0, "an endpoint without receiver rejoins while messages for its label are sent", sched(d)),
        scn("C19/back-drop", back, 1, "the same, the receiver is dropped meanwhile", sched(d)),
        scn("C19/back-wait", back, 8, "an endpoint without receiver rejoins while messages for its label come to wait", sched(d)),
        scn("C19/back-host", back, 4, "an endpoint without receiver becomes the controller", sched(d)),
        scn("C19/back-host-drop", back, 5, "the same, the receiver is dropped meanwhile", sched(d)),
    ]
}
