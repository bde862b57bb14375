//! C22: calls on a healthy bus finish. A call that does not is a deadlock (every thread blocked while the scenario
//! waits for it) or a run past the horizon; what finished must also have had its effect.
use super::form::opts;
use ipmb::{BytesMessage, Label, LabelOp, Message, SendError};
use mc::{bus::*, check, eng, explore::*, fail, note, rt::*, *};
use std::time::Duration;

fn sorted(v: &[u32]) -> Vec<u32> {
    let mut v = v.to_vec();
    v.sort();
    v
}
fn all_there(who: &str, got: &[u32], want: &[u32]) {
    check!(sorted(got) == sorted(want), "messages lost or duplicated", "{who} received {got:?}, sent {want:?}");
    in_order(who, got);
    for &g in got {
        obs(g as u64);
    }
}

/// Threads of one endpoint (arg & 1: in the controller's process) send from clones and from the original, drop them,
/// and receive, while another process sends to it and receives.
/// arg & 2: to itself only; arg & 4: messages that fill the tiny queues
fn share(arg: u32) {
    explore_on(false);
    let id = ident("share");
    let host = arg & 1 != 0;
    let own = arg & 2 != 0;
    let len = if arg & 4 != 0 { 1500 } else { 0 };
    let per = if arg & 4 != 0 { 3 } else { 1 };
    let p = if host { 1 } else { 2 };
    let (t1, r1) = join(1, &id, "one");
    let (t2, r2) = join(2, &id, "two");
    let ((tx, rx), (ty, ry)) = if host { ((t1, r1), (t2, r2)) } else { ((t2, r2), (t1, r1)) };
    let q = 3 - p;
    let me = if host { "one" } else { "two" };
    let you = if host { "two" } else { "one" };
    quiesce();
    explore_on(true);
    let gx = receiver(p, "recv", rx);
    let gy = receiver(q, "peer-recv", ry);
    let mut fl = vec![];
    let (mut wx, mut wy) = (vec![], vec![]);
    for k in 1..=2 {
        let c = at(p, || tx.clone());
        let to = if own { me } else { you };
        for j in 0..per {
            (if own { &mut wx } else { &mut wy }).push(k * 100 + j);
        }
        fl.push(spawn(p, &format!("send{k}"), move || {
            let c2 = c.clone();
            if k == 1 {
                drop(c);
                for j in 0..per {
                    send(p, &c2, uni(to), mp(k * 100 + j, len));
                }
                drop(c2);
            } else {
                drop(c2);
                for j in 0..per {
                    send(p, &c, uni(to), mp(k * 100 + j, len));
                }
                drop(c);
            }
        }));
    }
    if !own {
        for j in 0..per {
            wx.push(500 + j);
        }
        let me = me.to_string();
        fl.push(spawn(q, "peer-send", move || {
            for j in 0..per {
                send(q, &ty, uni(me.as_str()), mp(500 + j, len));
            }
            std::mem::forget(ty);
        }));
    } else {
        std::mem::forget(ty);
    }
    fl.push(spawn(p, "drop", move || drop(tx)));
    for f in fl {
        f.wait();
    }
    quiesce();
    all_there("the endpoint", gx.get(), &wx);
    all_there("the other one", gy.get(), &wy);
}

/// A receiver is dropped while threads of its endpoint send, and the endpoint's senders go too (or not).
fn drops(arg: u32) {
    explore_on(false);
    let id = ident("drops");
    let host = arg & 1 != 0;
    let p = if host { 1 } else { 2 };
    let (t1, r1) = join(1, &id, "one");
    let (t2, r2) = join(2, &id, "two");
    let (t3, r3) = join(3, &id, "three");
    let ((tx, rx), (ty, ry)) = if host { ((t1, r1), (t2, r2)) } else { ((t2, r2), (t1, r1)) };
    let q = 3 - p;
    quiesce();
    explore_on(true);
    let g3 = receiver(3, "recv3", r3);
    let gy = receiver(q, "peer-recv", ry);
    let mut fl = vec![spawn(p, "drop-recv", move || drop(rx))];
    for k in 1..=2 {
        let c = at(p, || tx.clone());
        fl.push(spawn(p, &format!("send{k}"), move || {
            send(p, &c, uni("three"), m(k * 100));
            send(p, &c, uni(if p == 1 { "one" } else { "two" }), m(k * 100 + 1));
            drop(c);
        }));
    }
    fl.push(spawn(p, "drop-send", move || drop(tx)));
    // the others go on, and send to the one that goes
    fl.push(spawn(q, "peer-send", move || {
        send(q, &ty, multi(LabelOp::True), m(500));
        send(q, &ty, uni("three"), m(501));
        std::mem::forget(ty);
    }));
    for f in fl {
        f.wait();
    }
    let f = spawn(3, "after", move || {
        send(3, &t3, uni(if p == 1 { "two" } else { "one" }), m(300));
        std::mem::forget(t3);
    });
    f.wait();
    let id2 = id.clone();
    let late = Sh::new(None);
    let f = spawn(4, "late", move || *late.get() = Some(join(4, &id2, "four")));
    f.wait();
    quiesce();
    all_there("endpoint 3", g3.get(), &[100, 200, 500, 501]);
    all_there("the other one", gy.get(), &[300, 500]);
}

/// Endpoints join, from other processes and from the controller's, while others send.
fn joins(arg: u32) {
    explore_on(false);
    let id = ident("joins");
    let t0 = now();
    let (t1, r1) = join(1, &id, "one");
    let (t2, r2) = join(2, &id, "two");
    quiesce();
    explore_on(true);
    let g1 = receiver(1, "recv1", r1);
    let g2 = receiver(2, "recv2", r2);
    let mut fl = vec![];
    for (k, p) in [(3, 3), (4, if arg & 1 != 0 { 1 } else { 4 })] {
        let id = id.clone();
        fl.push(spawn(p, &format!("join{k}"), move || {
            let (t, r) = join(p, &id, "new");
            send(p, &t, uni("one"), m(k * 100));
            if arg & 2 != 0 {
                drop((t, r));
            } else {
                std::mem::forget((t, r));
            }
        }));
    }
    fl.push(spawn(1, "send1", move || {
        send(1, &t1, uni("two"), m(100));
        std::mem::forget(t1);
    }));
    fl.push(spawn(2, "send2", move || {
        send(2, &t2, uni("one"), m(200));
        std::mem::forget(t2);
    }));
    for f in fl {
        f.wait();
    }
    quiesce();
    check!(now() - t0 < ms(1000), "a call took long on a healthy bus", "{:?}", now() - t0);
    all_there("endpoint 1", g1.get(), &[200, 300, 400]);
    all_there("endpoint 2", g2.get(), &[100]);
}

/// Many processes join at once, more than the controller's listening queue holds.
fn crowd(arg: u32) {
    explore_on(false);
    let id = ident("crowd");
    let (t1, r1) = join(1, &id, "one");
    quiesce();
    let mut fl = vec![];
    let n = arg;
    explore_on(true);
    for k in 0..n {
        let id = id.clone();
        fl.push(spawn(2 + (k % 20) as i32, &format!("join{k}"), move || {
            let e = join(2 + (k % 20) as i32, &id, "new");
            send(2 + (k % 20) as i32, &e.0, uni("one"), m(k * 100));
            std::mem::forget(e);
        }));
    }
    let g1 = receiver(1, "recv1", r1);
    for f in fl {
        f.wait();
    }
    quiesce();
    std::mem::forget(t1);
    all_there("endpoint 1", g1.get(), &(0..n).map(|k| k * 100).collect::<Vec<_>>());
}

/// Signals interrupt sends that wait for room (arg & 3: who sends to whom as in C03; arg >> 4: how many).
fn signals(arg: u32) {
    explore_on(false);
    let id = ident("psig");
    let t0 = now();
    let (from, to) = [(2, 3), (1, 3), (2, 1)][(arg & 3) as usize];
    let mut e = vec![None];
    for (p, l) in [(1, "one"), (2, "two"), (3, "three")] {
        e.push(Some(join(p, &id, l)));
    }
    let target = ["", "one", "two", "three"][to];
    let region = arg & 4 != 0;
    let (tx, rx0) = e[from].take().unwrap();
    let (tx0, rx) = e[to].take().unwrap();
    let per = 5;
    // something waits for the sender
    let me = ["", "one", "two", "three"][from];
    send(to as i32, &tx0, uni(me), m(0));
    quiesce();
    unsafe { eng::mc_faults(eng::F_EINTR_SEND | eng::F_EINTR_EPOLL, 0b1110, 0, (arg >> 4) as i32) }
    explore_on(true);
    let got = Sh::new(vec![]);
    let mut rx = rx;
    spawn(to as i32, "recv", move || loop {
        match rx.recv(None) {
            Ok(mut msg) => {
                check!(msg.payload.pad == pad(msg.payload.n, 1500), "corrupt payload", "{}", msg.payload.n);
                check!(msg.memory_regions.len() == region as usize, "attachments lost", "{}", msg.memory_regions.len());
                for r in msg.memory_regions.iter_mut() {
                    check!(r.ref_count() == 1, "wrong reference count", "{}", r.ref_count());
                }
                got.get().push(msg.payload.n)
            }
            Err(e) => fail!("recv failed", "{e:?}"),
        }
    });
    let f = spawn(from as i32, "send", move || {
        for j in 0..per {
            let mut msg = Message::new(uni(target), mp(100 + j, 1500));
            if region {
                msg.memory_regions.push(ipmb::MemoryRegion::new(64).unwrap());
            }
            if let Err(e) = tx.send(msg) {
                fail!("send failed", "{e:?}");
            }
        }
        std::mem::forget(tx);
    });
    f.wait();
    quiesce();
    unsafe { eng::mc_faults(0, 0, 0, 0) }
    explore_on(false);
    check!(now() - t0 < ms(1000), "a call took long on a healthy bus", "{:?}", now() - t0);
    all_there("the receiver", got.get(), &(100..100 + per).collect::<Vec<_>>());
    // and the bus is whole
    send(to as i32, &tx0, uni(me), m(1));
    quiesce();
    let mut rx0 = rx0;
    let d = nums(&drain(from as i32, &mut rx0));
    check!(d == [0, 1], "messages lost or duplicated", "the sender received {d:?}");
    std::mem::forget((e, tx0, rx0));
}

/// Messages that are too large or carry too much, of all sizes around the limits and by all routes: every send
/// returns (with an error or not) and the bus goes on working for everybody.
fn large(_: u32) {
    explore_on(false);
    let id = ident("large");
    let t0 = now();
    let mut one = join(1, &id, "one all");
    let mut two = join(2, &id, "two all");
    let mut three = join(3, &id, "three all");
    let by: ipmb::EndpointSender<BytesMessage>;
    let from = 1 + choose(2);
    {
        let l = if from == 1 { "bytes1" } else { "bytes2" };
        by = at(from as i32, || ipmb::join::<BytesMessage, M>(opt(&id, l), None).unwrap_or_else(|e| fail!("join failed", "{e:?}")).0);
    }
    // the endpoint of the controller itself sends without the kernel
    let own = from == 1 && choose(2) == 1;
    quiesce();
    let kind = choose(3);
    let sel = match choose(4) {
        0 => uni("three"),
        1 => uni("one"),
        2 => multi("all"),
        _ => ttl(uni("nobody"), ms(1000)),
    };
    let mut msg = Message::new(sel.clone(), BytesMessage { format: 0, data: vec![] });
    let mut size = 0;
    match kind {
        0 => {
            // (the limit is about twice the size asked for, less what the kernel needs)
            let sizes = [60 << 10, 64 << 10, 127 << 10, 128 << 10, (128 << 10) + 1, 207 << 10, 208 << 10, 212 << 10, 212992, 256 << 10, 1 << 20, 16 << 20, 40 << 20];
            size = sizes[choose(sizes.len())];
            msg.payload.data = vec![7; size];
        }
        1 => {
            let n = [252, 253, 254, 300, 1000][choose(5)];
            size = n;
            msg.objects = (0..n).map(|_| at(from as i32, || ipmb::MemoryRegion::new(64).unwrap().object().try_clone_())).collect();
        }
        _ => {
            let n = [252, 253, 254, 300][choose(4)];
            size = n;
            msg.memory_regions = (0..n).map(|_| at(from as i32, || ipmb::MemoryRegion::new(64).unwrap())).collect();
        }
    }
    note!("process {from} (own {own}) sends kind {kind}, size {size}, {sel:?}");
    let res = Sh::new(None);
    let one_tx = at(1, || one.0.clone());
    let sel2 = sel.clone();
    let f = spawn(from as i32, "large", move || {
        let r = if own {
            // same bytes under another type
            let mut m2 = Message::new(sel2, M { n: 0, pad: msg.payload.data });
            m2.objects = msg.objects;
            m2.memory_regions = msg.memory_regions;
            one_tx.send(m2)
        } else {
            by.send(msg)
        };
        *res.get() = Some(r);
        std::mem::forget((one_tx, by));
    });
    f.wait();
    match res.get().take().unwrap() {
        Ok(()) => obs(1),
        Err(SendError::IoError(_)) => obs(2),
        Err(e) => fail!("wrong error", "{e:?}"),
    }
    // everybody still reaches everybody
    quiesce();
    for (p, e) in [(1, &mut one), (2, &mut two), (3, &mut three)] {
        drain(p, &mut e.1);
    }
    for (p, t) in [(1, &one.0), (2, &two.0), (3, &three.0)] {
        send(p, t, multi("all"), m(p as u32 * 100));
    }
    quiesce();
    for (p, e) in [(1, &mut one), (2, &mut two), (3, &mut three)] {
        let g = nums(&drain(p, &mut e.1));
        all_there(&format!("endpoint {p}"), &g, &[100, 200, 300]);
    }
    check!(now() - t0 < ms(1000), "a call took long on a healthy bus", "{:?}", now() - t0);
    std::mem::forget((one, two, three));
}

/// The controller refuses a message (its expression is too deep, or there is no descriptor left for its attachments)
/// while a thread of the sending endpoint waits in receive: the sends after it finish and arrive.
fn refused(arg: u32) {
    explore_on(false);
    let id = ident("ref");
    let t0 = now();
    let (t1, r1) = join(1, &id, "one");
    let (t2, r2) = join(2, &id, "two");
    let (t3, r3) = join(3, &id, "three");
    let from = [2, 2, 1][arg as usize % 3];
    let (tx, rx, other, ty, ry) = if from == 1 { (t1, r1, 2, t2, r2) } else { (t2, r2, 1, t1, r1) };
    let busy = choose(2) == 0;
    let case = if arg % 3 == 1 { 10 + choose(3) } else { choose(4) };
    let after = choose(3);
    note!("case {case}, {}a thread receives, then {after} turns", if busy { "" } else { "not " });
    let mut held = None;
    let got = if busy { receiver(from, "recv", rx) } else { held = Some(rx); Sh::new(vec![]) };
    quiesce();
    let mut msg = if case < 10 {
        // 1,000 is the deepest that is promised to work
        let d = [1001, 1002, 2000, 5000][case];
        let mut op = LabelOp::from("three");
        for k in 0..d {
            op = if k % 2 == 0 { op.and(LabelOp::True) } else { op.or(LabelOp::False) };
        }
        Message::new(uni(op), m(1))
    } else {
        unsafe { eng::mc_cut(1, case as i32 - 10) }
        let mut v = Message::new(uni("three"), m(1));
        v.objects = (0..3).map(|_| at(from, || ipmb::MemoryRegion::new(64).unwrap().object().try_clone_())).collect();
        v
    };
    let region = at(from, || ipmb::MemoryRegion::new(64).unwrap());
    if case < 10 {
        msg.memory_regions.push(at(from, || region.clone().unwrap()));
    }
    explore_on(true);
    // the one after may be lost with the connection when descriptors run out, no later ones
    let f = spawn(from, "send", move || {
        match tx.send(msg) {
            Ok(()) => obs(1),
            Err(SendError::IoError(_)) => obs(2),
            Err(e) => fail!("wrong error", "{e:?}"),
        }
        if case >= 10 {
            quiesce();
        }
        for k in 0..3 {
            send(from, &tx, uni("three"), m(10 + k));
            send(from, &tx, uni(["", "one", "two"][from as usize]), m(20 + k));
            for _ in 0..after {
                quiesce();
            }
        }
        std::mem::forget(tx);
    });
    f.wait();
    quiesce();
    explore_on(false);
    check!(now() - t0 < ms(1000), "a call took long on a healthy bus", "{:?}", now() - t0);
    let g3 = receiver(3, "recv3", r3);
    quiesce();
    if let Some(rx) = &mut held {
        *got.get() = nums(&drain(from, rx));
    }
    let mut g = g3.get().clone();
    if case < 10 && g.first() == Some(&1) {
        g.remove(0); // refusing it is allowed, not required
    }
    all_there("endpoint 3", &g, &[10, 11, 12]);
    if case < 10 || busy {
        all_there("the endpoint itself", got.get(), &[20, 21, 22]);
    }
    check!(case >= 10 || region.ref_count() == 1 || !g3.get().is_empty() && g3.get()[0] == 1, "a refused message keeps its region", "{}", region.ref_count());
    // the others
    send(other, &ty, uni("three"), m(30));
    send(3, &t3, uni(if other == 1 { "one" } else { "two" }), m(31));
    quiesce();
    let mut ry = ry;
    check!(nums(&drain(other, &mut ry)) == [31] && g3.get().last() == Some(&30), "messages lost or duplicated", "");
    std::mem::forget((ty, ry, t3, held));
}

/// A join whose label or token is so large that the request cannot be sent ends with an error.
fn large_join(_: u32) {
    explore_on(false);
    let id = ident("ljoin");
    let (t1, mut r1) = join(1, &id, "one");
    let size = [50 << 10, 100 << 10, 200 << 10, 300 << 10, 1 << 20][choose(5)];
    let in_label = choose(2) == 0;
    let t = [None, Some(ms(5000))][choose(2)];
    let mut o = opts(&id, "two", true);
    if in_label {
        o.label = Label::from(["x".repeat(size)]);
    } else {
        o.token = "y".repeat(size);
    }
    let res = Sh::new(None);
    let t0 = now();
    let f = spawn(2, "join", move || *res.get() = Some((ipmb::join::<M, M>(o, t), now())));
    pass(Duration::from_secs(600));
    check!(f.is_set(), "a join too large for the transport never ends", "{size} bytes in the {}", if in_label { "label" } else { "token" });
    let (r, end) = res.get().take().unwrap();
    if let Some(t) = t {
        check!(end - t0 <= t + ms(2001), "join returned after its timeout", "{:?}", end - t0);
    }
    if in_label && size < 128 << 10 {
        check!(r.is_ok(), "join failed", "{:?}", r.err());
    }
    std::mem::forget(r);
    // nobody else minds
    let (t3, r3) = join(3, &id, "three");
    send(3, &t3, uni("one"), m(1));
    quiesce();
    check!(nums(&drain(1, &mut r1)) == [1], "messages lost or duplicated", "");
    std::mem::forget((t1, r1, t3, r3));
    obs(size as u64);
}

trait TryClone {
    fn try_clone_(&self) -> ipmb::Object;
}
impl TryClone for ipmb::Object {
    fn try_clone_(&self) -> ipmb::Object {
        unsafe { ipmb::Object::from_raw(libc::fcntl(self.as_raw(), libc::F_DUPFD_CLOEXEC, 0)) }
    }
}

/// A receive finishes when a message waits, however it and what comes before it got there; with and without timeout,
/// from threads that receive in turn.
fn waiting(_: u32) {
    explore_on(false);
    let id = ident("wtg");
    let p = 1 + choose(2) as i32;
    let (t1, r1) = join(1, &id, "one");
    let (t2, r2) = join(2, &id, "two");
    let (t3, _r3) = join(3, &id, "three");
    let other = at(3, || {
        let mut o = opts(&id, "other", false);
        o.label = lab("other");
        ipmb::join::<BytesMessage, M>(o, None).unwrap_or_else(|e| fail!("join failed", "{e:?}")).0
    });
    let mut rx = if p == 1 { r1 } else { r2 };
    let me = ["one", "two"][p as usize - 1];
    // unwanted and wanted messages, before or while somebody waits
    let mut want = vec![];
    let first = choose(2) == 0;
    let go = |want: &mut Vec<u32>| {
        for k in 0..3 {
            match choose(3) {
                0 => at(3, || other.send(Message::new(uni(me), BytesMessage { format: 0, data: vec![] })).unwrap_or_else(|e| fail!("send failed", "{e:?}"))),
                1 => {
                    send(3, &t3, uni(me), m(k));
                    want.push(k);
                }
                _ => {
                    send(p, if p == 1 { &t1 } else { &t2 }, uni(me), m(k));
                    want.push(k);
                }
            }
            quiesce();
        }
    };
    if first {
        go(&mut want);
    }
    let got = Sh::new(vec![]);
    let t = [None, Some(ms(0)), Some(ms(5)), Some(Duration::MAX)][choose(if first { 4 } else { 1 })];
    let n = Sh::new(want.len());
    let f = spawn(p, "recv", move || {
        while got.get().len() < *n.get() || !first {
            match rx.recv(t) {
                Ok(msg) => got.get().push(msg.payload.n),
                Err(e) => fail!("a receive with a waiting message fails", "{e:?}"),
            }
        }
        std::mem::forget(rx);
    });
    if first {
        f.wait();
    } else {
        quiesce();
        go(&mut want);
    }
    quiesce();
    check!(*got.get() == want, "messages lost or duplicated", "{:?} instead of {want:?}", got.get());
    obs(want.len() as u64);
    std::mem::forget((t1, t2, t3, other));
}

/// The controller drops the connection of an endpoint (it has no descriptor left for the attachments of a message)
/// that receives messages and sends from `1 + arg` threads at the time. Messages on their way may be lost with the connection.
fn cut_race(arg: u32) {
    explore_on(false);
    let id = ident("cut");
    let (t1, r1) = join(1, &id, "one");
    let (t2, r2) = join(2, &id, "two");
    let (t3, r3) = join(3, &id, "three");
    let got = receiver(2, "recv", r2);
    let g3 = receiver(3, "recv3", r3);
    quiesce();
    let mut msg = Message::new(uni("three"), m(1));
    msg.objects = (0..3).map(|_| at(2, || ipmb::MemoryRegion::new(64).unwrap().object().try_clone_())).collect();
    at(2, || t2.send(msg).unwrap_or_else(|e| fail!("send", "{e:?}")));
    unsafe { eng::mc_cut(1, 1) }
    explore_on(true);
    let mut fl = vec![];
    for k in 0..=arg {
        let c = at(2, || t2.clone());
        fl.push(spawn(2, &format!("send{k}"), move || {
            for j in 0..2 {
                if let Err(e) = c.send(Message::new(uni("three"), m(10 * (k + 1) + j))) {
                    fail!("a send fails", "{e:?}");
                }
            }
            std::mem::forget(c);
        }));
    }
    let c = at(3, || t3.clone());
    fl.push(spawn(3, "other", move || {
        for j in 0..2 {
            send(3, &c, uni("two"), m(50 + j));
        }
        std::mem::forget(c);
    }));
    for f in fl {
        f.wait();
    }
    quiesce();
    explore_on(false);
    for k in 0..2 {
        send(2, &t2, uni("three"), m(60 + k));
        quiesce();
        send(3, &t3, uni("two"), m(70 + k));
        quiesce();
    }
    let (a, b) = (got.get().clone(), g3.get().clone());
    check!(a.ends_with(&[70, 71]) && b.ends_with(&[60, 61]), "messages lost or duplicated", "{a:?} {b:?}");
    in_order("endpoint 2", &a);
    for x in a.iter().chain(&b) {
        obs(*x as u64);
    }
    std::mem::forget(t1);
}

pub fn c22(t: Tier) -> Vec<Scn> {
    let small = |c: Cfg| Cfg { sndbuf: 1, ..c };
    let d = t.pick(2, 3);
    vec![
        scn("C22/waiting", waiting, 0, "messages wait or come, wanted and unwanted: all sequences", data()),
        scn("C22/large", large, 0, "messages around the limits of the transport by all routes", data()),
        scn("C22/large-join", large_join, 0, "joins around the limits of the transport", data()),
        scn("C22/refused-deep", refused, 0, "the controller refuses an expression while the sender's endpoint receives", data()),
        scn("C22/refused-cut", refused, 1, "the controller has no descriptor left for attachments", data()),
        scn("C22/cut-race", cut_race, 0, "the same while messages arrive: all interleavings", sched(d)),
        scn("C22/cut-race-two", cut_race, 1, "and two threads send", sched(t.pick(1, 3))),
        scn("C22/refused-own", refused, 2, "refused expressions from the controller's process", data()),
        scn("C22/client", share, 0, "threads share an endpoint: all interleavings", sched(d)),
        scn("C22/host", share, 1, "the same in the controller's process", sched(d)),
        scn("C22/client-self", share, 2, "threads share an endpoint and send to it", sched(d)),
        scn("C22/host-self", share, 3, "the same in the controller's process", sched(t.pick(3, 4))),
        scn("C22/client-full", share, 4, "queues of two messages", small(sched(t.pick(1, 2)))),
        scn("C22/host-full", share, 5, "queues of two messages", small(sched(t.pick(1, 2)))),
        scn("C22/host-self-full", share, 7, "queues of two messages", small(sched(d))),
        scn("C22/drops", drops, 0, "handles are dropped while others are used", sched(t.pick(1, 2))),
        scn("C22/drops-host", drops, 1, "the same in the controller's process", sched(t.pick(1, 2))),
        scn("C22/joins", joins, 0, "endpoints join while others send", sched(d)),
        scn("C22/joins-own", joins, 1, "one of them in the controller's process", sched(d)),
        scn("C22/joins-leave", joins, 2, "and leave", sched(d)),
        scn("C22/crowd", crowd, 40, "forty endpoints join at once", sched(t.pick(0, 1))),
        scn("C22/signals", signals, 0 | t.pick(3, 4) << 4, "signals interrupt waiting sends, client to client", small(faulty(t.pick(0, 1), t.pick(3, 4)))),
        scn("C22/signals-host", signals, 1 | t.pick(3, 4) << 4, "from the controller's process", small(faulty(t.pick(0, 1), t.pick(3, 4)))),
        scn("C22/signals-to-host", signals, 2 | t.pick(3, 4) << 4, "to the controller's process", small(faulty(t.pick(0, 1), t.pick(3, 4)))),
        scn("C22/signals-region", signals, 4 | t.pick(3, 4) << 4, "with memory regions", small(faulty(t.pick(0, 1), t.pick(3, 4)))),
    ]
}
