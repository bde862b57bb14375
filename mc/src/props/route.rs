//! C01 (multicast) and C02 (unicast): who gets a message.
use mc::{bus::*, check, explore::*, fail, note, rt::*, *};

use ipmb::{LabelOp, SelectorMode};

const OPS: usize = 6;
fn op(i: usize) -> LabelOp {
    match i {
        0 => "a".into(),
        1 => "b".into(),
        2 => LabelOp::from("a").and("b"),
        3 => !LabelOp::from("a"),
        4 => LabelOp::True,
        _ => LabelOp::from("a").or("c"),
    }
}
// evaluated here independently of the library
fn matches(i: usize, l: &str) -> bool {
    let h = |e: &str| l.split(' ').any(|x| x == e);
    match i {
        0 => h("a"),
        1 => h("b"),
        2 => h("a") && h("b"),
        3 => !h("a"),
        4 => true,
        _ => h("a") || h("c"),
    }
}

pub struct Ep {
    pub proc: i32,
    pub label: &'static str,
    pub tx: Option<Tx>,
    pub rx: Option<Rx>,
    pub alive: bool,
}
pub fn ep(proc: i32, id: &str, label: &'static str) -> Ep {
    let (tx, rx) = join(proc, id, label);
    Ep { proc, label, tx: Some(tx), rx: Some(rx), alive: true }
}
impl Ep {
    /// The endpoint's handles are dropped.
    pub fn leave(&mut self) {
        let (t, r) = (self.tx.take(), self.rx.take());
        at(self.proc, || drop((t, r)));
        self.alive = false;
    }
    /// The endpoint's process dies.
    pub fn die(&mut self) {
        std::mem::forget((self.tx.take(), self.rx.take()));
        kill(self.proc);
        self.alive = false;
    }
    pub fn drain(&mut self) -> Vec<u32> {
        match self.rx.as_mut() {
            Some(r) => nums(&drain(self.proc, r)),
            None => vec![],
        }
    }
}

pub fn selector(mode: SelectorMode, o: LabelOp) -> ipmb::Selector {
    match mode {
        SelectorMode::Unicast => uni(o),
        SelectorMode::Multicast => multi(o),
    }
}

fn judge(mode: SelectorMode, o: usize, eps: &mut [Ep], n: u32, got: &[Vec<u32>]) {
    let set: Vec<usize> = (0..eps.len()).filter(|&i| eps[i].alive && matches(o, eps[i].label)).collect();
    let who: Vec<usize> = (0..eps.len()).flat_map(|i| got[i].iter().filter(|&&x| x == n).map(move |_| i)).collect();
    let desc = || format!("message {n} for {:?}: endpoints {:?} match, received by {:?} (labels {:?})", op(o), set, who, eps.iter().map(|e| e.label).collect::<Vec<_>>());
    for &w in &who {
        check!(set.contains(&w), "delivered to a non-matching endpoint", "{}", desc());
    }
    match mode {
        SelectorMode::Multicast => {
            for &s in &set {
                let c = who.iter().filter(|&&w| w == s).count();
                check!(c >= 1, "multicast missed a matching endpoint", "{}", desc());
                check!(c <= 1, "multicast delivered twice", "{}", desc());
            }
        }
        SelectorMode::Unicast => {
            if set.is_empty() {
                check!(who.is_empty(), "unicast delivered without match", "{}", desc());
            } else {
                check!(!who.is_empty(), "unicast lost", "{}", desc());
                check!(who.len() == 1, "unicast delivered more than once", "{}", desc());
            }
        }
    }
    obs(n as u64);
    for &w in &who {
        obs(w as u64 + 100);
    }
}

const LABS: [&str; 3] = ["a", "b", "a b"];

/// Joins, departures and sends in every combination, one after the other.
fn seq(arg: u32) {
    let mode = if arg & 1 == 0 { SelectorMode::Multicast } else { SelectorMode::Unicast };
    let deep = arg & 2 != 0;
    explore_on(false);
    let id = ident("route");
    let mut eps = vec![ep(1, &id, ["c", "a c"][choose(2)])];
    let maxj = if deep { 4 } else { 3 };
    for k in 0..maxj {
        match choose(4) {
            0 => break,
            l => eps.push(ep(2 + k, &id, LABS[l - 1])),
        }
    }
    let mut n = 0;
    let sends = if deep { 3 } else { 2 };
    for round in 0..sends {
        // a departure before the first or second send
        if eps.len() > 1 && round < 2 {
            let live: Vec<usize> = (1..eps.len()).filter(|&i| eps[i].alive).collect();
            if !live.is_empty() && (round == 0 || deep) {
                let c = choose(1 + live.len() * 2);
                if c > 0 {
                    let e = &mut eps[live[(c - 1) / 2]];
                    note!("endpoint {} ({}) goes", e.proc, e.label);
                    if (c - 1) % 2 == 0 { e.leave() } else { e.die() }
                }
            }
        }
        let live: Vec<usize> = (0..eps.len()).filter(|&i| eps[i].alive).collect();
        let from = live[choose(live.len())];
        let o = choose(if round == 0 { OPS } else { 3 });
        n += 1;
        note!("endpoint {} sends {n} for {:?}", eps[from].proc, op(o));
        send(eps[from].proc, eps[from].tx.as_ref().unwrap(), selector(mode, op(o)), m(n));
        quiesce();
        let got: Vec<Vec<u32>> = eps.iter_mut().map(|e| e.drain()).collect();
        judge(mode, o, &mut eps, n, &got);
    }
}

/// Two senders, two receivers and the controller, all interleavings.
fn par(arg: u32) {
    let mode = if arg & 1 == 0 { SelectorMode::Multicast } else { SelectorMode::Unicast };
    explore_on(false);
    let id = ident("rpar");
    let (ctx, crx) = join(1, &id, "a c");
    let (_t2, r2) = join(2, &id, "a");
    let (t3, r3) = join(3, &id, "a b");
    let g1 = receiver(1, "recv1", crx);
    let g2 = receiver(2, "recv2", r2);
    let g3 = receiver(3, "recv3", r3);
    quiesce();
    explore_on(true);
    let ms = if arg & 2 != 0 { 2 } else { 1 };
    let f1 = spawn(1, "send1", move || {
        for k in 0..ms {
            send(1, &ctx, selector(mode, op(0)), m(100 + k));
        }
        std::mem::forget(ctx);
    });
    let f3 = spawn(3, "send3", move || {
        for k in 0..ms {
            send(3, &t3, selector(mode, op(0)), m(300 + k));
        }
        std::mem::forget(t3);
    });
    f1.wait();
    f3.wait();
    quiesce();
    let all = [g1.get(), g2.get(), g3.get()];
    for s in [100, 300] {
        for k in 0..ms {
            let n = s + k;
            let c: Vec<usize> = all.iter().map(|g| g.iter().filter(|&&x| x == n).count()).collect();
            match mode {
                SelectorMode::Multicast => {
                    check!(c.iter().all(|&x| x >= 1), "multicast missed a matching endpoint", "message {n}: {c:?}");
                    check!(c.iter().all(|&x| x <= 1), "multicast delivered twice", "message {n}: {c:?}");
                }
                SelectorMode::Unicast => {
                    let t: usize = c.iter().sum();
                    check!(t >= 1, "unicast lost", "message {n}: {c:?}");
                    check!(t <= 1, "unicast delivered more than once", "message {n}: {c:?}");
                }
            }
        }
    }
    for (i, g) in all.iter().enumerate() {
        in_order(&format!("endpoint {}", i + 1), g);
        obs(1000 + i as u64);
        for &x in g.iter() {
            obs(x as u64);
        }
    }
}

/// A sender and an endpoint that leaves or joins at the same time: nobody else is affected and the message
/// goes to at most one endpoint (unicast) or exactly to those that stay.
fn churn(arg: u32) {
    let mode = if arg & 1 == 0 { SelectorMode::Multicast } else { SelectorMode::Unicast };
    let leave = arg & 2 != 0;
    explore_on(false);
    let id = ident("churn");
    let (_ct, crx) = join(1, &id, "c");
    let (_t2, r2) = join(2, &id, "a");
    let (t3, r3) = join(3, &id, "b");
    let extra = if leave { Some(join(4, &id, "a")) } else { None };
    let _g1 = receiver(1, "recv1", crx);
    let g2 = receiver(2, "recv2", r2);
    let g3 = receiver(3, "recv3", r3);
    quiesce();
    explore_on(true);
    let late = Sh::new(None);
    let f4 = match extra {
        Some(e) => spawn(4, "leave4", move || drop(e)),
        None => {
            let id = id.clone();
            spawn(4, "join4", move || *late.get() = Some(join(4, &id, "a")))
        }
    };
    send(3, &t3, selector(mode, op(0)), m(301));
    send(3, &t3, selector(mode, op(0)), m(302));
    f4.wait();
    quiesce();
    explore_on(false);
    let l4 = match late.get() {
        Some((_, r)) => nums(&drain(4, r)),
        None => vec![],
    };
    check!(g3.get().is_empty(), "delivered to a non-matching endpoint", "{:?}", g3.get());
    let g = g2.get();
    for n in [301, 302] {
        let c2 = g.iter().filter(|&&x| x == n).count();
        let c4 = l4.iter().filter(|&&x| x == n).count();
        check!(c2 <= 1 && c4 <= 1, "delivered twice", "message {n}: {g:?} {l4:?}");
        match mode {
            SelectorMode::Multicast => check!(c2 == 1, "multicast missed a matching endpoint", "message {n}: {g:?} {l4:?}"),
            SelectorMode::Unicast => {
                check!(c2 + c4 <= 1, "unicast delivered more than once", "message {n}: {g:?} {l4:?}");
                // one that leaves may take a message with it only if it had been delivered before
                if !leave {
                    check!(c2 + c4 == 1, "unicast lost", "message {n}: {g:?} {l4:?}");
                } else {
                    check!(c2 == 1, "unicast lost", "message {n}: first candidate alive, {g:?}");
                }
            }
        }
    }
    in_order("endpoint 2", g);
    in_order("endpoint 4", &l4);
    for &x in g.iter() {
        obs(x as u64);
    }
    for &x in &l4 {
        obs(x as u64 + 7);
    }
}

/// A bus with many endpoints: nobody is forgotten, whatever their number and whoever left in between.
fn crowd(arg: u32) {
    let mode = if arg & 1 == 0 { SelectorMode::Multicast } else { SelectorMode::Unicast };
    explore_on(false);
    let id = ident("crowd");
    let counts: &[i32] = if arg & 2 == 0 { &[6, 15, 18, 35, 70, 140] } else { &[9, 17, 33, 66, 100, 160] };
    let n = counts[choose(counts.len())];
    let label = |i: i32| format!("all e{i} {} third{}", if i % 2 == 0 { "even" } else { "odd" }, i % 3);
    let mut eps: Vec<Option<(Tx, Rx)>> = vec![];
    let proc = |i: i32| 1 + i % 8;
    for i in 0..n {
        eps.push(Some(join(proc(i), &id, &label(i))));
    }
    // nobody, one in the middle, every third, the first half (of the others), all but the last
    let gone = choose(5);
    for i in 1..n {
        let go = match gone {
            0 => false,
            1 => i == n / 2,
            2 => i % 3 == 1,
            3 => i <= n / 2,
            _ => i < n - 1,
        };
        if go {
            let e = eps[i as usize].take();
            at(proc(i), || drop(e));
        }
    }
    quiesce();
    if choose(2) == 1 {
        // and those that left come back
        for i in 1..n {
            if eps[i as usize].is_none() {
                eps[i as usize] = Some(join(proc(i), &id, &label(i)));
            }
        }
    }
    let live: Vec<i32> = (0..n).filter(|&i| eps[i as usize].is_some()).collect();
    let from = [0, *live.last().unwrap(), live[live.len() / 2]][choose(3)];
    note!("{n} endpoints joined, departures {gone}, {} left, {from} sends", live.len());
    // to every endpoint by its own name, then to groups
    let mut k = 0;
    let names: Vec<(String, Vec<i32>)> = (0..n)
        .map(|i| (format!("e{i}"), live.iter().copied().filter(|&l| l == i).collect()))
        .chain([("even".to_string(), live.iter().copied().filter(|l| l % 2 == 0).collect())])
        .chain([("third2".to_string(), live.iter().copied().filter(|l| l % 3 == 2).collect())])
        .chain([("all".to_string(), live.clone())])
        .collect();
    let mut sent = vec![];
    for (name, set) in names {
        k += 1;
        send(proc(from), &eps[from as usize].as_ref().unwrap().0, selector(mode, name.as_str().into()), m(k));
        sent.push((k, name, set));
    }
    quiesce();
    let mut got: Vec<(i32, Vec<u32>)> = vec![];
    for &i in &live {
        let (_, r) = eps[i as usize].as_mut().unwrap();
        let v = nums(&drain(proc(i), r));
        check!(v.windows(2).all(|w| w[0] < w[1]), "reordered", "endpoint {i} received {v:?}");
        got.push((i, v));
    }
    for (k, name, set) in sent {
        let who: Vec<i32> = got.iter().filter(|g| g.1.contains(&k)).map(|g| g.0).collect();
        match mode {
            SelectorMode::Multicast => {
                let missed: Vec<&i32> = set.iter().filter(|s| !who.contains(s)).collect();
                check!(missed.is_empty(), "multicast missed a matching endpoint", "message for {name}: {missed:?} of {n} endpoints");
                check!(who == set, "delivered to a non-matching endpoint", "message for {name}: {who:?} instead of {set:?}");
            }
            SelectorMode::Unicast => {
                check!(who.len() <= 1, "unicast delivered more than once", "message for {name}: {who:?}");
                check!(who.iter().all(|w| set.contains(w)), "delivered to a non-matching endpoint", "message for {name}: {who:?}");
                check!(set.is_empty() || who.len() == 1, "unicast lost", "message for {name} of {n} endpoints");
            }
        }
        obs(k as u64);
    }
}

/// Messages that cannot be delivered, decoded or carried come first: whatever they are, the next one goes where it
/// should.
fn mixed(arg: u32) {
    let mode = if arg & 1 == 0 { SelectorMode::Multicast } else { SelectorMode::Unicast };
    explore_on(false);
    let id = ident("mixed");
    let mut eps = vec![ep(1, &id, "a c"), ep(2, &id, "a"), ep(3, &id, "a b"), ep(4, &id, "b")];
    let bytes: Vec<ipmb::EndpointSender<ipmb::BytesMessage>> =
        (1..3).map(|p| at(p, || ipmb::join::<ipmb::BytesMessage, M>(opt(&id, "d"), None).unwrap_or_else(|e| fail!("join failed", "{e:?}")).0)).collect();
    quiesce();
    let mut n = 0;
    for _ in 0..arg >> 1 {
        let from = choose(3);
        let both = if choose(2) == 0 { SelectorMode::Multicast } else { SelectorMode::Unicast };
        let kind = choose(11);
        note!("endpoint {} sends what: {kind}, {both:?}", eps[from].proc);
        let (p, tx) = (eps[from].proc, eps[from].tx.as_ref().unwrap());
        let sel = |o: LabelOp| selector(both, o);
        match kind {
            // too large for the transport; the controller's own endpoint does not notice at once
            0 => at(p, || drop(tx.send(ipmb::Message::new(sel("a".into()), mp(90, 400_000))))),
            1 => at(p, || drop(tx.send(ipmb::Message::new(sel("b".into()), mp(90, 400_000))))),
            // too many attachments
            2 => at(p, || {
                let mut v = ipmb::Message::new(sel("a".into()), m(90));
                let r = ipmb::MemoryRegion::new(10).unwrap();
                for _ in 0..254 {
                    v.memory_regions.push(r.clone().unwrap());
                }
                drop(tx.send(v));
            }),
            // nested too deeply
            3 => at(p, || {
                let mut o = LabelOp::from("a");
                for _ in 0..1001 {
                    o = !o;
                }
                drop(tx.send(ipmb::Message::new(sel(o), m(90))));
            }),
            // of another type
            4 => {
                if from == 2 {
                    return;
                }
                at(p, || drop(bytes[from].send(ipmb::Message::new(sel("a".into()), ipmb::BytesMessage { format: 0, data: vec![1; 50] }))))
            }
            // for nobody, with and without time to live
            5 => send(p, tx, sel("nobody".into()), m(90)),
            6 => send(p, tx, ttl(sel("nobody".into()), ms(60_000)), m(90)),
            // equal to others
            7 => send(p, tx, sel("a".into()), m(91)),
            8 => {
                send(p, tx, sel("a".into()), m(n + 1 + 90));
                send(p, tx, sel("a".into()), m(n + 1 + 90));
            }
            // with attachments
            9 => at(p, || {
                let mut v = ipmb::Message::new(ttl(sel("b".into()), ms(5000)), m(90));
                v.memory_regions.push(ipmb::MemoryRegion::new(10).unwrap());
                v.objects.push(ipmb::MemoryRegion::new(10).unwrap().object().clone().unwrap());
                tx.send(v).unwrap_or_else(|e| fail!("send failed", "{e:?}"));
            }),
            // an endpoint comes and goes
            _ => {
                let e = ep(9, &id, "a b");
                let mut e = e;
                e.leave();
            }
        }
        if choose(2) == 1 {
            quiesce();
        }
    }
    quiesce();
    // (an endpoint that has been disconnected notices it when it receives)
    if choose(2) == 1 {
        for e in &mut eps {
            e.drain();
        }
    }
    // then twice the same, with or without time to live
    let life = [ms(0), ms(60_000)][choose(2)];
    let o = [0, 1, 3][choose(3)];
    for from in [0, 1] {
        n += 1;
        send(eps[from].proc, eps[from].tx.as_ref().unwrap(), ttl(selector(mode, op(o)), life), m(n));
        quiesce();
        let got: Vec<Vec<u32>> = eps.iter_mut().map(|e| e.drain().into_iter().filter(|&n| n < 90).collect()).collect();
        judge(mode, o, &mut eps, n, &got);
    }
    let from = choose(4);
    for _ in 0..3 {
        send(eps[from].proc, eps[from].tx.as_ref().unwrap(), ttl(selector(mode, op(0)), life), m(50));
    }
    quiesce();
    let got: Vec<usize> = eps.iter_mut().map(|e| e.drain().iter().filter(|&&n| n == 50).count()).collect();
    match mode {
        SelectorMode::Multicast => check!(got == [3, 3, 3, 0], "multicast missed a matching endpoint", "three equal messages: {got:?} received"),
        SelectorMode::Unicast => check!(got.iter().sum::<usize>() == 3 && got[3] == 0, "unicast lost or delivered more than once", "three equal messages: {got:?} received"),
    }
    std::mem::forget(bytes);
}

pub fn c01(t: Tier) -> Vec<Scn> {
    let mut v = vec![scn("C01/seq", seq, 0, "joins, departures, multicasts: all sequences", data())];
    v.push(scn("C01/par", par, 0, "two concurrent multicasts to three endpoints: all interleavings", sched(t.pick(2, 3))));
    v.push(scn("C01/par2", par, 2, "two senders of two multicasts each: all interleavings", sched(t.pick(2, 3))));
    v.push(scn("C01/join", churn, 0, "multicasts while an endpoint joins: all interleavings", sched(t.pick(2, 3))));
    v.push(scn("C01/leave", churn, 2, "multicasts while an endpoint leaves: all interleavings", sched(t.pick(2, 3))));
    v.push(scn("C01/mixed", mixed, t.pick(2, 4), "after one (two) of eleven kinds of other traffic", data()));
    v.push(scn("C01/crowd", crowd, t.pick(0, 2), "up to 140 (160) endpoints, departures, returns", data()));
    if t.deep() {
        v.push(scn("C01/seq-deep", seq, 2, "longer sequences", data()));
    }
    v
}
pub fn c02(t: Tier) -> Vec<Scn> {
    let mut v = vec![scn("C02/seq", seq, 1, "joins, departures, unicasts: all sequences", data())];
    v.push(scn("C02/par", par, 1, "two concurrent unicasts, three candidates: all interleavings", sched(t.pick(2, 3))));
    v.push(scn("C02/par2", par, 3, "two senders of two unicasts each: all interleavings", sched(t.pick(2, 3))));
    v.push(scn("C02/join", churn, 1, "unicasts while an endpoint joins: all interleavings", sched(t.pick(2, 3))));
    v.push(scn("C02/leave", churn, 3, "unicasts while an endpoint leaves: all interleavings", sched(t.pick(2, 3))));
    v.push(scn("C02/mixed", mixed, 1 | t.pick(2, 4), "after one (two) of eleven kinds of other traffic", data()));
    v.push(scn("C02/crowd", crowd, t.pick(1, 3), "up to 140 (160) endpoints, departures, returns", data()));
    if t.deep() {
        v.push(scn("C02/seq-deep", seq, 3, "longer sequences", data()));
    }

    v
}
