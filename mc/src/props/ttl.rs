//! C06: a message nobody matches waits for its time to live and is delivered once.
use super::route::{ep, selector, Ep};
use ipmb::SelectorMode::{self, *};
use mc::{bus::*, check, explore::*, fail, note, rt::*, *};
use std::time::Duration;

struct Waiting {
    n: u32,
    label: &'static str,
    expiry: Duration,
}

struct World {
    id: String,
    eps: Vec<Ep>,
    waiting: Vec<Waiting>,
    n: u32,
    nextproc: i32,
}
fn has(l: &str, e: &str) -> bool {
    l.split(' ').any(|x| x == e)
}
impl World {
    fn new(id: String, first: &'static str, second: &'static str) -> World {
        let eps = vec![ep(1, &id, first), ep(2, &id, second)];
        World { id, eps, waiting: vec![], n: 0, nextproc: 3 }
    }
    fn send(&mut self, from: usize, label: &'static str, mode: SelectorMode, life: Duration) {
        self.n += 1;
        let n = self.n;
        note!("endpoint {} sends {n} to {label} {mode:?} ttl {life:?}", self.eps[from].proc);
        send(self.eps[from].proc, self.eps[from].tx.as_ref().unwrap(), ttl(selector(mode, label.into()), life), m(n));
        quiesce();
        let set: Vec<usize> = (0..self.eps.len()).filter(|&i| self.eps[i].alive && has(self.eps[i].label, label)).collect();
        let got = self.collect();
        let who: Vec<usize> = (0..got.len()).filter(|&i| got[i] == [n]).collect();
        for (i, g) in got.iter().enumerate() {
            check!(g.is_empty() || *g == [n], "unexpected message", "endpoint {} received {g:?} when {n} was sent", self.eps[i].proc);
        }
        match (mode, set.is_empty()) {
            (_, true) => check!(who.is_empty(), "delivered to a non-matching endpoint", "{n}: {who:?}"),
            (Multicast, _) => check!(who == set, "not delivered to all that match", "{n}: {who:?} instead of {set:?}"),
            (Unicast, _) => check!(who.len() == 1 && set.contains(&who[0]), "not delivered to one that matches", "{n}: {who:?} of {set:?}"),
        }
        if set.is_empty() && !life.is_zero() {
            let expiry = now().checked_add(life).unwrap_or(Duration::MAX);
            self.waiting.push(Waiting { n, label, expiry });
        }
        obs(who.len() as u64);
    }
    fn join(&mut self, label: &'static str) {
        let p = self.nextproc;
        self.nextproc += 1;
        note!("endpoint {p} joins as {label}");
        self.eps.push(ep(p, &self.id.clone(), label));
        quiesce();
        let t = now();
        let mut must = vec![];
        let mut may = vec![];
        self.waiting.retain(|w| {
            if !has(label, w.label) {
                return true;
            }
            if t < w.expiry {
                must.push(w.n);
                may.push(w.n);
            } else if t == w.expiry {
                may.push(w.n);
            }
            false
        });
        let mut got = self.collect();
        let g = got.pop().unwrap();
        for (i, o) in got.iter().enumerate() {
            check!(o.is_empty(), "delivered to another endpoint", "endpoint {} received {o:?} when {p} joined", self.eps[i].proc);
        }
        let mut rest = g.clone();
        for n in &must {
            check!(rest.contains(n), "waiting message not delivered", "endpoint {p} ({label}) received {g:?} of {must:?}");
        }
        rest.retain(|n| !may.contains(n));
        check!(rest.is_empty(), "delivered after its time to live", "endpoint {p} ({label}) received {g:?}, alive were {must:?}");
        let mut s = g.clone();
        s.sort();
        check!(s == g, "waiting messages reordered", "endpoint {p} received {g:?}");
        s.dedup();
        check!(s == g, "delivered twice", "endpoint {p} received {g:?}");
        obs(100 + g.len() as u64);
    }
    fn leave(&mut self) -> bool {
        if self.eps.len() < 3 || !self.eps.last().unwrap().alive {
            return false;
        }
        note!("endpoint {} leaves", self.eps.last().unwrap().proc);
        self.eps.last_mut().unwrap().leave();
        true
    }
    fn collect(&mut self) -> Vec<Vec<u32>> {
        self.eps.iter_mut().map(|e| e.drain()).collect()
    }
    fn pass(&mut self, d: Duration) {
        note!("time passes: {d:?}");
        pass(d);
        let got = self.collect();
        check!(got.iter().all(|g| g.is_empty()), "unexpected message", "{got:?}");
    }
}

fn seq(arg: u32) {
    explore_on(false);
    // arg & 16: the controller's endpoint, arg & 32: another one, has the labels and has dropped its receiver
    let mut w = World::new(ident("ttl"), if arg & 16 != 0 { "a b c" } else { "c" }, if arg & 32 != 0 { "a b s" } else { "s" });
    for k in 0..2 {
        if arg & (16 << k) != 0 {
            let r = w.eps[k].rx.take();
            at(k as i32 + 1, || drop(r));
            w.eps[k].alive = false;
            quiesce();
        }
    }
    let lives = [ms(0), ms(1000), ms(3000)];
    for step in 0..arg & 15 {
        let c = choose(if step == 0 { 12 } else { 19 });
        match c {
            0..12 => w.send((c % 2) as usize, ["a", "b"][c / 2 % 2], if c % 2 == 0 { Unicast } else { Multicast }, lives[c / 4]),
            12 => w.join("a"),
            13 => w.join("b"),
            14 => w.join("a b"),
            15 => w.pass(ms(999)),
            16 => w.pass(ms(1)),
            17 => w.pass(ms(2000)),
            _ => {
                if !w.leave() {
                    return;
                }
            }
        }
    }
    // whoever comes now gets what is still alive
    w.join("a b");
    w.join("a b");
}

/// Times to live over a boundary set; time passes to around the expiry; other traffic in between or not.
fn bounds(_: u32) {
    explore_on(false);
    let lives = [
        Duration::from_nanos(1),
        Duration::from_micros(1),
        Duration::from_micros(999),
        ms(1),
        Duration::from_nanos(1_000_001),
        ms(1500),
        Duration::from_secs(31),
        Duration::from_secs(60),
        Duration::from_secs(86_400),
        ms(u32::MAX as u64),
        ms(u32::MAX as u64 + 2),
        Duration::from_secs(1 << 31),
        Duration::from_secs((1 << 32) + 1),
        Duration::from_secs(i64::MAX as u64 / 2),
        Duration::from_secs(i64::MAX as u64),
        Duration::from_secs(u64::MAX),
        Duration::MAX,
    ];
    let life = lives[choose(lives.len())];
    let host = choose(2);
    let mode = if choose(2) == 0 { Unicast } else { Multicast };
    let mut w = World::new(ident("ttlb"), "c", "s");
    w.send(host, "a", mode, life);
    let noise = choose(3);
    let step = |w: &mut World, d: Duration| {
        w.pass(d);
        match noise {
            1 => w.send(1, "c", Unicast, Duration::ZERO),
            2 => w.join("z"),
            _ => {}
        }
    };
    if life < Duration::from_secs(1 << 31) {
        let before = life - Duration::from_nanos(1);
        match choose(5) {
            0 => {}
            1 => {
                if before.is_zero() {
                    return;
                }
                step(&mut w, before)
            }
            2 => step(&mut w, life),
            3 => step(&mut w, life + Duration::from_nanos(1)),
            _ => {
                step(&mut w, life / 2);
                step(&mut w, life);
            }
        }
    } else {
        match choose(3) {
            0 => {}
            1 => step(&mut w, Duration::from_secs(100)),
            _ => step(&mut w, Duration::from_secs(1 << 30)),
        }
    }
    w.join("a");
    w.join("a");
    // everybody is still served
    w.send(0, "s", Unicast, Duration::ZERO);
    w.send(1, "c", Unicast, Duration::ZERO);
}

/// The matching endpoint's receiver is dropped or its process dies: the message waits for the next one.
fn gone(_: u32) {
    explore_on(false);
    let mut w = World::new(ident("ttlg"), "c", "s");
    w.join("a");
    match choose(3) {
        0 => w.eps[2].leave(),
        1 => w.eps[2].die(),
        _ => {
            // only the receiver goes
            let r = w.eps[2].rx.take();
            at(3, || drop(r));
            w.eps[2].alive = false;
        }
    }
    if choose(2) == 1 {
        quiesce();
    }
    let mode = if choose(2) == 0 { Unicast } else { Multicast };
    w.send(choose(2), "a", mode, ms(1000));
    w.send(choose(2), "a", mode, ms(500));
    w.pass([ms(0), ms(499), ms(501), ms(1001)][choose(4)]);
    w.join("a");
    w.join("a");
}

/// The send races with the join of the endpoint it is for: exactly one delivery, in order, whoever is first.
fn race(arg: u32) {
    explore_on(false);
    let id = ident("ttlr");
    let mode = if arg & 1 == 0 { Unicast } else { Multicast };
    let (t1, r1) = join(1, &id, "c");
    let (t2, r2) = join(2, &id, "s");
    quiesce();
    let host = arg & 2 != 0;
    explore_on(true);
    let res = Sh::new(None);
    let id2 = id.clone();
    let f = spawn(3, "join3", move || {
        *res.get() = Some(join(3, &id2, "a"));
    });
    let g = spawn(if host { 1 } else { 2 }, "send", move || {
        let p = if host { 1 } else { 2 };
        let tx = if host { &t1 } else { &t2 };
        send(p, tx, ttl(selector(mode, "a".into()), ms(60_000)), m(1));
        send(p, tx, ttl(selector(mode, "a".into()), ms(60_000)), m(2));
        std::mem::forget((t1, t2));
    });
    f.wait();
    g.wait();
    quiesce();
    explore_on(false);
    let (_t3, mut r3) = res.get().take().unwrap();
    let got = nums(&drain(3, &mut r3));
    let mut s = got.clone();
    s.sort();
    check!(s == [1, 2], "waiting message not delivered once", "{got:?}");
    check!(s == got, "waiting messages reordered", "{got:?}");
    let (_t4, mut r4) = join(4, &id, "a");
    quiesce();
    let g4 = nums(&drain(4, &mut r4));
    if !g4.is_empty() {
        fail!("delivered twice", "{g4:?}");
    }
    std::mem::forget((r1, r2));
}

/// Many messages wait at once, with different times to live; then endpoints come for some and for all of them.
fn many(arg: u32) {
    explore_on(false);
    let n = [20, 70, 150, arg][choose(4)];
    let host = choose(2) == 1;
    let mode = if choose(2) == 0 { Unicast } else { Multicast };
    let id = ident("ttlm");
    let (t1, mut r1) = join(1, &id, "c");
    let (t2, mut r2) = join(2, &id, "s");
    quiesce();
    let lives = [ms(5000), ms(1000), ms(60_000), Duration::MAX, ms(3000)];
    // the longest first, or last, or mixed
    let order = choose(3);
    let mut w: Vec<(u32, &str, Duration)> = vec![];
    for k in 1..=n {
        let life = match order {
            0 => lives[k as usize % 5],
            1 => ms(100 + k as u64 * 40),
            _ => ms(100 + (n - k) as u64 * 40),
        };
        let label = ["x", "y", "z"][k as usize % 3];
        let (p, t) = if host { (1, &t1) } else { (2, &t2) };
        send(p, t, ttl(selector(mode, label.into()), life), m(k));
        quiesce();
        w.push((k, label, now().checked_add(life).unwrap_or(Duration::MAX)));
    }
    let wait = [0, 1500, 4000, 61_000][choose(4)];
    pass(ms(wait));
    note!("{n} messages, host {host}, {mode:?}, order {order}, joins after {wait} ms");
    let mut first = true;
    for (p, label) in [(3, "y"), (4, "x z"), (5, "x y z")] {
        let (_t, mut r) = join(p, &id, label);
        quiesce();
        let t = now();
        let want: Vec<u32> = w.iter().filter(|x| has(label, x.1) && t < x.2).map(|x| x.0).collect();
        let got = nums(&drain_all(p, &mut r));
        let missing = want.iter().find(|k| !got.contains(k));
        check!(missing.is_none(), "waiting message not delivered", "{missing:?} of {} to {label}", want.len());
        check!(got.len() == want.len(), "delivered after its time to live or twice", "{label}: {got:?} instead of {want:?}");
        check!(got == want, "waiting messages reordered", "{label}: {got:?}");
        w.retain(|x| !has(label, x.1));
        if std::mem::replace(&mut first, false) {
            pass(ms(500));
        }
        obs(got.len() as u64);
    }
    for (p, r) in [(1, &mut r1), (2, &mut r2)] {
        let g = drain(p, r);
        check!(g.is_empty(), "delivered to a non-matching endpoint", "{g:?}");
    }
}

pub fn c06(t: Tier) -> Vec<Scn> {
    let d = t.pick(2, 3);
    vec![
        scn("C06/bounds", bounds, 0, "times to live over a boundary set, joins around the expiry", data()),
        scn("C06/gone", gone, 0, "the only match has left, died or dropped its receiver", data()),
        scn("C06/many", many, t.pick(1100, 2500), "up to 1,100 (2,500) messages wait at once", data()),
        scn("C06/race", race, 0, "unicasts race with the join of the endpoint they are for", sched(d)),
        scn("C06/race-host", race, 2, "the same, sent by the controller's process", sched(d)),
        scn("C06/race-multi", race, 1, "multicasts race with a join", sched(d)),
        scn("C06/seq-deaf-host", seq, 16 | t.pick(3, 4), "the same as seq, the controller's process has the labels but no receiver", data()),
        scn("C06/seq-deaf", seq, 32 | t.pick(3, 4), "the same as seq, an endpoint has the labels but no receiver", data()),
        scn("C06/seq", seq, t.pick(4, 5), "all sequences of sends, joins, departures and time steps", data()),
    ]
}
