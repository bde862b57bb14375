//! C21: receiving through the JavaScript interface.
use crate::{js::*, vm::{self, State, V}};
use ipmb::{BytesMessage, Message};
use mc::{bus::{lab, uni}, check, eng, explore::*, fail, note, rt::*, wire, *};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Msg(u32),
    Bad,
    Fatal,
}
struct Pend {
    p: V,
    due: Option<Duration>,
    done: bool,
}
/// What the receives of one endpoint may see.
struct Watch {
    rx: V,
    pend: Vec<Pend>,
    events: Vec<Ev>,
    seen: usize,
    settled: usize,
    last: Duration,
    closed: bool,
    obs: u64,
    /// threads of the process without the receiving one
    threads: i32,
    /// how much longer a call may take
    slack: Duration,
}
impl Watch {
    fn new(rx: V) -> Watch {
        Watch { rx, pend: vec![], events: vec![], seen: 0, settled: vm::settled().len(), last: now(), closed: false, obs: 0, threads: unsafe { eng::mc_threads_alive(1) } - 1, slack: Duration::ZERO }
    }
    fn recv(&mut self, t: Option<u32>) {
        let arg = t.map_or_else(vm::null, |t| vm::num(t as f64));
        note!("recv {t:?}");
        match at(1, || vm::call(self.rx, "recv", &[arg])) {
            Ok(p) => {
                check!(!self.closed, "a receive on a closed endpoint", "");
                self.pend.push(Pend { p, due: t.map(|t| now() + ms(t as u64)), done: false });
                self.look();
            }
            Err(e) => {
                check!(self.closed || self.events[..self.seen].contains(&Ev::Fatal), "a receive is refused", "{}", vm::show(e));
                check!(vm::message(e) == "closed", "wrong error", "{}", vm::show(e));
            }
        }
    }
    /// Judges what has been settled since the last look.
    fn look(&mut self) {
        for &p in &vm::settled()[self.settled..] {
            let Some(i) = self.pend.iter().position(|x| x.p == p) else { fail!("an unknown promise", "") };
            self.pend[i].done = true;
            let what = |s: &Self| match s.events.get(s.seen) {
                Some(e) => format!("next to come is {e:?}"),
                None => "nothing is to come".into(),
            };
            let oldest = self.pend[..i].iter().position(|x| !x.done);
            match vm::state(p) {
                State::Resolved(v) => {
                    let n = number_of(v);
                    note!("receive {i} gets {n}");
                    check!(self.events.get(self.seen) == Some(&Ev::Msg(n)), if self.events[..self.seen].contains(&Ev::Msg(n)) { "a message is received twice" } else { "messages are lost or reordered" }, "message {n}, {}", what(self));
                    check!(oldest.is_none(), "a message goes to a receive that is not the oldest", "message {n} to receive {i}, {oldest:?} is older");
                    self.seen += 1;
                    self.obs = self.obs.wrapping_mul(31) + 1;
                }
                State::Rejected(e) => {
                    let m = vm::message(e);
                    note!("receive {i} fails: {m}");
                    if m == "timeout" {
                        check!(self.pend[i].due.is_some_and(|d| d <= now()), "a receive times out early", "receive {i} at {:?}, due {:?}", now(), self.pend[i].due);
                        self.obs = self.obs.wrapping_mul(31) + 2;
                    } else if m == "closed" {
                        check!(self.closed || self.events[..self.seen].contains(&Ev::Fatal), "a receive is rejected as closed on an open endpoint", "receive {i}");
                        self.obs = self.obs.wrapping_mul(31) + 3;
                    } else {
                        match self.events.get(self.seen) {
                            Some(Ev::Bad) if m == "decode error" || m.contains("UnexpectedEnd") => (),
                            Some(Ev::Fatal) if m == "token mismatch" => (),
                            _ => fail!("wrong error", "receive {i}: {m}, {}", what(self)),
                        }
                        check!(oldest.is_none(), "an error goes to a receive that is not the oldest", "receive {i}, {oldest:?} is older");
                        self.seen += 1;
                        self.obs = self.obs.wrapping_mul(31) + 4;
                    }
                }
                State::Pending => fail!("harness", "settled but pending"),
            }
        }
        self.settled = vm::settled().len();
    }
    fn open(&self) -> usize {
        self.pend.iter().filter(|p| !p.done).count()
    }
    /// Everything that has arrived has been handled by the event loop.
    fn run(&mut self) {
        let quiet = now() - self.last >= ms(500);
        at(1, vm::run);
        self.look();
        if !self.closed {
            let t = now();
            for (i, p) in self.pend.iter().enumerate() {
                if !p.done {
                    if let Some(d) = p.due {
                        check!(!quiet || t < d + ms(500) + self.slack, "a receive does not time out", "receive {i}, due {d:?}, is pending at {t:?}");
                    }
                    check!(self.seen == self.events.len(), "a message waits although a receive is pending", "receive {i}, {:?} not received", &self.events[self.seen..]);
                }
            }
        } else {
            check!(self.open() == 0, "a receive is still pending after the endpoint is closed", "");
        }
    }
    fn close(&mut self) {
        let t = now();
        note!("close");
        at(1, || vm::call(self.rx, "close", &[])).unwrap_or_else(|e| fail!("close fails", "{}", vm::show(e)));
        self.closed = true;
        check!(now() - t <= ms(1000) + self.slack, "close takes long", "{:?}", now() - t);
    }
    /// The end: what is kept comes, in order; then closing rejects the rest and frees everything.
    fn finish(&mut self, drain: bool) {
        self.run();
        if !self.closed && drain {
            while self.seen < self.events.len() {
                let k = self.seen;
                self.recv(None);
                check!(self.seen == k + 1, "messages are lost or reordered", "{:?} never comes", self.events[k]);
            }
            if !self.events.contains(&Ev::Fatal) {
                self.recv(None);
                self.recv(Some(50));
                self.recv(Some(100_000));
                check!(self.open() >= 3, "a receive without message is settled", "");
            }
        }
        self.close();
        self.recv(None);
        quiesce();
        self.run();
        // closing again is fine
        self.close();
        self.recv(Some(10));
        at(1, vm::run);
        self.look();
        pass(ms(300));
        at(1, vm::run);
        self.look();
        check!(unsafe { eng::mc_threads_alive(1) } == self.threads, "the receiving thread stays", "");
        check!(vm::functions() == 1 && vm::alive() == 0, "the closed endpoint keeps the program running", "{} functions, {} referenced", vm::functions(), vm::alive());
    }
}

/// All sequences of receives, arrivals, event loop turns, time and close.
fn sequences(arg: u32) {
    explore_on(false);
    let (depth, first) = (arg & 15, arg >> 4 & 1);
    let id = ident("jseq");
    vm::start();
    let mut h = None;
    if first == 1 {
        // the JavaScript endpoint is not the controller
        h = Some(ljoin(2, &id, "b"));
    }
    let (_tx, rx) = join(1, &id, &["a"]);
    let (b, _) = match &h {
        Some(h) => (h.0.clone(), ()),
        None => (ljoin(2, &id, "b").0, ()),
    };
    let bad = at(3, || ipmb::join::<Short, Short>(ipmb::Options::new(&id, lab("c"), "tok"), None)).unwrap_or_else(|e| fail!("join failed", "{e:?}"));
    quiesce();
    let mut w = Watch::new(rx);
    let mut n = 0;
    for _ in 0..depth {
        match choose(10) {
            0 => w.recv(None),
            1 => w.recv(Some(0)),
            2 => w.recv(Some(150)),
            3 => w.recv(Some(1000)),
            4 => {
                n += 1;
                note!("message {n}");
                lsend(2, &b, "a", n);
                quiesce();
                if !w.closed {
                    w.events.push(Ev::Msg(n));
                    w.last = now();
                }
            }
            5 => {
                note!("an undecodable message");
                at(3, || bad.0.send(Message::new(uni("a"), Short(5)))).unwrap_or_else(|e| fail!("send failed", "{e:?}"));
                quiesce();
                if !w.closed {
                    w.events.push(Ev::Bad);
                    w.last = now();
                }
            }
            6 => w.run(),
            7 => pass(ms(100)),
            8 => {
                pass(ms(1000));
                w.run()
            }
            _ => w.close(),
        }
    }
    obs(w.obs);
    w.finish(true);
    obs(w.obs);
    std::mem::forget((h, bad, b));
}

/// Closing while messages keep arriving.
fn traffic(_: u32) {
    explore_on(false);
    let id = ident("jtraf");
    vm::start();
    let first = choose(2);
    let mut h = None;
    if first == 1 {
        h = Some(ljoin(2, &id, "b"));
    }
    let (_tx, rx) = join(1, &id, &["a"]);
    let b = match &h {
        Some(h) => h.0.clone(),
        None => ljoin(2, &id, "b").0,
    };
    quiesce();
    let every = [1u64, 20, 150, 199][choose(4)];
    let before = choose(4) as u64;
    let pending = choose(3);
    let total = 4000 / every;
    let mut w = Watch::new(rx);
    for i in 0..total as u32 {
        w.events.push(Ev::Msg(i));
    }
    for i in 0..pending {
        w.recv([None, Some(100_000)][i % 2]);
    }
    note!("a message every {every} ms, close after {before} and with {pending} receives");
    let sent = Sh::new(0u32);
    spawn(2, "peer", move || {
        for i in 0..total as u32 {
            lsend(2, &b, "a", i);
            *sent.get() = i + 1;
            std::thread::sleep(ms(every));
        }
        std::mem::forget(b);
    });
    pass(ms(before * 173));
    let kept = w.events.clone();
    w.events.truncate(*sent.get() as usize);
    w.run();
    w.events = kept;
    w.close();
    w.run();
    pass(ms(300));
    w.run();
    check!(unsafe { eng::mc_threads_alive(1) } == w.threads, "the receiving thread stays", "{}", unsafe { eng::mc_threads_alive(1) });
    obs(w.seen as u64 * 10 + pending as u64);
    std::mem::forget(h);
}

/// Receives time out under a steady stream of messages, too.
fn late(_: u32) {
    explore_on(false);
    let id = ident("jlate");
    vm::start();
    let h = ljoin(2, &id, "b");
    let (_tx, rx) = join(1, &id, &["a"]);
    quiesce();
    let every = [50u64, 150, 190][choose(3)];
    let pending = 2 + choose(3) * 4;
    let t = [0u32, 60, 300][choose(3)];
    let mut w = Watch::new(rx);
    let n = 3000 / every as u32;
    for _ in 0..pending {
        w.recv(Some(t));
    }
    for i in 0..n {
        pass(ms(every));
        lsend(2, &h.0, "a", i);
        quiesce();
        w.events.push(Ev::Msg(i));
        w.last = now();
        w.run();
        for (k, p) in w.pend.iter().enumerate() {
            check!(p.done || now() <= p.due.unwrap() + ms(500), "a receive does not time out", "receive {k} of {pending}, due {:?}, is pending at {:?} while messages arrive every {every} ms", p.due, now());
        }
    }
    obs(w.obs);
    w.finish(true);
    std::mem::forget(h);
}

/// The endpoint cannot reconnect: what arrived before comes first, then the error, then nothing more.
fn fatal(_: u32) {
    explore_on(false);
    let id = ident("jfatal");
    vm::start();
    let h = ljoin(2, &id, "b");
    let (_tx, rx) = join_as(1, &id, &["a"], "tok", false);
    quiesce();
    let mut w = Watch::new(rx);
    let (early, msgs, late) = (choose(3), choose(4), choose(3));
    let turn = choose(3);
    note!("{early} receives, {msgs} messages, then {late} receives");
    for _ in 0..early {
        w.recv(None);
    }
    for i in 0..msgs as u32 {
        lsend(2, &h.0, "a", i);
        quiesce();
        w.events.push(Ev::Msg(i));
        w.last = now();
        if turn == 0 {
            w.run();
        }
    }
    if turn == 1 {
        w.run();
    }
    kill(2);
    std::mem::forget(h);
    let h = at(3, || ipmb::join::<BytesMessage, BytesMessage>(ipmb::Options::new(&id, lab("b"), "another"), None)).unwrap_or_else(|e| fail!("join failed", "{e:?}"));
    quiesce();
    for _ in 0..late {
        w.recv(None);
    }
    pass(ms(3000));
    w.events.push(Ev::Fatal);
    w.last = now();
    at(1, vm::run);
    w.look();
    while w.seen < w.events.len() {
        let k = w.seen;
        w.recv(None);
        at(1, vm::run);
        w.look();
        check!(w.seen > k, "messages are lost when the endpoint fails", "{:?} never comes", &w.events[k..]);
    }
    check!(w.open() == 0, "a receive is still pending after the endpoint is closed", "");
    obs(w.obs);
    w.recv(None);
    w.finish(false);
    std::mem::forget(h);
}

/// Many messages kept for later receives, many receives waiting for messages.
fn many(n: u32) {
    explore_on(false);
    let id = ident("jmany");
    vm::start();
    let first = choose(2);
    let h = if first == 1 { Some(ljoin(2, &id, "b")) } else { None };
    let (_tx, rx) = join(1, &id, &["a"]);
    let b = match &h {
        Some(h) => h.0.clone(),
        None => ljoin(2, &id, "b").0,
    };
    quiesce();
    let mut w = Watch::new(rx);
    let (before, turns) = (choose(2) == 1, choose(2) == 1);
    let t = [None, Some(400)][choose(2)];
    let expire = t.is_some() && choose(2) == 1;
    note!("{n} messages, receives first: {before}, turns of the event loop between: {turns}");
    if before {
        for i in 0..n {
            w.recv(if i % 2 == 0 { t } else { None });
        }
        if expire {
            pass(ms(1000));
            w.run();
        }
    }
    for i in 0..n {
        lsend(2, &b, "a", i);
        quiesce();
        w.events.push(Ev::Msg(i));
        w.last = now();
        if turns {
            w.run();
        }
    }
    w.run();
    obs(w.obs);
    w.finish(true);
    obs(w.obs);
    std::mem::forget((h, b));
}

/// The controller dies; until there is another one, receives wait, time out and are closed as ever.
fn orphan(_: u32) {
    explore_on(false);
    let id = ident("jorph");
    vm::start();
    let h = ljoin(2, &id, "b");
    let may = choose(2) == 1;
    let (tx, rx) = join_as(1, &id, &["a"], "tok", may);
    // another endpoint lives on, or joins later
    let other = choose(2) == 0;
    let mut b = if other { Some(ljoin(3, &id, "b")) } else { None };
    quiesce();
    let mut w = Watch::new(rx);
    let early = choose(4);
    for i in 0..early {
        w.recv([None, Some(250), Some(5000)][i % 3]);
    }
    let msgs = choose(3) as u32;
    for i in 0..msgs {
        lsend(2, &h.0, "a", i);
        quiesce();
        w.events.push(Ev::Msg(i));
        w.last = now();
    }
    if choose(2) == 0 {
        w.run();
    }
    note!("the controller dies; the endpoint may control: {may}, there is another one: {other}");
    kill(2);
    std::mem::forget(h);
    let lfd = if choose(3) == 2 && !may {
        note!("something else takes the name");
        // until the handshake under way is given up
        w.slack = ms(2000);
        Some(at(4, || wire::listen(&id)))
    } else {
        None
    };
    // for a while nothing comes
    for _ in 0..choose(3) {
        pass(ms(700));
        w.run();
    }
    w.recv(Some(100));
    pass(ms(if lfd.is_some() { 2700 } else { 700 }));
    w.run();
    // it may have become the controller
    let controls = |w: &mut Watch| w.threads = unsafe { eng::mc_threads_alive(1) } - 1;
    if choose(2) == 0 {
        w.recv(None);
        controls(&mut w);
        w.close();
        w.run();
        pass(ms(3000));
        w.finish(false);
        std::mem::forget((b, tx));
        return;
    }
    if lfd.is_some() {
        kill(4);
    }
    if b.is_none() {
        b = Some(ljoin(3, &id, "b"));
    }
    w.recv(None);
    let b = b.unwrap();
    // it may be the other one that forms the bus
    lsend(3, &b.0, "nobody", 0);
    quiesce();
    pass(ms(6000));
    w.run();
    for i in 0..2 {
        lsend(3, &b.0, "a", 100 + i);
        quiesce();
        w.events.push(Ev::Msg(100 + i));
        w.last = now();
        w.run();
    }
    obs(w.obs);
    controls(&mut w);
    w.finish(true);
    std::mem::forget(b);
}

/// The receiver is collected, or the environment ends, without a close.
fn gone(_: u32) {
    explore_on(false);
    let id = ident("jgone");
    vm::start();
    let first = choose(2);
    let mut h = None;
    if first == 1 {
        h = Some(ljoin(2, &id, "b"));
    }
    let (tx, rx) = join(1, &id, &["a"]);
    let b = match &h {
        Some(h) => h.0.clone(),
        None => ljoin(2, &id, "b").0,
    };
    quiesce();
    let mut w = Watch::new(rx);
    let (pending, msgs, turn, how, closed) = (choose(3), choose(3), choose(2), choose(3), choose(2));
    for i in 0..pending {
        w.recv([None, Some(70)][i % 2]);
    }
    for i in 0..msgs as u32 {
        lsend(2, &b, "a", i);
        quiesce();
        w.events.push(Ev::Msg(i));
    }
    if turn == 1 {
        w.run();
    }
    if closed == 1 {
        w.close();
        if choose(2) == 1 {
            w.run();
        }
    }
    let t = now();
    match how {
        0 => at(1, vm::teardown),
        1 => at(1, || vm::collect(rx)),
        _ => {
            at(1, || vm::collect(rx));
            at(1, || vm::collect(tx));
            at(1, vm::teardown);
        }
    }
    check!(now() - t <= ms(1000), "ending takes long", "{:?}", now() - t);
    w.closed = true;
    quiesce();
    if how == 1 {
        w.run();
        check!(vm::functions() == 1 && vm::alive() == 0, "the collected endpoint keeps the program running", "");
        at(1, vm::teardown);
    }
    check!(unsafe { eng::mc_threads_alive(1) } <= w.threads, "the receiving thread stays", "{}", unsafe { eng::mc_threads_alive(1) });
    obs(w.obs.wrapping_mul(10) + how as u64);
    std::mem::forget((h, b));
}

/// Schedules of the event loop, the receiving thread and a peer.
fn races(arg: u32) {
    explore_on(false);
    let id = ident("jrace");
    vm::start();
    let h = ljoin(2, &id, "b");
    let (_tx, rx) = join(1, &id, &["a"]);
    quiesce();
    let mut w = Watch::new(rx);
    w.events = vec![Ev::Msg(0), Ev::Msg(1)];
    let plan = arg;
    if plan == 0 {
        // receives before, meanwhile and after
        w.recv(None);
    }
    explore_on(true);
    let tx = h.0.clone();
    spawn(2, "peer", move || {
        if plan > 0 {
            // when the receiving thread wakes up by itself
            std::thread::sleep(ms(200));
        }
        lsend(2, &tx, "a", 0);
        lsend(2, &tx, "a", 1);
        std::mem::forget(tx);
    });
    match plan {
        0 => {
            at(1, vm::step);
            w.look();
            w.recv(None);
            while w.seen < 2 {
                at(1, vm::wait);
                w.look();
            }
        }
        1 => {
            // a receive that times out about when a message comes
            w.recv(Some(200));
            while w.open() > 0 {
                at(1, vm::wait);
                w.look();
            }
            w.recv(Some(0));
            w.recv(None);
            w.recv(None);
            while w.seen < 2 {
                at(1, vm::wait);
                w.look();
            }
        }
        _ => {
            w.recv(None);
            w.close();
            w.run();
            explore_on(false);
            w.recv(None);
            quiesce();
            w.run();
        }
    }
    explore_on(false);
    obs(w.obs);
    quiesce();
    w.finish(false);
    std::mem::forget(h);
}

pub fn scns(t: Tier) -> Vec<Scn> {
    vec![
        scn("C21/traffic", traffic, 0, "closing while messages keep arriving", data()),
        scn("C21/many", many, t.pick(300, 1100), "many messages kept for later receives, many receives waiting", data()),
        scn("C21/late", late, 0, "timeouts while messages keep arriving", data()),
        scn("C21/fatal", fatal, 0, "the endpoint cannot reconnect", data()),
        scn("C21/orphan", orphan, 0, "the controller dies while the program receives, times out and closes", data()),
        scn("C21/gone", gone, 0, "the receiver is collected or the environment ends", data()),
        scn("C21/race-recv", races, 0, "messages arriving while the program receives", sched(t.pick(3, 5))),
        scn("C21/race-timeout", races, 1, "messages arriving while a receive times out", sched(t.pick(3, 5))),
        scn("C21/race-close", races, 2, "messages arriving while the program closes", sched(t.pick(3, 5))),
        scn("C21/sequences", sequences, t.pick(5, 7), "all sequences of receives, arrivals, event loop turns, time and close at the controller", data()),
        scn("C21/sequences-member", sequences, 16 + t.pick(4, 5), "the same at another endpoint", data()),
    ]
}
