//! C03: order, no loss, no duplicates between two endpoints.
use ipmb::LabelOp;
use mc::{bus::*, check, explore::*, fail, note, rt::*, *};
use std::collections::VecDeque;

fn expect(who: &str, got: &[u32], want: &[&[u32]]) {
    // `want`: what each sending thread sent, in order; `got` must be an interleaving of them
    let mut at = vec![0; want.len()];
    for &n in got {
        match (0..want.len()).find(|&i| want[i].contains(&n)) {
            None => fail!("unexpected message", "{who} received {n}, never sent to it: {got:?}"),
            Some(i) => {
                if at[i] < want[i].len() && want[i][at[i]] == n {
                    at[i] += 1
                } else if want[i][..at[i]].contains(&n) {
                    fail!("duplicate", "{who} received {n} twice: {got:?}")
                } else {
                    fail!("reordered or lost", "{who} received {n} too early: {got:?}, sent {want:?}")
                }
            }
        }
    }
    for i in 0..want.len() {
        check!(at[i] == want[i].len(), "lost", "{who} received {got:?} of {want:?}");
    }
    for &g in got {
        obs(g as u64);
    }
}

/// Sending threads with cloned senders in one process, a receiving thread, the controller.
/// arg & 3: 0 client to client, 1 controller's process to client, 2 client to controller, 3 controller's process to itself
/// arg & 4: queues so small that senders block; arg & 8: three threads; arg & 16: one message each
fn threads(arg: u32) {
    explore_on(false);
    let id = ident("flow");
    let (ctx, crx) = join(1, &id, "ctl");
    let small = arg & 4 != 0;
    let (from, to) = [(2, 3), (1, 3), (2, 1), (1, 1)][(arg & 3) as usize];
    let len = if small { 1500 } else { 5 };
    let mut crx = Some(crx);
    let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
    let (tx, rx) = {
        let mut txs = vec![None, Some(ctx), None, None];
        let mut rxs = vec![None, None, None, None];
        for p in [2, 3] {
            if p == from || p == to {
                let (t, r) = join(p as i32, &id, if p == 2 { "two" } else { "three" });
                txs[p] = Some(t);
                rxs[p] = Some(r);
            }
        }
        rxs[1] = crx.take();
        let t = txs[from].take().unwrap();
        let r = rxs[to].take().unwrap();
        keep.push(Box::new((txs, rxs)));
        (t, r)
    };
    std::mem::forget(keep);
    let target = ["", "ctl", "two", "three"][to];
    quiesce();
    explore_on(true);
    let got = receiver(to as i32, "recv", rx);
    let nthreads = if arg & 8 != 0 { 3 } else { 2 };
    let per = if arg & 16 != 0 { 1 } else if small { 3 } else { 2 };
    let mut fl = vec![];
    let mut want = vec![];
    for k in 1..=nthreads {
        let tx = tx.clone();
        let base = k * 100;
        want.push((base..base + per).collect::<Vec<u32>>());
        fl.push(spawn(from as i32, &format!("send{k}"), move || {
            for j in 0..per {
                let s = if j % 2 == 0 { uni(target) } else { multi(target) };
                send(from as i32, &tx, s, mp(base + j, len));
            }
            std::mem::forget(tx);
        }));
    }
    std::mem::forget(tx);
    for f in fl {
        f.wait();
    }
    quiesce();
    let w: Vec<&[u32]> = want.iter().map(|v| v.as_slice()).collect();
    expect("the receiver", got.get(), &w);
}

/// A client and the controller's process send to the same receiver at the same time, and the receiver answers.
fn cross(arg: u32) {
    explore_on(false);
    let id = ident("cross");
    let (t1, r1) = join(1, &id, "a one");
    let (t2, r2) = join(2, &id, "a two");
    let (t3, r3) = join(3, &id, "b three");
    quiesce();
    explore_on(true);
    let g1 = receiver(1, "recv1", r1);
    let g2 = receiver(2, "recv2", r2);
    let g3 = receiver(3, "recv3", r3);
    let len = if arg & 1 != 0 { 1500 } else { 0 };
    let per = if arg & 1 != 0 { 3 } else { 2 };
    let mut fl = vec![];
    for (p, tx, base, dst) in [(1, t1, 100, "three"), (2, t2, 200, "three"), (3, t3, 300, "a")] {
        fl.push(spawn(p, &format!("send{p}"), move || {
            for j in 0..per {
                send(p, &tx, multi(dst), mp(base + j, len));
            }
            std::mem::forget(tx);
        }));
    }
    for f in fl {
        f.wait();
    }
    quiesce();
    let v = |b: u32| (b..b + per).collect::<Vec<u32>>();
    expect("endpoint 3", g3.get(), &[&v(100), &v(200)]);
    expect("endpoint 1", g1.get(), &[&v(300)]);
    expect("endpoint 2", g2.get(), &[&v(300)]);
}

/// All sequences of sends and receives by one driver, against queues.
fn seq(arg: u32) {
    explore_on(false);
    let id = ident("fseq");
    let mut e = vec![];
    for (p, l) in [(1, "x a"), (2, "x b"), (3, "y a")] {
        e.push((p, l, join(p, &id, l)));
    }
    let has = |l: &str, x: &str| l.split(' ').any(|y| y == x);
    let mut q: Vec<VecDeque<u32>> = vec![VecDeque::new(); 3];
    let ops = ["a", "b", "x"];
    for step in 0..arg {
        let c = choose(3 * 4);
        let (p, k) = (c / 4, c % 4);
        if k == 3 {
            // receive one
            let (pr, _, (_, rx)) = &mut e[p];
            let r = at(*pr, || rx.recv(Some(std::time::Duration::ZERO)));
            match (r, q[p].pop_front()) {
                (Ok(m), Some(w)) => check!(m.payload == mp(w, w as usize % 7), "wrong message", "endpoint {} received {} instead of {w}", p + 1, m.payload.n),
                (Err(ipmb::RecvError::Timeout), None) => {}
                (Ok(m), None) => fail!("unexpected message", "endpoint {} received {}", p + 1, m.payload.n),
                (Err(err), Some(w)) => fail!("lost", "endpoint {}: {err:?} instead of {w}", p + 1),
                (Err(err), None) => fail!("recv failed", "{err:?}"),
            }
            obs(7 + p as u64);
        } else {
            let n = step + 1;
            note!("endpoint {} multicasts {n} to {}", p + 1, ops[k]);
            send(e[p].0, &e[p].2 .0, multi(LabelOp::from(ops[k])), mp(n, n as usize % 7));
            quiesce();
            for i in 0..3 {
                if has(e[i].1, ops[k]) {
                    q[i].push_back(n);
                }
            }
            obs(1000 + c as u64);
        }
    }
    for (p, _, (_, rx)) in e.iter_mut() {
        let g = nums(&drain(*p, rx));
        let w: Vec<u32> = q[*p as usize - 1].iter().copied().collect();
        check!(g == w, "wrong messages at the end", "endpoint {p}: {g:?} instead of {w:?}");
    }
}

/// The receiver is slow: time passes before and between its receives, with the queues full.
fn slow(arg: u32) {
    explore_on(false);
    let id = ident("slow");
    let (from, to) = [(2, 3), (1, 3), (2, 1)][arg as usize];
    let mut eps = vec![];
    for (p, l) in [(1, "ctl"), (2, "two"), (3, "three")] {
        eps.push(join(p, &id, l));
    }
    let tx = eps[from - 1].0.clone();
    let target = ["", "ctl", "two", "three"][to];
    const N: u32 = 9;
    quiesce();
    explore_on(true);
    let f = spawn(from as i32, "send", move || {
        for j in 0..N {
            send(from as i32, &tx, uni(target), mp(100 + j, 1500));
        }
        std::mem::forget(tx);
    });
    let pauses = [0, 10, 1000, 10_000, 86_400_000];
    let mut got = vec![];
    for _ in 0..2 {
        quiesce();
        let d = pauses[choose(pauses.len())];
        note!("{d} ms pass");
        pass(ms(d));
        for _ in 0..[0, 1, 4][choose(3)] {
            match at(to as i32, || eps[to - 1].1.recv(Some(ms(0)))) {
                Ok(v) => got.push(v.payload.n),
                Err(ipmb::RecvError::Timeout) => {}
                Err(e) => fail!("recv failed", "{e:?}"),
            }
        }
    }
    for _ in 0..N {
        quiesce();
        got.append(&mut nums(&drain(to as i32, &mut eps[to - 1].1)));
    }
    f.wait();
    quiesce();
    got.append(&mut nums(&drain(to as i32, &mut eps[to - 1].1)));
    let w: Vec<u32> = (100..100 + N).collect();
    expect("the receiver", &got, &[&w]);
}

fn small(c: Cfg) -> Cfg {
    Cfg { sndbuf: 1, ..c }
}

/// Bursts longer than every queue, by every route, of several sizes; the receiver looks late, or in steps.
fn burst(arg: u32) {
    explore_on(false);
    let route = choose(4);
    let (from, to) = [(2, 3), (1, 3), (2, 1), (1, 1)][route];
    // (40,000 bytes are too many for the small queues)
    let len = [0usize, 1500, 40_000][choose(if arg & 1 == 0 { 3 } else { 2 })];
    let n = [40, if len == 0 { arg } else { arg.min(400) }][choose(2)];
    let step = [0u32, 1, 17][choose(3)];
    // (so many consecutive messages are equal)
    let same = [1u32, 3][choose(2)];
    let id = ident("burst");
    let mut e: Vec<Option<(Tx, Rx)>> = vec![None, Some(join(1, &id, "one")), Some(join(2, &id, "two")), Some(join(3, &id, "three"))];
    let target = ["", "one", "two", "three"][to];
    let tx = e[from].as_ref().unwrap().0.clone();
    quiesce();
    let (_keep, mut rx) = e[to].take().unwrap();
    note!("{n} messages of {len} bytes from {from} to {to}, received in steps of {step}");
    let f = spawn(from as i32, "burst", move || {
        for k in 1..=n {
            send(from as i32, &tx, uni(target), mp(k / same, len));
        }
        std::mem::forget(tx);
    });
    quiesce();
    let mut got = vec![];
    at(to as i32, || loop {
        match rx.recv(Some(ms(1))) {
            Ok(v) => {
                check!(v.payload.pad == pad(v.payload.n, len), "corrupt payload", "message {}", v.payload.n);
                got.push(v.payload.n);
                if step > 0 && got.len() as u32 % step == 0 {
                    quiesce();
                }
            }
            Err(ipmb::RecvError::Timeout) => {
                if got.len() as u32 >= n {
                    break;
                }
                fail!("lost", "{} of {n} messages received: {:?}", got.len(), &got[got.len().saturating_sub(10)..]);
            }
            Err(e) => fail!("recv failed", "{e:?}"),
        }
    });
    f.wait();
    check!(got == (1..=n).map(|k| k / same).collect::<Vec<_>>(), "reordered, lost or duplicated", "{got:?}");
    obs(got.len() as u64);
}

pub fn c03(t: Tier) -> Vec<Scn> {
    let d = t.pick(2, 3);
    vec![
        scn("C03/seq", seq, t.pick(4, 6), "sends and receives by three endpoints: all sequences", data()),
        scn("C03/slow-client", slow, 0, "a slow receiver: all pauses; queues of two messages", small(sched(0))),
        scn("C03/slow-host", slow, 1, "a slow receiver of messages of the controller's process", small(sched(0))),
        scn("C03/slow-to-host", slow, 2, "a slow receiver in the controller's process", small(sched(0))),
        scn("C03/burst", burst, t.pick(1100, 3000), "bursts of up to 1,100 (3,000) messages by every route", data()),
        scn("C03/burst-full", burst, t.pick(201, 401), "the same, queues of two messages", small(data())),
        scn("C03/client", threads, 0, "two sending threads of one client, receiver in another", sched(d)),
        scn("C03/host", threads, 1, "two sending threads of the controller's process, receiver elsewhere", sched(d)),
        scn("C03/to-host", threads, 2, "two sending threads of a client, receiver in the controller's process", sched(d)),
        scn("C03/host-self", threads, 3, "two sending threads and the receiver in the controller's process", sched(t.pick(2, 3))),
        scn("C03/full-client", threads, 4, "as client, queues of two messages", small(sched(d))),
        scn("C03/full-host", threads, 5, "as host, queues of two messages", small(sched(d))),
        scn("C03/full-to-host", threads, 6, "as to-host, queues of two messages", small(sched(d))),
        scn("C03/three", threads, 8 | 16, "three threads of one message", sched(d)),
        scn("C03/cross", cross, 0, "three endpoints send to each other", sched(t.pick(1, 2))),
        scn("C03/cross-full", cross, 1, "three endpoints send to each other, queues of two messages", small(sched(t.pick(1, 2)))),
    ]
}
