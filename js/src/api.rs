//! C23: everything but receiving order: what a JavaScript program sends, selects, joins, maps and gets wrong.
use crate::{js::*, vm::{self, V}};
use ipmb::{BytesMessage, Message};
use mc::{bus::{multi, uni}, check, eng, explore::*, fail, note, rt::*, wire, *};
use std::time::Duration;

fn data_n(n: usize, k: u32) -> Vec<u8> {
    (0..n).map(|i| (i * 31 + (i >> 8) * 7 + 3 + k as usize * 11) as u8).collect()
}
fn err(r: Result<V, V>, what: &str) -> String {
    match r {
        Ok(v) => fail!("no error", "{what}: {}", vm::show(v)),
        Err(e) => vm::message(e),
    }
}

/// Formats and sizes on all routes.
fn contents(_: u32) {
    explore_on(false);
    let id = ident("jdata");
    vm::start();
    let first = choose(2);
    let mk = |p: i32, l: &[&str]| join(p, &id, l);
    let (j1, mut l1);
    if first == 0 {
        j1 = mk(1, &["j1", "j", "all"]);
        l1 = ljoin(2, &id, "l1 l all");
    } else {
        l1 = ljoin(2, &id, "l1 l all");
        j1 = mk(1, &["j1", "j", "all"]);
    }
    let j2 = mk(3, &["j2", "j", "all"]);
    let mut l2 = ljoin(4, &id, "l2 l all");
    quiesce();
    let (mut r1, mut r2) = (JRx::new(j1.1), JRx::new(j2.1));
    let n = [0, 1, 3, 4, 250, 251, 65535, 65536, 100_000, 130_000][choose(10)];
    let format = [0, 1, 250, 251, 256, 65535][choose(6)];
    let d = data_n(n, 0);
    for t in ["j1", "j2", "l1", "l2", "j", "l", "all", "nobody"] {
        for m in [false, true] {
            for from in 0..4 {
                note!("{n} bytes, format {format} from {from} to {t}, multicast {m}");
                match from {
                    0 | 2 => {
                        let msg = message(format, &d);
                        send(1 + from, if from == 0 { j1.0 } else { j2.0 }, selector(op(&[vm::string(t)]), m, 0), msg, &[]);
                    }
                    _ => at(1 + from, || {
                        let msg = Message::new(if m { multi(t) } else { uni(t) }, BytesMessage { format, data: d.clone() });
                        (if from == 1 { &l1.0 } else { &l2.0 }).send(msg).unwrap_or_else(|e| fail!("send failed", "{e:?}"))
                    }),
                }
                quiesce();
                let l = |v: Vec<Message<BytesMessage>>| v.into_iter().map(|m| (m.payload.format, m.payload.data)).collect::<Vec<_>>();
                let j = |v: Vec<V>| v.into_iter().map(bytes_of).collect::<Vec<_>>();
                let got = [j(r1.drain(1)), l(ldrain(2, &mut l1.1)), j(r2.drain(3)), l(ldrain(4, &mut l2.1))];
                let matching: Vec<bool> = [["j1", "j", "all"], ["l1", "l", "all"], ["j2", "j", "all"], ["l2", "l", "all"]].iter().map(|l| l.contains(&t)).collect();
                let total: usize = got.iter().map(|g| g.len()).sum();
                let want = matching.iter().filter(|&&x| x).count();
                check!(total == if m { want } else { want.min(1) }, "wrong number of copies", "to {t}, multicast {m}: {total} of {want}");
                for (i, g) in got.iter().enumerate() {
                    check!(g.len() <= matching[i] as usize, "a message at the wrong endpoint", "to {t}: at {i}");
                    check!(g.iter().all(|x| *x == (format, d.clone())), "wrong data", "{n} bytes, format {format}");
                }
            }
        }
    }
    vm::collect_all();
    check!(vm::held() == 0, "JavaScript values are held for ever", "{}", vm::held());
    check!(unsafe { eng::mc_bad_close() } == 0, "a descriptor is closed twice", "");
    obs(n as u64 * 100_000 + format as u64);
    std::mem::forget((l1, l2));
}

const LABELS: [&str; 5] = ["", "a", "b", "a b", "true"];
/// All programs on two label expressions, by whom they select.
fn expressions(depth: u32) {
    explore_on(false);
    let id = ident("jlabel");
    vm::start();
    let ends: Vec<(V, V)> = (0..2).map(|i| join(1 + i, &id, &LABELS[i as usize].split(' ').filter(|e| !e.is_empty()).collect::<Vec<_>>())).collect();
    let mut rest: Vec<(LTx, LRx)> = (2..5).map(|i| ljoin(1 + i, &id, LABELS[i as usize])).collect();
    quiesce();
    let mut rx: Vec<JRx> = ends.iter().map(|e| JRx::new(e.1)).collect();
    let has = |s: &str| LABELS.iter().map(|l| l.split(' ').any(|x| x == s)).collect::<Vec<bool>>();
    let mk = |c: usize| match c {
        0 => (op(&[vm::boolean(true)]), vec![true; 5]),
        1 => (op(&[vm::boolean(false)]), vec![false; 5]),
        2 => (op(&[vm::string("a")]), has("a")),
        3 => (op(&[vm::string("b")]), has("b")),
        // a string is an element, even this one
        _ => (op(&[vm::string("true")]), has("true")),
    };
    let mut x = [mk(choose(5)), mk(choose(4))];
    let mut text = String::new();
    for _ in 0..depth {
        let c = choose(9);
        let (i, what) = (c % 2, c / 2);
        let r = match what {
            0 => {
                x[i].1.iter_mut().for_each(|b| *b = !*b);
                vm::call(x[i].0, "not", &[])
            }
            1 | 2 => {
                let o = x[1 - i].1.clone();
                x[i].1.iter_mut().zip(o).for_each(|(b, o)| *b = if what == 1 { *b && o } else { *b || o });
                vm::call(x[i].0, if what == 1 { "and" } else { "or" }, &[x[1 - i].0])
            }
            3 => {
                let s = vm::call(x[i].0, "toString", &[]);
                check!(s.is_ok_and(|s| !vm::text(s).is_empty()), "no text", "");
                Ok(vm::undef())
            }
            _ => break,
        };
        text.push_str(&format!(" {}.{}", ["x", "y"][i], ["not", "and", "or", "toString"][what]));
        check!(r.is_ok_and(vm::is_undef), "a label call fails", "{text}");
    }
    note!("{text}");
    for k in 0..2 {
        for (s, n) in [(ends[0].0, 1), (ends[1].0, 2)] {
            send(n, s, selector(x[k].0, true, 0), message(n as u16, &[k as u8]), &[]);
        }
        quiesce();
        for i in 0..5 {
            let mut got: Vec<(u16, Vec<u8>)> = if i < 2 { rx[i].drain(1 + i as i32).into_iter().map(bytes_of).collect() } else { ldrain(1 + i as i32, &mut rest[i - 2].1).into_iter().map(|m| (m.payload.format, m.payload.data)).collect() };
            got.sort();
            let w = if x[k].1[i] { vec![(1, vec![k as u8]), (2, vec![k as u8])] } else { vec![] };
            check!(got == w, "an expression selects other endpoints", "{text}: {} at {:?}: {got:?}", ["x", "y"][k], LABELS[i]);
        }
    }
    obs(x.iter().flat_map(|x| &x.1).fold(1, |a, &b| a * 2 + b as u64));
    std::mem::forget(rest);
}

const SIZES: [&[usize]; 9] = [&[], &[0], &[1], &[4096], &[4097, 3], &[70_000, 0, 5], &[1; 16], &[300_000], &[64; 40]];
fn maps_of(region: V, want: &[u8], exact: bool) {
    let n = want.len();
    let all = map(region, 0.0, -1.0).unwrap_or_else(|e| fail!("mapping fails", "{}", vm::show(e)));
    check!(all.len() >= n && all[..n] == *want && (!exact || all.len() == n), "wrong contents of a region", "{} bytes instead of {n}", all.len());
    let len = all.len();
    for (o, s) in [(0, n), (0, 0), (0, 1), (n / 2, n - n / 2), (n.saturating_sub(1), 1), (1, 1), (3, n.saturating_sub(3)), (n, 0), (0, len + 1), (len + 1, 0), (len, 1), (1, 0x7fff_ffff), (0xffff_ffff, 0x7fff_ffff), (0xffff_ffff, 1)] {
        match map(region, o as f64, s as f64) {
            Ok(b) => {
                check!(o + s <= len, "a mapping outside the region", "{o}+{s} of {len}");
                check!(b == all[o..o + s], "wrong contents of a region", "{o}+{s} of {len}: {} bytes", b.len());
            }
            Err(e) => {
                // an empty range has nothing to map
                check!(o + s > len || s == 0, "mapping fails", "{o}+{s} of {len}: {}", vm::show(e));
                let _ = vm::message(e);
            }
        }
    }
    for s in [-1.0, -2.0, -4096.0, i32::MIN as f64] {
        for o in [0, 1, n / 2, len, len + 1, 0xffff_ffff] {
            match map(region, o as f64, s) {
                Ok(b) => check!(o <= len && b == all[o..], "wrong contents of a region", "from {o} of {len}: {} bytes", b.len()),
                Err(_) => check!(o >= len || s != -1.0, "mapping fails", "from {o} of {len}"),
            }
        }
    }
}
/// Buffers become regions.
fn buffers(_: u32) {
    explore_on(false);
    let id = ident("jbuf");
    vm::start();
    let first = choose(2);
    let mut h = None;
    if first == 1 {
        h = Some(ljoin(2, &id, "l all"));
    }
    let j1 = join(1, &id, &["j1", "all"]);
    let mut l = match h {
        Some(h) => h,
        None => ljoin(2, &id, "l all"),
    };
    let j2 = join(1, &id, &["j2", "all"]);
    quiesce();
    let mut rx = [JRx::new(j1.1), JRx::new(j2.1)];
    let from = choose(2);
    let sizes = SIZES[choose(SIZES.len())];
    let to = ["j1", "j2", "l", "all"][choose(4)];
    let mut kept: Vec<(V, Vec<Vec<u8>>)> = vec![];
    let mut lkept: Vec<(Message<BytesMessage>, Vec<Vec<u8>>)> = vec![];
    for round in 0..3 {
        let bufs: Vec<Vec<u8>> = sizes.iter().enumerate().map(|(i, &n)| data_n(n, i as u32 * 3 + round)).collect();
        note!("{sizes:?} from {from} to {to}");
        let bv: Vec<V> = bufs.iter().map(|b| vm::buf(b)).collect();
        let arr = vm::arr(bv.clone());
        let tx = if from == 0 { j1.0 } else { j2.0 };
        if let Err(e) = at(1, || vm::call(tx, "send", &[selector(op(&[vm::string(to)]), to == "all", 0), message(9, b"hey"), arr])) {
            fail!("send failed", "{}", vm::show(e))
        }
        // the program may go on using its buffers
        for b in bv {
            let d = vm::bytes(b);
            unsafe { std::ptr::write_bytes(d.as_ptr() as *mut u8, 0xee, d.len()) };
        }
        quiesce();
        let mut n = 0;
        for (i, r) in rx.iter_mut().enumerate() {
            for m in r.drain(1) {
                check!(to == "all" || to == ["j1", "j2"][i], "a message at the wrong endpoint", "");
                check!(bytes_of(m) == (9, b"hey".to_vec()), "wrong data", "");
                kept.push((m, bufs.clone()));
                n += 1;
            }
        }
        for m in ldrain(2, &mut l.1) {
            check!(to == "all" || to == "l", "a message at the wrong endpoint", "");
            lkept.push((m, bufs.clone()));
            n += 1;
        }
        check!(n == if to == "all" { 3 } else { 1 }, "wrong number of copies", "{n}");
        // all messages so far are intact: nothing that is in use is used again
        for (m, bufs) in &kept {
            let r = vm::items(vm::get(*m, "memoryRegions"));
            check!(r.len() == bufs.len(), "wrong number of regions", "{} of {}", r.len(), bufs.len());
            for (r, b) in r.iter().zip(bufs) {
                maps_of(*r, b, false);
            }
        }
        for (m, bufs) in &mut lkept {
            check!(m.memory_regions.len() == bufs.len(), "wrong number of regions", "{} of {}", m.memory_regions.len(), bufs.len());
            for (r, b) in m.memory_regions.iter_mut().zip(bufs) {
                let d = r.map(0..b.len());
                check!(d.is_ok_and(|d| d == b), "wrong contents of a region", "{} bytes", b.len());
            }
        }
    }
    at(2, || drop(lkept));
    at(1, vm::collect_all);
    check!(vm::held() == 0, "JavaScript values are held for ever", "{}", vm::held());
    at(1, vm::teardown);
    at(2, || drop(l));
    pass(ms(3000));
    // the thread that serves the bus stays
    let left: i32 = [2 - first as i32, 3].into_iter().map(|p| unsafe { eng::mc_fd_count(p as _) }).sum();
    check!(left == 0 && unsafe { eng::mc_maps() } == 0, "a collected endpoint leaves something", "{:?} descriptors, {} mappings, {:?} threads", (1..4).map(|p| unsafe { eng::mc_fd_count(p) }).collect::<Vec<_>>(), unsafe { eng::mc_maps() }, (1..4).map(|p| unsafe { eng::mc_threads_alive(p) }).collect::<Vec<_>>());
    check!(unsafe { eng::mc_bad_close() } == 0, "a descriptor is closed twice", "");
    obs(sizes.len() as u64 * 4 + first as u64);
}

/// Objects and regions of a library message, in JavaScript.
fn attachments(_: u32) {
    explore_on(false);
    let id = ident("jatt");
    vm::start();
    let first = choose(2);
    let mut h = None;
    if first == 1 {
        h = Some(ljoin(2, &id, "l"));
    }
    let j = join(1, &id, &["j"]);
    let l = match h {
        Some(h) => h,
        None => ljoin(2, &id, "l"),
    };
    quiesce();
    let base = unsafe { eng::mc_fd_count(1) };
    let mut rx = JRx::new(j.1);
    let (no, nr, msgs) = (choose(4), choose(4), 1 + choose(2));
    let mut inos = vec![];
    for k in 0..msgs {
        at(2, || {
            let mut m = Message::new(uni("j"), BytesMessage { format: 1, data: vec![k as u8] });
            for i in 0..no {
                unsafe {
                    let fd = libc::memfd_create(c"o".as_ptr(), libc::MFD_CLOEXEC);
                    let b = [k as u8, i as u8];
                    assert!(libc::pwrite(fd, b.as_ptr() as _, 2, 0) == 2);
                    m.objects.push(ipmb::Object::from_raw(fd));
                }
            }
            for i in 0..nr {
                let mut r = ipmb::MemoryRegion::new([1, 5000, 8192][i]).expect("region");
                let d = data_n([1, 5000, 8192][i], (k * 3 + i) as u32);
                r.map(..).expect("map").copy_from_slice(&d);
                m.memory_regions.push(r);
            }
            l.0.send(m).unwrap_or_else(|e| fail!("send failed", "{e:?}"))
        });
        quiesce();
    }
    let got = rx.drain(1);
    check!(got.len() == msgs, "wrong number of copies", "{}", got.len());
    for (k, m) in got.iter().enumerate() {
        let o = vm::items(vm::get(*m, "objects"));
        check!(o.len() == no, "wrong number of objects", "{} of {no}", o.len());
        for (i, o) in o.iter().enumerate() {
            let fd = vm::call(*o, "value", &[]).unwrap_or_else(|e| fail!("no value", "{}", vm::show(e)));
            let mut b = [9u8; 2];
            let r = unsafe { libc::pread(vm::number(fd) as i32, b.as_mut_ptr() as _, 2, 0) };
            check!(r == 2 && b == [k as u8, i as u8], "another object", "object {i} of message {k}: {b:?}");
            inos.push(vm::number(fd) as i32);
        }
        let r = vm::items(vm::get(*m, "memoryRegions"));
        check!(r.len() == nr, "wrong number of regions", "{} of {nr}", r.len());
        for (i, r) in r.iter().enumerate() {
            let d = data_n([1, 5000, 8192][i], (k * 3 + i) as u32);
            maps_of(*r, &d, true);
        }
    }
    check!(unsafe { eng::mc_fd_count(1) } - base == ((no + nr) * msgs) as i32, "attachments are not owned once each", "{} descriptors", unsafe { eng::mc_fd_count(1) } - base);
    // collected in some order
    let mut all: Vec<V> = got.iter().flat_map(|m| vm::items(vm::get(*m, "objects")).iter().chain(vm::items(vm::get(*m, "memoryRegions")))).copied().collect();
    let mut left = all.len() as i32;
    while !all.is_empty() {
        let k = if all.len() > 2 { 0 } else { choose(all.len()) };
        at(1, || vm::collect(all.remove(k)));
        left -= 1;
        check!(unsafe { eng::mc_fd_count(1) } - base == left, "a collected attachment keeps its descriptor", "");
    }
    check!(unsafe { eng::mc_bad_close() } == 0, "a descriptor is closed twice", "");
    obs((no * 4 + nr) as u64);
    std::mem::forget(l);
}

/// Sending with buffers again and again while some are still in use.
fn reuse(depth: u32) {
    explore_on(false);
    let id = ident("jreuse");
    vm::start();
    let j1 = join(1, &id, &["j1"]);
    let j2 = join(3, &id, &["j2"]);
    quiesce();
    let mut rx = JRx::new(j2.1);
    let mut kept: Vec<(V, Vec<u8>)> = vec![];
    let mut due: Vec<Vec<u8>> = vec![];
    let mut n = 0;
    for _ in 0..depth {
        match choose(7) {
            c @ (0 | 1 | 6) => {
                n += 1;
                let d = data_n([100, 5000, 0, 0, 0, 0, 60][c], n);
                send(1, j1.0, selector(op(&[vm::string("j2")]), false, 0), message(n as u16, &[]), &[d.clone()]);
                due.push(d);
                quiesce();
            }
            2 => {
                for m in rx.drain(3) {
                    check!(!due.is_empty(), "duplicate", "");
                    kept.push((vm::items(vm::get(m, "memoryRegions"))[0], due.remove(0)));
                }
                check!(due.is_empty(), "lost", "");
            }
            3 if !kept.is_empty() => {
                let k = choose(kept.len());
                at(3, || vm::collect(kept.remove(k).0));
            }
            4 => pass(ms(6000)),
            5 => {
                // to nobody
                send(1, j1.0, selector(op(&[vm::string("x")]), false, 0), message(0, &[]), &[data_n(100, 77)]);
                quiesce();
            }
            _ => return,
        }
        for (r, d) in &kept {
            let b = map(*r, 0.0, d.len() as f64);
            check!(b.is_ok_and(|b| b == *d), "a region in use is used again", "{} bytes", d.len());
        }
    }
    for m in rx.drain(3) {
        kept.push((vm::items(vm::get(m, "memoryRegions"))[0], due.remove(0)));
    }
    for (r, d) in &kept {
        let b = map(*r, 0.0, d.len() as f64);
        check!(b.is_ok_and(|b| b == *d), "a region in use is used again", "{} bytes", d.len());
    }
    obs(n as u64 * 10 + kept.len() as u64);
}

/// The time to live is in milliseconds.
fn lives(_: u32) {
    explore_on(false);
    let id = ident("jttl");
    vm::start();
    let (tx, rx) = join(1, &id, &["one"]);
    // its thread would wake up five times a second
    let _ = at(1, || vm::call(rx, "close", &[]));
    at(1, vm::run);
    quiesce();
    let t = [0, 1, 200, 1000, 5000, 100_000_000, u32::MAX][choose(7)];
    let m = choose(2) == 1;
    let delta = [-300i64, -1, 1, 300][choose(4)];
    let after = Duration::from_millis((t as i64 + delta).max(0) as u64);
    note!("ttl {t} ms, an endpoint after {after:?}");
    send(1, tx, selector(op(&[vm::string("late")]), m, t), message(5, b"hello"), &[]);
    pass(after);
    let (t2, mut r) = ljoin(2, &id, "late");
    quiesce();
    if t == 0 || (delta < 0 && t >= 300) || delta == 300 {
        let want = (t != 0 && delta < 0) as usize;
        let g = ldrain(2, &mut r);
        check!(g.len() == want, if want == 1 { "message lost within its time to live" } else { "message kept beyond its time to live" }, "ttl {t} ms, {after:?}: {}", g.len());
    }
    obs(t as u64 * 1000 + (delta + 500) as u64);
    std::mem::forget((t2, r));
}

/// Joins: options, timeouts and refusals.
fn joins(_: u32) {
    explore_on(false);
    let id = ident("jjoin");
    vm::start();
    let case = choose(5);
    let mut host = None;
    let mut lfd = -1;
    match case {
        0 | 1 => {
            host = Some(ljoin(2, &id, "host"));
        }
        2 | 4 => lfd = at(2, || wire::listen(&id)),
        _ => {}
    }
    quiesce();
    let timeout = [0u32, 1, 250, 2500][choose(4)];
    let aff = case == 3 && choose(2) == 1;
    let me = wire::ver(ipmb::version());
    let mut answered = None;
    if case == 4 {
        // a controller that refuses the version, in a thread of its own
        let f = spawn(2, "fake", move || {
            let cfd = wire::accept(lfd);
            let fds = loop {
                match wire::recv(cfd) {
                    wire::Got::Packet(_, f) => break f,
                    wire::Got::Nothing => std::thread::sleep(ms(1)),
                    wire::Got::Closed => return,
                }
            };
            let sel = wire::bin(wire::sel(ipmb::LabelOp::True, ipmb::SelectorMode::Unicast, wire::ACK));
            wire::send(fds[0], &wire::frame_v(me, &sel, &wire::bin(wire::Ack::ErrVersion((me.0, me.1 + 1, 0)))), &[]);
        });
        answered = Some(f);
    }
    let t0 = now();
    let o = options(&id, &["three", "all"], if case == 1 { "wrong" } else { "tok" }, aff);
    let t = if case < 2 && timeout == 0 { vm::null() } else { vm::num(timeout as f64) };
    let r = at(1, || vm::call(vm::exports(), "join", &[o, t]));
    let took = now() - t0;
    note!("case {case}, {timeout} ms: {} after {took:?}", match &r { Ok(_) => "ok".into(), Err(e) => vm::show(*e) });
    match case {
        0 => check!(r.is_ok(), "join failed", ""),
        3 if aff => check!(r.is_ok(), "join failed", ""),
        _ => {
            let m = err(r, "join");
            let want = match case {
                1 => "TokenMismatch",
                4 => "VersionMismatch",
                _ => "Timeout",
            };
            check!(m.contains(want) || (timeout <= 1 && m.contains("Timeout")), "wrong error", "case {case}: {m}");
            if m.contains("Timeout") {
                check!(took >= ms(timeout as u64) && took <= ms(timeout as u64 + 2100), "a timeout is not in milliseconds", "{timeout}: {took:?}");
            }
            quiesce();
            check!(unsafe { eng::mc_fd_count(1) } == 0 && unsafe { eng::mc_threads_alive(1) } == 0, "a failed join leaves something", "");
            check!(vm::functions() == 1, "a failed join leaves something", "");
        }
    }
    obs(case as u64 * 10 + timeout as u64);
    std::mem::forget((host, answered));
}

/// What is refused raises an error and changes nothing.
fn wrong(_: u32) {
    explore_on(false);
    let id = ident("jwrong");
    vm::start();
    let first = choose(2);
    let mut h = None;
    if first == 1 {
        h = Some(ljoin(2, &id, "l"));
    }
    let (tx, rx) = join(1, &id, &["j"]);
    let mut l = match h {
        Some(h) => h,
        None => ljoin(2, &id, "l"),
    };
    quiesce();
    let mut jr = JRx::new(rx);
    let s = |t: &str| vm::string(t);
    let good = || selector(op(&[s("l")]), false, 0);
    let case = choose(24);
    note!("case {case}");
    let call = |o: V, f: &str, a: &[V]| at(1, || vm::call(o, f, a));
    let with = |k: &str, v: V| {
        let o = options(&id, &["x"], "tok", true);
        vm::set(o, k, v);
        o
    };
    let selw = |k: &str, v: V| {
        let o = selector(op(&[s("l")]), false, 0);
        vm::set(o, k, v);
        o
    };
    let msg = || message(1, b"x");
    let no = || vm::arr(vec![]);
    match case {
        0 => drop(err(call(tx, "send", &[]), "send()")),
        1 => drop(err(call(tx, "send", &[good()]), "send(selector)")),
        2 => drop(err(call(tx, "send", &[vm::undef(), msg(), no()]), "no selector")),
        3 => drop(err(call(tx, "send", &[vm::obj(&[]), msg(), no()]), "an empty selector")),
        4 => drop(err(call(tx, "send", &[selw("mode", vm::num(7.0)), msg(), no()]), "another mode")),
        5 => drop(err(call(tx, "send", &[selw("labelOp", s("l")), msg(), no()]), "a string as an expression")),
        6 => drop(err(call(tx, "send", &[selw("ttl", s("1")), msg(), no()]), "a string as a time")),
        7 => drop(err(call(tx, "send", &[good(), vm::obj(&[]), no()]), "an empty message")),
        8 => drop(err(call(tx, "send", &[good(), vm::obj(&[("format", s("1")), ("data", vm::buf(b"x"))]), no()]), "a string as a format")),
        9 => drop(err(call(tx, "send", &[good(), vm::obj(&[("format", vm::num(1.0)), ("data", s("x"))]), no()]), "a string as data")),
        10 => drop(err(call(tx, "send", &[good(), msg(), vm::arr(vec![vm::num(5.0)])]), "a number as a buffer")),
        11 => drop(err(call(tx, "send", &[good(), msg(), vm::num(1.0)]), "no array of buffers")),
        12 => drop(err(call(rx, "recv", &[s("x")]), "a string as a timeout")),
        13 => drop(err(call(vm::exports(), "join", &[]), "join()")),
        14 => drop(err(call(vm::exports(), "join", &[vm::num(1.0)]), "join(1)")),
        15 => drop(err(call(vm::exports(), "join", &[with("identifier", vm::num(1.0))]), "a number as an identifier")),
        16 => drop(err(call(vm::exports(), "join", &[with("label", s("x"))]), "a string as a label")),
        17 => drop(err(call(vm::exports(), "join", &[with("token", vm::null())]), "null as a token")),
        18 => drop(err(call(vm::exports(), "join", &[with("controllerAffinity", s(""))]), "a string as a boolean")),
        19 => drop(err(call(op(&[s("a")]), "and", &[]), "and()")),
        20 => drop(err(call(op(&[s("a")]), "or", &[vm::num(1.0)]), "or(1)")),
        21 => {
            // more than the transport carries in one message
            let r = try_send(1, tx, good(), message(1, &data_n(4_000_000, 1)), &[]);
            if first == 1 {
                drop(err(r, "a huge message"));
            }
        }
        22 => {
            // too many buffers for one message
            let r = try_send(1, tx, good(), message(1, b"x"), &vec![vec![1, 2, 3]; 300]);
            if first == 1 {
                drop(err(r, "300 buffers"));
            }
        }
        _ => {
            // anything is an element when made a string; a later argument may be missing
            for (a, t) in [(vm::undef(), "undefined"), (vm::num(5.0), "5"), (vm::null(), "null")] {
                send(1, tx, selector({ let o = op(&[a]); vm::call(o, "or", &[op(&[s("l")])]).unwrap_or_else(|e| fail!("or", "{}", vm::show(e))); o }, false, 0), message(1, b"y"), &[]);
                quiesce();
                check!(ldrain(2, &mut l.1).len() == 1, "lost", "{t}");
            }
            let p = call(rx, "recv", &[vm::num(0.0)]);
            check!(p.is_ok(), "recv failed", "");
            pass(ms(500));
            at(1, vm::run);
        }
    }
    // the endpoint is unharmed
    quiesce();
    check!(ldrain(2, &mut l.1).is_empty(), "a refused message arrives", "case {case}");
    send(1, tx, good(), message(7, b"after"), &[b"region".to_vec()]);
    quiesce();
    let mut g = ldrain(2, &mut l.1);
    check!(g.len() == 1 && g[0].payload.format == 7 && g[0].memory_regions.len() == 1, "the endpoint is broken by a refused call", "case {case}: {}", g.len());
    check!(g[0].memory_regions[0].map(0..6).is_ok_and(|b| b == b"region"), "wrong contents of a region", "");
    lsend(2, &l.0, "j", 5);
    quiesce();
    let g = jr.drain(1);
    check!(g.len() == 1 && number_of(g[0]) == 5, "the endpoint is broken by a refused call", "case {case}");
    obs(case as u64);
    std::mem::forget(l);
}

/// Kernel objects cannot be made: an error, nothing lost.
fn faults(_: u32) {
    explore_on(false);
    let id = ident("jfault");
    vm::start();
    let mut l = ljoin(2, &id, "l");
    let (tx, _rx) = join(1, &id, &["j"]);
    quiesce();
    let base = unsafe { eng::mc_fd_count(1) };
    let n = 1 + choose(2);
    let bufs: Vec<Vec<u8>> = (0..n).map(|i| data_n(100 + i, i as u32)).collect();
    unsafe { eng::mc_faults(eng::F_EMFILE | eng::F_NOMEM, 1 << 1, 0, 1) };
    explore_on(true);
    let r = try_send(1, tx, selector(op(&[vm::string("l")]), false, 0), message(1, b"x"), &bufs);
    explore_on(false);
    let failed = unsafe { eng::mc_fault_count() } > 0;
    unsafe { eng::mc_faults(0, 0, 0, 0) };
    quiesce();
    let g = ldrain(2, &mut l.1);
    match r {
        Ok(_) => check!(g.len() == 1 && g[0].memory_regions.len() == n, "lost", "{}", g.len()),
        Err(e) => {
            let _ = vm::message(e);
            check!(failed, "send failed", "{}", vm::show(e));
            check!(g.is_empty(), "a refused message arrives", "");
        }
    }
    let ok = g.len() as u64;
    drop(g);
    send(1, tx, selector(op(&[vm::string("l")]), false, 0), message(1, b"x"), &bufs);
    quiesce();
    let g = ldrain(2, &mut l.1);
    check!(g.len() == 1 && g[0].memory_regions.len() == n, "the endpoint is broken by a refused call", "{}", g.len());
    check!(unsafe { eng::mc_fd_count(1) } - base <= 2 * n as i32, "descriptors are left", "{}", unsafe { eng::mc_fd_count(1) } - base);
    obs(ok * 2 + failed as u64);
    std::mem::forget((l, g));
}

pub fn scns(t: Tier) -> Vec<Scn> {
    vec![
        scn("C23/contents", contents, 0, "all formats and sizes of the boundary set on all routes between JavaScript and library users", data()),
        scn("C23/buffers", buffers, 0, "all buffer shapes of the boundary set on all routes; every mapping of the boundary grid", data()),
        scn("C23/attachments", attachments, 0, "objects and regions from the library, and their collection", data()),
        scn("C23/ttl", lives, 0, "times to live of the boundary set and endpoints before and after them", data()),
        scn("C23/join", joins, 0, "every way a join ends", data()),
        scn("C23/wrong", wrong, 0, "calls that must be refused", data()),
        scn("C23/faults", faults, 0, "every failing call while a message with buffers is sent", faulty(0, 1)),
        scn("C23/expressions", expressions, t.pick(4, 5), "all programs on two label expressions, by whom they select", data()),
        scn("C23/reuse", reuse, t.pick(5, 7), "all sequences of sends with buffers, receives, collections and time", data()),
    ]
}
