//! C10: who is admitted to a bus.
use super::form::opts;
use ipmb::{JoinError, SelectorMode};
use mc::{bus::*, check, eng, explore::*, fail, note, rt::*, wire, *};
use std::time::Duration;

const TOKENS: [&str; 8] = ["tok", "", "to", "tok ", "Tok", "tok\0", "tök", "toktoktoktoktoktoktoktoktoktoktoktoktoktoktoktoktoktoktok"];

fn host(id: &str, token: &str, label: &str) -> (Tx, Rx) {
    let mut o = opt(id, label);
    o.token = token.into();
    join_opt(1, o)
}
fn compatible(a: (u8, u8, u8), b: (u8, u8, u8)) -> bool {
    if a.0 == 0 && b.0 == 0 { a.1 == b.1 } else { a.0 == b.0 }
}

/// Every pair of tokens; others go on; the refused one gets nothing and leaves nothing behind.
fn tokens(arg: u32) {
    explore_on(false);
    let id = ident("token");
    let a = choose(TOKENS.len());
    let b = choose(TOKENS.len());
    let (t1, mut r1) = host(&id, TOKENS[a], "host all");
    let base = unsafe { eng::mc_fd_count(1) };
    let other = if arg > 0 {
        let mut o = opt(&id, "two all");
        o.token = TOKENS[a].into();
        Some(at(2, || ipmb::join::<M, M>(o, None).unwrap_or_else(|e| fail!("join failed", "the right token was refused: {e:?}"))))
    } else {
        None
    };
    let mid = unsafe { eng::mc_fd_count(1) };
    let t0 = now();
    let mut o = opts(&id, "three all", choose(2) == 0);
    o.token = TOKENS[b].into();
    let to = [None, Some(ms(500))][choose(2)];
    note!("token {:?} at a bus with {:?}", TOKENS[b], TOKENS[a]);
    let r = at(3, || ipmb::join::<M, M>(o, to));
    let took = now() - t0;
    quiesce();
    check!(took < ms(100), "admission was not decided promptly", "{took:?}");
    let live = match r {
        Ok((t3, mut r3)) => {
            check!(a == b, "a wrong token was accepted", "{:?} for {:?}", TOKENS[b], TOKENS[a]);
            send(1, &t1, multi("all"), m(1));
            quiesce();
            check!(nums(&drain(3, &mut r3)) == [1], "an admitted endpoint does not receive", "");
            send(3, &t3, multi("all"), m(2));
            quiesce();
            true
        }
        Err(JoinError::TokenMismatch) => {
            check!(a != b, "the right token was refused", "{:?}", TOKENS[a]);
            check!(unsafe { eng::mc_fd_count(3) } == 0, "a refused endpoint keeps descriptors", "{}", unsafe { eng::mc_fd_count(3) });
            // (the controller closes its side when it notices)
            check!(unsafe { eng::mc_fd_count(1) } == mid, "a refused endpoint was registered", "{} descriptors, {mid} before", unsafe { eng::mc_fd_count(1) });
            // a message only it would match
            send(1, &t1, uni("three"), m(1));
            send(1, &t1, multi("all"), m(2));
            quiesce();
            false
        }
        Err(e) => fail!("wrong error for a wrong token", "{e:?}"),
    };
    let want: &[u32] = if live { &[1, 2] } else { &[2] };
    check!(nums(&drain(1, &mut r1)) == want, "admission disturbed others", "");
    if let Some((t2, mut r2)) = other {
        check!(nums(&drain(2, &mut r2)) == want, "admission disturbed others", "");
        send(2, &t2, uni("host"), m(7));
        quiesce();
        check!(nums(&drain(1, &mut r1)) == [7], "admission disturbed others", "");
    }
    let _ = base;
    obs(live as u64);
}

const MAJ: [i32; 4] = [0, 1, -1, 255];
/// Joiners of other versions, in the header and in the request.
fn versions(_: u32) {
    explore_on(false);
    let id = ident("vers");
    let me = wire::ver(ipmb::version());
    let (t1, mut r1) = host(&id, "tok", "host all");
    let (t2, mut r2) = join(2, &id, "two all");
    let before = unsafe { eng::mc_fd_count(1) };
    let pick = || -> (u8, u8, u8) {
        let (maj, min, pat) = [(0, 0, 0), (0, 0, 1), (0, 0, 200), (0, 1, 0), (0, -1, 0), (1, 0, 0), (1, -8, -5), (255, 0, 0), (1, 1, 0)][choose(9)];
        (me.0.wrapping_add(maj as u8), me.1.wrapping_add(min as u8), me.2.wrapping_add(pat as u8))
    };
    let _ = MAJ;
    let h = pick();
    let v = if choose(2) == 0 { h } else { pick() };
    let right = choose(2) == 0;
    let ok = compatible(h, me) && compatible(v, me);
    note!("joiner with header version {h:?}, version {v:?}, right token {right}");
    let t0 = now();
    let mut raw = wire::Raw::join_with(3, &id, &wire::connect_frame(h, v, if right { "tok" } else { "no" }, lab("three all")));
    quiesce();
    let ack = raw.take_ack();
    check!(now() - t0 < ms(100), "admission was not decided promptly", "");
    match &ack {
        None => fail!("a joiner gets no answer", "header version {h:?}, version {v:?}, here {me:?}"),
        Some((hv, a)) => {
            check!(*hv == me, "the answer has a wrong header", "{hv:?}");
            match a {
                wire::Ack::Ok(_) => {
                    check!(ok, "an incompatible version was accepted", "header {h:?}, version {v:?}, here {me:?}");
                    check!(right, "a wrong token was accepted", "");
                }
                wire::Ack::ErrVersion(r) => {
                    check!(!ok, "a compatible version was refused", "header {h:?}, version {v:?}, here {me:?}");
                    check!(*r == me, "the version error names a wrong version", "{r:?}");
                }
                wire::Ack::ErrToken => check!(!right, "the right token was refused", ""),
            }
        }
    }
    let live = ok && right;
    send(2, &t2, multi("all"), m(5));
    send(1, &t1, uni("three"), m(6));
    quiesce();
    let mut got = vec![];
    at(3, || {
        while let wire::Got::Packet(b, _) = wire::recv(raw.rx) {
            if let Some((_, _, p)) = wire::parse(&b) {
                got.push(wire::unbin::<M>(&p).map(|m| m.n).unwrap_or(0));
            }
        }
    });
    if live {
        check!(got == [5, 6], "an admitted endpoint does not receive", "{got:?}");
    } else {
        check!(got.is_empty(), "a refused endpoint receives", "{got:?}");
    }
    check!(nums(&drain(1, &mut r1)) == [5] && nums(&drain(2, &mut r2)) == [5], "admission disturbed others", "");
    raw.close();
    quiesce();
    send(2, &t2, multi("all"), m(8));
    quiesce();
    check!(nums(&drain(1, &mut r1)) == [8] && nums(&drain(2, &mut r2)) == [8], "admission disturbed others", "");
    check!(unsafe { eng::mc_fd_count(1) } == before, "a joiner left descriptors in the controller", "{} instead of {before}", unsafe { eng::mc_fd_count(1) });
    obs(live as u64 + 2 * ok as u64);
}

/// A controller of another version, or one that answers in some other way.
fn controller(_: u32) {
    explore_on(false);
    let id = ident("rawc");
    let me = wire::ver(ipmb::version());
    let lfd = at(1, || wire::listen(&id));
    let res = Sh::new(None);
    let id2 = id.clone();
    let to = [None, Some(Duration::from_secs(60))][choose(2)];
    let t0 = now();
    let f = spawn(3, "join", move || {
        let mut o = opt(&id2, "three");
        o.controller_affinity = true;
        *res.get() = Some((ipmb::join::<M, M>(o, to).map(|(t, r)| std::mem::forget((t, r))), now()));
    });
    let newer = (me.0, me.1.wrapping_add(1), 0);
    let kind = choose(8);
    // serve join attempts by hand
    for _ in 0..8 {
        quiesce();
        if f.is_set() {
            break;
        }
        let cfd = at(1, || {
            let mut p = libc::pollfd { fd: lfd, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 0) } == 1 { Some(wire::accept(lfd)) } else { None }
        });
        let Some(cfd) = cfd else {
            pass(ms(500));
            continue;
        };
        quiesce();
        at(1, || {
            let (b, fds) = match wire::recv(cfd) {
                wire::Got::Packet(b, f) => (b, f),
                _ => fail!("no connect message", ""),
            };
            let (v, s, p) = wire::parse(&b).unwrap_or_else(|| fail!("malformed connect message", "{b:?}"));
            let c: wire::Connect = wire::unbin(&p).unwrap_or_else(|| fail!("malformed connect message", "{p:?}"));
            check!(v == me && c.version == me && s.uuid == wire::CONNECT && c.token == "tok" && c.label == lab("three") && fds.len() == 1, "wrong connect message", "{v:?} {:?} {:?}", c.version, fds);
            let sel = wire::bin(wire::sel(ipmb::LabelOp::True, SelectorMode::Unicast, wire::ACK));
            let (h, a) = match kind {
                0 => (me, wire::Ack::Ok([7; 16])),
                1 => (me, wire::Ack::ErrToken),
                2 => (me, wire::Ack::ErrVersion(newer)),
                3 => (newer, wire::Ack::ErrVersion(newer)),
                4 => ((me.0 + 1, 0, 0), wire::Ack::ErrVersion((me.0 + 1, 0, 0))),
                5 => ((me.0, me.1, me.2.wrapping_add(1)), wire::Ack::Ok([7; 16])),
                6 => (newer, wire::Ack::Ok([7; 16])),
                _ => (me, wire::Ack::ErrVersion((me.0, me.1.wrapping_sub(1), 3))),
            };
            wire::send(fds[0], &wire::frame_v(h, &sel, &wire::bin(a)), &[]);
            for fd in fds {
                wire::close(fd);
            }
            wire::close(cfd);
        });
    }
    quiesce();
    check!(f.is_set(), "join does not end although the controller answers", "answer {kind}");
    let (r, t) = res.get().take().unwrap();
    check!(t - t0 < ms(600), "admission was not decided promptly", "{:?}", t - t0);
    let want_v = |v: (u8, u8, u8)| {
        match &r {
            Err(JoinError::VersionMismatch(w)) => check!(wire::ver(*w) == v, "the version error names a wrong version", "{w:?} instead of {v:?}"),
            r => fail!("no version error", "answer {kind}: {r:?}"),
        };
    };
    match kind {
        0 | 5 => check!(r.is_ok(), "join failed", "{r:?}"),
        1 => check!(matches!(r, Err(JoinError::TokenMismatch)), "no token error", "{r:?}"),
        2 | 3 | 6 => want_v(newer),
        4 => want_v((me.0 + 1, 0, 0)),
        _ => want_v((me.0, me.1.wrapping_sub(1), 3)),
    }
    obs(kind as u64);
}

/// A refused join among joins and messages of others: all interleavings.
fn race(_: u32) {
    explore_on(false);
    let id = ident("arace");
    let (_t1, r1) = host(&id, "tok", "host all");
    let g1 = receiver(1, "recv1", r1);
    let (t2, r2) = join(2, &id, "two all");
    let g2 = receiver(2, "recv2", r2);
    quiesce();
    let (id3, id4) = (id.clone(), id.clone());
    explore_on(true);
    let f3 = spawn(3, "refused", move || {
        let mut o = opt(&id3, "three all");
        o.token = "no".into();
        match ipmb::join::<M, M>(o, None) {
            Err(JoinError::TokenMismatch) => {}
            Err(e) => fail!("wrong error for a wrong token", "{e:?}"),
            Ok(_) => fail!("a wrong token was accepted", ""),
        }
    });
    let late = Sh::new(None);
    let f4 = spawn(4, "accepted", move || *late.get() = Some(join(4, &id4, "four all")));
    send(2, &t2, multi("all"), m(200));
    send(2, &t2, multi("all"), m(201));
    f3.wait();
    f4.wait();
    quiesce();
    explore_on(false);
    check!(*g1.get() == [200, 201] && *g2.get() == [200, 201], "admission disturbed others", "{:?} {:?}", g1.get(), g2.get());
    let (_t4, mut r4) = late.get().take().unwrap();
    let v = nums(&drain(4, &mut r4));
    check!(v.is_empty() || v == [201] || v == [200, 201], "admission disturbed others", "{v:?}");
    send(2, &t2, multi("all"), m(202));
    quiesce();
    check!(nums(&drain(4, &mut r4)) == [202], "an admitted endpoint does not receive", "");
    check!(unsafe { eng::mc_fd_count(3) } == 0, "a refused endpoint keeps descriptors", "");
    obs(v.len() as u64);
}

pub fn c10(t: Tier) -> Vec<Scn> {
    vec![
        scn("C10/tokens", tokens, 0, "every pair of tokens", data()),
        scn("C10/tokens-others", tokens, 1, "every pair of tokens, with another endpoint", data()),
        scn("C10/versions", versions, 0, "joiners of every combination of header and request version", data()),
        scn("C10/controller", controller, 0, "controllers of other versions and every answer", data()),
        scn("C10/race", race, 0, "a refused and an accepted join among messages: all interleavings", sched(t.pick(2, 3))),
    ]
}
