//! All sequences of calls on messages and their attachments.
use crate::c::*;
use mc::{check, eng, explore::*, fail, guard, note, rt::*, *};

struct Msg {
    h: H,
    objs: Vec<u32>,
    regs: Vec<u32>,
}
struct W {
    msgs: Vec<Msg>,
    objs: Vec<(u32, u64)>,
    regs: Vec<(u32, H)>,
    next: u32,
    base: i32,
}
/// An object that carries its number.
pub fn object(n: u32) -> u64 {
    unsafe {
        let fd = libc::memfd_create(c"obj".as_ptr(), libc::MFD_CLOEXEC);
        assert!(fd >= 0 && libc::pwrite(fd, &n as *const u32 as _, 4, 0) == 4);
        fd as u64
    }
}
pub fn object_is(o: u64, n: u32, what: &str) {
    let mut v = 0u32;
    let r = unsafe { libc::pread(o as i32, &mut v as *mut u32 as _, 4, 0) };
    check!(r == 4 && v == n, "another object", "{what}: object {o} is {v} instead of {n} ({r} bytes read)");
}
pub fn region(n: u32) -> H {
    unsafe {
        let mut r = BAD;
        let c = ipmb_memory_region(64 + n as usize, &mut r);
        check!(c == 0 && r != BAD && !r.is_null(), "no region", "code {c}");
        let mut size = -7;
        let p = ipmb_memory_region_map(&mut r, 0, -1, &mut size);
        check!(!p.is_null() && size == 64 + n as isize, "wrong mapping", "{p:?} {size}");
        *(p as *mut u32) = n;
        r
    }
}
pub fn region_is(r: &mut H, n: u32, what: &str) {
    unsafe {
        let mut size = -7;
        let p = ipmb_memory_region_map(r, 0, -1, &mut size);
        check!(!p.is_null(), "wrong mapping", "{what}: null");
        check!(size == 64 + n as isize && *(p as *const u32) == n, "another region", "{what}: {} bytes, {} instead of {n}", size, *(p as *const u32));
    }
}
/// An index: in range, one past, far out.
fn index(len: usize) -> usize {
    let c = choose(len + 2);
    if c <= len { c } else { usize::MAX }
}
impl W {
    fn judge(&mut self) {
        let mut n = self.objs.len() + self.regs.len();
        for (k, m) in self.msgs.iter_mut().enumerate() {
            n += m.objs.len() + m.regs.len();
            check!(payload(&m.h) == (k as u16 + 7, vec![k as u8; 3 * k]), "wrong data", "{:?}", payload(&m.h));
            unsafe {
                for (i, &o) in m.objs.iter().enumerate() {
                    object_is(ipmb_message_object_get(&m.h, i), o, "object of a message");
                }
                check!(ipmb_message_object_get(&m.h, m.objs.len()) == 0, "an absent object is not zero", "");
                for (i, &r) in m.regs.iter().enumerate() {
                    let mut g = ipmb_message_memory_region_get(&mut m.h, i);
                    check!(!g.is_null(), "a region is missing", "");
                    region_is(&mut g, r, "region of a message");
                }
                check!(ipmb_message_memory_region_get(&mut m.h, m.regs.len()).is_null(), "an absent region is not null", "");
            }
        }
        for &(k, o) in &self.objs {
            object_is(o, k, "own object");
        }
        for (k, r) in &mut self.regs {
            region_is(r, *k, "own region");
        }
        let got = unsafe { eng::mc_fd_count(0) } - self.base;
        check!(got == n as i32, "descriptors are not released once each", "{got} open, {n} expected");
        check!(unsafe { eng::mc_bad_close() } == 0, "a descriptor is closed twice", "");
    }
}

fn calls(arg: u32) {
    explore_on(false);
    guard::on();
    let depth = arg & 15;
    let start = guard::live();
    let mut w = W { msgs: vec![], objs: vec![], regs: vec![], next: 1, base: unsafe { eng::mc_fd_count(0) } };
    for k in 0..2u16 {
        w.msgs.push(Msg { h: message("a", k == 1, 0, k + 7, &vec![k as u8; 3 * k as usize]), objs: vec![], regs: vec![] });
    }
    if arg & 16 != 0 {
        // a message that has something already, and some owned things
        unsafe {
            for _ in 0..2 {
                ipmb_message_object_append(&mut w.msgs[0].h, object(w.next));
                w.msgs[0].objs.push(w.next);
                w.next += 1;
                ipmb_message_memory_region_append(&mut w.msgs[0].h, region(w.next));
                w.msgs[0].regs.push(w.next);
                w.next += 1;
            }
        }
        w.objs.push((w.next, object(w.next)));
        w.next += 1;
        w.regs.push((w.next, region(w.next)));
        w.next += 1;
    }
    w.judge();
    for _ in 0..depth {
        let op = choose(10);
        unsafe {
            match op {
                0 => {
                    w.objs.push((w.next, object(w.next)));
                    w.next += 1;
                }
                1 => {
                    w.regs.push((w.next, region(w.next)));
                    w.next += 1;
                }
                2 if !w.objs.is_empty() => {
                    let (n, o) = w.objs.remove(0);
                    let k = choose(w.msgs.len());
                    note!("append object {n} to message {k}");
                    ipmb_message_object_append(&mut w.msgs[k].h, o);
                    w.msgs[k].objs.push(n);
                }
                3 if !w.regs.is_empty() => {
                    let (n, r) = w.regs.remove(0);
                    let k = choose(w.msgs.len());
                    note!("append region {n} to message {k}");
                    ipmb_message_memory_region_append(&mut w.msgs[k].h, r);
                    w.msgs[k].regs.push(n);
                }
                4 => {
                    let k = choose(w.msgs.len());
                    let i = index(w.msgs[k].objs.len());
                    note!("retrieve object {i} of message {k}");
                    let o = ipmb_message_object_retrieve(&mut w.msgs[k].h, i);
                    if i < w.msgs[k].objs.len() {
                        let n = w.msgs[k].objs.remove(i);
                        object_is(o, n, "retrieved object");
                        w.objs.push((n, o));
                    } else {
                        check!(o == 0, "an absent object is not zero", "{o}");
                    }
                }
                5 => {
                    let k = choose(w.msgs.len());
                    let i = index(w.msgs[k].regs.len());
                    note!("retrieve region {i} of message {k}");
                    let mut r = ipmb_message_memory_region_retrieve(&mut w.msgs[k].h, i);
                    if i < w.msgs[k].regs.len() {
                        let n = w.msgs[k].regs.remove(i);
                        check!(!r.is_null(), "a region is missing", "");
                        region_is(&mut r, n, "retrieved region");
                        w.regs.push((n, r));
                    } else {
                        check!(r.is_null(), "an absent region is not null", "");
                    }
                }
                6 if !w.objs.is_empty() => {
                    let k = choose(w.objs.len());
                    let (n, o) = w.objs.remove(k);
                    note!("drop object {n}");
                    ipmb_object_drop(o);
                }
                7 if !w.regs.is_empty() => {
                    let k = choose(w.regs.len());
                    let (n, r) = w.regs.remove(k);
                    note!("drop region {n}");
                    ipmb_memory_region_drop(r);
                }
                8 if !w.regs.is_empty() || w.msgs.iter().any(|m| !m.regs.is_empty()) => {
                    // clone an own region, or one got from a message
                    let k = choose(1 + w.msgs.len());
                    let (n, src) = if k == 0 {
                        if w.regs.is_empty() {
                            return;
                        }
                        w.regs[0]
                    } else {
                        let m = &mut w.msgs[k - 1];
                        if m.regs.is_empty() {
                            return;
                        }
                        (m.regs[0], ipmb_message_memory_region_get(&mut m.h, 0))
                    };
                    note!("clone region {n}");
                    let before = ipmb_memory_region_ref_count(&src);
                    let mut c = BAD;
                    let code = ipmb_memory_region_clone(&src, &mut c);
                    check!(code == 0 && c != BAD && !c.is_null(), "clone failed", "code {code}");
                    check!(ipmb_memory_region_ref_count(&src) == before + 1 && ipmb_memory_region_ref_count(&c) == before + 1, "wrong reference count", "{before}, then {}", ipmb_memory_region_ref_count(&src));
                    w.regs.push((n, c));
                }
                9 => {
                    let k = choose(w.msgs.len());
                    note!("drop message {k}");
                    ipmb_message_drop(w.msgs[k].h);
                    w.msgs[k] = Msg { h: message("a", k == 1, 0, k as u16 + 7, &vec![k as u8; 3 * k]), objs: vec![], regs: vec![] };
                }
                _ => return,
            }
        }
        w.judge();
    }
    let n = w.objs.len() * 7 + w.regs.len();
    let W { msgs, objs, regs, base, .. } = w;
    for (_, o) in objs {
        unsafe { ipmb_object_drop(o) }
    }
    for m in msgs {
        unsafe { ipmb_message_drop(m.h) }
    }
    for (_, r) in regs {
        unsafe { ipmb_memory_region_drop(r) }
    }
    unsafe {
        check!(eng::mc_fd_count(0) == base, "a descriptor is left", "{} descriptors", eng::mc_fd_count(0) - base);
        check!(eng::mc_bad_close() == 0, "a descriptor is closed twice", "");
        check!(eng::mc_maps() == 0 && eng::mc_bad_unmap() == 0, "a mapping is left", "{}", eng::mc_maps());
    }
    check!(guard::live() == start, "memory is left", "{} blocks instead of {start}", guard::live());
    obs(n as u64);
}

/// The same over the bus: what is sent is released here and arrives there.
fn sent(arg: u32) {
    explore_on(false);
    guard::on();
    let id = ident("csent");
    let (mut t1, mut r1) = join(1, &id, "a all");
    let (mut t2, mut r2) = join(2, &id, "b all");
    quiesce();
    let base = unsafe { [eng::mc_fd_count(1), eng::mc_fd_count(2)] };
    let rounds = arg;
    for _ in 0..rounds {
        let (no, nr) = [(0, 0), (1, 0), (0, 1), (2, 1), (1, 3)][choose(5)];
        let route = choose(5);
        let (from, to, multicast): (i32, &[i32], bool) = [(1, &[2][..], false), (2, &[1][..], false), (1, &[1][..], false), (1, &[1, 2][..], true), (1, &[][..], false)][route];
        let how = choose(3); // what the receivers do: drop the message, retrieve all, retrieve the last
        let m = at(from, || unsafe {
            let name = match (multicast, to.first()) {
                (true, _) => "all",
                (_, None) => "nobody",
                (_, Some(1)) => "a",
                _ => "b",
            };
            let mut m = message(name, multicast, 0, 9, b"xyz");
            for i in 0..no {
                ipmb_message_object_append(&mut m, object(100 + i));
            }
            for i in 0..nr {
                ipmb_message_memory_region_append(&mut m, region(i));
            }
            m
        });
        note!("{no} objects, {nr} regions from {from} to {to:?}, {how}");
        send(from, if from == 1 { &mut t1 } else { &mut t2 }, m);
        quiesce();
        for &p in to {
            at(p, || unsafe {
                let mut m = BAD;
                let c = ipmb_recv(if p == 1 { &mut r1 } else { &mut r2 }, &mut m, 0);
                check!(c == 0, "message lost", "code {c}");
                check!(payload(&m) == (9, b"xyz".to_vec()), "wrong data", "{:?}", payload(&m));
                for i in 0..no {
                    object_is(ipmb_message_object_get(&m, i as usize), 100 + i, "received object");
                }
                check!(ipmb_message_object_get(&m, no as usize) == 0, "an absent object is not zero", "");
                for i in 0..nr {
                    let mut g = ipmb_message_memory_region_get(&mut m, i as usize);
                    region_is(&mut g, i, "received region");
                    let (n, live) = (ipmb_memory_region_ref_count(&g), to.len() as u32);
                    check!(n >= 1 && n <= live, "wrong reference count", "{n}, {live} receivers");
                }
                check!(ipmb_message_memory_region_get(&mut m, nr as usize).is_null(), "an absent region is not null", "");
                let mut own = vec![];
                let mut regs = vec![];
                if how == 1 {
                    for _ in 0..no {
                        own.push(ipmb_message_object_retrieve(&mut m, 0));
                    }
                    for _ in 0..nr {
                        regs.push(ipmb_message_memory_region_retrieve(&mut m, 0));
                    }
                } else if how == 2 {
                    if no > 0 {
                        own.push(ipmb_message_object_retrieve(&mut m, no as usize - 1));
                    }
                    if nr > 0 {
                        regs.push(ipmb_message_memory_region_retrieve(&mut m, nr as usize - 1));
                    }
                }
                ipmb_message_drop(m);
                for (i, o) in own.iter().enumerate() {
                    object_is(*o, if how == 1 { 100 + i as u32 } else { 99 + no }, "retrieved object");
                    ipmb_object_drop(*o);
                }
                for (i, r) in regs.iter_mut().enumerate() {
                    region_is(r, if how == 1 { i as u32 } else { nr - 1 }, "retrieved region");
                    ipmb_memory_region_drop(*r);
                }
            });
        }
        check!(drain(1, &mut r1).is_empty() && drain(2, &mut r2).is_empty(), "more messages than sent", "");
        let got = unsafe { [eng::mc_fd_count(1), eng::mc_fd_count(2)] };
        check!(got == base, "descriptors are not released once each", "{got:?} instead of {base:?}");
        check!(unsafe { eng::mc_bad_close() } == 0, "a descriptor is closed twice", "");
        check!(unsafe { eng::mc_maps() } == 0, "a mapping is left", "");
        obs((route * 15 + how * 5 + no as usize) as u64);
    }
    // the handles
    let order = choose(4);
    for k in [[0, 1, 2, 3], [3, 2, 1, 0], [1, 0, 3, 2], [2, 0, 3, 1]][order] {
        match k {
            0 => at(1, || unsafe { ipmb_sender_drop(t1) }),
            1 => at(1, || unsafe { ipmb_receiver_drop(r1) }),
            2 => at(2, || unsafe { ipmb_sender_drop(t2) }),
            _ => at(2, || unsafe { ipmb_receiver_drop(r2) }),
        }
        quiesce();
    }
    check!(unsafe { eng::mc_fd_count(2) } == 0, "a descriptor is left", "{} in process 2", unsafe { eng::mc_fd_count(2) });
    check!(unsafe { eng::mc_bad_close() } == 0, "a descriptor is closed twice", "");
}

/// Failures: nothing is written, nothing is lost.
fn faults(_: u32) {
    explore_on(false);
    guard::on();
    let start = guard::live();
    unsafe {
        let mut r = region(1);
        explore_on(true);
        eng::mc_faults(eng::F_EMFILE | eng::F_NOMEM, 1, 0, 2);
        let mut out = BAD;
        let c = ipmb_memory_region(100, &mut out);
        check!(c == 0 || c == -1, "wrong error code", "{c}");
        check!((c == 0) == (out != BAD), "the out-parameter disagrees with the result", "code {c}");
        let mut cl = BAD;
        let c2 = ipmb_memory_region_clone(&r, &mut cl);
        check!(c2 == 0 || c2 == -1, "wrong error code", "{c2}");
        check!((c2 == 0) == (cl != BAD), "the out-parameter disagrees with the result", "code {c2}");
        let mut reg = ipmb_memory_registry();
        let mut al = BAD;
        let c3 = ipmb_memory_registry_alloc(&mut reg, 100, std::ptr::null(), &mut al);
        check!(c3 == 0 || c3 == -1, "wrong error code", "{c3}");
        check!((c3 == 0) == (al != BAD), "the out-parameter disagrees with the result", "code {c3}");
        explore_on(false);
        eng::mc_faults(0, 0, 0, 0);
        region_is(&mut r, 1, "region after failures");
        check!(ipmb_memory_region_ref_count(&r) == 1 + (c2 == 0) as u32, "wrong reference count", "");
        for (c, h) in [(c, out), (c2, cl), (c3, al)] {
            if c == 0 {
                ipmb_memory_region_drop(h);
            }
        }
        ipmb_memory_registry_drop(reg);
        ipmb_memory_region_drop(r);
        check!(eng::mc_fd_count(0) == 0 && eng::mc_maps() == 0, "something is left", "{} descriptors, {} mappings", eng::mc_fd_count(0), eng::mc_maps());
        check!(guard::live() == start, "memory is left", "{} blocks instead of {start}", guard::live());
        obs((c + 2 * c2 + 4 * c3 + 8) as u64);
    }
}

pub fn scns(t: Tier) -> Vec<Scn> {
    vec![
        scn("C20/attachments", calls, t.pick(4, 5), "all sequences of calls on two messages, objects and regions", data_cfg()),
        scn("C20/attachments-filled", calls, 16 + t.pick(3, 4), "the same from messages with attachments", data_cfg()),
        scn("C20/sent", sent, t.pick(1, 2), "attachments over the bus: all routes and what the receivers do", data_cfg()),
        scn("C20/faults", faults, 0, "regions and registries when the system refuses", faulty(0, 2)),
    ]
}
pub fn data_cfg() -> Cfg {
    mc::data()
}
