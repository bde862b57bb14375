//! C04: payload, kernel objects and memory regions arrive as sent.
use ipmb::{MemoryRegion, Message, Object};
use mc::{bus::*, check, explore::*, fail, note, rt::*, *};
use std::time::Duration;

fn ino(fd: i32) -> (u64, u64) {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) != 0 {
            fail!("attachment not open", "fstat({fd}) fails");
        }
        (st.st_dev, st.st_ino)
    }
}
/// A fresh kernel object of one of several kinds.
fn object(kind: usize) -> Object {
    unsafe {
        let fd = match kind % 3 {
            0 => libc::memfd_create(c"obj".as_ptr(), libc::MFD_CLOEXEC),
            1 => {
                let mut p = [0; 2];
                libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr());
                libc::close(p[1]);
                p[0]
            }
            _ => {
                let mut p = [0; 2];
                libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
                libc::close(p[1]);
                p[0]
            }
        };
        assert!(fd >= 0);
        Object::from_raw(fd)
    }
}
const NAMES: [&str; 4] = ["", "ctl", "two", "three"];
/// from, to
const ROUTES: [(usize, usize); 6] = [(2, 3), (1, 3), (2, 1), (1, 1), (2, 2), (3, 2)];

fn cmp(what: &str, m: &M, n: u32, len: usize) {
    check!(m.n == n, "wrong message", "{what}: message {} instead of {n}", m.n);
    check!(m.pad.len() == len, "payload of another length", "{what}: {} bytes instead of {len}", m.pad.len());
    let want = pad(n, len);
    if let Some(i) = (0..len).find(|&i| m.pad[i] != want[i]) {
        fail!("payload bytes differ", "{what}: byte {i} of {len} differs");
    }
}

fn setup(id: &str) -> Vec<Option<(Tx, Rx)>> {
    let mut v = vec![None];
    for p in 1..=3 {
        v.push(Some(join(p, id, &format!("{} all", NAMES[p as usize]))));
    }
    quiesce();
    v
}

fn one(eps: &mut [Option<(Tx, Rx)>], route: usize, multicast: bool, n: u32, len: usize, nobj: usize, nreg: usize) {
    let (from, to) = ROUTES[route];
    let what = format!("{} bytes, {nobj} objects, {nreg} regions from {} to {}", len, NAMES[from], NAMES[to]);
    note!("{what}");
    let mut objs = vec![];
    let mut regs = vec![];
    let mut keep: Vec<MemoryRegion> = vec![];
    at(from as i32, || {
        let sel = if multicast { multi("all") } else { uni(NAMES[to]) };
        let mut msg = Message::new(sel, mp(n, len));
        for k in 0..nobj {
            let o = object(k);
            objs.push(ino(o.as_raw()));
            msg.objects.push(o);
        }
        for k in 0..nreg {
            let size = [0, 1, 5000, 64][k % 4] + k;
            let mut r = MemoryRegion::new(size).expect("region");
            if size > 0 {
                r.map(..).unwrap().copy_from_slice(&pad(n + k as u32, size));
            }
            regs.push((ino(r.object().as_raw()), size));
            keep.push(r.clone().unwrap());
            msg.memory_regions.push(r);
        }
        if let Err(e) = eps[from].as_ref().unwrap().0.send(msg) {
            fail!("send failed", "{what}: {e:?}");
        }
    });
    quiesce();
    for p in 1..=3usize {
        if !multicast && p != to {
            continue;
        }
        let rx = &mut eps[p].as_mut().unwrap().1;
        at(p as i32, || {
            let mut msg = match rx.recv(Some(Duration::ZERO)) {
                Ok(m) => m,
                Err(e) => fail!("message did not arrive", "{what}: {e:?} at {}", NAMES[p]),
            };
            cmp(&what, &msg.payload, n, len);
            check!(msg.objects.len() == nobj && msg.memory_regions.len() == nreg, "attachment count", "{what}: {} objects, {} regions arrived", msg.objects.len(), msg.memory_regions.len());
            for (k, o) in msg.objects.iter().enumerate() {
                check!(ino(o.as_raw()) == objs[k], "object is another one", "{what}: object {k} is not the one sent");
            }
            for (k, r) in msg.memory_regions.iter_mut().enumerate() {
                let (i, size) = regs[k];
                check!(ino(r.object().as_raw()) == i, "region is another one", "{what}: region {k} is not the one sent");
                check!(r.buffer_size() == size as u64, "region of another size", "{what}: region {k} has {} bytes instead of {size}", r.buffer_size());
                if size > 0 {
                    let b = r.map(..).unwrap();
                    check!(b == &pad(n + k as u32, size)[..], "region bytes differ", "{what}: region {k}");
                    b[size - 1] ^= 0x5a;
                }
            }
            check!(rx.recv(Some(Duration::ZERO)).is_err(), "duplicate", "{what}: a second message");
        });
        for (k, r) in keep.iter_mut().enumerate() {
            let size = regs[k].1;
            if size > 0 {
                let w = pad(n + k as u32, size)[size - 1];
                let b = r.map(..).unwrap();
                check!(b[size - 1] == w ^ 0x5a, "region is not shared", "{what}: a write to region {k} by the receiver is not seen by the sender");
                b[size - 1] = w;
            }
        }
    }
    obs(len as u64 * 1000 + nobj as u64 * 10 + nreg as u64);
    obs(route as u64);
}

fn lengths(arg: u32) {
    explore_on(false);
    let mut v: Vec<usize> = (0..=40).collect();
    for b in [250usize, 4096, 32768, 65536, 100000] {
        v.extend(b - 4..=b + 4);
    }
    // the largest message that fits, determined below, is around here
    v.extend(131040 - 140..131040 - 60);
    if arg != 0 {
        v = (0..=600).collect();
        v.extend((600..131040 - 140).step_by(997));
    }
    let len = v[choose(v.len())];
    let route = choose(4);
    let mut e = setup(&ident("len"));
    // a payload that does not fit in one transport message is outside this property
    let a4 = |n: usize| n.div_ceil(4) * 4;
    if 12 + a4(ipmb::encode(uni(NAMES[ROUTES[route].1])).unwrap().len()) + a4(ipmb::encode(mp(1, len)).unwrap().len()) > 131040 {
        return;
    }
    one(&mut e, route, false, 1, len, 0, 0);
    // what follows is not affected
    one(&mut e, route, false, 2, 3, 1, 1);
}

fn attach(arg: u32) {
    explore_on(false);
    let max = if arg != 0 { 12 } else { 6 };
    let mut combos = vec![];
    for o in 0..=max {
        for r in 0..=max {
            combos.push((o, r));
        }
    }
    for (o, r) in [(253, 0), (0, 253), (100, 153), (252, 1), (1, 252), (31, 0), (32, 0), (33, 1), (63, 1), (127, 126)] {
        combos.push((o, r));
    }
    let (o, r) = combos[choose(combos.len())];
    let route = choose(ROUTES.len());
    let len = [0, 3, 1000][choose(3)];
    let mut e = setup(&ident("att"));
    one(&mut e, route, false, 1, len, o, r);
    one(&mut e, route, false, 2, 5, 1, 2);
}

fn multicast(_: u32) {
    explore_on(false);
    let o = choose(6);
    let r = choose(6);
    let len = [0, 3, 5000][choose(3)];
    let route = choose(2);
    let mut e = setup(&ident("mul"));
    one(&mut e, route, true, 1, len, o, r);
    one(&mut e, route, true, 2, 4, r, o);
}

/// Several messages with different attachments wait at the same receiver.
fn queue(_: u32) {
    explore_on(false);
    let mut e = setup(&ident("que"));
    let mut want = vec![];
    let route = choose(4);
    let (from, to) = ROUTES[route];
    for n in 0..3u32 {
        let (o, r) = (choose(3), choose(3));
        let len = n as usize * 5 + o;
        at(from as i32, || {
            let mut msg = Message::new(uni(NAMES[to]), mp(n, len));
            let mut ids = vec![];
            for k in 0..o {
                let ob = object(k);
                ids.push(ino(ob.as_raw()));
                msg.objects.push(ob);
            }
            for k in 0..r {
                let rg = MemoryRegion::new(k + 1).unwrap();
                ids.push(ino(rg.object().as_raw()));
                msg.memory_regions.push(rg);
            }
            want.push((n, len, o, r, ids));
            e[from].as_ref().unwrap().0.send(msg).unwrap_or_else(|e| fail!("send failed", "{e:?}"));
        });
    }
    quiesce();
    let rx = &mut e[to].as_mut().unwrap().1;
    for (n, len, o, r, ids) in want {
        at(to as i32, || {
            let msg = rx.recv(Some(Duration::ZERO)).unwrap_or_else(|e| fail!("message did not arrive", "{n}: {e:?}"));
            cmp("queued", &msg.payload, n, len);
            check!(msg.objects.len() == o && msg.memory_regions.len() == r, "attachment count", "message {n}");
            let got: Vec<_> = msg.objects.iter().map(|x| ino(x.as_raw())).chain(msg.memory_regions.iter().map(|x| ino(x.object().as_raw()))).collect();
            check!(got == ids, "attachment is another one", "message {n}: {got:?} instead of {ids:?}");
            obs(o as u64 * 7 + r as u64);
        });
    }
}

pub fn c04(t: Tier) -> Vec<Scn> {
    let d = t.deep() as u32;
    vec![
        scn("C04/lengths", lengths, 0, "every payload length around alignment and buffer boundaries, four routes", data()),
        scn("C04/attachments", attach, d, "every combination of attachment counts, six routes, three lengths", data()),
        scn("C04/multicast", multicast, 0, "multicasts with attachments to three endpoints", data()),
        scn("C04/queue", queue, 0, "three messages with different attachments waiting at one receiver", data()),
        scn("C04/more-lengths", lengths, if t.deep() { 1 } else { 0 }, "more payload lengths", data()),
    ]
    .into_iter()
    .filter(|s| t.deep() || s.name != "C04/more-lengths")
    .collect()
}
