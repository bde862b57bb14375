//! C13: memory regions; C14: their reference counts; C15: the memory registry.
use ipmb::{MemoryRegion, MemoryRegistry, Message, RecvError};
use mc::{bus::*, check, eng, explore::*, fail, guard, note, rt::*, *};
use std::{
    ops::{Bound, RangeBounds},
    time::Duration,
};

pub fn ino(r: &MemoryRegion) -> u64 {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(r.object().as_raw(), &mut st) != 0 {
            fail!("region not open", "fstat fails");
        }
        st.st_ino
    }
}
fn clone(r: &MemoryRegion) -> MemoryRegion {
    r.clone().unwrap_or_else(|e| fail!("clone of a region failed", "{e}"))
}

// ---- C13

const SIZES: [usize; 16] = [0, 1, 2, 11, 12, 100, 4083, 4084, 4085, 4096, 4097, 8179, 8180, 8181, 12288, 70_000];
fn values(size: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 4083, 4084, 4085, 8180, size / 2, size.wrapping_sub(1), size, size + 1, usize::MAX, usize::MAX - 1, usize::MAX - 11, usize::MAX - 12, 1 << 63, 1 << 47];
    v.sort();
    v.dedup();
    v
}
fn bounds(size: usize) -> Vec<Bound<usize>> {
    let mut b = vec![Bound::Unbounded];
    for v in values(size) {
        b.push(Bound::Included(v));
        b.push(Bound::Excluded(v));
    }
    b
}
/// The part of [0, size) that the range stands for, if it is in range.
fn meaning(a: Bound<usize>, b: Bound<usize>, size: usize) -> Option<(usize, usize)> {
    let lo: i128 = match a {
        Bound::Unbounded => 0,
        Bound::Included(x) => x as i128,
        Bound::Excluded(x) => x as i128 + 1,
    };
    let hi: i128 = match b {
        Bound::Unbounded => size as i128,
        Bound::Included(x) => x as i128 + 1,
        Bound::Excluded(x) => x as i128,
    };
    if 0 <= lo && lo <= hi && hi <= size as i128 { Some((lo as usize, hi as usize)) } else { None }
}
struct R(Bound<usize>, Bound<usize>);
impl RangeBounds<usize> for R {
    fn start_bound(&self) -> Bound<&usize> {
        self.0.as_ref()
    }
    fn end_bound(&self) -> Bound<&usize> {
        self.1.as_ref()
    }
}
fn header_ok(r: &MemoryRegion, size: usize, count: u32) {
    check!(r.buffer_size() == size as u64, "wrong size of a region", "{} instead of {size}", r.buffer_size());
    check!(r.ref_count() == count, "wrong reference count", "{} instead of {count}", r.ref_count());
}

/// Every range of every size.
fn ranges(_: u32) {
    explore_on(false);
    guard::on();
    let size = SIZES[choose(SIZES.len())];
    let bs = bounds(size);
    let a = bs[choose(bs.len())];
    let mut r = MemoryRegion::new(size).unwrap_or_else(|| fail!("no region", "size {size}"));
    header_ok(&r, size, 1);
    {
        let b = r.map(..).unwrap_or_else(|e| fail!("an in-range mapping was refused", "all of {size}: {e:?}"));
        check!(b.len() == size, "a mapping of another size", "{} instead of {size}", b.len());
        check!(b.iter().all(|&x| x == 0), "a new region is not zero", "size {size}");
        b.copy_from_slice(&pad(3, size));
    }
    let mut other = clone(&r);
    header_ok(&r, size, 2);
    let mut want = pad(3, size);
    for (k, &b) in bs.iter().enumerate() {
        note!("size {size} range {a:?} {b:?}");
        // through a handle that has mapped before, and through a fresh one
        let mut fresh = clone(&r);
        let m = meaning(a, b, size);
        for (h, one) in [&mut r, &mut fresh].into_iter().enumerate() {
            match (one.map(R(a, b)), m) {
                (Ok(s), Some((lo, hi))) => {
                    check!(s.len() == hi - lo, "a mapping of another size", "size {size}, {a:?} {b:?}: {} bytes", s.len());
                    check!(s[..] == want[lo..hi], "a mapping of other bytes", "size {size}, {a:?} {b:?}");
                    // what is written here is read elsewhere, and nothing else changes
                    for i in 0..s.len() {
                        s[i] = s[i].wrapping_add(1 + k as u8);
                        want[lo + i] = s[i];
                    }
                }
                (Err(_), None) => {}
                (Ok(s), None) => fail!("a range outside the region was mapped", "size {size}, {a:?} {b:?}: {} bytes", s.len()),
                (Err(e), Some(_)) => fail!("an in-range mapping was refused", "size {size}, {a:?} {b:?} (handle {h}): {e:?}"),
            }
        }
        drop(fresh);
        let s = other.map(..).unwrap_or_else(|e| fail!("an in-range mapping was refused", "all of {size}: {e:?}"));
        check!(*s == want[..], "writes are not seen through other handles, or spill over", "size {size}, {a:?} {b:?}");
        if k % 7 == 0 {
            header_ok(&other, size, 2);
        }
        obs(m.map_or(0, |(lo, hi)| (lo * 131 + hi + 1) as u64));
    }
    drop((r, other));
    leftovers();
}
fn leftovers() {
    unsafe {
        check!(eng::mc_maps() == 0, "a mapping is left", "{} mappings", eng::mc_maps());
        check!(eng::mc_bad_unmap() == 0, "wrong unmapping", "");
        check!(eng::mc_bad_close() == 0, "wrong close", "");
        check!(eng::mc_fd_count(0) == 0, "a descriptor is left", "{}", eng::mc_fd_count(0));
    }
}

/// Regions of every size, too large ones included.
fn sizes(_: u32) {
    explore_on(false);
    guard::on();
    let mut v: Vec<usize> = vec![];
    for b in [0usize, 12, 4084, 4096, 1 << 20, 1 << 31, 1 << 32, 1 << 40, 1 << 46, 1 << 47, 1 << 62, 1 << 63] {
        for d in [-13i64, -12, -11, -1, 0, 1] {
            v.push(b.wrapping_add(d as usize));
        }
    }
    let size = v[choose(v.len())];
    note!("size {size:#x}");
    match MemoryRegion::new(size) {
        None => check!(size > 1 << 40, "no region", "size {size}"),
        Some(mut r) => {
            header_ok(&r, size, 1);
            check!(size <= isize::MAX as usize, "a region of impossible size", "{size}");
            for (lo, hi) in [(0, 1.min(size)), (size - 1.min(size), size), (0, size.min(1 << 20)), (size / 2, size / 2 + (size - size / 2).min(5000))] {
                let s = match r.map(lo..hi) {
                    Ok(s) => s,
                    // nothing can be that long
                    Err(_) if size > 1 << 46 => continue,
                    Err(e) => fail!("an in-range mapping was refused", "{lo}..{hi} of {size}: {e:?}"),
                };
                check!(s.len() == hi - lo && s.iter().all(|&b| b == 0), "a new region is not zero", "{lo}..{hi} of {size}");
            }
            check!(r.map(size..=size).is_err(), "a range outside the region was mapped", "");
            let mut c = clone(&r);
            if let Ok(s) = c.map(..) {
                check!(s.len() == size, "a mapping of another size", "");
            } else {
                check!(size > 1 << 40, "an in-range mapping was refused", "all of {size}");
            }
            obs(size as u64);
        }
    }
    leftovers();
}

/// Sequences of mappings on several handles of two regions, in several processes.
fn handles(depth: u32) {
    explore_on(false);
    let id = ident("handles");
    let (t1, mut r1) = join(1, &id, "one all");
    let (_t2, mut r2) = join(2, &id, "two all");
    quiesce();
    const N: usize = 4085;
    let mut want = vec![vec![0u8; N], vec![0u8; 9000]];
    let mut hs: Vec<(usize, i32, MemoryRegion)> = at(1, || vec![(0, 1, MemoryRegion::new(N).unwrap()), (1, 1, MemoryRegion::new(9000).unwrap())]);
    for step in 0..depth {
        let h = choose(hs.len());
        let g = hs[h].0;
        let n = want[g].len();
        let parts = [0..n, 0..1, 1..3, n - 1..n, 4083..n, n / 2..n / 2];
        match choose(3 + parts.len()) {
            0 => {
                let c = at(hs[h].1, || clone(&hs[h].2));
                hs.push((g, hs[h].1, c));
            }
            1 if hs.len() > 1 => {
                let (_, p, r) = hs.remove(h);
                at(p, || drop(r));
            }
            2 => {
                // to every other process
                at(hs[h].1, || {
                    let mut msg = Message::new(multi("all"), m(step));
                    msg.memory_regions.push(clone(&hs[h].2));
                    t1.send(msg).unwrap_or_else(|e| fail!("send failed", "{e:?}"));
                });
                quiesce();
                for (p, rx) in [(1, &mut r1), (2, &mut r2)] {
                    at(p, || {
                        let mut msg = rx.recv(Some(Duration::ZERO)).unwrap_or_else(|e| fail!("recv failed", "{e:?}"));
                        check!(msg.memory_regions.len() == 1, "region lost", "");
                        let r = msg.memory_regions.pop().unwrap();
                        hs.push((g, p, r));
                    });
                }
            }
            k if k >= 3 => {
                let q = parts[k - 3].clone();
                let (_, p, r) = &mut hs[h];
                at(*p, || {
                    let s = r.map(q.clone()).unwrap_or_else(|e| fail!("an in-range mapping was refused", "{q:?}: {e:?}"));
                    check!(s[..] == want[g][q.clone()], "a mapping of other bytes", "{q:?} of region {g}");
                    for (i, x) in s.iter_mut().enumerate() {
                        *x = (step as usize * 17 + i * 3 + h + 1) as u8;
                        want[g][q.start + i] = *x;
                    }
                });
            }
            _ => {}
        }
    }
    for (g, p, r) in hs.iter_mut() {
        at(*p, || {
            check!(r.buffer_size() == want[*g].len() as u64, "wrong size of a region", "");
            let s = r.map(..).unwrap_or_else(|e| fail!("an in-range mapping was refused", "{e:?}"));
            check!(s[..] == want[*g], "writes are not seen through other handles", "region {g} in process {p}");
        });
    }
    obs(hs.len() as u64);
}

/// No memory, no descriptors: refused, never a crash, nothing left.
fn scarce(_: u32) {
    explore_on(true);
    unsafe { eng::mc_faults(eng::F_NOMEM | eng::F_EMFILE, 1, 0, 2) };
    let r = MemoryRegion::new(5000);
    if let Some(mut r) = r {
        header_ok(&r, 5000, 1);
        let c = r.clone().ok();
        if let Ok(s) = r.map(..) {
            check!(s.len() == 5000 && s.iter().all(|&b| b == 0), "a new region is not zero", "");
            s[4999] = 5;
        }
        if let Ok(s) = r.map(4999..) {
            obs(s[0] as u64);
        }
        header_ok(&r, 5000, 1 + c.is_some() as u32);
    }
    explore_on(false);
    leftovers();
}

pub fn c13(t: Tier) -> Vec<Scn> {
    vec![
        scn("C13/ranges", ranges, 0, "every pair of bounds of the boundary set, for every size", data()),
        scn("C13/sizes", sizes, 0, "regions of every boundary size", data()),
        scn("C13/handles", handles, t.pick(4, 5), "all sequences of mappings, clones, drops and sends of two regions", data()),
        scn("C13/scarce", scarce, 0, "every mapping or descriptor that may fail, fails", faulty(0, 2)),
    ]
}

// ---- C14

/// Reads the count of a region without being a handle of it.
struct Probe(*const u32);
impl Probe {
    fn new(r: &MemoryRegion) -> Probe {
        let p = unsafe { libc::syscall(libc::SYS_mmap, 0usize, 4096usize, libc::PROT_READ, libc::MAP_SHARED, r.object().as_raw() as i64, 0usize) };
        if p < 0 && p > -4096 {
            fail!("harness", "probe");
        }
        Probe(p as _)
    }
    fn count(&self) -> u32 {
        unsafe { std::ptr::read_volatile(self.0) }
    }
}

struct World {
    id: String,
    tx: Vec<Option<Tx>>,
    rx: Vec<Option<Rx>>,
    tx3: Option<ipmb::EndpointSender<ipmb::BytesMessage>>,
    probes: Vec<Probe>,
    handles: Vec<(i32, usize, MemoryRegion)>,
    // what waits for endpoint 1, 2, 3, 4: the regions of each message, and whether it is of the type received
    queue: Vec<Vec<(Vec<usize>, bool)>>,
    joined: [bool; 5],
    waiting: Vec<(Duration, Vec<usize>)>,
}
impl World {
    fn new() -> World {
        let id = ident("count");
        let mut w = World { id: id.clone(), tx: vec![None], rx: vec![None], tx3: None, probes: vec![], handles: vec![], queue: vec![vec![]; 5], joined: [false, true, true, true, false], waiting: vec![] };
        for (p, l) in [(1, "one all"), (2, "two all")] {
            let (t, r) = join(p, &id, l);
            w.tx.push(Some(t));
            w.rx.push(Some(r));
        }
        let (t, r) = at(3, || ipmb::join::<ipmb::BytesMessage, M>(opt(&id, "three all"), None)).unwrap_or_else(|e| fail!("join failed", "{e:?}"));
        w.tx3 = Some(t);
        w.tx.push(None);
        w.rx.push(Some(r));
        w.tx.push(None);
        w.rx.push(None);
        for p in [1, 2] {
            let r = at(p, || MemoryRegion::new(100)).unwrap_or_else(|| fail!("no region", ""));
            w.probes.push(Probe::new(&r));
            w.handles.push((p, w.probes.len() - 1, r));
        }
        quiesce();
        w
    }
    fn check(&self, what: &str) {
        for (g, p) in self.probes.iter().enumerate() {
            let mut n = self.handles.iter().filter(|h| h.1 == g).count();
            n += self.queue.iter().flatten().flat_map(|m| &m.0).filter(|&&x| x == g).count();
            n += self.waiting.iter().flat_map(|m| &m.1).filter(|&&x| x == g).count();
            check!(p.count() == n as u32, "wrong reference count", "region {g} after {what}: {} instead of {n}", p.count());
        }
    }
    /// A handle: handles of the same region in the same process are alike.
    fn pick(&self) -> usize {
        let mut d: Vec<usize> = vec![];
        for (i, h) in self.handles.iter().enumerate() {
            if !d.iter().any(|&j| (self.handles[j].0, self.handles[j].1) == (h.0, h.1)) {
                d.push(i);
            }
        }
        if d.is_empty() { 0 } else { d[choose(d.len())] }
    }
    fn recv(&mut self, e: usize) -> Option<Vec<MemoryRegion>> {
        let rx = self.rx[e].as_mut().unwrap();
        at(e as i32, || match rx.recv(Some(Duration::ZERO)) {
            Ok(m) => Some(m.memory_regions),
            Err(RecvError::Timeout) => None,
            Err(e) => fail!("recv failed", "{e:?}"),
        })
    }
}

/// All sequences of operations on region handles and messages that carry them.
fn counts(depth: u32) {
    explore_on(false);
    let mut w = World::new();
    w.check("creation");
    for step in 0..depth {
        let what;
        match choose(15) {
            0 => {
                let h = w.pick();
                let Some((p, g, r)) = w.handles.get(h) else { return };
                let (p, g) = (*p, *g);
                let c = at(p, || clone(r));
                w.handles.push((p, g, c));
                what = "clone";
            }
            1 => {
                let h = w.pick();
                if w.handles.is_empty() {
                    return;
                }
                let (p, _, r) = w.handles.remove(h);
                at(p, || drop(r));
                what = "drop";
            }
            // messages of endpoint 1 or 2
            k @ 2..=6 => {
                let h = w.pick();
                let Some((p, g, r)) = w.handles.get(h) else { return };
                let (p, g) = (*p, *g);
                let Some(tx) = w.tx.get(p as usize).and_then(|t| t.as_ref()) else { return };
                let (sel, twice, len, name) = match k {
                    2 => (uni("two"), false, 0, "unicast"),
                    3 => (multi("all"), true, 0, "multicast"),
                    4 => (uni("nobody"), false, 0, "unroutable"),
                    5 => (ttl(uni("four"), Duration::from_secs(10)), false, 0, "waiting"),
                    _ => (multi("all"), false, 300_000, "too large"),
                };
                what = name;
                // the host takes what the kernel would not transport
                if k == 6 && p == 1 {
                    return;
                }
                let res = at(p, || {
                    let mut msg = Message::new(sel, mp(step, len));
                    for _ in 0..1 + twice as usize {
                        msg.memory_regions.push(clone(r));
                    }
                    tx.send(msg)
                });
                check!(res.is_ok() == (k != 6), "wrong result of send", "{name}: {res:?}");
                let regs = vec![g; 1 + twice as usize];
                quiesce();
                let open = |w: &World, e: usize| w.joined[e] && w.rx[e].is_some();
                match k {
                    2 if open(&w, 2) => w.queue[2].push((regs, true)),
                    3 => {
                        for e in 1..=4 {
                            if open(&w, e) {
                                w.queue[e].push((regs.clone(), true));
                            }
                        }
                    }
                    5 if open(&w, 4) => w.queue[4].push((regs, true)),
                    5 => w.waiting.push((now() + Duration::from_secs(10), regs)),
                    _ => {}
                }
            }
            // endpoint 3 sends what nobody understands
            7 => {
                let h = w.pick();
                let Some((p, g, r)) = w.handles.get(h) else { return };
                let (_, g) = (*p, *g);
                let Some(tx) = w.tx3.as_ref() else { return };
                at(3, || {
                    let mut msg = Message::new(multi("all"), ipmb::BytesMessage { format: 1, data: vec![1; 9] });
                    msg.memory_regions.push(clone(r));
                    tx.send(msg).unwrap_or_else(|e| fail!("send failed", "{e:?}"));
                });
                quiesce();
                for e in 1..=4 {
                    if w.joined[e] && w.rx[e].is_some() {
                        w.queue[e].push((vec![g], false));
                    }
                }
                what = "message of another type";
            }
            // receive, and keep or drop what comes
            k @ 8..=9 => {
                let e = 1 + choose(4);
                if w.rx[e].is_none() {
                    return;
                }
                let got = w.recv(e);
                // what is not of its type is skipped
                while w.queue[e].first().is_some_and(|m| !m.1) {
                    w.queue[e].remove(0);
                }
                let want = if w.queue[e].is_empty() { None } else { Some(w.queue[e].remove(0).0) };
                check!(got.as_ref().map(|g| g.len()) == want.as_ref().map(|g| g.len()), "wrong number of regions", "{:?} instead of {want:?}", got.map(|g| g.len()));
                if let Some(regs) = got {
                    for (r, g) in regs.into_iter().zip(want.unwrap()) {
                        check!(r.buffer_size() == 100, "wrong size of a region", "");
                        if k == 8 {
                            w.handles.push((e as i32, g, r));
                        } else {
                            at(e as i32, || drop(r));
                        }
                    }
                }
                what = "receive";
            }
            10 => {
                if w.joined[4] {
                    return;
                }
                let (t, r) = join(4, &w.id, "four all");
                w.tx[4] = Some(t);
                w.rx[4] = Some(r);
                w.joined[4] = true;
                quiesce();
                let t = now();
                for (end, regs) in w.waiting.drain(..) {
                    if end > t {
                        w.queue[4].push((regs, true));
                    }
                }
                what = "join";
            }
            // the receiver goes, unread messages with it
            11 => {
                let e = 1 + choose(3);
                let Some(rx) = w.rx[e].take() else { return };
                at(e as i32, || drop(rx));
                w.queue[e].clear();
                quiesce();
                what = "drop of a receiver";
            }
            // endpoint 3 leaves
            12 => {
                if w.tx3.is_none() {
                    return;
                }
                let rx = w.rx[3].take();
                let tx = w.tx3.take();
                at(3, || drop((rx, tx)));
                w.joined[3] = false;
                w.queue[3].clear();
                quiesce();
                what = "leave";
            }
            // the process of endpoint 3 dies, with nothing unread and no handle
            13 => {
                if !w.queue[3].is_empty() || w.handles.iter().any(|h| h.0 == 3) || !w.joined[3] {
                    return;
                }
                kill(3);
                std::mem::forget((w.rx[3].take(), w.tx3.take()));
                w.joined[3] = false;
                quiesce();
                what = "death";
            }
            _ => {
                if w.waiting.is_empty() {
                    return;
                }
                pass(Duration::from_secs(11));
                // noticed with the next message
                let sender = if w.tx[1].is_some() { 1 } else { 2 };
                send(sender as i32, w.tx[sender].as_ref().unwrap(), uni("nobody"), m(9));
                quiesce();
                w.waiting.clear();
                what = "expiry";
            }
        }
        note!("step {step}: {what}");
        quiesce();
        w.check(what);
    }
    // the end: every handle and every endpoint goes
    for (p, _, r) in std::mem::take(&mut w.handles) {
        at(p, || drop(r));
    }
    w.check("drop of all handles");
    for e in 1..=4 {
        while w.rx[e].is_some() && w.recv(e).is_some() {}
        w.queue[e].clear();
    }
    quiesce();
    w.check("receipt of everything");
    obs(w.probes[0].count() as u64);
}

/// Senders, receivers and cloning threads at the same time.
fn count_race(arg: u32) {
    explore_on(false);
    let id = ident("crace");
    let (t1, r1) = join(1, &id, "one all");
    let (t2, r2) = join(2, &id, "two all");
    quiesce();
    let reg = at(2, || MemoryRegion::new(100)).unwrap();
    let probe = Probe::new(&reg);
    let kept = Sh::new(vec![]);
    for (p, mut rx) in [(1, r1), (2, r2)] {
        spawn(p, "recv", move || loop {
            match rx.recv(None) {
                Ok(mut m) => {
                    for r in m.memory_regions.drain(..) {
                        let c = clone(&r);
                        drop(r);
                        // one of two is kept
                        if m.payload.n % 2 == 1 {
                            kept.get().push(c);
                        }
                    }
                }
                Err(e) => fail!("recv failed", "{e:?}"),
            }
        });
    }
    quiesce();
    explore_on(true);
    let mine = clone(&reg);
    let f1 = spawn(2, "sender", move || {
        for n in 0..2 {
            let mut msg = Message::new(multi("all"), m(n));
            msg.memory_regions.push(clone(&mine));
            t2.send(msg).unwrap_or_else(|e| fail!("send failed", "{e:?}"));
        }
        std::mem::forget(t2);
    });
    let mine = clone(&reg);
    let f2 = spawn(if arg == 0 { 2 } else { 1 }, "other", move || {
        if arg == 0 {
            let c = clone(&mine);
            drop(mine);
            drop(c);
        } else {
            let mut msg = Message::new(uni("two"), m(3));
            msg.memory_regions.push(mine);
            t1.send(msg).unwrap_or_else(|e| fail!("send failed", "{e:?}"));
            std::mem::forget(t1);
        }
    });
    f1.wait();
    f2.wait();
    quiesce();
    explore_on(false);
    let n = 1 + kept.get().len() as u32;
    check!(kept.get().len() == 2 + arg as usize, "region lost", "{} kept", kept.get().len());
    check!(probe.count() == n, "wrong reference count", "{} instead of {n}", probe.count());
    drop((reg, std::mem::take(kept.get())));
    check!(probe.count() == 0, "wrong reference count", "{} instead of 0", probe.count());
}

pub fn c14(t: Tier) -> Vec<Scn> {
    vec![
        scn("C14/race-clone", count_race, 0, "multicasts of a region against clones and drops: all interleavings", sched(t.pick(2, 3))),
        scn("C14/race-send", count_race, 1, "two senders of one region: all interleavings", sched(t.pick(2, 3))),
        scn("C14/counts", counts, 3, "all sequences of operations on region handles and messages", data()),
        scn("C14/counts-long", counts, t.pick(4, 5), "all longer sequences of operations on region handles and messages", data()),
    ]
}

// ---- C15

struct Ent {
    ino: u64,
    size: usize,
    tag: Option<&'static str>,
    alloc: Duration,
    idle_since: Option<Duration>,
    cb: Option<usize>,
}
struct Reg {
    reg: Option<MemoryRegistry>,
    ents: Vec<Ent>,
    handles: Vec<(i32, u64, MemoryRegion)>,
    flying: Vec<u64>,
    // times each callback has run, and whether it may run now
    ran: Sh<Vec<u32>>,
    due: Vec<bool>,
}
impl Reg {
    fn in_use(&self, ino: u64) -> bool {
        self.handles.iter().any(|h| h.1 == ino) || self.flying.contains(&ino)
    }
    /// A handle: handles of the same region in the same process are alike.
    fn pick(&self) -> usize {
        let mut d: Vec<usize> = vec![];
        for (i, h) in self.handles.iter().enumerate() {
            if !d.iter().any(|&j| (self.handles[j].0, self.handles[j].1) == (h.0, h.1)) {
                d.push(i);
            }
        }
        if d.is_empty() { 0 } else { d[choose(d.len())] }
    }
    fn settle(&mut self) {
        let t = now();
        for i in 0..self.ents.len() {
            let used = self.in_use(self.ents[i].ino);
            let e = &mut self.ents[i];
            if used {
                e.idle_since = None;
            } else if e.idle_since.is_none() {
                e.idle_since = Some(t);
            }
        }
    }
    /// After a call of the registry: what was idle when it began has been noticed.
    fn noticed(&mut self, idle: &[u64], what: &str) {
        for e in &mut self.ents {
            if let Some(k) = e.cb {
                if idle.contains(&e.ino) {
                    check!(self.ran.get()[k] == 1, "a callback did not run", "of idle memory, at {what}");
                    self.due[k] = true;
                    e.cb = None;
                }
            }
        }
        self.callbacks(what);
    }
    fn callbacks(&self, what: &str) {
        for (k, &n) in self.ran.get().iter().enumerate() {
            check!(n <= 1, "a callback ran twice", "at {what}");
            check!(n == self.due[k] as u32, if n == 1 { "a callback ran while its memory was in use" } else { "a callback did not run" }, "callback {k} at {what}");
        }
    }
    fn idle(&self) -> Vec<u64> {
        self.ents.iter().map(|e| e.ino).filter(|&i| !self.in_use(i)).collect()
    }
}

const TAGS: [Option<&str>; 3] = [None, Some("a"), Some("b")];

/// All sequences of registry calls, handle operations and passing time.
fn registry(arg: u32) {
    let (depth, small) = (arg & 0xff, arg & 0x100 != 0);
    explore_on(false);
    let id = ident("registry");
    let (t1, _r1) = join(1, &id, "one");
    let (_t2, mut r2) = join(2, &id, "two");
    quiesce();
    unsafe { eng::mc_set_proc(1) };
    let mut w = Reg { reg: Some(MemoryRegistry::default()), ents: vec![], handles: vec![], flying: vec![], ran: Sh::new(vec![]), due: vec![] };
    let sizes: &[usize] = if small { &[10, 19] } else { &[10, 19, 20, 5, 0] };
    for step in 0..depth {
        w.settle();
        let idle = w.idle();
        let what;
        match choose(8) {
            0 => {
                let Some(reg) = w.reg.as_mut() else { return };
                let size = sizes[choose(sizes.len())];
                let tag = TAGS[choose(if small { 2 } else { 3 })];
                let k = if choose(2) == 0 {
                    let k = w.due.len();
                    w.due.push(false);
                    w.ran.get().push(0);
                    Some(k)
                } else {
                    None
                };
                let ran = w.ran;
                let r = match k {
                    Some(k) => reg.alloc_with_free(size, tag, move || ran.get()[k] += 1),
                    None => reg.alloc(size, tag),
                };
                let mut r = r.unwrap_or_else(|| fail!("no allocation", "of {size}"));
                what = "allocation";
                note!("step {step}: allocation of {size} with tag {tag:?}, callback {k:?}");
                check!(r.buffer_size() >= size as u64, "an allocation is too small", "{} for {size}", r.buffer_size());
                check!(r.map(..).map(|b| b.len() >= size).unwrap_or(false), "an allocation is too small", "to map {size}");
                let i = ino(&r);
                check!(!w.in_use(i), "memory in use was handed out", "for {size}, {tag:?}");
                w.noticed(&idle, what);
                if let Some(e) = w.ents.iter_mut().find(|e| e.ino == i) {
                    check!(e.tag == tag, "memory of another tag was handed out", "{:?} for {tag:?}", e.tag);
                    check!(e.size as u64 == r.buffer_size(), "wrong size of a region", "");
                    e.alloc = now();
                    e.idle_since = None;
                    e.cb = k;
                } else {
                    w.ents.push(Ent { ino: i, size: r.buffer_size() as usize, tag, alloc: now(), idle_since: None, cb: k });
                }
                w.handles.push((1, i, r));
            }
            1 => {
                let h = w.pick();
                if w.handles.is_empty() {
                    return;
                }
                let (p, _, r) = w.handles.remove(h);
                at(p, || drop(r));
                what = "drop";
            }
            2 => {
                let h = w.pick();
                let Some((p, i, r)) = w.handles.get(h) else { return };
                let (p, i) = (*p, *i);
                let c = at(p, || clone(r));
                w.handles.push((p, i, c));
                what = "clone";
            }
            3 => {
                let h = w.pick();
                if w.handles.get(h).is_none_or(|h| h.0 != 1) {
                    return;
                }
                let (_, i, r) = w.handles.remove(h);
                let mut msg = Message::new(uni("two"), m(step));
                msg.memory_regions.push(r);
                t1.send(msg).unwrap_or_else(|e| fail!("send failed", "{e:?}"));
                quiesce();
                w.flying.push(i);
                what = "send";
            }
            4 => {
                if w.flying.is_empty() {
                    return;
                }
                let i = w.flying.remove(0);
                let r = at(2, || r2.recv(Some(Duration::ZERO)).map(|mut m| m.memory_regions.pop())).ok().flatten();
                let r = r.unwrap_or_else(|| fail!("region lost", ""));
                check!(ino(&r) == i, "another region arrived", "");
                w.handles.push((2, i, r));
                what = "receive";
            }
            5 => {
                pass(ms([2000, 3500][choose(2)]));
                what = "time";
            }
            6 => {
                let Some(reg) = w.reg.as_mut() else { return };
                reg.maintain();
                what = "maintenance";
                w.noticed(&idle, what);
                // idle memory of five seconds is gone
                let t = now();
                let old = |e: &Ent| t - e.alloc >= ms(5000) && e.idle_since.is_some_and(|s| t - s >= ms(5000));
                let keep = w.ents.iter().filter(|e| !old(e)).count();
                let fds = unsafe { eng::mc_fd_count_kind(1, eng::K_MEM) } as usize;
                let mine = w.handles.iter().filter(|h| h.0 == 1).count();
                // a process may keep descriptors of what it may still hand out
                check!(fds <= mine + keep, "idle memory is not released", "{fds} regions open, {mine} handles, {keep} recent or in use");
            }
            _ => {
                let Some(reg) = w.reg.take() else { return };
                drop(reg);
                what = "drop of the registry";
                for d in w.due.iter_mut() {
                    *d = true;
                }
                for e in w.ents.iter_mut() {
                    e.cb = None;
                }
            }
        }
        note!("step {step}: {what}");
        w.callbacks(what);
    }
    // whatever was handed out is still intact; then everything goes
    drop(w.reg.take());
    for d in w.due.iter_mut() {
        *d = true;
    }
    w.callbacks("the end");
    for i in 0..w.handles.len() {
        let (a, b) = w.handles.split_at_mut(i + 1);
        let (p, g, r) = &mut a[i];
        check!(at(*p, || ino(r)) == *g, "another region", "");
        let n = 1 + (a.iter().filter(|h| h.1 == a[i].1).count() - 1) + b.iter().filter(|h| h.1 == a[i].1).count() + w.flying.iter().filter(|&&f| f == a[i].1).count();
        check!(a[i].2.ref_count() == n as u32, "wrong reference count", "{} instead of {n}", a[i].2.ref_count());
    }
    obs(w.due.len() as u64);
}

/// Sizes at the limits, and reuse of every pair of sizes.
fn registry_sizes(_: u32) {
    explore_on(false);
    let big = [usize::MAX, usize::MAX - 12, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 62];
    let mut reg = MemoryRegistry::default();
    if choose(2) == 0 {
        let s = big[choose(big.len())];
        if let Some(r) = reg.alloc(s, None) {
            check!(r.buffer_size() >= s as u64, "an allocation is too small", "");
        }
        check!(reg.alloc(100, None).is_some(), "no allocation", "after one of {s}");
        return;
    }
    let v = [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 4084, 4085, 8169];
    let (a, b) = (v[choose(v.len())], v[choose(v.len())]);
    let ran = Sh::new(0);
    let r = reg.alloc_with_free(a, Some("x"), move || *ran.get() += 1).unwrap();
    check!(r.buffer_size() >= a as u64, "an allocation is too small", "");
    drop(r);
    let mut r = reg.alloc(b, Some("x")).unwrap();
    check!(*ran.get() == 1, "a callback did not run", "");
    check!(r.buffer_size() >= b as u64, "an allocation is too small", "{} for {b} after {a}", r.buffer_size());
    check!(r.map(..b).is_ok(), "an allocation is too small", "to map");
    obs(r.buffer_size());
}

/// The registry allocates while another process receives, uses and drops the memory.
fn registry_race(_: u32) {
    explore_on(false);
    let id = ident("rrace");
    let (t1, r1) = join(1, &id, "one two");
    let (_t2, r2) = join(2, &id, "two");
    quiesce();
    let busy: Sh<Vec<u64>> = Sh::new(vec![]);
    for (p, mut rx) in [(1, r1), (2, r2)] {
        spawn(p, "user", move || loop {
            match rx.recv(None) {
                Ok(mut m) => {
                    let r = m.memory_regions.pop().unwrap();
                    let i = ino(&r);
                    let c = clone(&r);
                    drop(r);
                    let b = busy.get();
                    let at = b.iter().position(|&x| x == i).unwrap();
                    b.remove(at);
                    drop(c);
                }
                Err(e) => fail!("recv failed", "{e:?}"),
            }
        });
    }
    quiesce();
    explore_on(true);
    let ran = Sh::new(0);
    let f = spawn(1, "owner", move || {
        let mut reg = MemoryRegistry::default();
        for n in 0..3 {
            let r = reg.alloc_with_free(10, None, move || *ran.get() += 1).unwrap();
            let i = ino(&r);
            check!(!busy.get().contains(&i), "memory in use was handed out", "allocation {n}");
            if n < 2 {
                // both receivers get it
                busy.get().extend([i, i]);
                let mut msg = Message::new(multi("two"), m(n));
                msg.memory_regions.push(r);
                t1.send(msg).unwrap_or_else(|e| fail!("send failed", "{e:?}"));
            }
        }
        check!(*ran.get() <= 2, "a callback ran while its memory was in use", "");
        drop(reg);
        check!(*ran.get() == 3, "a callback did not run", "{}", *ran.get());
        std::mem::forget(t1);
    });
    f.wait();
    quiesce();
    check!(busy.get().is_empty(), "region lost", "");
}

/// Many allocations in use at once: none is handed out twice, all are used again and released in the end.
fn registry_many(arg: u32) {
    explore_on(false);
    unsafe { eng::mc_set_proc(1) };
    let n = [9, 40, arg as usize][choose(3)];
    let sizes: &[usize] = [&[100usize][..], &[100, 5000, 9000]][choose(2)];
    let drops = choose(4);
    let again = choose(2) == 1;
    let mut reg = MemoryRegistry::default();
    let mut held: Vec<Option<ipmb::MemoryRegion>> = vec![];
    let get = |reg: &mut MemoryRegistry, k: usize, held: &[Option<ipmb::MemoryRegion>]| {
        let mut r = reg.alloc(sizes[k % sizes.len()], None).unwrap_or_else(|| fail!("no allocation", ""));
        check!(r.buffer_size() >= sizes[k % sizes.len()] as u64, "an allocation is too small", "{} for {}", r.buffer_size(), sizes[k % sizes.len()]);
        r.map(0..4).unwrap_or_else(|e| fail!("map failed", "{e:?}")).copy_from_slice(&(k as u32).to_ne_bytes());
        let _ = held;
        r
    };
    let intact = |held: &mut [Option<ipmb::MemoryRegion>]| {
        for (k, h) in held.iter_mut().enumerate() {
            if let Some(r) = h {
                let b = r.map(0..4).unwrap_or_else(|e| fail!("map failed", "{e:?}"));
                check!(*b == (k as u32).to_ne_bytes(), "memory in use was handed out again", "number {k} of {n} contains {b:?}");
            }
        }
    };
    for k in 0..n {
        let r = get(&mut reg, k, &held);
        held.push(Some(r));
    }
    intact(&mut held);
    let mut free = 0;
    for (k, h) in held.iter_mut().enumerate() {
        if [true, k % 2 == 0, k == 0, k + 1 == n][drops] {
            *h = None;
            free += 1;
        }
    }
    note!("{n} allocations, {free} dropped");
    pass(ms(1000));
    if again {
        // (each maintenance may have released something: only the contents are judged)
        for k in 0..free {
            let r = get(&mut reg, held.len(), &held);
            let _ = k;
            held.push(Some(r));
        }
        intact(&mut held);
    }
    let live = held.iter().flatten().count() as i32;
    pass(ms(6000));
    reg.maintain();
    let fds = unsafe { eng::mc_fd_count_kind(1, eng::K_MEM) };
    check!(fds <= 2 * live, "idle memory is not released", "{fds} regions open, {live} allocations in use");
    intact(&mut held);
    held.clear();
    pass(ms(6000));
    reg.maintain();
    check!(unsafe { eng::mc_fd_count_kind(1, eng::K_MEM) } == 0, "idle memory is not released", "after everything was dropped");
    obs(n as u64);
}
/// Several allocations of each size and tag, in use or not, are idle at the same time: one maintenance (or
/// allocation of another size, or drop) releases all that are not in use, and nothing else.
fn registry_idle(arg: u32) {
    explore_on(false);
    let kinds: &[(usize, Option<&str>)] = &[(10, None), (10, Some("a")), (20, None), (5000, None)];
    let m0 = unsafe { eng::mc_maps() };
    unsafe { eng::mc_set_proc(1) };
    let mut reg = MemoryRegistry::default();
    let ran: Sh<Vec<u32>> = Sh::new(vec![]);
    let mut held = vec![];
    let n = 2 + choose(arg as usize - 1);
    for i in 0..n {
        let (size, tag) = kinds[choose(if n > 3 { 2 } else { kinds.len() })];
        ran.get().push(0);
        let mut r = reg.alloc_with_free(size, tag, move || ran.get()[i] += 1).unwrap_or_else(|| fail!("no allocation", "of {size}"));
        let _ = r.map(..).map(|b| b[0] = 1);
        held.push(Some(r));
    }
    // two sets leave: the first at once, the second after some time
    let early = choose(1 << n);
    let wait = [0, 3000, 6000][choose(3)];
    for (i, h) in held.iter_mut().enumerate() {
        if early >> i & 1 == 1 {
            drop(h.take());
        }
    }
    pass(ms(wait));
    let late = if early + 1 == 1 << n { 0 } else { choose(n + 1) };
    if late > 0 && held[late - 1].take().is_none() {
        return;
    }
    pass(ms(6000));
    let how = choose(3);
    note!("{n} allocations, dropped {early:b}, then number {late}, then {}", ["maintenance", "an allocation of another size", "drop of the registry"][how]);
    let mut reg = Some(reg);
    let mut other = 0;
    let mut used = 0;
    match how {
        0 => reg.as_mut().unwrap().maintain(),
        1 => {
            let r = reg.as_mut().unwrap().alloc(100_000, Some("z")).unwrap_or_else(|| fail!("no allocation", ""));
            drop(r);
            other = 1;
        }
        _ => drop(reg.take()),
    }
    let gone = how == 2;
    for (i, h) in held.iter().enumerate() {
        let want = (h.is_none() || gone) as u32;
        check!(ran.get()[i] == want, if want == 1 { "a callback did not run" } else { "a callback ran while its memory was in use" }, "number {i}: {} calls", ran.get()[i]);
        if h.is_some() {
            used += 1;
        }
    }
    let fds = unsafe { eng::mc_fd_count_kind(1, eng::K_MEM) };
    // in use: one descriptor of the user and one of the registry
    let most = if gone { used } else { 2 * used + other };
    check!(fds <= most, "idle memory is not released", "{fds} regions open, {used} allocations in use");
    held.clear();
    pass(ms(6000));
    if let Some(r) = reg.as_mut() {
        r.maintain();
        check!(unsafe { eng::mc_fd_count_kind(1, eng::K_MEM) } == 0, "idle memory is not released", "after everything was dropped");
    }
    drop(reg);
    for (i, &c) in ran.get().iter().enumerate() {
        check!(c == 1, if c == 0 { "a callback did not run" } else { "a callback ran twice" }, "number {i}");
    }
    check!(unsafe { eng::mc_maps() } == m0, "mappings are left", "");
    obs(fds as u64);
}

pub fn c15(t: Tier) -> Vec<Scn> {
    vec![
        scn("C15/sizes", registry_sizes, 0, "every pair of sizes, and impossible sizes", data()),
        scn("C15/many", registry_many, t.pick(300, 700), "many allocations in use at once", data()),
        scn("C15/idle", registry_idle, t.pick(3, 5), "several allocations idle or in use at maintenance", data()),
        scn("C15/race", registry_race, 0, "allocation against receivers of the memory: all interleavings", sched(t.pick(2, 3))),
        scn("C15/calls", registry, t.pick(3, 4), "all sequences of registry calls, handle operations and time", data()),
        scn("C15/calls-few", registry, 0x100 + t.pick(4, 5), "longer sequences with fewer sizes and tags", data()),
    ]
}
