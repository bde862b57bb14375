//! C18: buses with different identifiers are separate, with equal ones the same.
use ipmb::LabelOp;
use mc::{bus::*, check, explore::*, fail, note, rt::*, *};
use std::time::Duration;

/// Identifiers that differ little, at the boundaries of socket names.
fn idents(p: &str) -> Vec<String> {
    let fill = |n: usize, end: &str| format!("{p}{}{end}", "x".repeat(n - p.len() - end.len()));
    let mut v: Vec<String> = ["", "a", "A", "aa", "ab", " ", "a ", ".", "/", "@", "\0", "\0a", "a\0", "a\0a", "a\0b", "é", "e\u{301}", "日本", "\u{ff}", "\n"].iter().map(|s| format!("{p}{s}")).collect();
    for n in [89, 90, 91, 104, 105, 106, 107, 108, 109, 110, 122, 123, 124, 200, 300, 5000] {
        v.push(fill(n, ""));
        v.push(fill(n, "y"));
    }
    // differing in the first byte, or early in a long name
    v.push(format!("b{}", &p[1..]));
    v.push(format!("B{}", &p[1..]));
    v.push(format!("\0{p}"));
    v.push(format!("@{p}"));
    v.push(format!(" {p}"));
    v.push(format!("b{}", &fill(300, "")[1..]));
    // NUL early and late in a long name
    v.push(format!("{p}\0{}", "x".repeat(200)));
    v.push(format!("{p}\0{}", "x".repeat(201)));
    v.push(format!("{p}{}\0", "x".repeat(200)));
    // without anything in common
    v.push("".into());
    v.push("\0".into());
    v.push("\0\0".into());
    v.push(" ".into());
    v.push("x".into());
    v.push("x".repeat(106));
    v.push("x".repeat(107));
    v.push("x".repeat(108));
    v.push("x".repeat(200));
    v
}

fn pair(_: u32) {
    explore_on(false);
    let p = ident("n");
    let all = idents(&p);
    let i = choose(all.len());
    let j = choose(all.len());
    let (a, b) = (&all[i], &all[j]);
    let same = a == b;
    // separate buses may have separate tokens
    let tb = if same || choose(2) == 0 { "tok" } else { "other" };
    note!("{a:?} ({} bytes) and {b:?} ({} bytes)", a.len(), b.len());
    let mut e = vec![];
    // two endpoints of each, the second a guest; in both orders of becoming controllers
    for (p, id, tok, first) in [(1, a, "tok", true), (2, b, tb, true), (3, a, "tok", false), (4, b, tb, false)] {
        let mut o = ipmb::Options::new(id.as_str(), lab("all"), tok);
        o.controller_affinity = first;
        let r = at(p, || ipmb::join::<M, M>(o, Some(Duration::from_secs(10))));
        e.push((p, r.unwrap_or_else(|x| fail!("join failed", "endpoint {p} of {a:?} and {b:?}: {x:?}"))));
    }
    for (p, (t, _)) in &e {
        send(*p, t, multi(LabelOp::True), m(*p as u32 * 100));
    }
    quiesce();
    for (p, (_, r)) in e.iter_mut() {
        let mut g = nums(&drain(*p, r));
        g.sort();
        let want: Vec<u32> = if same { vec![100, 200, 300, 400] } else if *p % 2 == 1 { vec![100, 300] } else { vec![200, 400] };
        if g != want {
            if same {
                fail!("endpoints with one identifier are not on one bus", "{a:?}: endpoint {p} received {g:?}");
            }
            fail!("buses with different identifiers exchange messages", "{a:?} ({} bytes) and {b:?} ({} bytes): endpoint {p} received {g:?}", a.len(), b.len());
        }
    }
    // one of the controllers dies: the other bus goes on, its own is taken over
    if !same {
        kill(1);
        let rest: Vec<_> = e.drain(1..).collect();
        std::mem::forget(e);
        let mut rest = rest;
        send(2, &rest[0].1 .0, multi(LabelOp::True), m(201));
        quiesce();
        let (_, (_, r4)) = &mut rest[2];
        check!(nums(&drain(4, r4)) == [201], "the death of one bus's controller disturbs another", "");
        let mut o = ipmb::Options::new(a.as_str(), lab("all"), "tok");
        o.controller_affinity = true;
        let x = at(5, || ipmb::join::<M, M>(o, Some(Duration::from_secs(10)))).unwrap_or_else(|x| fail!("join failed", "{x:?}"));
        std::mem::forget((x, rest));
    } else {
        std::mem::forget(e);
    }
    obs((same as u64) << 1 | (tb == "tok") as u64);
}

/// Endpoints of two similar identifiers join at the same time.
fn race(arg: u32) {
    explore_on(false);
    let p = ident("r");
    let (a, b) = match arg {
        0 => (p.clone(), format!("{p}a")),
        _ => (format!("{p}{}", "x".repeat(200)), format!("{p}{}", "x".repeat(201))),
    };
    explore_on(true);
    let mut fl = vec![];
    let e = Sh::new(vec![]);
    for (p, id) in [(1, &a), (2, &b), (3, &a), (4, &b)] {
        let id = id.clone();
        fl.push(spawn(p, &format!("join{p}"), move || e.get().push((p, join(p, &id, "all")))));
    }
    for f in fl {
        f.wait();
    }
    explore_on(false);
    for (p, (t, _)) in e.get() {
        send(*p, t, multi(LabelOp::True), m(*p as u32 * 100));
    }
    quiesce();
    for (p, (_, r)) in e.get().iter_mut() {
        let mut g = nums(&drain(*p, r));
        g.sort();
        let want: Vec<u32> = if *p % 2 == 1 { vec![100, 300] } else { vec![200, 400] };
        check!(g == want, "buses with different identifiers are not separate", "endpoint {p} received {g:?}");
    }
    obs(e.get().iter().fold(0, |a, x| a * 5 + x.0 as u64));
}

pub fn c18(t: Tier) -> Vec<Scn> {
    vec![
        scn("C18/pair", pair, 0, "all pairs of identifiers of the boundary set", data()),
        scn("C18/race", race, 0, "four endpoints of two similar identifiers join at once", sched(t.pick(2, 3))),
        scn("C18/race-long", race, 1, "the same with long identifiers", sched(t.pick(1, 3))),
    ]
}
