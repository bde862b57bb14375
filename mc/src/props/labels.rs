//! C17: label expressions and labels, locally and after transport.
use ipmb::{decode, encode, Label, LabelOp};
use mc::{bus::*, check, explore::*, fail, note, rt::*, *};
use std::collections::BTreeSet;

/// An expression of our own, evaluated independently of the library.
#[derive(Clone, Debug)]
enum E {
    T,
    F,
    L(usize),
    N(Box<E>),
    A(Box<E>, Box<E>),
    O(Box<E>, Box<E>),
}
impl E {
    fn value(&self, has: &dyn Fn(usize) -> bool) -> bool {
        match self {
            E::T => true,
            E::F => false,
            E::L(i) => has(*i),
            E::N(a) => !a.value(has),
            E::A(a, b) => a.value(has) & b.value(has),
            E::O(a, b) => a.value(has) | b.value(has),
        }
    }
    fn op(&self, names: &[&str]) -> LabelOp {
        match self {
            E::T => LabelOp::True,
            E::F => LabelOp::False,
            E::L(i) => LabelOp::from(names[*i]),
            E::N(a) => !a.op(names),
            E::A(a, b) => a.op(names).and(b.op(names)),
            E::O(a, b) => a.op(names).or(b.op(names)),
        }
    }
    /// Takes one apart again.
    fn of(op: &LabelOp, names: &[&str]) -> E {
        match op {
            LabelOp::True => E::T,
            LabelOp::False => E::F,
            LabelOp::Leaf(s) => E::L(names.iter().position(|n| n == s).unwrap_or(usize::MAX)),
            LabelOp::Not(a) => E::N(Box::new(E::of(a, names))),
            LabelOp::And(a, b) => E::A(Box::new(E::of(a, names)), Box::new(E::of(b, names))),
            LabelOp::Or(a, b) => E::O(Box::new(E::of(a, names)), Box::new(E::of(b, names))),
        }
    }
}

/// All expressions nested at most `d` deep over `k` elements and the two constants.
fn exprs(d: usize, k: usize) -> Vec<E> {
    let mut v = vec![E::T, E::F];
    v.extend((0..k).map(E::L));
    if d > 1 {
        let s = exprs(d - 1, k);
        v.extend(s.iter().map(|a| E::N(Box::new(a.clone()))));
        for a in &s {
            for b in &s {
                v.push(E::A(Box::new(a.clone()), Box::new(b.clone())));
                v.push(E::O(Box::new(a.clone()), Box::new(b.clone())));
            }
        }
    }
    v
}

/// Elements that differ little, at the boundaries of how strings are stored.
fn names() -> Vec<String> {
    let mut v: Vec<String> = ["a", "A", "b", "", " ", "  ", "\n", "a ", " a", "aa", "\0", "a\0", "é", "e\u{301}", "日本", "a b", "\n\n  ", "True", "true"].iter().map(|s| s.to_string()).collect();
    for n in [22, 23, 24, 25, 128, 251, 4000] {
        v.push("x".repeat(n));
        v.push("x".repeat(n - 1) + "y");
    }
    v
}

fn agree(e: &E, op: &LabelOp, names: &[&str], labels: &[(Label, Vec<bool>)], how: &str) {
    for (l, has) in labels {
        let want = e.value(&|i| has[i]);
        let got = op.validate(l);
        check!(got == want, "an expression has the wrong value", "{how}: {op:?} on {l:?} is {got}, {want} expected (elements {names:?})");
    }
}
fn subsets(names: &[&str]) -> Vec<(Label, Vec<bool>)> {
    let mut v = vec![];
    for s in 0..1usize << names.len() {
        let has: Vec<bool> = (0..names.len()).map(|i| s >> i & 1 == 1).collect();
        // in both orders
        let mut l: Vec<&str> = (0..names.len()).filter(|&i| has[i]).map(|i| names[i]).collect();
        v.push((Label::from(l.clone()), has.clone()));
        l.reverse();
        let mut x = Label::default();
        for n in &l {
            x.insert(n);
            x.insert(n);
        }
        x.insert("other");
        v.push((x, has));
    }
    v
}

/// All expressions, all labels, before and after a turn through the encoding.
fn local(arg: u32) {
    explore_on(false);
    let names = ["a", "b", ""];
    let k = if arg & 1 != 0 { 3 } else { 2 };
    let names = &names[..k];
    let labels = subsets(names);
    let inner = exprs(2, k);
    let all = exprs(3, k);
    let part = choose(8);
    for (n, e) in all.iter().enumerate() {
        if n % 8 != part {
            continue;
        }
        let op = e.op(names);
        agree(e, &op, names, &labels, "built");
        agree(e, &op.clone(), names, &labels, "cloned");
        let bytes = encode(&op).unwrap_or_else(|e| fail!("an expression cannot be encoded", "{e:?}"));
        let back: LabelOp = decode(&bytes).unwrap_or_else(|e| fail!("an expression cannot be decoded", "{op:?}: {e:?}"));
        agree(e, &back, names, &labels, "decoded");
        agree(&E::of(&back, names), &op, names, &labels, "taken apart");
        count(0, 1);
    }
    if arg & 2 != 0 {
        // one level more, over smaller halves
        for (n, a) in all.iter().enumerate() {
            if n % 8 != part {
                continue;
            }
            for b in &inner {
                for e in [
                    E::A(Box::new(a.clone()), Box::new(b.clone())),
                    E::O(Box::new(b.clone()), Box::new(a.clone())),
                    E::N(Box::new(E::A(Box::new(b.clone()), Box::new(a.clone())))),
                ] {
                    agree(&e, &e.op(names), names, &labels, "built");
                    count(0, 1);
                }
            }
        }
    }
    obs(1);
}

/// Every element against every label of one or two other elements.
fn elements(_: u32) {
    explore_on(false);
    let all = names();
    let i = choose(all.len());
    for (j, b) in all.iter().enumerate() {
        for (k, c) in all.iter().enumerate() {
            let mut l = Label::default();
            l.insert(b);
            l.insert(c);
            let has: BTreeSet<usize> = [j, k].into();
            let want = has.contains(&i);
            let op = LabelOp::from(all[i].as_str());
            check!(op.validate(&l) == want, "an element is confused with another", "{op:?} on {l:?}");
            check!(l.all([all[i].as_str()]) == want, "an element is confused with another", "{op:?} on {l:?}");
            let back: Label = decode(&encode(&l).unwrap()).unwrap_or_else(|e| fail!("a label cannot be decoded", "{l:?}: {e:?}"));
            check!(op.validate(&back) == want, "a label differs after transport", "{l:?} {back:?}");
            let op2: LabelOp = decode(&encode(&op).unwrap()).unwrap_or_else(|e| fail!("an expression cannot be decoded", "{op:?}: {e:?}"));
            check!(op2.validate(&l) == want, "an expression differs after transport", "{op:?} {op2:?}");
            count(0, 1);
        }
    }
    obs(i as u64);
}

const SETS: [&str; 4] = ["a", "b", "", "xxxxxxxxxxxxxxxxxxxxxxxxxx"];
fn judge_set(l: &Label, s: &BTreeSet<usize>, more: usize) {
    let back: Label = decode(&encode(l).unwrap()).unwrap_or_else(|e| fail!("a label cannot be decoded", "{l:?}: {e:?}"));
    for l in [l, &l.clone(), &back] {
        for (i, n) in SETS.iter().enumerate() {
            check!(l.all([*n]) == s.contains(&i), "a label is not a set", "{l:?} and {n:?}, expected {s:?}");
            check!(LabelOp::from(*n).validate(l) == s.contains(&i), "a label is not a set", "{l:?} and {n:?}, expected {s:?}");
            // pairs, and what is not there
            for (j, n2) in SETS.iter().enumerate() {
                check!(l.all([*n, *n2]) == (s.contains(&i) && s.contains(&j)), "a label is not a set", "{l:?} and {n:?}, {n2:?}, expected {s:?}");
            }
            check!(!l.all([*n, "none"]), "a label is not a set", "{l:?}");
        }
        check!(l.all([]), "a label is not a set", "{l:?}");
        for k in 0..more {
            check!(l.all([format!("e{k}").as_str()]), "a label is not a set", "{l:?} lost e{k}");
        }
        let mut it: Vec<&str> = l.iter().collect();
        it.sort();
        let mut want: Vec<String> = s.iter().map(|&i| SETS[i].to_string()).chain((0..more).map(|k| format!("e{k}"))).collect();
        want.sort();
        check!(it == want, "a label does not list its elements once", "{it:?}, expected {want:?}");
    }
    count(0, 1);
}
fn set_step(l: &mut Label, s: &mut BTreeSet<usize>, c: usize) {
    match c {
        8 => *l = Label::from(l.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        c if c % 2 == 0 => {
            l.insert(SETS[c / 2]);
            s.insert(c / 2);
        }
        c => {
            l.remove(SETS[c / 2]);
            s.remove(&(c / 2));
        }
    }
}
fn set_tree(l: &Label, s: &BTreeSet<usize>, more: usize, depth: u32) {
    judge_set(l, s, more);
    if depth > 0 {
        for c in 0..9 {
            let (mut l, mut s) = (l.clone(), s.clone());
            set_step(&mut l, &mut s, c);
            set_tree(&l, &s, more, depth - 1);
        }
    }
}

/// All sequences of insertions and removals against sets.
fn sets(arg: u32) {
    explore_on(false);
    let mut l = Label::default();
    let mut s: BTreeSet<usize> = BTreeSet::new();
    // with up to twenty elements more that stay (the representation changes at eight)
    let more = [0, 5, 6, 7, 8, 20][choose(6)];
    for k in 0..more {
        l.insert(format!("e{k}"));
    }
    for _ in 0..2 {
        set_step(&mut l, &mut s, choose(9));
    }
    set_tree(&l, &s, more, arg - 2);
    obs(s.iter().fold(1, |a, i| a * 5 + *i as u64));
}

struct Ends {
    e: Vec<(i32, Tx, Rx, Vec<bool>)>,
}
/// Endpoints with all labels over `names`, that of the controller among them.
fn ends(id: &str, names: &[&str], host: usize) -> Ends {
    let n = 1usize << names.len();
    let mut e = vec![];
    for i in 0..n {
        let s = (host + i) % n;
        let has: Vec<bool> = (0..names.len()).map(|i| s >> i & 1 == 1).collect();
        let l: Vec<&str> = (0..names.len()).filter(|&i| has[i]).map(|i| names[i]).collect();
        let l = if i % 2 == 0 { Label::from(l) } else { Label::from(l.into_iter().rev()) };
        let p = 1 + i as i32;
        let o = ipmb::Options::new(id, l, "tok");
        let (t, r) = at(p, || ipmb::join::<M, M>(o, None).unwrap_or_else(|e| fail!("join failed", "{e:?}")));
        e.push((p, t, r, has));
    }
    Ends { e }
}
fn route(es: &mut Ends, from: usize, e: &E, op: &LabelOp, n: u32) {
    // unicast only to those that exist
    let want: Vec<bool> = es.e.iter().map(|x| e.value(&|i| x.3[i])).collect();
    send(es.e[from].0, &es.e[from].1, multi(op.clone()), m(n));
    send(es.e[from].0, &es.e[from].1, uni(op.clone()), m(n + 1));
    quiesce();
    let got: Vec<Vec<u32>> = es.e.iter_mut().map(|x| nums(&drain(x.0, &mut x.2))).collect();
    let mut one = 0;
    for (i, g) in got.iter().enumerate() {
        check!(g.contains(&n) == want[i], "an expression selects the wrong endpoints", "{op:?} on {:?}: {g:?}", es.e[i].3);
        one += g.contains(&(n + 1)) as usize;
        check!(want[i] || g.is_empty(), "an expression selects the wrong endpoints", "{op:?} on {:?}: {g:?}", es.e[i].3);
    }
    check!(one == want.contains(&true) as usize, "an expression selects the wrong endpoints", "unicast {op:?}: {one} times");
    count(1, 1);
}

/// All expressions sent on a bus of endpoints with all labels.
fn transport(arg: u32) {
    explore_on(false);
    let id = ident("expr");
    let names = ["a", "b"];
    let mut es = ends(&id, &names, choose(4));
    let all = if arg == 0 { exprs(2, 2) } else { exprs(3, 2) };
    let parts = all.len() / 20 + 1;
    let part = choose(parts);
    note!("part {part} of {parts}");
    for (n, e) in all.iter().enumerate() {
        if n % parts == part {
            route(&mut es, n % 4, e, &e.op(&names), 2 * n as u32);
        }
    }
    obs(part as u64);
}

/// All pairs of an endpoint's element and a selected element.
fn transport_names(_: u32) {
    explore_on(false);
    let id = ident("elem");
    let all = names();
    let i = choose(all.len());
    // who has it: the controller's endpoint or another one; who sends
    let host = choose(2) == 0;
    let (p, q) = if host { (1, 2) } else { (2, 1) };
    let mut e = vec![None, None, None];
    for k in [1, 2] {
        let l = if k == p { Label::from([all[i].as_str()]) } else { Label::from(["sender of messages"]) };
        let o = ipmb::Options::new(id.as_str(), l, "tok");
        e[k] = Some(at(k as i32, || ipmb::join::<M, M>(o, None).unwrap_or_else(|e| fail!("join failed", "{e:?}"))));
    }
    for (j, x) in all.iter().enumerate() {
        let n = 100 + 2 * j as u32;
        send(q as i32, &e[q].as_ref().unwrap().0, multi(x.as_str()), m(n));
        send(q as i32, &e[q].as_ref().unwrap().0, uni(!LabelOp::from(x.as_str()).or("sender of messages")), m(n + 1));
        quiesce();
        let g = nums(&drain(p as i32, &mut e[p].as_mut().unwrap().1));
        let want = vec![if i == j { n } else { n + 1 }];
        check!(g == want, "an element is confused with another", "label {:?}, selected {:?}: {g:?}", all[i], x);
        count(1, 1);
    }
    obs(i as u64);
}

/// Deeply nested expressions of every shape.
fn deep(_: u32) {
    explore_on(false);
    let id = ident("deep");
    let names = ["a", "b"];
    let mut es = ends(&id, &names, 1);
    let shape = choose(6);
    let part = choose(20);
    for d in 1..=1000usize {
        if d % 20 != part || (d % 100 != part && d > 40 && d < 960) {
            continue;
        }
        let mut e = E::L(0);
        for k in 0..d {
            let b = Box::new(e);
            let o = Box::new(if k % 3 == 0 { E::L(1) } else if k % 3 == 1 { E::T } else { E::F });
            e = match (shape, k % 2) {
                (0, _) => E::N(b),
                (1, _) => E::A(b, Box::new(E::T)),
                (2, _) => E::A(Box::new(E::T), b),
                (3, _) => E::O(b, Box::new(E::F)),
                (4, _) => E::O(Box::new(E::F), b),
                (_, 0) => E::A(b, o),
                _ => E::O(o, b),
            };
        }
        let op = e.op(&names);
        route(&mut es, d % 4, &e, &op, 2 * d as u32);
    }
    obs(shape as u64 * 20 + part as u64);
}

/// Labels of many elements at the endpoints.
fn many(_: u32) {
    explore_on(false);
    let id = ident("many");
    let sizes = [0usize, 1, 7, 8, 9, 16, 250, 251, 252, 1000, 3000];
    let n = sizes[choose(sizes.len())];
    let host = choose(2) == 0;
    let l = Label::from((0..n).map(|k| format!("e{k}")));
    let (p, q) = if host { (1, 2) } else { (2, 1) };
    let mut e = vec![None, None, None];
    for k in [1, 2] {
        let l = if k == p { l.clone() } else { Label::from(["sender"]) };
        let o = ipmb::Options::new(id.as_str(), l, "tok");
        e[k] = Some(at(k as i32, || ipmb::join::<M, M>(o, Some(ms(1))).unwrap_or_else(|e| fail!("join failed", "{n} elements: {e:?}"))));
    }
    for x in [0, 1, 6, 7, 8, 9, 15, 16, 249, 250, 251, 252, 999, 1000, 2999, 3000] {
        send(q as i32, &e[q].as_ref().unwrap().0, multi(format!("e{x}")), m(x as u32));
        quiesce();
        let g = nums(&drain(p as i32, &mut e[p].as_mut().unwrap().1));
        check!(g.len() == (x < n) as usize, "an expression selects the wrong endpoints", "{n} elements, element {x}: {g:?}");
    }
    obs(n as u64);
}

pub fn c17(t: Tier) -> Vec<Scn> {
    vec![
        scn("C17/local", local, 3, "all expressions up to a depth on all labels, also encoded and decoded", data()),
        scn("C17/elements", elements, 0, "all triples of similar elements", data()),
        scn("C17/sets", sets, t.pick(5, 6), "all sequences of insertions and removals", data()),
        scn("C17/transport", transport, 1, "all expressions up to a depth routed to endpoints with all labels", data()),
        scn("C17/transport-names", transport_names, 0, "all pairs of similar elements routed", data()),
        scn("C17/deep", deep, 0, "expressions up to 1,000 deep of every shape", data()),
        scn("C17/many", many, 0, "labels of up to 3,000 elements", data()),
    ]
}
