//! Labels and label expressions built by C calls, seen by whom a multicast reaches.
use crate::{attach::data_cfg, c::*};
use mc::{check, explore::*, guard, note, rt::*, *};
use std::ffi::CString;

const LABELS: [&str; 5] = ["", "a", "b", "a b", "é"];

/// Postfix programs: the stack machine leaves one expression.
fn expressions(depth: u32) {
    explore_on(false);
    guard::on();
    let id = ident("clabel");
    let mut e: Vec<(H, H)> = (0..5).map(|i| join(1 + i, &id, LABELS[i as usize])).collect();
    quiesce();
    let live0 = guard::live();
    let mut stack: Vec<(H, Vec<bool>)> = vec![];
    let mut text = vec![];
    let mut left = depth;
    loop {
        // 0..5 push; 5 not; 6 and; 7 or; 8 done
        let can_push = left > stack.len() as u32;
        let c = choose(9);
        unsafe {
            match c {
                0 | 1 if can_push => stack.push((ipmb_label_op_bool(c == 1), vec![c == 1; 5])),
                2..=4 if can_push => {
                    let s = ["a", "b", "é"][c - 2];
                    stack.push((ipmb_label_op_leaf(cs(s).as_ptr()), LABELS.iter().map(|l| l.split(' ').any(|x| x == s)).collect()))
                }
                5 if !stack.is_empty() && left >= stack.len() as u32 => {
                    let (h, v) = stack.pop().unwrap();
                    stack.push((ipmb_label_op_not(h), v.into_iter().map(|x| !x).collect()));
                }
                6 | 7 if stack.len() >= 2 => {
                    let (r, rv) = stack.pop().unwrap();
                    let (l, lv) = stack.pop().unwrap();
                    let v = lv.into_iter().zip(rv).map(|(a, b)| if c == 6 { a && b } else { a || b }).collect();
                    stack.push((if c == 6 { ipmb_label_op_and(l, r) } else { ipmb_label_op_or(l, r) }, v));
                }
                8 if stack.len() == 1 => break,
                _ => return,
            }
        }
        text.push(["F", "T", "a", "b", "é", "not", "and", "or"][c]);
        if left == 0 {
            return;
        }
        left -= 1;
    }
    let (op, want) = stack.pop().unwrap();
    note!("{text:?}");
    let who = choose(2);
    unsafe {
        // an expression is only borrowed by a selector: several messages, and the library copies it
        for n in 0..2u8 {
            let m = ipmb_message(Selector { label_op: &op, mode: 1, ttl: 0 }, n as u16, &n, 1);
            let c = at(1 + who as i32, || ipmb_send(&mut e[who].0, m));
            check!(c == 0, "send failed", "code {c}");
        }
        ipmb_label_op_drop(op);
    }
    quiesce();
    for i in 0..5 {
        let got = drain(1 + i as i32, &mut e[i].1);
        let w: Vec<(u16, Vec<u8>)> = if want[i] { vec![(0, vec![0]), (1, vec![1])] } else { vec![] };
        check!(got == w, "an expression selects other endpoints", "{text:?} at {:?}: {got:?}", LABELS[i]);
    }
    let _ = live0;
    obs(want.iter().fold(1, |a, &b| a * 2 + b as u64));
}

/// Every expression handle is released by what consumes it.
fn leaks(depth: u32) {
    explore_on(false);
    guard::on();
    let start = guard::live();
    let mut st: Vec<H> = vec![];
    unsafe {
        for _ in 0..depth {
            match choose(6) {
                0 => st.push(ipmb_label_op_bool(choose(2) == 0)),
                1 => st.push(ipmb_label_op_leaf(c"leaf".as_ptr())),
                2 if !st.is_empty() => {
                    let h = st.pop().unwrap();
                    st.push(ipmb_label_op_not(h));
                }
                c @ (3 | 4) if st.len() >= 2 => {
                    let (r, l) = (st.pop().unwrap(), st.pop().unwrap());
                    st.push(if c == 3 { ipmb_label_op_and(l, r) } else { ipmb_label_op_or(l, r) });
                }
                5 if !st.is_empty() => {
                    let k = choose(st.len());
                    ipmb_label_op_drop(st.remove(k));
                }
                _ => return,
            }
        }
        let n = st.len();
        for h in st {
            ipmb_label_op_drop(h);
        }
        let mut l = ipmb_label();
        for s in [&b"x"[..], b"", b"x", b"\xff\xfe", b"long long long long long"] {
            ipmb_label_insert(&mut l, CString::new(s).unwrap().as_ptr());
        }
        ipmb_label_drop(l);
        check!(guard::live() == start, "memory is left", "{} blocks instead of {start}", guard::live());
        obs(n as u64);
    }
}

pub fn scns(t: Tier) -> Vec<Scn> {
    vec![
        scn("C20/expressions", expressions, t.pick(5, 6), "all postfix programs of the label calls, by whom they select", data_cfg()),
        scn("C20/expression-handles", leaks, t.pick(6, 8), "all sequences of label expression calls: no handle left or freed twice", data_cfg()),
    ]
}
