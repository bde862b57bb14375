//! C05: an endpoint receives the messages of its types, decoded faithfully.
use ipmb::{BytesMessage, EndpointReceiver, EndpointSender, Error, Message, MessageBox, RecvError};
use mc::{bus::{lab, opt, multi, uni}, check, explore::*, fail, note, rt::*, *};
use serde::{Deserialize, Serialize};
use std::{collections::BTreeMap, time::Duration};
use type_uuid::{Bytes, TypeUuid};

#[derive(Debug, Serialize, Deserialize, TypeUuid, Clone, PartialEq)]
#[uuid = "11111111-9659-4d47-a502-8245d71c0001"]
struct A {
    n: u32,
    s: String,
}
#[derive(Debug, Serialize, Deserialize, TypeUuid, Clone, PartialEq)]
#[uuid = "11111111-9659-4d47-a502-8245d71c0002"]
enum B {
    Unit,
    One(i64),
    Rec { x: Option<Box<B>>, y: Vec<f64> },
}
#[derive(Debug, Serialize, Deserialize, TypeUuid, Clone, PartialEq)]
#[uuid = "21111111-9659-4d47-a502-8245d71c0001"]
struct C(BTreeMap<String, (u8, i128)>);

/// What the derive macro makes of several types.
#[derive(MessageBox)]
enum AB {
    A(A),
    B(B),
    Bytes(BytesMessage),
}
#[derive(MessageBox)]
enum CBA {
    C(C),
    B(B),
    A(A),
}

/// Anything at all, for senders.
struct Any {
    uuid: Bytes,
    data: Vec<u8>,
}
impl MessageBox for Any {
    fn decode(_: Bytes, _: &[u8]) -> Result<Self, Error> {
        Err(Error::TypeUuidNotFound)
    }
    fn encode(&self) -> Result<Vec<u8>, Error> {
        Ok(self.data.clone())
    }
    fn uuid(&self) -> Bytes {
        self.uuid
    }
}

#[derive(Debug, Clone, PartialEq)]
enum V {
    A(A),
    B(B),
    C(C),
    Bytes(u16, Vec<u8>),
}
trait Seen {
    fn seen(self) -> V;
    const HAS: &'static str;
}
impl Seen for A {
    fn seen(self) -> V {
        V::A(self)
    }
    const HAS: &'static str = "A";
}
impl Seen for AB {
    fn seen(self) -> V {
        match self {
            AB::A(a) => V::A(a),
            AB::B(b) => V::B(b),
            AB::Bytes(b) => V::Bytes(b.format, b.data),
        }
    }
    const HAS: &'static str = "ABY";
}
impl Seen for CBA {
    fn seen(self) -> V {
        match self {
            CBA::A(a) => V::A(a),
            CBA::B(b) => V::B(b),
            CBA::C(c) => V::C(c),
        }
    }
    const HAS: &'static str = "ABC";
}

const KINDS: usize = 8;
/// (type letter, what a receiver of that type sees (None: undecodable), the message)
fn item(kind: usize, n: u32) -> (char, Option<V>, Any) {
    let cut = |t: &dyn Fn() -> Vec<u8>| {
        let mut d = t();
        d.pop();
        d
    };
    match kind {
        0 => {
            let a = A { n, s: format!("message {n}") };
            ('A', Some(V::A(a.clone())), Any { uuid: A::UUID, data: ipmb::encode(&a).unwrap() })
        }
        1 => {
            let b = B::Rec { x: Some(Box::new(B::One(-(n as i64)))), y: vec![0.5, n as f64] };
            ('B', Some(V::B(b.clone())), Any { uuid: B::UUID, data: ipmb::encode(&b).unwrap() })
        }
        2 => {
            let c = C([(format!("k{n}"), (n as u8, -1))].into());
            ('C', Some(V::C(c.clone())), Any { uuid: C::UUID, data: ipmb::encode(&c).unwrap() })
        }
        3 => {
            let b = BytesMessage { format: n as u16, data: vec![n as u8; n as usize] };
            ('Y', Some(V::Bytes(b.format, b.data.clone())), Any { uuid: b.uuid(), data: ipmb::encode(&b).unwrap() })
        }
        // of no type any endpoint declares: one bit away from A's
        4 => {
            let mut uuid = A::UUID;
            uuid[15] ^= 1;
            uuid[15] ^= 8;
            ('-', None, Any { uuid, data: ipmb::encode(A { n, s: "no".into() }).unwrap() })
        }
        // undecodable ones
        5 => ('A', None, Any { uuid: A::UUID, data: cut(&|| ipmb::encode(A { n, s: "abc".into() }).unwrap()) }),
        6 => ('B', None, Any { uuid: B::UUID, data: vec![250, 9, 9] }),
        _ => ('A', None, Any { uuid: A::UUID, data: vec![] }),
    }
}

type End<R> = (EndpointSender<Any>, EndpointReceiver<R>);
fn join_t<R: MessageBox>(proc: i32, id: &str, label: &str) -> End<R> {
    at(proc, || match ipmb::join::<Any, R>(opt(id, label), None) {
        Ok(v) => v,
        Err(e) => fail!("join failed", "{label}: {e:?}"),
    })
}

fn expect<R: MessageBox + Seen>(proc: i32, who: &str, rx: &mut EndpointReceiver<R>, sent: &[(char, Option<V>)], mode: usize) {
    let mut k = 0;
    at(proc, || {
        for (c, v) in sent {
            if !R::HAS.contains(*c) {
                continue;
            }
            k += 1;
            let t = match mode {
                0 => Some(Duration::ZERO),
                1 => Some(ms(1000)),
                _ => None,
            };
            match (rx.recv(t), v) {
                (Ok(m), Some(v)) => {
                    let g = m.payload.seen();
                    check!(g == *v, "wrong value", "{who}: {g:?} instead of {v:?}, sent {sent:?}")
                }
                (Err(RecvError::Decode(_)), None) => {}
                (Ok(m), None) => fail!("undecodable message delivered", "{who}: {:?}, sent {sent:?}", m.payload.seen()),
                (Err(e), v) => fail!("no message", "{who}: {e:?} instead of {v:?}, sent {sent:?}"),
            }
        }
        match rx.recv(Some(Duration::ZERO)) {
            Err(RecvError::Timeout) => {}
            Err(e) => fail!("recv failed", "{who}: {e:?}"),
            Ok(m) => fail!("unexpected message", "{who}: {:?}, sent {sent:?}", m.payload.seen()),
        }
    });
    obs(k);
}

/// Sequences of messages of declared, undeclared and undecodable types to endpoints of different types.
fn seq(arg: u32) {
    explore_on(false);
    let id = ident("typed");
    let host = choose(3);
    // who hosts the controller varies
    let (mut a, mut ab, mut cba);
    match host {
        0 => {
            a = join_t::<A>(1, &id, "x a");
            ab = join_t::<AB>(2, &id, "x ab");
            cba = join_t::<CBA>(3, &id, "x cba");
        }
        1 => {
            ab = join_t::<AB>(2, &id, "x ab");
            a = join_t::<A>(1, &id, "x a");
            cba = join_t::<CBA>(3, &id, "x cba");
        }
        _ => {
            cba = join_t::<CBA>(3, &id, "x cba");
            ab = join_t::<AB>(2, &id, "x ab");
            a = join_t::<A>(1, &id, "x a");
        }
    }
    let mode = choose(3);
    let mut sent = vec![];
    for n in 1..=arg {
        let k = choose(KINDS);
        let (c, v, m) = item(k, n);
        note!("message {n}: {c} {v:?}");
        let tx = [&a.0, &ab.0, &cba.0][n as usize % 3];
        let p = n as i32 % 3 + 1;
        at(p, || tx.send(Message::new(multi("x"), m)).unwrap_or_else(|e| fail!("send failed", "{e:?}")));
        quiesce();
        sent.push((c, v));
        obs(k as u64);
    }
    expect(1, "endpoint of type A", &mut a.1, &sent, mode);
    expect(2, "endpoint of types A, B, bytes", &mut ab.1, &sent, mode);
    expect(3, "endpoint of types C, B, A", &mut cba.1, &sent, mode);
}

/// Every value of a boundary list through every route, as itself and through the derived type.
fn values(_: u32) {
    explore_on(false);
    let s = |n: usize| "xé\u{0}\u{10ffff}".chars().cycle().take(n).collect::<String>();
    let vals: Vec<V> = vec![
        V::A(A { n: 0, s: String::new() }),
        V::A(A { n: 250, s: s(1) }),
        V::A(A { n: 251, s: s(250) }),
        V::A(A { n: 65535, s: s(251) }),
        V::A(A { n: 65536, s: s(3000) }),
        V::A(A { n: u32::MAX, s: s(7) }),
        V::B(B::Unit),
        V::B(B::One(0)),
        V::B(B::One(i64::MIN)),
        V::B(B::One(i64::MAX)),
        V::B(B::Rec { x: None, y: vec![] }),
        V::B(B::Rec { x: Some(Box::new(B::Rec { x: Some(Box::new(B::Unit)), y: vec![f64::MAX, -0.0] })), y: vec![f64::INFINITY; 300] }),
        V::C(C(BTreeMap::new())),
        V::C(C((0..200).map(|i| (s(i), (i as u8, i128::MIN + i as i128))).collect())),
        V::Bytes(0, vec![]),
        V::Bytes(u16::MAX, (0..=255).collect()),
    ];
    let v = &vals[choose(vals.len())];
    let derived = choose(2) == 1;
    let id = ident("val");
    let route = choose(4);
    let (from, to) = [(1, 2), (2, 1), (2, 3), (2, 2)][route];
    let lbl = ["", "one", "two", "three"];
    macro_rules! go {
        ($r:ty, $send:ty, $msg:expr) => {{
            let mut e: Vec<(EndpointSender<$send>, EndpointReceiver<$r>)> = vec![];
            for p in 1..=3 {
                e.push(at(p, || ipmb::join::<$send, $r>(ipmb::Options::new(&id, lab(lbl[p as usize]), "tok"), None).unwrap_or_else(|e| fail!("join failed", "{e:?}"))));
            }
            at(from as i32, || e[from - 1].0.send(Message::new(uni(lbl[to]), $msg)).unwrap_or_else(|e| fail!("send failed", "{e:?}")));
            quiesce();
            let g = at(to as i32, || e[to - 1].1.recv(Some(Duration::ZERO)).unwrap_or_else(|e| fail!("no message", "{v:?}: {e:?}")));
            let g = g.payload.seen();
            check!(g == *v, "wrong value", "{g:?} instead of {v:?}");
        }};
    }
    match (v.clone(), derived) {
        (V::A(x), false) => go!(A, A, x),
        (V::A(x), true) => go!(CBA, CBA, CBA::A(x)),
        (V::B(x), false) => go!(CBA, B, x),
        (V::B(x), true) => go!(AB, CBA, CBA::B(x)),
        (V::C(x), false) => go!(CBA, C, x),
        (V::C(x), true) => go!(CBA, CBA, CBA::C(x)),
        (V::Bytes(f, d), false) => go!(AB, BytesMessage, BytesMessage { format: f, data: d }),
        (V::Bytes(f, d), true) => go!(AB, AB, AB::Bytes(BytesMessage { format: f, data: d })),
    }
    obs(route as u64);
}

/// Messages of foreign types arrive while a receive is in progress.
fn live(arg: u32) {
    explore_on(false);
    let id = ident("tlive");
    let host = arg & 1 != 0;
    let (mut e1, e2);
    if host {
        e1 = join_t::<A>(1, &id, "a");
        e2 = join_t::<A>(2, &id, "b");
    } else {
        e2 = join_t::<A>(2, &id, "b");
        e1 = join_t::<A>(1, &id, "a");
    }
    quiesce();
    explore_on(true);
    let mut sent = vec![];
    let mut msgs = vec![];
    for (n, k) in [0, 4, 1, 5, 0].into_iter().enumerate() {
        let (c, v, m) = item(k, n as u32);
        sent.push((c, v));
        msgs.push(m);
    }
    let f = spawn(1, "recv", move || {
        expect(1, "receiver", &mut e1.1, &sent, 2);
        std::mem::forget(e1);
    });
    let g = spawn(2, "send", move || {
        for m in msgs {
            e2.0.send(Message::new(uni("a"), m)).unwrap_or_else(|e| fail!("send failed", "{e:?}"));
        }
        std::mem::forget(e2);
    });
    g.wait();
    f.wait();
}

pub fn c05(t: Tier) -> Vec<Scn> {
    vec![
        scn("C05/seq", seq, t.pick(4, 5), "sequences of eight kinds of messages to endpoints of three types", data()),
        scn("C05/values", values, 0, "boundary values of several types by every route", data()),
        scn("C05/live", live, 0, "foreign and undecodable messages during a blocking receive", sched(t.pick(2, 3))),
        scn("C05/live-host", live, 1, "the same in the controller's process", sched(t.pick(2, 3))),
    ]
}
