//! Helpers shared by the scenarios: endpoints, messages.
#![allow(dead_code)]
use crate::rt::*;
use ipmb::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use type_uuid::TypeUuid;

/// The usual test message: a number and some padding derived from it.
#[derive(Debug, Serialize, Deserialize, TypeUuid, Clone, PartialEq)]
#[uuid = "7b07473e-9659-4d47-a502-8245d71c0078"]
pub struct M {
    pub n: u32,
    #[serde(with = "bytes")]
    pub pad: Vec<u8>,
}
mod bytes {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(v)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        Ok(<&[u8]>::deserialize(d)?.to_vec())
    }
}
pub fn pad(n: u32, len: usize) -> Vec<u8> {
    (0..len).map(|i| (n as usize * 7 + i * 13 + (i >> 8) * 5) as u8).collect()
}
pub fn m(n: u32) -> M {
    M { n, pad: vec![] }
}
pub fn mp(n: u32, len: usize) -> M {
    M { n, pad: pad(n, len) }
}
pub type Tx = EndpointSender<M>;
pub type Rx = EndpointReceiver<M>;

/// A label from space separated elements.
pub fn lab(s: &str) -> Label {
    Label::from(s.split(' ').filter(|e| !e.is_empty()))
}
pub fn opt(id: &str, label: &str) -> Options {
    Options::new(id, lab(label), "tok")
}
pub fn join(proc: i32, id: &str, label: &str) -> (Tx, Rx) {
    join_opt(proc, opt(id, label))
}
/// An endpoint that is to be admitted, in a bus that has lost controllers before if the scenario says so.
pub fn join_opt(proc: i32, o: Options) -> (Tx, Rx) {
    let past = PAST.get();
    let mode = past.mode;
    if mode != NEW && past.old.is_none() {
        let mut first = o.clone();
        first.label = lab("past");
        past.old = Some(real_join(PAST_PROC, first));
    }
    let (tx, mut rx) = real_join(proc, o);
    if past.late && (mode == ONE || mode == TWO && past.first.is_some()) {
        // the beginning was a long time ago
        pass(Duration::from_secs(60 * 24 * 3600));
    }
    match mode {
        // the endpoint is the only one that sees the death
        ONE => {
            past.mode = NEW;
            crate::note!("the bus has lost its controller before");
            kill(PAST_PROC);
            std::mem::forget(past.old.take());
            match at(proc, || rx.recv(Some(Duration::from_millis(1)))) {
                Err(RecvError::Timeout) => {}
                r => crate::fail!("the bus did not re-form", "{:?}", r.map(|m| m.payload.n)),
            }
            quiesce();
        }
        // the first two see it, in the order of their joins
        TWO if past.first.is_none() => past.first = Some((proc, tx.clone())),
        TWO => {
            past.mode = NEW;
            crate::note!("the bus has lost its controller before");
            kill(PAST_PROC);
            std::mem::forget(past.old.take());
            for (p, tx) in [past.first.take().unwrap(), (proc, tx.clone())] {
                at(p, || {
                    if let Err(e) = tx.send(Message::new(multi("~nobody~"), m(0))) {
                        crate::fail!("the bus did not re-form", "{e:?}");
                    }
                    drop(tx);
                });
                quiesce();
            }
        }
        _ => {}
    }
    (tx, rx)
}
fn real_join(proc: i32, o: Options) -> (Tx, Rx) {
    at(proc, || match ipmb::join::<M, M>(o.clone(), None) {
        Ok(v) => v,
        Err(e) => crate::fail!("join failed", "join {:?}: {e:?}", o.label),
    })
}
const NEW: u32 = 0;
pub const ONE: u32 = 1 << 29;
pub const TWO: u32 = 1 << 30;
pub const LATE: u32 = 1 << 28;
const PAST_PROC: i32 = 30;
struct Past {
    mode: u32,
    late: bool,
    old: Option<(Tx, Rx)>,
    first: Option<(i32, Tx)>,
}
struct PastCell(std::cell::UnsafeCell<Past>);
unsafe impl Sync for PastCell {}
impl PastCell {
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut Past {
        unsafe { &mut *self.0.get() }
    }
}
static PAST: PastCell = PastCell(std::cell::UnsafeCell::new(Past { mode: NEW, late: false, old: None, first: None }));
/// Set before a scenario runs, from its argument.
pub fn past(arg: u32) -> u32 {
    PAST.get().mode = arg & (ONE | TWO);
    PAST.get().late = arg & LATE != 0;
    arg & !(ONE | TWO | LATE)
}
/// The same scenario on a bus that has lost a controller: seen by its first endpoint (ONE), or by the first two.
pub fn again(mode: u32, s: crate::explore::Scn) -> crate::explore::Scn {
    crate::explore::Scn { name: format!("{}-again", s.name), arg: s.arg | mode, ..s }
}
pub fn uni(op: impl Into<LabelOp>) -> Selector {
    Selector::unicast(op)
}
pub fn multi(op: impl Into<LabelOp>) -> Selector {
    Selector::multicast(op)
}
pub fn ttl(mut s: Selector, d: Duration) -> Selector {
    s.ttl = d;
    s
}
pub fn send(proc: i32, tx: &Tx, sel: Selector, v: M) {
    at(proc, || {
        if let Err(e) = tx.send(Message::new(sel, v)) {
            crate::fail!("send failed", "send: {e:?}");
        }
    })
}
/// Everything waiting for the endpoint, in order.
pub fn drain(proc: i32, rx: &mut Rx) -> Vec<M> {
    let mut v = vec![];
    at(proc, || loop {
        match rx.recv(Some(Duration::ZERO)) {
            Ok(msg) => v.push(msg.payload),
            Err(RecvError::Timeout) => break,
            Err(e) => crate::fail!("recv failed", "recv: {e:?}"),
        }
    });
    v
}
/// As `drain`, also what comes while room is made.
pub fn drain_all(proc: i32, rx: &mut Rx) -> Vec<M> {
    let mut v = vec![];
    loop {
        quiesce();
        let more = drain(proc, rx);
        if more.is_empty() {
            return v;
        }
        v.extend(more);
    }
}
pub fn nums(v: &[M]) -> Vec<u32> {
    v.iter().map(|m| m.n).collect()
}
/// A thread of `proc` that receives for ever and stores what it gets.
pub fn receiver(proc: i32, name: &str, mut rx: Rx) -> Sh<Vec<u32>> {
    let got = Sh::new(vec![]);
    spawn(proc, name, move || loop {
        match rx.recv(None) {
            Ok(msg) => {
                if msg.payload.pad != pad(msg.payload.n, msg.payload.pad.len()) {
                    crate::fail!("corrupt payload", "message {} arrived corrupt", msg.payload.n);
                }
                got.get().push(msg.payload.n)
            }
            Err(e) => crate::fail!("recv failed", "recv: {e:?}"),
        }
    });
    got
}
/// The elements of each sender (n / 100) appear in increasing order, each once.
pub fn in_order(who: &str, got: &[u32]) {
    let mut last = std::collections::BTreeMap::new();
    for &n in got {
        if let Some(&l) = last.get(&(n / 100)) {
            if n == l {
                crate::fail!("duplicate", "{who} received {n} twice: {got:?}");
            }
            if n < l {
                crate::fail!("reordered", "{who} received {n} after {l}: {got:?}");
            }
        }
        last.insert(n / 100, n);
    }
}
