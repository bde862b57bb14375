//! What a JavaScript program does, in few words; and its peers.
use crate::vm::{self, V};
use ipmb::{BytesMessage, Message};
use mc::{bus::{lab, uni}, check, fail, rt::*};
use serde::{Deserialize, Serialize};
use type_uuid::TypeUuid;

/// Claims to be a BytesMessage and is not.
#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "dd95ba8e-1279-47cf-925e-83e614e79588"]
pub struct Short(pub u8);

pub type LTx = ipmb::EndpointSender<BytesMessage>;
pub type LRx = ipmb::EndpointReceiver<BytesMessage>;
pub fn ljoin(proc: i32, id: &str, label: &str) -> (LTx, LRx) {
    at(proc, || ipmb::join::<BytesMessage, BytesMessage>(ipmb::Options::new(id, lab(label), "tok"), None).unwrap_or_else(|e| fail!("join failed", "{e:?}")))
}
pub fn payload(n: u32) -> Vec<u8> {
    (0..4 + n % 7).map(|i| if i < 4 { (n >> (8 * i)) as u8 } else { (n * 3 + i) as u8 }).collect()
}
pub fn lsend(proc: i32, tx: &LTx, to: &str, n: u32) {
    at(proc, || tx.send(Message::new(uni(to), BytesMessage { format: n as u16 + 3, data: payload(n) })).unwrap_or_else(|e| fail!("send failed", "{e:?}")))
}
/// The number of a message as JavaScript receives it.
pub fn number_of(msg: V) -> u32 {
    let b = vm::get(msg, "bytesMessage");
    let d = vm::bytes(vm::get(b, "data"));
    check!(d.len() >= 4, "wrong data", "{d:?}");
    let n = u32::from_le_bytes(d[..4].try_into().unwrap());
    check!(d == payload(n) && vm::number(vm::get(b, "format")) == (n as u16 + 3) as f64, "wrong data", "{d:?}");
    check!(vm::items(vm::get(msg, "objects")).is_empty() && vm::items(vm::get(msg, "memoryRegions")).is_empty(), "attachments from nowhere", "");
    n
}
pub fn options(id: &str, label: &[&str], token: &str, aff: bool) -> V {
    vm::obj(&[
        ("identifier", vm::string(id)),
        ("label", vm::arr(label.iter().map(|l| vm::string(l)).collect())),
        ("token", vm::string(token)),
        ("controllerAffinity", vm::boolean(aff)),
    ])
}
pub fn join_as(proc: i32, id: &str, label: &[&str], token: &str, aff: bool) -> (V, V) {
    let o = at(proc, || vm::call(vm::exports(), "join", &[options(id, label, token, aff), vm::null()])).unwrap_or_else(|e| fail!("join failed", "{}", vm::show(e)));
    (vm::get(o, "sender"), vm::get(o, "receiver"))
}
pub fn join(proc: i32, id: &str, label: &[&str]) -> (V, V) {
    join_as(proc, id, label, "tok", true)
}
/// A receiver with at most one receive under way.
pub struct JRx {
    pub rx: V,
    out: Option<V>,
}
impl JRx {
    pub fn new(rx: V) -> JRx {
        JRx { rx, out: None }
    }
    /// The messages that have come.
    pub fn drain(&mut self, proc: i32) -> Vec<V> {
        let mut r = vec![];
        loop {
            let p = match self.out {
                Some(p) => p,
                None => at(proc, || vm::call(self.rx, "recv", &[vm::null()])).unwrap_or_else(|e| fail!("recv failed", "{}", vm::show(e))),
            };
            at(proc, vm::run);
            self.out = match vm::state(p) {
                vm::State::Resolved(v) => {
                    r.push(v);
                    None
                }
                vm::State::Rejected(e) => fail!("recv failed", "{}", vm::show(e)),
                vm::State::Pending => Some(p),
            };
            if self.out.is_some() {
                return r;
            }
        }
    }
}
pub fn op(args: &[V]) -> V {
    vm::new(vm::export("LabelOp"), args).unwrap_or_else(|e| fail!("no label expression", "{}", vm::show(e)))
}
pub fn selector(op: V, multicast: bool, ttl: u32) -> V {
    let mode = vm::get(vm::export("SelectorMode"), if multicast { "Multicast" } else { "Unicast" });
    vm::obj(&[("labelOp", op), ("mode", mode), ("ttl", vm::num(ttl as f64))])
}
pub fn message(format: u16, data: &[u8]) -> V {
    vm::obj(&[("format", vm::num(format as f64)), ("data", vm::buf(data))])
}
pub fn try_send(proc: i32, tx: V, sel: V, msg: V, buffers: &[Vec<u8>]) -> Result<V, V> {
    let b = vm::arr(buffers.iter().map(|b| vm::buf(b)).collect());
    at(proc, || vm::call(tx, "send", &[sel, msg, b]))
}
pub fn send(proc: i32, tx: V, sel: V, msg: V, buffers: &[Vec<u8>]) {
    if let Err(e) = try_send(proc, tx, sel, msg, buffers) {
        fail!("send failed", "{}", vm::show(e))
    }
}
/// Format and data of a received message.
pub fn bytes_of(msg: V) -> (u16, Vec<u8>) {
    let b = vm::get(msg, "bytesMessage");
    (vm::number(vm::get(b, "format")) as u16, vm::bytes(vm::get(b, "data")).to_vec())
}
pub fn map(region: V, offset: f64, size: f64) -> Result<Vec<u8>, V> {
    vm::call(region, "map", &[vm::num(offset), vm::num(size)]).map(|b| vm::bytes(b).to_vec())
}
pub fn ldrain(proc: i32, rx: &mut LRx) -> Vec<Message<BytesMessage>> {
    let mut v = vec![];
    at(proc, || loop {
        match rx.recv(Some(std::time::Duration::ZERO)) {
            Ok(m) => v.push(m),
            Err(ipmb::RecvError::Timeout) => break,
            Err(e) => fail!("recv failed", "{e:?}"),
        }
    });
    v
}
