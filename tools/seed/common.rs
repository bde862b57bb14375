#![allow(dead_code, unused_imports)]
pub use ipmb::*;
pub use serde::{Deserialize, Serialize};
pub use std::{sync::*, thread, time::{Duration, Instant}};
pub use type_uuid::TypeUuid;

#[derive(Debug, Serialize, Deserialize, TypeUuid, Clone, PartialEq)]
#[uuid = "7b07473e-9659-4d47-a502-8245d71c0078"]
pub struct M {
    pub n: u32,
}

#[derive(Debug, Serialize, Deserialize, TypeUuid, Clone, PartialEq)]
#[uuid = "7b07473e-9659-4d47-a502-8245d71c0079"]
pub struct N {
    pub s: String,
}

pub type Tx = EndpointSender<M>;
pub type Rx = EndpointReceiver<M>;

/// An identifier of this process alone.
pub fn ident() -> String {
    format!("ipmb-demo-{}", std::process::id())
}

pub fn opt(label: Label) -> Options {
    Options::new(ident(), label, "")
}

pub fn join(label: Label) -> (Tx, Rx) {
    ipmb::join(opt(label), Some(Duration::from_secs(5))).expect("join")
}

pub fn ms(n: u64) -> Option<Duration> {
    Some(Duration::from_millis(n))
}

pub fn uni(label: &str, n: u32) -> Message<M> {
    Message::new(Selector::unicast(label), M { n })
}

pub fn multi(label: &str, n: u32) -> Message<M> {
    Message::new(Selector::multicast(label), M { n })
}

pub fn with_ttl(mut selector: Selector, ttl: u64, n: u32) -> Message<M> {
    selector.ttl = Duration::from_millis(ttl);
    Message::new(selector, M { n })
}

/// Everything that arrives until nothing does for `wait` ms.
pub fn drain(r: &mut Rx, wait: u64) -> Vec<u32> {
    let mut v = vec![];
    while let Ok(m) = r.recv(ms(wait)) {
        v.push(m.payload.n);
    }
    v
}

pub fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").unwrap().count()
}

pub fn expect<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        println!("{what}: got {got:?}, expected {want:?}");
        std::process::exit(1);
    }
}

/// Ends the program if the closure does not return in time.
pub fn within<T: Send + 'static>(what: &'static str, secs: u64, f: impl FnOnce() -> T + Send + 'static) -> T {
    let (tx, rx) = mpsc::channel();
    thread::spawn(move || {
        let _ = tx.send(f());
    });
    match rx.recv_timeout(Duration::from_secs(secs)) {
        Ok(v) => v,
        Err(_) => {
            println!("{what}: does not finish");
            std::process::exit(1);
        }
    }
}
