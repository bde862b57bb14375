//! C21, C23: the JavaScript interface, with a stand-in for the JavaScript engine.
extern crate ipmb_js as _;
mod api;
mod js;
mod rx;
mod vm;
use mc::Prop;

fn main() {
    mc::cli::main(vec![Prop { id: "C21", scns: rx::scns }, Prop { id: "C23", scns: api::scns }], || {
        let _ = ipmb::version();
        let _ = std::time::Instant::now();
    })
}
