//! C20: the C interface and the C++ interface on top of it.
extern crate ipmb_ffi as _;
mod attach;
mod bus;
mod c;
mod cpp;
mod labels;
mod region;
use mc::{Prop, Tier};

fn c20(t: Tier) -> Vec<mc::explore::Scn> {
    let mut v = vec![];
    v.extend(attach::scns(t));
    v.extend(region::scns(t));
    v.extend(labels::scns(t));
    v.extend(bus::scns(t));
    v.extend(cpp::scns(t));
    v
}
fn main() {
    mc::cli::main(vec![Prop { id: "C20", scns: c20 }], || unsafe {
        let _ = ipmb::version();
        let mut r = std::ptr::null_mut();
        c::ipmb_memory_region(16, &mut r);
        c::ipmb_memory_region_drop(r);
        let _ = std::time::Instant::now();
    })
}
