//! The C++ interface on top of the C one (cc/shim.cc).
use crate::attach::data_cfg;
use mc::{check, eng, explore::*, guard, rt::*, *};

extern "C" {
    fn cc_attachments(depth: u32) -> u64;
    fn cc_registry(depth: u32) -> u64;
    fn cc_labels(id: *const i8, depth: u32) -> u64;
    fn cc_bus(id: *const i8) -> u64;
    fn cc_errors(id: *const i8) -> u64;
    fn cc_live() -> i64;
    fn cc_warm();
}
#[no_mangle]
extern "C" fn cc_fail(sig: *const i8, msg: *const i8) -> ! {
    let s = |p| unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().into_owned();
    eng::fail(&s(sig), &s(msg))
}
#[no_mangle]
extern "C" fn cc_note(msg: *const i8) {
    note(|| unsafe { std::ffi::CStr::from_ptr(msg) }.to_string_lossy().into_owned())
}
fn run(f: impl FnOnce() -> u64, precise: bool) {
    explore_on(false);
    guard::on();
    unsafe { cc_warm() };
    let (a, b) = (guard::live(), unsafe { cc_live() });
    let o = f();
    check!(unsafe { cc_live() } == b, "C++ memory is left", "{} blocks instead of {b}", unsafe { cc_live() });
    if precise {
        check!(guard::live() == a, "memory is left", "{} blocks instead of {a}", guard::live());
        check!(unsafe { eng::mc_fd_count(0) } == 0, "a descriptor is left", "{}", unsafe { eng::mc_fd_count(0) });
        check!(unsafe { eng::mc_maps() } == 0, "a mapping is left", "");
    }
    check!(unsafe { eng::mc_bad_close() } == 0, "a descriptor is closed twice", "");
    obs(o);
}
fn attachments(depth: u32) {
    run(|| unsafe { cc_attachments(depth) }, true)
}
fn registry(depth: u32) {
    run(|| unsafe { cc_registry(depth) }, true)
}
fn named(tag: &str, f: impl FnOnce(*const i8) -> u64) {
    let id = crate::c::cs(&ident(tag));
    run(|| f(id.as_ptr()), false)
}
fn labels(depth: u32) {
    named("xlab", |id| unsafe { cc_labels(id, depth) })
}
fn bus(_: u32) {
    named("xbus", |id| unsafe { cc_bus(id) })
}
fn errors(_: u32) {
    named("xerr", |id| unsafe { cc_errors(id) })
}

pub fn scns(t: Tier) -> Vec<Scn> {
    vec![
        scn("C20/cc-attachments", attachments, t.pick(5, 7), "all sequences of C++ calls on a message, objects and regions", data_cfg()),
        scn("C20/cc-registry", registry, t.pick(4, 6), "all sequences of C++ registry calls", data_cfg()),
        scn("C20/cc-labels", labels, t.pick(5, 6), "all C++ label expressions of a size, by whom they select", data_cfg()),
        scn("C20/cc-bus", bus, 0, "messages between C++ users", data_cfg()),
        scn("C20/cc-errors", errors, 0, "every result of the C++ calls", data_cfg()),
    ]
}
