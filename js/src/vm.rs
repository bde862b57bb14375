//! A stand-in for the JavaScript engine: the functions of Node-API that the binding and napi-rs call, on values
//! that live until `collect`, with an event loop the scenario steps by hand. Misuse of the interface (a settled
//! promise settled again, calls on another thread, use of a finished thread-safe function) fails the execution.
#![allow(non_snake_case, clippy::missing_safety_doc)]
use mc::{check, eng, fail, note, rt::Flag};
use napi_sys::*;
use std::{
    collections::VecDeque,
    ffi::{c_char, c_void, CStr},
    ptr, slice,
};

pub type V = *mut Value;
const OK: i32 = Status::napi_ok;

pub enum Kind {
    Undef,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Plain,
    Array(Vec<V>),
    Func { cb: napi_callback, data: *mut c_void, proto: Vec<(String, V)>, class: bool },
    Buffer { p: *mut u8, len: usize, own: Vec<u8>, fin: napi_finalize, hint: *mut c_void },
    External { p: *mut c_void, fin: napi_finalize, hint: *mut c_void },
    Error,
    Promise(Option<Result<V, V>>),
}
pub struct Value {
    pub kind: Kind,
    props: Vec<(String, V)>,
    class: V,
    wrap: Option<(*mut c_void, napi_finalize, *mut c_void)>,
    fins: Vec<(*mut c_void, napi_finalize, *mut c_void)>,
    collected: bool,
}
struct Ref {
    v: V,
    count: u32,
    dead: bool,
}
struct Deferred {
    promise: V,
    done: bool,
}
pub struct Ts {
    queue: VecDeque<usize>,
    func: V,
    threads: usize,
    max: usize,
    closing: bool,
    refd: bool,
    ended: bool,
    ctx: *mut c_void,
    fin: napi_finalize,
    fin_data: *mut c_void,
    call: napi_threadsafe_function_call_js,
    space: Flag,
}
struct Info {
    this: V,
    args: Vec<V>,
    data: *mut c_void,
    target: V,
}
struct Vm {
    js: i32,
    all: Vec<V>,
    pending: Option<V>,
    exports: V,
    global: V,
    tss: Vec<*mut Ts>,
    hooks: Vec<(unsafe extern "C" fn(*mut c_void), *mut c_void)>,
    wake: *mut i32,
    refs: Vec<*mut Ref>,
    settled: Vec<V>,
    works: VecDeque<*mut Work>,
    instance: *mut c_void,
    torn: bool,
    in_call: u32,
}
static mut VM: *mut Vm = ptr::null_mut();
fn vm() -> &'static mut Vm {
    unsafe { &mut *VM }
}
const ENV: napi_env = 0x1000 as napi_env;

fn alloc(kind: Kind) -> V {
    let v = Box::into_raw(Box::new(Value { kind, props: vec![], class: ptr::null_mut(), wrap: None, fins: vec![], collected: false }));
    vm().all.push(v);
    v
}
fn val(v: V) -> &'static mut Value {
    check!(!v.is_null(), "a null JavaScript value is used", "");
    let r = unsafe { &mut *v };
    check!(!r.collected, "a collected JavaScript value is used", "");
    r
}
fn on_js(what: &str) {
    check!(unsafe { eng::mc_self_id() } == vm().js, "the JavaScript engine is used on another thread", "{what}");
}

// ---- what scenarios use
/// Starts an engine with the binding loaded; the calling thread is the JavaScript thread.
pub fn start() {
    unsafe {
        VM = Box::into_raw(Box::new(Vm {
            js: eng::mc_self_id(),
            all: vec![],
            pending: None,
            exports: ptr::null_mut(),
            global: ptr::null_mut(),
            tss: vec![],
            hooks: vec![],
            wake: Box::into_raw(Box::new(0)),
            refs: vec![],
            settled: vec![],
            works: VecDeque::new(),
            instance: ptr::null_mut(),
            torn: false,
            in_call: 0,
        }));
        vm().exports = obj(&[]);
        vm().global = obj(&[]);
        napi::bindgen_prelude::napi_register_module_v1(ENV, vm().exports as _);
        if let Some(e) = vm().pending {
            fail!("the module does not load", "{}", show(e));
        }
    }
}
pub fn undef() -> V {
    alloc(Kind::Undef)
}
pub fn null() -> V {
    alloc(Kind::Null)
}
pub fn num(n: f64) -> V {
    alloc(Kind::Num(n))
}
pub fn boolean(b: bool) -> V {
    alloc(Kind::Bool(b))
}
pub fn string(s: &str) -> V {
    alloc(Kind::Str(s.into()))
}
pub fn obj(p: &[(&str, V)]) -> V {
    let o = alloc(Kind::Plain);
    for (k, v) in p {
        set(o, k, *v);
    }
    o
}
pub fn arr(v: Vec<V>) -> V {
    alloc(Kind::Array(v))
}
pub fn buf(d: &[u8]) -> V {
    let mut own = d.to_vec();
    let p = if d.is_empty() { ptr::null_mut() } else { own.as_mut_ptr() };
    alloc(Kind::Buffer { p, len: d.len(), own, fin: None, hint: ptr::null_mut() })
}
pub fn set(o: V, k: &str, v: V) {
    let o = val(o);
    match o.props.iter_mut().find(|x| x.0 == k) {
        Some(x) => x.1 = v,
        None => o.props.push((k.into(), v)),
    }
}
pub fn get(o: V, k: &str) -> V {
    let r = val(o);
    if let Some(x) = r.props.iter().find(|x| x.0 == k) {
        return x.1;
    }
    if !r.class.is_null() {
        if let Kind::Func { proto, .. } = &val(r.class).kind {
            if let Some(x) = proto.iter().find(|x| x.0 == k) {
                return x.1;
            }
        }
    }
    if let (Kind::Array(a), "length") = (&r.kind, k) {
        return num(a.len() as f64);
    }
    undef()
}
pub fn items(v: V) -> &'static Vec<V> {
    match &val(v).kind {
        Kind::Array(a) => a,
        _ => fail!("wrong result", "not an array: {}", show(v)),
    }
}
pub fn bytes(v: V) -> &'static [u8] {
    match &val(v).kind {
        Kind::Buffer { len: 0, .. } => &[],
        Kind::Buffer { p, len, .. } => unsafe { slice::from_raw_parts(*p, *len) },
        _ => fail!("wrong result", "not a buffer: {}", show(v)),
    }
}
pub fn number(v: V) -> f64 {
    match &val(v).kind {
        Kind::Num(n) => *n,
        _ => fail!("wrong result", "not a number: {}", show(v)),
    }
}
pub fn is_undef(v: V) -> bool {
    matches!(val(v).kind, Kind::Undef)
}
pub fn text(v: V) -> String {
    match &val(v).kind {
        Kind::Str(s) => s.clone(),
        _ => fail!("wrong result", "not a string: {}", show(v)),
    }
}
pub fn show(v: V) -> String {
    match &val(v).kind {
        Kind::Undef => "undefined".into(),
        Kind::Null => "null".into(),
        Kind::Bool(b) => b.to_string(),
        Kind::Num(n) => n.to_string(),
        Kind::Str(s) => s.clone(),
        Kind::Array(a) => a.iter().map(|x| show(*x)).collect::<Vec<_>>().join(","),
        Kind::Func { .. } => "function".into(),
        Kind::Buffer { .. } => "[object Uint8Array]".into(),
        Kind::Error => format!("Error: {}", message(v)),
        Kind::Promise(_) => "[object Promise]".into(),
        _ => "[object Object]".into(),
    }
}
/// The message of an error.
pub fn message(v: V) -> String {
    check!(matches!(val(v).kind, Kind::Error), "not an Error", "{}", if matches!(val(v).kind, Kind::Error) { String::new() } else { show(v) });
    match &val(get(v, "message")).kind {
        Kind::Str(s) => s.clone(),
        _ => String::new(),
    }
}
fn invoke(f: V, this: V, args: &[V], target: V) -> Result<V, V> {
    on_js("a call");
    let Kind::Func { cb, data, .. } = &val(f).kind else {
        return Err(error("not a function"));
    };
    let info = Info { this, args: args.to_vec(), data: *data, target };
    vm().in_call += 1;
    let r = match cb {
        Some(cb) => unsafe { cb(ENV, &info as *const Info as napi_callback_info) as V },
        None => ptr::null_mut(),
    };
    vm().in_call -= 1;
    match vm().pending.take() {
        Some(e) => Err(e),
        None => Ok(if r.is_null() { undef() } else { r }),
    }
}
pub fn call(this: V, name: &str, args: &[V]) -> Result<V, V> {
    let f = get(this, name);
    invoke(f, this, args, ptr::null_mut())
}
pub fn exports() -> V {
    vm().exports
}
/// A function the module exports.
pub fn export(name: &str) -> V {
    get(vm().exports, name)
}
pub fn new(class: V, args: &[V]) -> Result<V, V> {
    let o = alloc(Kind::Plain);
    val(o).class = class;
    let r = invoke(class, o, args, class)?;
    Ok(if is_undef(r) { o } else { r })
}
fn error(m: &str) -> V {
    let e = alloc(Kind::Error);
    set(e, "message", string(m));
    e
}
#[derive(Clone, Copy)]
pub enum State {
    Pending,
    Resolved(V),
    Rejected(V),
}
pub fn state(p: V) -> State {
    match &val(p).kind {
        Kind::Promise(None) => State::Pending,
        Kind::Promise(Some(Ok(v))) => State::Resolved(*v),
        Kind::Promise(Some(Err(v))) => State::Rejected(*v),
        _ => fail!("wrong result", "not a promise: {}", show(p)),
    }
}
/// Promises in the order in which they were settled.
pub fn settled() -> &'static Vec<V> {
    &vm().settled
}
fn end_ts(t: &mut Ts) {
    check!(!t.ended, "a thread-safe function ends twice", "");
    t.ended = true;
    t.closing = true;
    if let Some(f) = t.fin {
        unsafe { f(ENV, t.fin_data, t.ctx) }
    }
}
/// Work for the event loop?
pub fn ready() -> bool {
    vm().tss.iter().any(|&t| {
        let t = unsafe { &*t };
        !t.ended && (!t.queue.is_empty() || t.threads == 0 || t.closing)
    }) || !vm().works.is_empty()
}
/// One step of the event loop.
pub fn step() -> bool {
    on_js("the event loop");
    if let Some(w) = vm().works.pop_front() {
        unsafe {
            let w = &mut *w;
            // the pool's thread: the engine must not be used, which napi forbids but cannot be seen here
            (w.execute.unwrap())(ENV, w.data);
            if let Some(c) = w.complete {
                c(ENV, OK, w.data)
            }
        }
        return true;
    }
    for &t in &vm().tss {
        let t = unsafe { &mut *t };
        if t.ended {
            continue;
        }
        if t.closing {
            end_ts(t);
            return true;
        }
        if let Some(d) = t.queue.pop_front() {
            t.space.set();
            unsafe { (t.call.unwrap())(ENV, t.func as napi_value, t.ctx, d as *mut c_void) };
            if let Some(e) = vm().pending.take() {
                fail!("an uncaught exception in the event loop", "{}", show(e));
            }
            return true;
        }
        if t.threads == 0 {
            end_ts(t);
            return true;
        }
    }
    false
}
pub fn run() -> usize {
    let mut n = 0;
    while step() {
        n += 1;
        check!(n < 100_000, "the event loop does not come to rest", "");
    }
    n
}
/// Waits for work and does it.
pub fn wait() {
    while !ready() {
        unsafe {
            ptr::write_volatile(vm().wake, 0);
            if !ready() {
                eng::mc_wait_flag(vm().wake);
            }
        }
    }
    run();
}
/// Things that keep the program running: referenced thread-safe functions that have not ended.
pub fn alive() -> usize {
    vm().tss.iter().filter(|&&t| unsafe { !(*t).ended && (*t).refd }).count()
}
/// Thread-safe functions that have not ended (one belongs to napi-rs).
pub fn functions() -> usize {
    vm().tss.iter().filter(|&&t| unsafe { !(*t).ended }).count()
}
fn finalize(v: V) {
    let r = val(v);
    for (p, f, h) in r.wrap.take().into_iter().chain(std::mem::take(&mut r.fins)) {
        if let Some(f) = f {
            unsafe { f(ENV, p, h) }
        }
    }
    match &r.kind {
        Kind::Buffer { p, fin: Some(f), hint, .. } => unsafe { f(ENV, *p as _, *hint) },
        Kind::External { p, fin: Some(f), hint } => unsafe { f(ENV, *p, *hint) },
        _ => (),
    }
    r.collected = true;
}
/// The garbage collector finds this one.
pub fn collect(v: V) {
    on_js("the garbage collector");
    check!(!vm().refs.iter().any(|&r| unsafe { (*r).v == v && (*r).count > 0 && !(*r).dead }), "a JavaScript value is held for ever", "{}", show(v));
    finalize(v)
}
/// The garbage collector finds everything that owns something.
pub fn collect_all() {
    for v in vm().all.clone() {
        let r = unsafe { &*v };
        if r.collected || (matches!(r.kind, Kind::Func { .. })) {
            continue;
        }
        if r.wrap.is_some() || !r.fins.is_empty() || matches!(r.kind, Kind::Buffer { fin: Some(_), .. } | Kind::External { .. }) {
            collect(v)
        }
    }
}
/// References held strongly, except those of classes.
pub fn held() -> usize {
    vm().refs.iter().filter(|&&r| unsafe { !(*r).dead && (*r).count > 0 && !(*r).v.is_null() && !matches!((*(*r).v).kind, Kind::Func { class: true, .. }) }).count()
}
/// The environment ends: hooks in reverse order, then the thread-safe functions.
pub fn teardown() {
    on_js("the end");
    vm().torn = true;
    enum H {
        Hook(unsafe extern "C" fn(*mut c_void), *mut c_void),
        Ts(*mut Ts),
    }
    let mut all: Vec<H> = vec![];
    // thread-safe functions register their hook when they are created
    for (f, d) in std::mem::take(&mut vm().hooks) {
        if f as usize == ts_hook as *const () as usize {
            all.push(H::Ts(d as _));
        } else {
            all.push(H::Hook(f, d));
        }
    }
    for h in all.into_iter().rev() {
        match h {
            H::Hook(f, d) => unsafe { f(d) },
            H::Ts(t) => {
                let t = unsafe { &mut *t };
                if !t.ended {
                    t.closing = true;
                    // what is still queued is handed back without an environment
                    let q: Vec<usize> = t.queue.drain(..).collect();
                    for d in q {
                        unsafe { (t.call.unwrap())(ptr::null_mut(), ptr::null_mut(), t.ctx, d as *mut c_void) }
                    }
                    end_ts(t);
                }
            }
        }
    }
}
unsafe extern "C" fn ts_hook(_: *mut c_void) {}

// ---- Node-API
macro_rules! api {
    ($($name:ident($($a:ident: $t:ty),*) $b:block)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(env: napi_env, $($a: $t),*) -> napi_status {
            if env.is_null() {
                return Status::napi_invalid_arg;
            }
            on_js(stringify!($name));
            $b
        }
    )* };
}
unsafe fn put(r: *mut napi_value, v: V) -> i32 {
    if !r.is_null() {
        *r = v as napi_value;
    }
    OK
}
unsafe fn st(p: *const c_char, n: usize) -> String {
    if p.is_null() {
        return String::new();
    }
    let b = if n == usize::MAX { CStr::from_ptr(p).to_bytes() } else { slice::from_raw_parts(p as *const u8, n) };
    String::from_utf8_lossy(b).into_owned()
}
fn v(x: napi_value) -> V {
    x as V
}
unsafe fn mkerr(code: napi_value, msg: napi_value, r: *mut napi_value) -> i32 {
    if !matches!(val(v(msg)).kind, Kind::Str(_)) {
        return Status::napi_string_expected;
    }
    let e = alloc(Kind::Error);
    set(e, "message", v(msg));
    if !code.is_null() {
        set(e, "code", v(code));
    }
    put(r, e)
}
fn to_int(x: f64) -> i64 {
    if !x.is_finite() {
        0
    } else {
        (x.trunc() % 4294967296.0) as i64
    }
}
struct Work {
    execute: napi_async_execute_callback,
    complete: napi_async_complete_callback,
    data: *mut c_void,
}
fn settle(d: napi_deferred, r: Result<V, V>) -> i32 {
    let d = unsafe { &mut *(d as *mut Deferred) };
    check!(!d.done, "a receive is settled twice", "{}", match r { Ok(v) | Err(v) => show(v) });
    d.done = true;
    let Kind::Promise(s) = &mut val(d.promise).kind else { fail!("harness", "no promise") };
    *s = Some(r);
    vm().settled.push(d.promise);
    OK
}
api! {
    napi_get_undefined(r: *mut napi_value) { put(r, undef()) }
    napi_get_null(r: *mut napi_value) { put(r, null()) }
    napi_get_global(r: *mut napi_value) { put(r, vm().global) }
    napi_get_boolean(b: bool, r: *mut napi_value) { put(r, boolean(b)) }
    napi_create_object(r: *mut napi_value) { put(r, obj(&[])) }
    napi_create_array(r: *mut napi_value) { put(r, arr(vec![])) }
    napi_create_array_with_length(n: usize, r: *mut napi_value) { put(r, arr((0..n).map(|_| undef()).collect())) }
    napi_create_double(x: f64, r: *mut napi_value) { put(r, num(x)) }
    napi_create_int32(x: i32, r: *mut napi_value) { put(r, num(x as f64)) }
    napi_create_uint32(x: u32, r: *mut napi_value) { put(r, num(x as f64)) }
    napi_create_int64(x: i64, r: *mut napi_value) { put(r, num(x as f64)) }
    napi_create_string_utf8(p: *const c_char, n: usize, r: *mut napi_value) { put(r, string(&st(p, n))) }
    napi_create_string_latin1(p: *const c_char, n: usize, r: *mut napi_value) { put(r, string(&st(p, n))) }
    napi_create_function(name: *const c_char, n: usize, cb: napi_callback, data: *mut c_void, r: *mut napi_value) {
        let _ = st(name, n);
        put(r, alloc(Kind::Func { cb, data, proto: vec![], class: false }))
    }
    napi_create_error(code: napi_value, msg: napi_value, r: *mut napi_value) { mkerr(code, msg, r) }
    napi_create_type_error(code: napi_value, msg: napi_value, r: *mut napi_value) { mkerr(code, msg, r) }
    napi_create_range_error(code: napi_value, msg: napi_value, r: *mut napi_value) { mkerr(code, msg, r) }
    napi_typeof(x: napi_value, r: *mut napi_valuetype) {
        *r = match val(v(x)).kind {
            Kind::Undef => ValueType::napi_undefined,
            Kind::Null => ValueType::napi_null,
            Kind::Bool(_) => ValueType::napi_boolean,
            Kind::Num(_) => ValueType::napi_number,
            Kind::Str(_) => ValueType::napi_string,
            Kind::Func { .. } => ValueType::napi_function,
            Kind::External { .. } => ValueType::napi_external,
            _ => ValueType::napi_object,
        };
        OK
    }
    napi_get_value_double(x: napi_value, r: *mut f64) { match val(v(x)).kind { Kind::Num(n) => { *r = n; OK } _ => Status::napi_number_expected } }
    napi_get_value_int32(x: napi_value, r: *mut i32) { match val(v(x)).kind { Kind::Num(n) => { *r = to_int(n) as i32; OK } _ => Status::napi_number_expected } }
    napi_get_value_uint32(x: napi_value, r: *mut u32) { match val(v(x)).kind { Kind::Num(n) => { *r = to_int(n) as u32; OK } _ => Status::napi_number_expected } }
    napi_get_value_int64(x: napi_value, r: *mut i64) { match val(v(x)).kind { Kind::Num(n) => { *r = if n.is_finite() { n as i64 } else { 0 }; OK } _ => Status::napi_number_expected } }
    napi_get_value_bool(x: napi_value, r: *mut bool) { match val(v(x)).kind { Kind::Bool(b) => { *r = b; OK } _ => Status::napi_boolean_expected } }
    napi_get_value_string_utf8(x: napi_value, b: *mut c_char, n: usize, r: *mut usize) {
        let Kind::Str(s) = &val(v(x)).kind else { return Status::napi_string_expected };
        if b.is_null() {
            *r = s.len();
        } else if n > 0 {
            let mut k = s.len().min(n - 1);
            while !s.is_char_boundary(k) { k -= 1 }
            ptr::copy_nonoverlapping(s.as_ptr(), b as *mut u8, k);
            *b.add(k) = 0;
            if !r.is_null() { *r = k }
        } else if !r.is_null() { *r = 0 }
        OK
    }
    napi_coerce_to_bool(x: napi_value, r: *mut napi_value) {
        put(r, boolean(match &val(v(x)).kind {
            Kind::Undef | Kind::Null => false,
            Kind::Bool(b) => *b,
            Kind::Num(n) => *n != 0.0 && !n.is_nan(),
            Kind::Str(s) => !s.is_empty(),
            _ => true,
        }))
    }
    napi_coerce_to_number(x: napi_value, r: *mut napi_value) {
        put(r, num(match &val(v(x)).kind {
            Kind::Null => 0.0,
            Kind::Bool(b) => *b as u8 as f64,
            Kind::Num(n) => *n,
            Kind::Str(s) => s.trim().parse().unwrap_or(f64::NAN),
            _ => f64::NAN,
        }))
    }
    napi_coerce_to_string(x: napi_value, r: *mut napi_value) { put(r, string(&show(v(x)))) }
    napi_coerce_to_object(x: napi_value, r: *mut napi_value) { put(r, v(x)) }
    napi_set_named_property(o: napi_value, k: *const c_char, x: napi_value) { set(v(o), &st(k, usize::MAX), v(x)); OK }
    napi_get_named_property(o: napi_value, k: *const c_char, r: *mut napi_value) {
        if matches!(val(v(o)).kind, Kind::Undef | Kind::Null) { return Status::napi_object_expected }
        put(r, get(v(o), &st(k, usize::MAX)))
    }
    napi_has_named_property(o: napi_value, k: *const c_char, r: *mut bool) { *r = !is_undef(get(v(o), &st(k, usize::MAX))); OK }
    napi_set_property(o: napi_value, k: napi_value, x: napi_value) { set(v(o), &show(v(k)), v(x)); OK }
    napi_get_property(o: napi_value, k: napi_value, r: *mut napi_value) { put(r, get(v(o), &show(v(k)))) }
    napi_has_property(o: napi_value, k: napi_value, r: *mut bool) { *r = !is_undef(get(v(o), &show(v(k)))); OK }
    napi_has_own_property(o: napi_value, k: napi_value, r: *mut bool) { *r = val(v(o)).props.iter().any(|x| x.0 == show(v(k))); OK }
    napi_set_element(o: napi_value, i: u32, x: napi_value) {
        let Kind::Array(a) = &mut val(v(o)).kind else { return Status::napi_array_expected };
        while a.len() <= i as usize { a.push(undef()) }
        a[i as usize] = v(x);
        OK
    }
    napi_get_element(o: napi_value, i: u32, r: *mut napi_value) {
        let Kind::Array(a) = &val(v(o)).kind else { return Status::napi_array_expected };
        put(r, a.get(i as usize).copied().unwrap_or_else(undef))
    }
    napi_is_array(x: napi_value, r: *mut bool) { *r = matches!(val(v(x)).kind, Kind::Array(_)); OK }
    napi_get_array_length(x: napi_value, r: *mut u32) {
        let Kind::Array(a) = &val(v(x)).kind else { return Status::napi_array_expected };
        *r = a.len() as u32;
        OK
    }
    napi_strict_equals(a: napi_value, b: napi_value, r: *mut bool) { *r = a == b; OK }
    napi_call_function(this: napi_value, f: napi_value, n: usize, a: *const napi_value, r: *mut napi_value) {
        if vm().pending.is_some() { return Status::napi_pending_exception }
        let args: Vec<V> = (0..n).map(|i| v(*a.add(i))).collect();
        match invoke(v(f), v(this), &args, ptr::null_mut()) {
            Ok(x) => put(r, x),
            Err(e) => { vm().pending = Some(e); Status::napi_pending_exception }
        }
    }
    napi_new_instance(c: napi_value, n: usize, a: *const napi_value, r: *mut napi_value) {
        if vm().pending.is_some() { return Status::napi_pending_exception }
        let args: Vec<V> = (0..n).map(|i| v(*a.add(i))).collect();
        match new(v(c), &args) {
            Ok(x) => put(r, x),
            Err(e) => { vm().pending = Some(e); Status::napi_pending_exception }
        }
    }
    napi_instanceof(o: napi_value, c: napi_value, r: *mut bool) { *r = val(v(o)).class == v(c); OK }
    napi_get_cb_info(i: napi_callback_info, n: *mut usize, a: *mut napi_value, this: *mut napi_value, d: *mut *mut c_void) {
        let i = &*(i as *const Info);
        if !n.is_null() {
            if !a.is_null() {
                for k in 0..*n {
                    *a.add(k) = i.args.get(k).copied().unwrap_or_else(undef) as napi_value;
                }
            }
            *n = i.args.len();
        }
        if !this.is_null() { *this = i.this as napi_value }
        if !d.is_null() { *d = i.data }
        OK
    }
    napi_get_new_target(i: napi_callback_info, r: *mut napi_value) { *r = (*(i as *const Info)).target as napi_value; OK }
    napi_define_class(name: *const c_char, n: usize, cb: napi_callback, data: *mut c_void, np: usize, p: *const napi_property_descriptor, r: *mut napi_value) {
        let _ = st(name, n);
        let c = alloc(Kind::Func { cb, data, proto: vec![], class: true });
        for i in 0..np {
            let d = &*p.add(i);
            let k = if d.utf8name.is_null() { show(v(d.name)) } else { st(d.utf8name, usize::MAX) };
            let x = if d.method.is_some() { alloc(Kind::Func { cb: d.method, data: d.data, proto: vec![], class: false }) } else if d.value.is_null() { undef() } else { v(d.value) };
            if d.attributes & PropertyAttributes::static_ != 0 {
                set(c, &k, x);
            } else if let Kind::Func { proto, .. } = &mut val(c).kind {
                proto.push((k, x));
            }
        }
        put(r, c)
    }
    napi_define_properties(o: napi_value, np: usize, p: *const napi_property_descriptor) {
        for i in 0..np {
            let d = &*p.add(i);
            let k = if d.utf8name.is_null() { show(v(d.name)) } else { st(d.utf8name, usize::MAX) };
            let x = if d.method.is_some() { alloc(Kind::Func { cb: d.method, data: d.data, proto: vec![], class: false }) } else if d.value.is_null() { undef() } else { v(d.value) };
            set(v(o), &k, x);
        }
        OK
    }
    napi_wrap(o: napi_value, p: *mut c_void, fin: napi_finalize, hint: *mut c_void, r: *mut napi_ref) {
        let x = val(v(o));
        if x.wrap.is_some() { return Status::napi_invalid_arg }
        x.wrap = Some((p, fin, hint));
        if !r.is_null() { *r = mkref(v(o), 0) }
        OK
    }
    napi_unwrap(o: napi_value, r: *mut *mut c_void) {
        match &val(v(o)).wrap { Some(w) => { *r = w.0; OK } None => Status::napi_invalid_arg }
    }
    napi_remove_wrap(o: napi_value, r: *mut *mut c_void) {
        match val(v(o)).wrap.take() { Some(w) => { if !r.is_null() { *r = w.0 } OK } None => Status::napi_invalid_arg }
    }
    napi_add_finalizer(o: napi_value, p: *mut c_void, fin: napi_finalize, hint: *mut c_void, r: *mut napi_ref) {
        val(v(o)).fins.push((p, fin, hint));
        if !r.is_null() { *r = mkref(v(o), 0) }
        OK
    }
    napi_create_external(p: *mut c_void, fin: napi_finalize, hint: *mut c_void, r: *mut napi_value) { put(r, alloc(Kind::External { p, fin, hint })) }
    napi_get_value_external(x: napi_value, r: *mut *mut c_void) { match val(v(x)).kind { Kind::External { p, .. } => { *r = p; OK } _ => Status::napi_invalid_arg } }
    napi_create_reference(x: napi_value, n: u32, r: *mut napi_ref) {
        let x = v(x);
        if !matches!(val(x).kind, Kind::Plain | Kind::Array(_) | Kind::Func { .. } | Kind::Buffer { .. } | Kind::Error | Kind::Promise(_) | Kind::External { .. }) { return Status::napi_invalid_arg }
        *r = mkref(x, n);
        OK
    }
    napi_delete_reference(r: napi_ref) { rf(r).dead = true; OK }
    napi_reference_ref(r: napi_ref, n: *mut u32) { rf(r).count += 1; if !n.is_null() { *n = rf(r).count } OK }
    napi_reference_unref(r: napi_ref, n: *mut u32) {
        if rf(r).count == 0 { return Status::napi_generic_failure }
        rf(r).count -= 1;
        if !n.is_null() { *n = rf(r).count }
        OK
    }
    napi_get_reference_value(r: napi_ref, x: *mut napi_value) { *x = if (*rf(r).v).collected { ptr::null_mut() } else { rf(r).v as napi_value }; OK }
    napi_open_handle_scope(r: *mut napi_handle_scope) { *r = 8 as _; OK }
    napi_close_handle_scope(s: napi_handle_scope) { let _ = s; OK }
    napi_open_escapable_handle_scope(r: *mut napi_escapable_handle_scope) { *r = 8 as _; OK }
    napi_close_escapable_handle_scope(s: napi_escapable_handle_scope) { let _ = s; OK }
    napi_escape_handle(s: napi_escapable_handle_scope, x: napi_value, r: *mut napi_value) { let _ = s; *r = x; OK }
    napi_throw(e: napi_value) { vm().pending = Some(v(e)); OK }
    napi_throw_error(code: *const c_char, m: *const c_char) { throw(code, m) }
    napi_throw_type_error(code: *const c_char, m: *const c_char) { throw(code, m) }
    napi_throw_range_error(code: *const c_char, m: *const c_char) { throw(code, m) }
    napi_is_error(x: napi_value, r: *mut bool) { *r = matches!(val(v(x)).kind, Kind::Error); OK }
    napi_is_exception_pending(r: *mut bool) { *r = vm().pending.is_some(); OK }
    napi_get_and_clear_last_exception(r: *mut napi_value) { put(r, vm().pending.take().unwrap_or_else(undef)) }
    napi_create_promise(d: *mut napi_deferred, p: *mut napi_value) {
        let pr = alloc(Kind::Promise(None));
        *d = Box::into_raw(Box::new(Deferred { promise: pr, done: false })) as napi_deferred;
        put(p, pr)
    }
    napi_resolve_deferred(d: napi_deferred, x: napi_value) { settle(d, Ok(v(x))) }
    napi_reject_deferred(d: napi_deferred, x: napi_value) { settle(d, Err(v(x))) }
    napi_is_promise(x: napi_value, r: *mut bool) { *r = matches!(val(v(x)).kind, Kind::Promise(_)); OK }
    napi_create_buffer(n: usize, p: *mut *mut c_void, r: *mut napi_value) {
        let b = buf(&vec![0; n]);
        if !p.is_null() { *p = bytes(b).as_ptr() as *mut c_void }
        put(r, b)
    }
    napi_create_buffer_copy(n: usize, d: *const c_void, p: *mut *mut c_void, r: *mut napi_value) {
        let b = buf(slice::from_raw_parts(d as *const u8, n));
        if !p.is_null() { *p = bytes(b).as_ptr() as *mut c_void }
        put(r, b)
    }
    napi_create_external_buffer(n: usize, p: *mut c_void, fin: napi_finalize, hint: *mut c_void, r: *mut napi_value) {
        put(r, alloc(Kind::Buffer { p: p as _, len: n, own: vec![], fin, hint }))
    }
    napi_is_buffer(x: napi_value, r: *mut bool) { *r = matches!(val(v(x)).kind, Kind::Buffer { .. }); OK }
    napi_is_typedarray(x: napi_value, r: *mut bool) { *r = matches!(val(v(x)).kind, Kind::Buffer { .. }); OK }
    napi_get_buffer_info(x: napi_value, p: *mut *mut c_void, n: *mut usize) {
        let Kind::Buffer { p: q, len, own, .. } = &val(v(x)).kind else { return Status::napi_invalid_arg };
        let _ = own;
        if !p.is_null() { *p = *q as _ }
        if !n.is_null() { *n = *len }
        OK
    }
    napi_create_async_work(res: napi_value, name: napi_value, execute: napi_async_execute_callback, complete: napi_async_complete_callback, data: *mut c_void, r: *mut napi_async_work) {
        let _ = (res, name);
        *r = Box::into_raw(Box::new(Work { execute, complete, data })) as _;
        OK
    }
    napi_delete_async_work(w: napi_async_work) { let _ = w; OK }
    napi_queue_async_work(w: napi_async_work) { vm().works.push_back(w as _); OK }
    napi_add_env_cleanup_hook(f: Option<unsafe extern "C" fn(*mut c_void)>, d: *mut c_void) { vm().hooks.push((f.unwrap(), d)); OK }
    napi_remove_env_cleanup_hook(f: Option<unsafe extern "C" fn(*mut c_void)>, d: *mut c_void) {
        vm().hooks.retain(|h| !(h.0 as usize == f.unwrap() as usize && h.1 == d));
        OK
    }
    napi_set_instance_data(d: *mut c_void, f: napi_finalize, h: *mut c_void) { let _ = (f, h); vm().instance = d; OK }
    napi_get_instance_data(r: *mut *mut c_void) { *r = vm().instance; OK }
    napi_get_version(r: *mut u32) { *r = 9; OK }
    napi_adjust_external_memory(n: i64, r: *mut i64) { let _ = n; if !r.is_null() { *r = 0 } OK }
    napi_create_threadsafe_function(func: napi_value, res: napi_value, name: napi_value, max: usize, threads: usize, fin_data: *mut c_void, fin: napi_finalize, ctx: *mut c_void, call: napi_threadsafe_function_call_js, r: *mut napi_threadsafe_function) {
        let _ = (res, name);
        if threads == 0 || (func.is_null() && call.is_none()) { return Status::napi_invalid_arg }
        let t = Box::into_raw(Box::new(Ts { queue: VecDeque::new(), func: v(func), threads, max, closing: false, refd: true, ended: false, ctx, fin, fin_data, call, space: Flag::new() }));
        vm().tss.push(t);
        vm().hooks.push((ts_hook, t as _));
        *r = t as _;
        OK
    }
}
// these two are for the JavaScript thread, whatever the environment
#[no_mangle]
pub unsafe extern "C" fn napi_ref_threadsafe_function(_: napi_env, f: napi_threadsafe_function) -> napi_status {
    on_js("napi_ref_threadsafe_function");
    ts(f, "ref").refd = true;
    OK
}
#[no_mangle]
pub unsafe extern "C" fn napi_unref_threadsafe_function(_: napi_env, f: napi_threadsafe_function) -> napi_status {
    on_js("napi_unref_threadsafe_function");
    ts(f, "unref").refd = false;
    OK
}
// these are for every thread
fn ts(f: napi_threadsafe_function, what: &str) -> &'static mut Ts {
    let t = unsafe { &mut *(f as *mut Ts) };
    check!(!t.ended || vm().torn, "a thread-safe function is used after its end", "{what}");
    t
}
fn wake() {
    unsafe { eng::mc_set_flag(vm().wake) }
}
#[no_mangle]
pub unsafe extern "C" fn napi_call_threadsafe_function(f: napi_threadsafe_function, data: *mut c_void, mode: napi_threadsafe_function_call_mode) -> napi_status {
    eng::mc_yield();
    let t = ts(f, "call");
    if t.max > 0 {
        while t.queue.len() >= t.max && !t.closing {
            if mode == ThreadsafeFunctionCallMode::nonblocking {
                return Status::napi_queue_full;
            }
            check!(eng::mc_self_id() != vm().js, "the JavaScript thread waits for itself", "a full queue");
            t.space = Flag::new();
            t.space.wait();
        }
    }
    if t.closing {
        if t.threads == 0 {
            return Status::napi_invalid_arg;
        }
        t.threads -= 1;
        return Status::napi_closing;
    }
    t.queue.push_back(data as usize);
    note!("queued for the event loop");
    wake();
    OK
}
#[no_mangle]
pub unsafe extern "C" fn napi_acquire_threadsafe_function(f: napi_threadsafe_function) -> napi_status {
    eng::mc_yield();
    let t = ts(f, "acquire");
    if t.closing {
        return Status::napi_closing;
    }
    t.threads += 1;
    OK
}
#[no_mangle]
pub unsafe extern "C" fn napi_release_threadsafe_function(f: napi_threadsafe_function, mode: napi_threadsafe_function_release_mode) -> napi_status {
    eng::mc_yield();
    let t = ts(f, "release");
    if t.threads == 0 {
        return Status::napi_invalid_arg;
    }
    t.threads -= 1;
    if t.threads == 0 || mode == ThreadsafeFunctionReleaseMode::abort {
        if !t.closing {
            t.closing = mode == ThreadsafeFunctionReleaseMode::abort;
        }
        wake();
    }
    OK
}
#[no_mangle]
pub unsafe extern "C" fn napi_get_threadsafe_function_context(f: napi_threadsafe_function, r: *mut *mut c_void) -> napi_status {
    *r = ts(f, "context").ctx;
    OK
}
#[no_mangle]
pub unsafe extern "C" fn napi_fatal_error(loc: *const c_char, n: usize, m: *const c_char, k: usize) -> ! {
    fail!("napi_fatal_error", "{}: {}", st(loc, n), st(m, k))
}
#[no_mangle]
pub unsafe extern "C" fn napi_fatal_exception(_: napi_env, e: napi_value) -> napi_status {
    fail!("napi_fatal_exception", "{}", show(v(e)))
}
unsafe fn mkref(x: V, n: u32) -> napi_ref {
    let r = Box::into_raw(Box::new(Ref { v: x, count: n, dead: false }));
    vm().refs.push(r);
    r as napi_ref
}
unsafe fn rf(r: napi_ref) -> &'static mut Ref {
    let r = &mut *(r as *mut Ref);
    check!(!r.dead, "a deleted reference is used", "");
    r
}
unsafe fn throw(code: *const c_char, m: *const c_char) -> i32 {
    let e = error(&st(m, usize::MAX));
    if !code.is_null() {
        set(e, "code", string(&st(code, usize::MAX)));
    }
    vm().pending = Some(e);
    OK
}
