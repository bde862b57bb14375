//! Mappings and registries through the C calls.
use crate::{attach::data_cfg, c::*};
use mc::{check, eng, explore::*, fail, guard, note, rt::*, *};
use std::{ffi::c_void, ptr, time::Duration};

const SIZES: [usize; 8] = [0, 1, 100, 4084, 4085, 4096, 9000, 70_000];

fn maps(_: u32) {
    explore_on(false);
    guard::on();
    let size = SIZES[choose(SIZES.len())];
    let mut r = BAD;
    unsafe {
        check!(ipmb_memory_region(size, &mut r) == 0, "no region", "size {size}");
        check!(ipmb_memory_region_ref_count(&r) == 1, "wrong reference count", "");
        let mut vals: Vec<usize> = vec![0, 1, 12, 4083, 4084, 4085, 8180, size / 2, size.wrapping_sub(1), size, size + 1, usize::MAX, usize::MAX - 1, usize::MAX - 12, 1 << 63, (1 << 63) - 1, 1 << 47];
        vals.sort();
        vals.dedup();
        let off = vals[choose(vals.len())];
        for &len in vals.iter().chain([usize::MAX - 4095].iter()) {
            let len = len as isize;
            let want = if len < 0 { if off <= size { Some(size - off) } else { None } } else if off as u128 + len as u128 <= size as u128 { Some(len as usize) } else { None };
            for null in [false, true] {
                // the mapping of a clone is another view of the same bytes
                let mut c = BAD;
                check!(ipmb_memory_region_clone(&r, &mut c) == 0, "clone failed", "");
                note!("map {off} {len} of {size}");
                let mut real = -77;
                let p = ipmb_memory_region_map(&mut r, off, len, if null { ptr::null_mut() } else { &mut real });
                match want {
                    None => {
                        check!(p.is_null(), "a range outside the region was mapped", "{off} {len} of {size}");
                        check!(real == -77, "an out-parameter is written on failure", "{real}");
                    }
                    Some(n) => {
                        check!(!p.is_null(), "an in-range mapping was refused", "{off} {len} of {size}");
                        check!(null || real == n as isize, "a mapping of another size", "{off} {len} of {size}: {real} instead of {n}");
                        for i in (0..n).step_by(1 + n / 50).chain((n > 0).then(|| n - 1)) {
                            *p.add(i) = off.wrapping_add(i).wrapping_add(len as usize) as u8;
                        }
                        let q = ipmb_memory_region_map(&mut c, 0, -1, ptr::null_mut());
                        check!(!q.is_null(), "an in-range mapping was refused", "all of {size}");
                        for i in (0..n).step_by(1 + n / 50).chain((n > 0).then(|| n - 1)) {
                            check!(*q.add(off + i) == off.wrapping_add(i).wrapping_add(len as usize) as u8, "a mapping of other bytes", "byte {i} of {off} {len} of {size}");
                        }
                    }
                }
                ipmb_memory_region_drop(c);
            }
        }
        ipmb_memory_region_drop(r);
        check!(eng::mc_fd_count(0) == 0 && eng::mc_maps() == 0, "something is left", "{} descriptors, {} mappings", eng::mc_fd_count(0), eng::mc_maps());
        // impossible sizes
        for s in [usize::MAX, usize::MAX - 11, 1 << 63] {
            let mut r = BAD;
            let c = ipmb_memory_region(s, &mut r);
            check!(c == -1 && r == BAD, "an impossible region", "size {s:#x}: code {c}");
            let mut g = ipmb_memory_registry();
            let c = ipmb_memory_registry_alloc(&mut g, s, ptr::null(), &mut r);
            check!(c == -1 && r == BAD, "an impossible region", "size {s:#x}: code {c}");
            ipmb_memory_registry_drop(g);
        }
        check!(eng::mc_fd_count(0) == 0, "something is left", "");
    }
    obs(size as u64);
}

struct Ctx {
    n: u32,
    calls: Sh<Vec<u32>>,
}
extern "C" fn freed(p: *mut c_void) {
    let c = unsafe { &*(p as *const Ctx) };
    c.calls.get().push(c.n);
}
struct Alloc {
    h: H,
    n: u32,
    size: usize,
    callback: bool,
    dropped: bool,
    clone: Option<H>,
}

/// All sequences of allocations, drops, clones, maintenance and time.
fn registry(depth: u32) {
    explore_on(false);
    guard::on();
    let start = guard::live();
    let calls = Sh::new(Vec::<u32>::with_capacity(64));
    let ctxs: Vec<Ctx> = (0..16).map(|n| Ctx { n, calls }).collect();
    let mut g = unsafe { ipmb_memory_registry() };
    let mut v: Vec<Alloc> = vec![];
    let tags = [None, Some(cs("x")), Some(cs("yy"))];
    for _ in 0..depth {
        let ncalls = calls.get().len();
        match choose(7) {
            0 | 1 if v.len() < 6 => {
                let with = choose(3);
                let size = [100, 150, 5000][choose(3)];
                let tag = &tags[choose(2)];
                let n = v.len() as u32;
                let mut h = BAD;
                let t = tag.as_ref().map_or(ptr::null(), |t| t.as_ptr());
                note!("alloc {n}: {size} {tag:?} {}", ["", "with callback", "with a null callback"][with]);
                let c = unsafe {
                    match with {
                        0 => ipmb_memory_registry_alloc(&mut g, size, t, &mut h),
                        1 => ipmb_memory_registry_alloc_with_free(&mut g, size, t, &ctxs[n as usize] as *const Ctx as _, Some(freed), &mut h),
                        _ => ipmb_memory_registry_alloc_with_free(&mut g, size, t, ptr::null_mut(), None, &mut h),
                    }
                };
                check!(c == 0 && h != BAD && !h.is_null(), "no region", "code {c}");
                let mut real = -1;
                let p = unsafe { ipmb_memory_region_map(&mut h, 0, -1, &mut real) };
                check!(!p.is_null() && real >= size as isize, "a region smaller than asked for", "{real} for {size}");
                // not a region somebody has
                for a in &mut v {
                    if a.dropped && a.clone.is_none() {
                        continue;
                    }
                    let mut live = if a.dropped { a.clone.unwrap() } else { a.h };
                    let q = unsafe { ipmb_memory_region_map(&mut live, 0, -1, ptr::null_mut()) };
                    unsafe {
                        *p = 0;
                        *q = 1;
                        check!(*p == 0, "a region in use was handed out", "allocation {n} is allocation {}", a.n);
                    }
                }
                v.push(Alloc { h, n, size, callback: with == 1, dropped: false, clone: None });
            }
            2 if v.iter().any(|a| !a.dropped) => {
                let live: Vec<usize> = (0..v.len()).filter(|&i| !v[i].dropped).collect();
                let i = live[choose(live.len())];
                note!("drop region {i}");
                unsafe { ipmb_memory_region_drop(v[i].h) };
                v[i].dropped = true;
            }
            3 if v.iter().any(|a| !a.dropped && a.clone.is_none()) => {
                let a = v.iter_mut().find(|a| !a.dropped && a.clone.is_none()).unwrap();
                note!("clone region {}", a.n);
                let mut c = BAD;
                check!(unsafe { ipmb_memory_region_clone(&a.h, &mut c) } == 0, "clone failed", "");
                a.clone = Some(c);
            }
            4 if v.iter().any(|a| a.clone.is_some()) => {
                let a = v.iter_mut().find(|a| a.clone.is_some()).unwrap();
                note!("drop the clone of region {}", a.n);
                unsafe { ipmb_memory_region_drop(a.clone.take().unwrap()) };
            }
            5 => {
                note!("maintain");
                unsafe { ipmb_memory_registry_maintain(&mut g) };
                for a in &v {
                    if a.callback && a.dropped && a.clone.is_none() {
                        check!(calls.get().contains(&a.n), "a region nobody has is not reported free", "allocation {}", a.n);
                    }
                }
            }
            6 => {
                note!("6 s pass");
                pass(Duration::from_secs(6));
            }
            _ => return,
        }
        for &n in &calls.get()[ncalls..] {
            let a = v.iter().find(|a| a.n == n).unwrap_or_else(|| fail!("a callback of nothing", "{n}"));
            check!(a.callback, "a wrong callback", "{n}");
            check!(a.dropped && a.clone.is_none(), "a region in use is reported free", "allocation {n}");
            check!(calls.get().iter().filter(|&&x| x == n).count() == 1, "a callback runs twice", "allocation {n}");
        }
    }
    for a in &v {
        if !a.dropped {
            let mut h = a.h;
            let mut real = -1;
            check!(!unsafe { ipmb_memory_region_map(&mut h, 0, -1, &mut real) }.is_null() && real >= a.size as isize, "a region smaller than asked for", "");
            unsafe { ipmb_memory_region_drop(h) };
        }
        if let Some(c) = a.clone {
            unsafe { ipmb_memory_region_drop(c) };
        }
    }
    unsafe { ipmb_memory_registry_drop(g) };
    let mut got = calls.get().clone();
    got.sort();
    let want: Vec<u32> = v.iter().filter(|a| a.callback).map(|a| a.n).collect();
    check!(got == want, "the callbacks did not run once each", "{got:?} instead of {want:?}");
    unsafe {
        check!(eng::mc_fd_count(0) == 0 && eng::mc_maps() == 0, "something is left", "{} descriptors, {} mappings", eng::mc_fd_count(0), eng::mc_maps());
        check!(eng::mc_bad_close() == 0 && eng::mc_bad_unmap() == 0, "something is released twice", "");
    }
    obs(v.len() as u64 * 100 + got.len() as u64);
    drop((v, got, want, ctxs, tags));
    unsafe { drop(Box::from_raw(calls.get() as *mut Vec<u32>)) };
    check!(guard::live() == start, "memory is left", "{} blocks instead of {start}", guard::live());
}

/// Strings and versions.
fn strings(_: u32) {
    explore_on(false);
    guard::on();
    let start = guard::live();
    unsafe {
        let v = ipmb::version();
        for mask in 0..8 {
            let mut o = [0xeeu8; 3];
            let p = |i: usize, o: &mut [u8; 3]| if mask >> i & 1 == 1 { &mut o[i] as *mut u8 } else { ptr::null_mut() };
            let (a, b, c) = (p(0, &mut o), p(1, &mut o), p(2, &mut o));
            ipmb_version(a, b, c);
            for (i, w) in [v.major(), v.minor(), v.patch()].into_iter().enumerate() {
                check!(ptr::read_volatile(&o[i]) == if mask >> i & 1 == 1 { w } else { 0xee }, "wrong version", "{o:?}");
            }
        }
        let s = ipmb_version_pre();
        let (mut p, mut n) = (ptr::null(), usize::MAX);
        ipmb_rstring_data(&s, &mut p, &mut n);
        let got = if n == 0 { vec![] } else { std::slice::from_raw_parts(p, n).to_vec() };
        let want = ipmb::version_pre();
        check!(got == want.as_bytes(), "wrong version", "{got:?}");
        drop((got, want));
        ipmb_rstring_drop(s);
        check!(guard::live() == start, "memory is left", "{} blocks instead of {start}", guard::live());
    }
}

pub fn scns(t: Tier) -> Vec<Scn> {
    vec![
        scn("C20/maps", maps, 0, "all sizes, offsets and lengths of the boundary set", data_cfg()),
        scn("C20/registry", registry, t.pick(3, 5), "all sequences of allocations, drops, clones, maintenance and time", data_cfg()),
        scn("C20/strings", strings, 0, "versions and strings", data_cfg()),
    ]
}
