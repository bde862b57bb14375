use std::{env, path::Path, process::Command};

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let mut objs = vec![];
    for (src, obj) in [("/repo/ipmb-ffi/ipmb.cc", "ipmb.o"), ("cc/shim.cc", "shim.o"), ("cc/via.cc", "via.o")] {
        let o = Path::new(&out).join(obj);
        let st = Command::new("g++")
            .args(["-std=c++17", "-O1", "-g", "-fPIC", "-w", "-include", "memory", "-include", "string", "-I/repo/ipmb-ffi/include", "-c", src, "-o"])
            .arg(&o)
            .status()
            .expect("g++");
        assert!(st.success(), "{src} does not compile");
        objs.push(o);
    }
    let lib = Path::new(&out).join("libcc.a");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").arg("crs").arg(&lib).args(&objs).status().expect("ar").success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=cc");
    println!("cargo:rustc-link-lib=dylib=stdc++");
    for f in ["/repo/ipmb-ffi/ipmb.cc", "/repo/ipmb-ffi/include/ipmb.h", "/repo/ipmb-ffi/include/ipmb_ffi.h", "cc/shim.cc", "cc/via.cc"] {
        println!("cargo:rerun-if-changed={f}");
    }
}
