use std::{env, path::Path, process::Command};

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let obj = Path::new(&out).join("engine.o");
    let lib = Path::new(&out).join("libmcengine.a");
    let st = Command::new("gcc")
        .args(["-O2", "-g", "-c", "-fno-builtin", "-fPIC", "-w", "engine/engine.c", "-o"])
        .arg(&obj)
        .status()
        .expect("gcc");
    assert!(st.success(), "engine.c does not compile");
    let _ = std::fs::remove_file(&lib);
    let st = Command::new("ar").arg("crs").arg(&lib).arg(&obj).status().expect("ar");
    assert!(st.success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=mcengine");
    println!("cargo:rustc-link-lib=dylib=dl");
    println!("cargo:rerun-if-changed=engine/engine.c");
    println!("cargo:rerun-if-changed=engine/engine.h");
}
