//! Builds `rt/atomics.c`: the functions LLVM's `tsan` pass calls instead of every atomic access.
use std::{env, path::PathBuf, process::Command};

fn main() {
    println!("cargo:rerun-if-changed=rt/atomics.c");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let obj = out.join("atomics.o");
    let lib = out.join("libsimatomics.a");
    let run = |cmd: &mut Command| assert!(cmd.status().expect("spawn").success());
    run(Command::new("gcc")
        .args(["-O2", "-fPIC", "-c", "rt/atomics.c", "-o"])
        .arg(&obj));
    let _ = std::fs::remove_file(&lib);
    run(Command::new("ar").arg("crs").arg(&lib).arg(&obj));
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static:+whole-archive=simatomics");
}
