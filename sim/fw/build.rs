use std::{env, path::PathBuf, process::Command};
fn main() {
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let rt = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap()).join("../rt");
    let o = out.join("rt.o");
    let ok = Command::new("gcc")
        .args(["-O2", "-g0", "-Wall", "-fno-omit-frame-pointer", "-fPIC", "-c"])
        .arg(rt.join("rt.c"))
        .arg("-o")
        .arg(&o)
        .status()
        .expect("gcc")
        .success();
    assert!(ok, "gcc failed on rt.c");
    // Linked as a whole object so that its libc interposers win over libc's symbols.
    println!("cargo:rerun-if-changed={}", rt.join("rt.c").display());
    println!("cargo:rerun-if-changed={}", rt.join("rt.h").display());
    println!("cargo:rerun-if-changed={}", rt.join("net.c").display());
    let a = out.join("libsimrt.a");
    let _ = std::fs::remove_file(&a);
    assert!(Command::new("ar").arg("crs").arg(&a).arg(&o).status().expect("ar").success());
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
}
