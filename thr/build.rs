use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/rt.o");
    let ok = Command::new("gcc").args(["-O3", "-fPIC", "-ftls-model=initial-exec", "-c", "src/rt.c", "-o", &obj]).status().unwrap().success();
    assert!(ok, "rt.c");
    println!("cargo:rustc-link-arg-bins={obj}");
    println!("cargo:rustc-link-arg-bins=-ldl");
    println!("cargo:rustc-link-arg-bin=ythr_np=-no-pie");
    println!("cargo:rustc-link-arg-bin=ythr_np=-Wl,--image-base=0x30000000");
    println!("cargo:rerun-if-changed=src/rt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
