fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=meter.c");
    if std::env::var("CARGO_FEATURE_METER").is_err() {
        return;
    }
    let obj = format!("{}/meter.o", std::env::var("OUT_DIR").unwrap());
    let ok = std::process::Command::new("gcc").args(["-O2", "-fno-builtin", "-c", "meter.c", "-o", &obj]).status().unwrap().success();
    assert!(ok, "meter.c");
    println!("cargo:rustc-link-arg-bins={obj}");
    for f in ["memcpy", "memmove", "memset", "memcmp", "bcmp", "nanosleep", "clock_nanosleep", "sched_yield"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={f}");
    }
}
