// The runtime of the instrumented build.
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=../harness/cov.c");
    if std::env::var("CARGO_FEATURE_COV").is_err() { return; }
    let out = std::env::var("OUT_DIR").unwrap();
    assert!(Command::new("gcc").args(["-O2", "-fPIC", "-fno-builtin", "-c", "../harness/cov.c", "-o", &format!("{out}/cov.o")]).status().unwrap().success());
    assert!(Command::new("ar").args(["crs", &format!("{out}/libvpcov.a"), &format!("{out}/cov.o")]).status().unwrap().success());
    println!("cargo:rustc-link-lib=static:+whole-archive=vpcov");
    println!("cargo:rustc-link-search=native={out}");
}
