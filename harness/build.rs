use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=ref.c");
    println!("cargo:rerun-if-changed=cov.c");
    for (src, opt) in [("ref", "-O2"), ("cov", "-O2")] {
        let ok = Command::new("gcc").args([opt, "-fPIC", "-fno-builtin", "-c", &format!("{src}.c"), "-o", &format!("{out}/{src}.o")]).status().unwrap();
        assert!(ok.success());
        let ok = Command::new("ar").args(["crs", &format!("{out}/libvp{src}.a"), &format!("{out}/{src}.o")]).status().unwrap();
        assert!(ok.success());
        println!("cargo:rustc-link-lib=static:+whole-archive=vp{src}");
    }
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=dylib=m");
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
