use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/rt.o");
    assert!(Command::new("gcc").args(["-O1", "-c", "rt.c", "-o", &o]).status().unwrap().success());
    assert!(Command::new("ar").args(["rcs", &format!("{out}/libsxrt.a"), &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:-bundle=sxrt");
    println!("cargo:rerun-if-changed=rt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
