use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/vp_rt.o");
    assert!(Command::new("cc").args(["-O1", "-g0", "-fPIC", "-c", "rt/vp_rt.c", "-o", &o]).status().unwrap().success());
    println!("cargo:rerun-if-changed=rt/vp_rt.c");
    println!("cargo:rustc-link-arg-bins={o}");
}
