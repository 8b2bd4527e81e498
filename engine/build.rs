// Link against libz3: prefer the newer release shipped in the python tooling venv, else the system one.
fn main() {
    let venv = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(&format!("{venv}/libz3.so")).exists() {
        println!("cargo:rustc-link-search=native={venv}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{venv}");
    }
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
