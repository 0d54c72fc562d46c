use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/rt.o");
    let st = Command::new("gcc").args(["-O1", "-c", "rt/rt.c", "-o", &o]).status().expect("gcc");
    assert!(st.success());
    println!("cargo:rustc-link-arg-bins={o}");
    println!("cargo:rerun-if-changed=rt/rt.c");
    // the server's functions, to be included as a module
    let p = "/repo/crates/axmos-db/src/bin/axmos_server.rs";
    println!("cargo:rerun-if-changed={p}");
    let s = std::fs::read_to_string(p).unwrap_or_default();
    let s: Vec<&str> = s.lines().filter(|l| !l.trim_start().starts_with("//!") && !l.trim_start().starts_with("#![")).collect();
    std::fs::write(format!("{out}/server.rs"), s.join("\n")).unwrap();
}
