fn main() {
    let p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(p).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={p}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{p}");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
