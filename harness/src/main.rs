mod ax;
mod db;
mod sqlm;
mod smoke;
mod c05;
mod c06;
mod sim;
mod crash; mod c16; mod hist; mod c20; mod c19;
#[cfg(feature = "view")]
mod store;
#[cfg(feature = "view")]
mod c18;
#[cfg(feature = "view")]
mod c10;
#[cfg(feature = "view")]
mod c14;
#[cfg(feature = "view")]
mod c11;

type H = (&'static str, fn(&[String]));
fn table() -> Vec<H> {
    let mut t: Vec<H> = vec![];
    t.extend_from_slice(smoke::TABLE);
    t.extend_from_slice(c05::TABLE);
    t.extend_from_slice(c06::TABLE);
    t.extend_from_slice(crash::TABLE);
    t.extend_from_slice(hist::TABLE);
    t.extend_from_slice(c20::TABLE);
    t.extend_from_slice(c19::TABLE);
    t.extend_from_slice(c16::TABLE);
    #[cfg(feature = "server")]
    t.extend_from_slice(c20::server::TABLE);
    #[cfg(feature = "view")]
    { t.extend_from_slice(store::TABLE); t.extend_from_slice(c18::TABLE); t.extend_from_slice(c10::TABLE); t.extend_from_slice(c11::TABLE); t.extend_from_slice(c14::TABLE); }
    t
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = a.first().map(|s| s.as_str()).unwrap_or("");
    if n == "list" {
        for (n, _) in table() { println!("{n}"); }
        return;
    }
    match table().iter().find(|(k, _)| *k == n) {
        Some((_, f)) => f(&a[1..]),
        None => { eprintln!("unknown harness {n}"); std::process::exit(3) }
    }
}
