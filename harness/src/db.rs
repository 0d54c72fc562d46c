//! Thin layer over the public API of the engine: statements in, plain values out.
#![allow(dead_code)]
use crate::ax;
use axmosdb::types::DataType;
use axmosdb::*;
use axmosdb::runtime::QueryResult;
use axmosdb::tcp::session::Session;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub enum V { N, I(i64), B(bool), F(f64), S(Vec<u8>) }
pub type Row = Vec<V>;
#[derive(Clone, Debug)]
pub enum Out { Ddl, Rows(Vec<Row>), Count(u64) }

pub fn path() -> String { if ax::is_symbolic() { "/ax/t.db".into() } else { "t.db".into() } }
pub fn from_dt(d: &DataType) -> V {
    match d {
        DataType::Null => V::N,
        DataType::Bool(b) => V::B(b.0),
        DataType::Int(i) => V::I(i.0 as i64),
        DataType::BigInt(i) => V::I(i.0),
        DataType::UInt(i) => V::I(i.0 as i64),
        DataType::BigUInt(i) => V::I(i.0 as i64),
        DataType::Float(f) => V::F(f.0 as f64),
        DataType::Double(f) => V::F(f.0),
        DataType::Blob(b) => V::S(b.data().map(|s| s.to_vec()).unwrap_or_default()),
    }
}
pub fn eqv(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::N, V::N) => true,
        (V::I(x), V::I(y)) => x == y,
        (V::B(x), V::B(y)) => x == y,
        (V::F(x), V::F(y)) => x.to_bits() == y.to_bits() || x == y,
        (V::S(x), V::S(y)) => x.len() == y.len() && x == y,
        (V::I(x), V::F(y)) | (V::F(y), V::I(x)) => *x as f64 == *y,
        _ => false,
    }
}
/// equality of rows as one condition, no forking on the values
pub fn eqrow(a: &[V], b: &[V]) -> u64 {
    if a.len() != b.len() { return 0; }
    let mut r = 1u64;
    for (x, y) in a.iter().zip(b) { r &= eqv(x, y) as u64; }
    r
}
pub fn show(r: &[Row]) -> String {
    if ax::is_symbolic() { return format!("{} rows", r.len()); }
    format!("{r:?}")
}
/// the two lists hold the same rows with the same multiplicities
pub fn same_bag(a: &[Row], b: &[Row]) -> u64 {
    if a.len() != b.len() { return 0; }
    let mut ok = 1u64;
    for x in a {
        let na: u64 = a.iter().map(|y| eqrow(x, y)).sum();
        let nb: u64 = b.iter().map(|y| eqrow(x, y)).sum();
        ok &= (na == nb) as u64;
    }
    ok
}
pub fn same_list(a: &[Row], b: &[Row]) -> u64 {
    if a.len() != b.len() { return 0; }
    let mut ok = 1u64;
    for (x, y) in a.iter().zip(b) { ok &= eqrow(x, y); }
    ok
}

// ---------- literals ----------
static LITS: Mutex<Vec<i64>> = Mutex::new(Vec::new());
const I_BASE: i64 = 1_987_000_000;
const L_BASE: i64 = 7_000_000_000_000;
/// Text of an integer literal. A symbolic value becomes a placeholder number which the literal
/// hook replaces by the symbolic value when the binder creates the literal (typed INT when it
/// fits 32 bits, as the binder does). Natively the decimal text itself is used.
pub fn lit(v: i64) -> String {
    if !ax::is_symbolic() || ax::is_concrete(v as u64) { return v.to_string(); }
    let mut l = LITS.lock().unwrap();
    l.push(v);
    (I_BASE + l.len() as i64 - 1).to_string()
}
/// as [lit] for values known not to fit INT
pub fn litb(v: i64) -> String {
    if !ax::is_symbolic() || ax::is_concrete(v as u64) { return v.to_string(); }
    let mut l = LITS.lock().unwrap();
    l.push(v);
    (L_BASE + l.len() as i64 - 1).to_string()
}
static VALS: Mutex<Vec<DataType>> = Mutex::new(Vec::new());
const D_BASE: i64 = 6_000_000_000_000;
/// Text of a number literal that the hook replaces by this very value, also natively: for values
/// whose text form is long or, like NaN, only the result of an expression.
pub fn litd(v: DataType) -> String {
    let mut l = VALS.lock().unwrap();
    l.push(v);
    (D_BASE + l.len() as i64 - 1).to_string()
}
pub fn hook_always() { verif::set_literal_hook(hook) }
fn hook(d: DataType) -> DataType {
    match d {
        DataType::BigInt(i) if i.0 >= D_BASE && i.0 < D_BASE + 1000 => VALS.lock().unwrap()[(i.0 - D_BASE) as usize].clone(),
        DataType::Int(i) if i.0 as i64 >= I_BASE => { let l = LITS.lock().unwrap(); let v = l[(i.0 as i64 - I_BASE) as usize]; DataType::Int((v as i32).into()) }
        DataType::BigInt(i) if i.0 >= L_BASE => { let l = LITS.lock().unwrap(); let v = l[(i.0 - L_BASE) as usize]; DataType::BigInt(v.into()) }
        o => o,
    }
}
pub fn init() {
    if ax::is_symbolic() {
        verif::set_const_hash(true);
        verif::set_literal_hook(hook);
    }
}
pub fn cfg() -> DBConfig { DBConfig::new(4096, 64, 1, 3, 2) }
pub fn conv(r: QueryResult) -> Out {
    match r {
        QueryResult::Ddl(_) => Out::Ddl,
        QueryResult::RowsAffected(n) => Out::Count(n),
        QueryResult::Rows(r) => Out::Rows(r.iterrows().map(|r| (0..r.len()).map(|i| from_dt(&r[i])).collect()).collect()),
    }
}
pub struct Db(pub Option<Database>);
fn log(sql: &str, r: &Result<Out, String>) {
    if ax::is_symbolic() { ax::note(sql); return; }
    if std::env::var_os("AXS_VERBOSE").is_some() { eprintln!("sql: {} -> {:?}", if sql.len() > 300 { &sql[..300] } else { sql }, r); }
}
impl Db {
    pub fn create() -> Db { Db::create_with(cfg()) }
    pub fn create_with(c: DBConfig) -> Db {
        init();
        if !ax::is_symbolic() { let _ = std::fs::remove_file(path()); let _ = std::fs::remove_file("axmos.log"); }
        Db(Some(Database::create(path(), c).expect("create")))
    }
    pub fn open() -> Result<Db, String> { Db::open_with(cfg()) }
    pub fn open_with(c: DBConfig) -> Result<Db, String> {
        init();
        let r = Database::open(path(), c).map_err(|e| e.to_string());
        if !ax::is_symbolic() && std::env::var_os("AXS_VERBOSE").is_some() { eprintln!("open -> {:?}", r.as_ref().err()); }
        r.map(|d| Db(Some(d)))
    }
    pub fn d(&self) -> &Database { self.0.as_ref().unwrap() }
    pub fn ex(&self, sql: &str) -> Result<Out, String> {
        let r = self.d().execute(sql).map(conv).map_err(|e| e.to_string());
        log(sql, &r);
        r
    }
    pub fn batch(&self, sql: &[&str]) -> Result<Vec<Out>, String> {
        let r = self.d().execute_batch(sql).map(|v| v.into_iter().map(conv).collect::<Vec<_>>()).map_err(|e| e.to_string());
        log("batch", &r.as_ref().map(|_| Out::Ddl).map_err(|e| e.clone()));
        r
    }
    /// scaffolding statement: a failure here is reported as `id`
    pub fn must(&self, sql: &str, id: &str) -> Out {
        match self.ex(sql) {
            Ok(o) => o,
            Err(e) => { ax::note(&format!("unexpected error: {e}")); ax::fail(id); std::process::exit(0) }
        }
    }
    pub fn rows(&self, sql: &str) -> Result<Vec<Row>, String> {
        match self.ex(sql)? { Out::Rows(r) => Ok(r), o => Err(format!("not rows: {o:?}")) }
    }
    pub fn session(&self) -> Result<Ses, String> { self.d().session().map(Ses).map_err(|e| e.to_string()) }
    pub fn flush(&self) -> Result<(), String> { self.d().flush().map_err(|e| e.to_string()) }
    pub fn vacuum(&self) -> Result<(), String> { self.d().vacuum().map(|_| ()).map_err(|e| e.to_string()) }
    pub fn analyze(&self) -> Result<(), String> { self.d().analyze(1.0, 1000).map_err(|e| e.to_string()) }
    pub fn close(mut self) { drop(self.0.take()); }
}
pub struct Ses(pub Session);
impl Ses {
    pub fn ex(&mut self, sql: &str) -> Result<Out, String> {
        let r = self.0.execute(sql).map(conv).map_err(|e| e.to_string());
        log(sql, &r);
        r
    }
    pub fn rows(&mut self, sql: &str) -> Result<Vec<Row>, String> {
        match self.ex(sql)? { Out::Rows(r) => Ok(r), o => Err(format!("not rows: {o:?}")) }
    }
    pub fn commit(mut self) -> Result<(), String> { self.0.commit_transaction().map_err(|e| e.to_string()) }
    pub fn abort(mut self) -> Result<(), String> { self.0.abort_transaction().map_err(|e| e.to_string()) }
}
