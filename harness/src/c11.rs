//! C11: every page of a database file has one owner, and freed pages are used again.
use crate::ax;
use crate::c10::{Walk, pages};
use crate::db::*;
use axmosdb::verif::view;
pub const TABLE: &[(&str, fn(&[String]))] = &[("c11_hist", hist), ("c11_mix", mix), ("c11_reuse", reuse), ("c11_index", index)];

/// every page: a node of one tree, a link of one chain of one cell, or free
pub fn audit(d: &Db) {
    let db = d.d();
    let pager = view::pager(db);
    let rels = match view::relations(db) { Ok(r) => r, Err(e) => { ax::note(&e); return ax::fail("page-relations") } };
    let link = |p: u64| view::link(&pager, p);
    let read = |p: u64| view::node(&pager, p);
    let h = view::head(&pager);
    let mut own = vec![0u8; h.total_pages as usize];
    let roots = [1u64, 2].into_iter().chain(rels.iter().filter(|r| !r.dropped).map(|r| r.root));
    for root in roots {
        let (mut levels, mut ld, mut last) = (vec![], None, None);
        let mut w = Walk { read: &read, link: &link, key: &|_| Err(String::new()), own: &mut own, levels: &mut levels, leaf_depth: &mut ld, last: &mut last, keyed: false, strict: false, bad: None, cells: 0 };
        w.node(root, 0);
        if let Some(b) = w.bad { ax::note(b); return ax::fail(if b.starts_with("page-") { b } else { "page-tree" }) }
    }
    pages(h, &link, &mut own);
}
fn total(d: &Db) -> u64 { view::head(&view::pager(d.d())).total_pages }
fn text(n: usize, c: char) -> String { std::iter::repeat_n(c, n).collect() }
fn ins(t: &str, id: &str, v: i64, n: usize) -> String { format!("INSERT INTO {t} VALUES ({id}, {v}, '{}')", text(n, 'x')) }
const CREATE: &str = "(id BIGINT, v INT, s TEXT, PRIMARY KEY(id))";
fn cfg_of(c: usize) -> axmosdb::DBConfig {
    match c { 0 => axmosdb::DBConfig::new(4096, 64, 1, 3, 2), 1 => axmosdb::DBConfig::new(4096, 24, 1, 2, 1), 2 => axmosdb::DBConfig::new(8192, 64, 1, 4, 1), _ => axmosdb::DBConfig::new(16384, 32, 1, 3, 3) }
}
struct S { d: Option<Db>, cfg: usize, ses: Option<Ses>, n: i64, w: bool }
impl S {
    fn d(&self) -> &Db { self.d.as_ref().unwrap() }
    fn ex(&mut self, sql: &str) -> bool {
        let r = match &mut self.ses { Some(s) => s.ex(sql), None => self.d().ex(sql) };
        if let Err(e) = &r { ax::note(e); }
        r.is_ok()
    }
    fn reopen(&mut self) -> bool {
        drop(self.ses.take());
        self.d.take().unwrap().close();
        match Db::open_with(cfg_of(self.cfg)) { Ok(d) => { self.d = Some(d); true } Err(e) => { ax::note(&e); ax::fail("page-reopen"); false } }
    }
    fn look(&self) { if self.ses.is_none() { audit(self.d()) } }
}
fn start(rows: &[usize], cfg: usize) -> S {
    let d = Db::create_with(cfg_of(cfg));
    d.must(&format!("CREATE TABLE t {CREATE}"), "setup-create");
    for (i, n) in rows.iter().enumerate() { d.must(&ins("t", &(i * 10).to_string(), i as i64, *n), "setup-insert"); }
    S { d: Some(d), cfg, ses: None, n: 100, w: false }
}
const ROWS: [&[usize]; 4] = [&[20, 9000, 20, 3000, 20], &[900, 900, 900, 900, 900, 900, 900, 900, 900], &[6000, 6000, 6000, 6000], &[]];
/// scripts with a row picked by the solver
fn hist(a: &[String]) {
    let cfg = ax::choose("cfg", a.first().and_then(|x| x.parse().ok()).unwrap_or(4));
    let mut s = start(ROWS[ax::choose("rows", 4)], cfg);
    s.look();
    let x = lit(ax::int("x", -1, 100));
    let n = [10, 1200, 3500, 9000, 30000][ax::choose("len", 5)];
    let end = ax::choose("end", 4);
    if end > 0 { s.ses = s.d().session().ok(); }
    let set = format!("UPDATE t SET s = '{}' WHERE id = {x}", text(n, 'y'));
    match ax::choose("work", 7) {
        0 => { s.ex(&set); s.ex("UPDATE t SET s = 'z' WHERE v = 1"); }
        1 => { s.ex(&format!("DELETE FROM t WHERE id <= {x}")); s.ex(&ins("t", "7", 7, n)); }
        2 => { s.ex(&ins("t", &x, 3, n)); s.ex(&ins("t", &x, 4, n)); }
        3 => { s.ex(&format!("CREATE TABLE w {CREATE}")); s.ex(&ins("w", &x, 1, n)); s.ex(&ins("w", "-7", 1, 5000)); s.ex("DROP TABLE w"); }
        4 => { s.ex(&set); s.ex("DROP TABLE t"); }
        5 => { s.ex("CREATE UNIQUE INDEX ix ON t(id, s)"); s.ex(&ins("t", &x, 3, n)); }
        _ => { s.ex("DROP TABLE t"); s.ex(&format!("CREATE TABLE t {CREATE}")); s.ex(&ins("t", &x, 1, n)); }
    }
    match end { 0 => {}, 1 => if let Some(q) = s.ses.take() { if q.commit().is_err() { ax::reach("commit-refused") } }, 2 => if let Some(q) = s.ses.take() { let _ = q.abort(); }, _ => if !s.reopen() { return } }
    s.look();
    match ax::choose("then", 4) {
        0 => { let _ = s.d().vacuum(); }
        1 => if !s.reopen() { return },
        2 => { s.ex("DELETE FROM t"); let _ = s.d().vacuum(); s.look(); s.ex(&ins("t", "1", 1, 9000)); }
        _ => { s.ex("DROP TABLE t"); s.look(); s.ex(&format!("CREATE TABLE t2 {CREATE}")); s.ex(&ins("t2", "1", 1, 9000)); }
    }
    s.look();
}
/// free combinations, everything is looked at after every step
fn mix(a: &[String]) {
    let n: usize = a.first().and_then(|x| x.parse().ok()).unwrap_or(3);
    let cfg = ax::choose("cfg", 2);
    let mut s = start(ROWS[ax::choose("rows", 3)], cfg);
    for k in 0..n {
        s.n += 1;
        let (id, open) = (s.n, s.ses.is_some());
        match ax::choose(&format!("step{k}"), 10) {
            0 => { let l = [2000, 9000][k % 2]; let q = ins("t", &id.to_string(), id, l); s.ex(&q); }
            1 => { let q = format!("UPDATE t SET s = '{}' WHERE v <= {}", text([9000, 3][k % 2], 'y'), 1 + k); s.ex(&q); }
            2 => { s.ex("DELETE FROM t WHERE v <> 2"); }
            3 => { if open { ax::assume(false) } if let Err(e) = s.d().vacuum() { ax::note(&e); ax::fail("page-vacuum"); return } }
            4 => { if open { s.d().ex("SELECT v FROM t").ok(); } else { match s.d().session() { Ok(q) => s.ses = Some(q), Err(e) => { ax::note(&e); return ax::fail("page-session") } } } }
            5 => { if !open { ax::assume(false) } let _ = s.ses.take().unwrap().commit(); }
            6 => { if !open { ax::assume(false) } let _ = s.ses.take().unwrap().abort(); }
            7 => if !s.reopen() { return },
            8 => { if s.w { s.ex("DROP TABLE w"); s.w = false } else { s.ex(&format!("CREATE TABLE w {CREATE}")); let q = ins("w", &id.to_string(), 1, 9000); s.ex(&q); s.w = true } }
            // outside the session, which keeps what it sees
            _ => { if !open { ax::assume(false) } let _ = s.d().ex("DROP TABLE t"); ax::reach("dropped-under-reader"); }
        }
        s.look();
    }
    drop(s.ses.take());
    s.look();
    if s.reopen() { s.look() }
}
/// the same work again and again takes no more pages than before
fn reuse(_: &[String]) {
    let cfg = ax::choose("cfg", 4);
    let mut s = start(&[20, 700, 20], cfg);
    let way = ax::choose("way", 6);
    let n = [10, 1200, 3500, 9000][ax::choose("len", 4)];
    let x = ax::int("x", 200, 260);
    let mut sizes = vec![];
    for _ in 0..4 {
        match way {
            0 => { s.ex(&format!("CREATE TABLE w {CREATE}")); for i in 0..7 { let q = ins("w", &lit(x * 2 - 450 + i * 10), i, n); s.ex(&q); } s.ex("DROP TABLE w"); }
            1 => { for i in 0..7 { let q = ins("t", &lit(x + i), i, n); s.ex(&q); } s.ex("DELETE FROM t WHERE id >= 200"); }
            2 => { s.ex(&format!("UPDATE t SET s = '{}' WHERE id = 10", text(n, 'y'))); s.ex("UPDATE t SET s = 'z' WHERE id = 10"); }
            3 => { s.ses = s.d().session().ok(); s.ex(&format!("CREATE TABLE w {CREATE}")); let q = ins("w", &lit(x), 5, n); s.ex(&q); for i in 0..5 { let q = ins("t", &lit(x + i), i, n); s.ex(&q); } if let Some(q) = s.ses.take() { let _ = q.abort(); } }
            4 => { s.ex(&format!("CREATE TABLE w {CREATE}")); s.ex("CREATE UNIQUE INDEX wi ON w(v)"); for i in 0..7 { let q = ins("w", &lit(x + i), i, n); s.ex(&q); } s.ex("DROP TABLE w"); }
            _ => { for i in 0..7 { let q = ins("t", &lit(x + i), i, n); s.ex(&q); } s.ex("DELETE FROM t WHERE id >= 200"); if !s.reopen() { return } }
        }
        if let Err(e) = s.d().vacuum() { ax::note(&e); return ax::fail("page-vacuum") }
        s.look();
        sizes.push(total(s.d()));
    }
    // transactions take room of their own in the catalog's rows, but no more from round to round
    ax::noteval("first", sizes[0] as i64);
    ax::noteval("last", sizes[3] as i64);
    ax::check(sizes[3] <= sizes[1], "page-not-reused");
}
/// large keys in indexes: copies of them are in inner nodes too
fn index(_: &[String]) {
    let cfg = ax::choose("cfg", 3);
    let d = Db::create_with(cfg_of(cfg));
    d.must("CREATE TABLE t (id BIGINT, s TEXT, PRIMARY KEY(id))", "setup-create");
    d.must("CREATE UNIQUE INDEX ix ON t(s)", "setup-index");
    let mut s = S { d: Some(d), cfg, ses: None, n: 0, w: false };
    let n = [700, 2500, 6000][ax::choose("len", 3)];
    let cnt = [4, 9, 16][ax::choose("rows", 3)];
    let o = ax::choose("order", 2);
    for i in 0..cnt { let k = if o == 0 { i } else { (i * 7) % cnt + if cnt == 4 || cnt == 9 || cnt == 16 { 0 } else { 0 } }; s.ex(&format!("INSERT INTO t VALUES ({k}, '{}{}')", text(n, 'k'), (b'a' + k as u8) as char)); }
    s.look();
    let x = lit(ax::int("x", 0, cnt as i64));
    match ax::choose("work", 5) {
        0 => { s.ex(&format!("DELETE FROM t WHERE id >= {x}")); let _ = s.d().vacuum(); }
        1 => { s.ex(&format!("DELETE FROM t WHERE id = {x}")); let _ = s.d().vacuum(); s.look(); s.ex(&format!("INSERT INTO t VALUES (77, '{}')", text(n, 'm'))); }
        2 => { s.ex(&format!("DELETE FROM t WHERE id <> {x}")); let _ = s.d().vacuum(); s.look(); for i in 0..5 { s.ex(&format!("INSERT INTO t VALUES ({}, '{}{}')", 40 + i, text(n, 'k'), (b'a' + i as u8) as char)); } }
        3 => { s.ex("DROP TABLE t"); }
        _ => { s.ex(&format!("DELETE FROM t WHERE id < {x}")); let _ = s.d().vacuum(); s.look(); s.ex("DELETE FROM t"); let _ = s.d().vacuum(); }
    }
    s.look();
    if s.reopen() { s.look(); if ax::flag("drop") { s.ex("DROP TABLE t"); s.look(); } }
}
