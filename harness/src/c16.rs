//! C16: whatever is offered as a statement, a result or an error comes back and the database goes on.
use crate::ax;
use crate::db::*;
use axmosdb::types::DataType;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
pub const TABLE: &[(&str, fn(&[String]))] = &[("c16_bytes", bytes), ("c16_mutate", mutate), ("c16_tokens", tokens), ("c16_expr", expr), ("c16_stmt", stmt), ("c16_deep", deep), ("c16_rows", rows)];

static PANICS: AtomicU64 = AtomicU64::new(0);
fn watch() {
    std::panic::set_hook(Box::new(|i| {
        PANICS.fetch_add(1, SeqCst);
        if let Some(l) = i.location() { ax::note(&format!("panic at {}:{}", l.file(), l.line())); }
        if !ax::is_symbolic() { eprintln!("{i}"); }
    }));
}
const COLS: &str = "(id BIGINT, i INT, b BIGINT, d DOUBLE, s TEXT, f BOOLEAN, PRIMARY KEY(id))";
pub struct B { d: Db, t: Vec<Row>, z: Vec<Row> }
fn base() -> B {
    let d = Db::create();
    d.must(&format!("CREATE TABLE t {COLS}"), "setup-create");
    d.must("CREATE TABLE u (id BIGINT, k INT, s TEXT, PRIMARY KEY(id))", "setup-create");
    d.must("CREATE UNIQUE INDEX ui ON u(k)", "setup-index");
    d.must("CREATE TABLE z (id BIGINT, v INT, PRIMARY KEY(id))", "setup-create");
    d.must("INSERT INTO t VALUES (1, 5, 50, 1.5, 'ab', TRUE), (2, NULL, NULL, NULL, NULL, NULL), (3, -7, 0, 0.0, '', FALSE)", "setup-insert");
    d.must("INSERT INTO t VALUES (4, 1900000000, -9, -2.5, 'aé€😀b', TRUE)", "setup-insert");
    d.must("INSERT INTO u VALUES (1, 1, 'x'), (2, 2, NULL), (3, NULL, 'ab')", "setup-insert");
    d.must("INSERT INTO z VALUES (1, 11), (2, 22)", "setup-insert");
    let mut b = B { d, t: vec![], z: vec![] };
    b.t = b.all("t");
    b.z = b.all("z");
    watch();
    b
}
impl B {
    fn all(&self, t: &str) -> Vec<Row> { self.d.rows(&format!("SELECT * FROM {t}")).unwrap_or_else(|e| { ax::note(&e); ax::fail("select-error"); vec![] }) }
    /// the statement is offered; whatever it gives, the database goes on
    fn offer(&self, sql: &str) -> bool {
        let r = self.d.ex(sql);
        if PANICS.load(SeqCst) > 0 { ax::fail("panic"); return false }
        if let Err(e) = &r {
            ax::note(e);
            ax::reach("refused");
            ax::check(e.len() < 1 << 20, "error-size");
            ax::check_u(same_list(&self.all("t"), &self.t), "state-after-error");
        }
        if r.is_ok() { ax::reach("accepted"); }
        // it works on, with the data it had
        ax::check_u(same_list(&self.all("z"), &self.z), "others-after");
        match self.d.ex("INSERT INTO z VALUES (3, 33)") { Ok(Out::Count(1)) => {}, o => { ax::note(&format!("{:?}", o.is_ok())); ax::fail("dead-after") } }
        match self.d.ex("DELETE FROM z WHERE id = 3") { Ok(Out::Count(1)) => {}, _ => ax::fail("dead-after") }
        if PANICS.load(SeqCst) > 0 { ax::fail("panic"); return false }
        r.is_ok()
    }
    fn offer_session(&self, sql: &str) {
        let Ok(mut s) = self.d.session() else { return ax::fail("session") };
        if !matches!(s.ex("INSERT INTO z VALUES (4, 44)"), Ok(Out::Count(1))) { return ax::fail("session") }
        let r = s.ex(sql);
        if PANICS.load(SeqCst) > 0 { return ax::fail("panic") }
        if let Err(e) = &r {
            ax::note(e);
            match s.rows("SELECT * FROM t") { Ok(l) => ax::check_u(same_list(&l, &self.t), "state-after-error"), Err(e) => { ax::note(&e); return ax::fail("session-dead") } }
        }
        match s.rows("SELECT * FROM z") { Ok(l) => ax::check(l.len() == self.z.len() + 1, "session-keeps"), Err(e) => { ax::note(&e); return ax::fail("session-dead") } }
        if !matches!(s.ex("DELETE FROM z WHERE id = 4"), Ok(Out::Count(1))) { return ax::fail("session-dead") }
        let _ = s.commit();
        ax::check_u(same_list(&self.all("z"), &self.z), "others-after");
    }
}
/// one of every kind of byte: the lexer tells these kinds apart
fn some(b: u8) -> bool {
    let mut t = [false; 256];
    for c in b"\0\t\n !\"#$%&'()*+,-./019:;<=>?@AEZ[\\]^_`aet{|}~\x7f" { t[*c as usize] = true; }
    t[b as usize]
}
/// any bytes
fn bytes(a: &[String]) {
    let n: usize = a.first().and_then(|x| x.parse().ok()).unwrap_or(3);
    let b = base();
    let k = ax::choose("len", n as u64 + 1);
    let v = ax::bytes("sql", k);
    for x in &v { ax::assume(some(*x)); }
    let pre = ["", "SELECT ", "SELECT id FROM t WHERE s = ", "INSERT INTO t VALUES (", "SELECT * FROM t "][ax::choose("pre", 5)];
    let mut s = pre.as_bytes().to_vec();
    s.extend(v);
    b.offer(&unsafe { String::from_utf8_unchecked(s) });
}
const STMTS: [&str; 40] = [
    "SELECT id,i+1,s FROM t WHERE i>0 AND s LIKE 'a%'",
    "SELECT COUNT(*),SUM(i),AVG(d) FROM t GROUP BY f HAVING COUNT(*)>0",
    "SELECT t.id,u.s FROM t JOIN u ON t.id=u.id WHERE u.k IN (1,2)",
    "SELECT * FROM t LEFT JOIN u ON t.i=u.k ORDER BY t.id DESC LIMIT 2 OFFSET 1",
    "SELECT DISTINCT f FROM t",
    "SELECT CASE WHEN i>0 THEN 'p' ELSE 'n' END FROM t",
    "SELECT id FROM t WHERE id IN (SELECT k FROM u)",
    "SELECT id FROM t WHERE EXISTS (SELECT 1 FROM u)",
    "SELECT id FROM t WHERE i BETWEEN 1 AND 9 OR NOT f",
    "WITH q AS (SELECT id FROM t) SELECT * FROM q",
    "SELECT x.id FROM (SELECT id FROM t) AS x",
    "INSERT INTO t VALUES (7,1,2,3.5,'q',TRUE)",
    "INSERT INTO t (id,s) VALUES (8,'w'),(9,NULL)",
    "INSERT INTO u SELECT id+10,id+10,s FROM t",
    "UPDATE t SET i=i*2,s='zz' WHERE id=1",
    "UPDATE u SET k=NULL",
    "DELETE FROM t WHERE d IS NOT NULL",
    "DELETE FROM u",
    "CREATE TABLE n (id INT,v TEXT NOT NULL,w DOUBLE DEFAULT 1.5,PRIMARY KEY(id))",
    "CREATE TABLE n (id INT,v INT UNIQUE,PRIMARY KEY(id))",
    "CREATE TABLE n (a INT,b TEXT,PRIMARY KEY(a,b))",
    "CREATE INDEX ti ON t(s)",
    "CREATE UNIQUE INDEX ti ON t(id,i)",
    "DROP TABLE u",
    "DROP INDEX ui",
    "ALTER TABLE u ADD COLUMN w INT",
    "ALTER TABLE u DROP COLUMN s",
    "ALTER TABLE u ALTER COLUMN s SET NOT NULL",
    "BEGIN",
    "COMMIT",
    "ROLLBACK",
    "SELECT ABS(i),UPPER(s),LENGTH(s),ROUND(d) FROM t",
    "SELECT COALESCE(i,b,0),NULLIF(i,5),CAST(i AS TEXT) FROM t",
    "SELECT s||'x',CONCAT(s,s),SUBSTR(s,1,1) FROM t",
    "SELECT -i,+i,i%3,b/2 FROM t",
    "SELECT MIN(s),MAX(d),COUNT(DISTINCT f) FROM t",
    "SELECT id FROM t WHERE s='it''s'",
    "SELECT id FROM t ORDER BY i,d DESC",
    "SELECT t.* FROM t,u WHERE t.id=u.k",
    "SELECT i FROM t WHERE i=(SELECT MAX(i) FROM t)",
];
fn pick(a: &[String]) -> usize {
    // args: first statement, number of statements
    let (lo, n) = (a.first().and_then(|x| x.parse().ok()).unwrap_or(0usize), a.get(1).and_then(|x| x.parse().ok()).unwrap_or(STMTS.len()));
    lo + ax::choose("stmt", n.min(STMTS.len() - lo) as u64)
}
/// a valid statement with something done to it anywhere
fn mutate(a: &[String]) {
    let b = base();
    let s = STMTS[pick(a)].as_bytes();
    let p = ax::choose("at", s.len() as u64 + 1);
    let mut v = s[..p].to_vec();
    let how = if a.get(2).map(|x| x.as_str()) == Some("all") { ax::choose("how", 6) } else { 2 + ax::choose("how", 4) };
    match how {
        0 => { if p == s.len() { ax::assume(false) } let c = ax::bytes("c", 1); ax::assume(some(c[0]) & (c[0] != s[p])); v.extend(&c); v.extend(&s[p + 1..]); }
        1 => { let c = ax::bytes("c", 1); ax::assume(some(c[0])); v.extend(&c); v.extend(&s[p..]); }
        2 => { if p == s.len() { ax::assume(false) } v.extend(&s[p + 1..]); }
        3 => {}
        4 => { v.extend(["é", "€", "😀", "\u{0}"][p % 4].as_bytes()); v.extend(&s[p..]); }
        _ => { if p == s.len() || !(p == 0 || s[p - 1] == b' ') { ax::assume(false) } let e = s[p..].iter().position(|c| *c == b' ').map(|x| p + x).unwrap_or(s.len()); v.extend(&s[p..e]); v.push(b' '); v.extend(&s[p..]); }
    }
    let q = unsafe { String::from_utf8_unchecked(v) };
    b.offer(&q);
}
const TOK: [&str; 92] = ["SELECT", "FROM", "WHERE", "GROUP", "BY", "HAVING", "ORDER", "LIMIT", "OFFSET", "DISTINCT", "AS", "JOIN", "LEFT", "RIGHT", "FULL", "CROSS", "INNER", "ON", "AND", "OR", "NOT", "IN", "IS", "NULL", "LIKE", "BETWEEN", "EXISTS", "CASE", "WHEN", "THEN", "ELSE", "END", "WITH", "UNION", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE", "CREATE", "TABLE", "INDEX", "UNIQUE", "PRIMARY", "KEY", "FOREIGN", "REFERENCES", "CHECK", "DEFAULT", "DROP", "ALTER", "ADD", "COLUMN", "CONSTRAINT", "BEGIN", "COMMIT", "ROLLBACK", "TRUE", "FALSE", "ASC", "DESC", "t", "u", "id", "i", "s", "nosuch", "COUNT", "SUM", "CAST", "0", "1", "-1", "1.5", "99999999999999999999", "'x'", "''", "(", ")", ",", ".", ";", "*", "+", "-", "/", "%", "||", "=", "<", "\"q\""];
/// statements made of tokens: part of a valid one, then anything
fn tokens(a: &[String]) {
    let n: usize = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let b = base();
    let s = STMTS[pick(a)];
    // cut between tokens
    let mut cuts = vec![0];
    let w = s.as_bytes();
    for i in 1..w.len() { let word = |c: u8| c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'\'' || c == b'%'; if !(word(w[i]) && word(w[i - 1])) { cuts.push(i) } }
    let c = ax::choose("cut", cuts.len() as u64);
    let mut q = s[..cuts[c]].to_string();
    for k in 0..n { q += " "; q += TOK[ax::choose(&format!("tok{k}"), TOK.len() as u64)]; q += " "; }
    if ax::flag("rest") { q += &s[cuts.get(c + 1).copied().unwrap_or(s.len())..]; }
    b.offer(&q);
}
fn dbl(name: &str, l: &[u64]) -> DataType { DataType::Double(axmosdb::types::Float64(f64::from_bits(l[ax::choose(name, l.len() as u64)]))) }
fn big(name: &str, all: bool) -> i64 {
    if all { return ax::bits64(name) as i64 }
    [i64::MIN, i64::MAX, 0, -1, 1 << 53, 3][ax::choose(name, 6)]
}
fn wide(name: &str, all: bool, sym: bool) -> String {
    let l = |d: DataType| litd(d);
    match ax::choose(name, 6) {
        0 if sym => l(DataType::Int(axmosdb::types::Int32(ax::raw(&format!("{name}i"), 32) as i32))),
        0 => l(DataType::Int(axmosdb::types::Int32([i32::MIN, i32::MAX, -1, 0, 7][ax::choose(&format!("{name}i"), 5)]))),
        1 => l(DataType::BigInt(axmosdb::types::Int64(big(&format!("{name}l"), all)))),
        2 if all => l(dbl(&format!("{name}d"), &[0u64, 0x8000_0000_0000_0000, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x43e0_0000_0000_0000, 0x7fef_ffff_ffff_ffff, 1, 0x3ff8_0000_0000_0000])),
        2 => l(dbl(&format!("{name}d"), &[0u64, 0x7ff8_0000_0000_0000, 0xffef_ffff_ffff_ffff])),
        3 => "NULL".into(),
        4 => "'a%é_'".into(),
        _ => "TRUE".into(),
    }
}
/// expressions over every type and every value, in every place
/// args: first operator, number of operators, "all"
fn expr(a: &[String]) {
    let b = base();
    hook_always();
    const OPS: u64 = 33;
    let (lo, n) = (a.first().and_then(|x| x.parse().ok()).unwrap_or(0), a.get(1).and_then(|x| x.parse().ok()).unwrap_or(OPS));
    let all = a.get(2).map(|x| x.as_str()) == Some("all");
    let ops = ["+", "-", "*", "/", "%", "=", "<", ">=", "<>", "AND", "OR", "LIKE", "||"];
    let o = lo as usize + ax::choose("op", n.min(OPS - lo));
    let place = ax::choose("place", 9);
    let sym = all || (matches!(o, 0 | 1 | 5..=8 | 14..=18) && matches!(place, 1 | 5));
    let col = if all || place < 2 { ax::flag("col") } else { true };
    let x = if col { ["i", "b", "d", "s", "f", "id"][ax::choose("x", 6)].to_string() } else { wide("x", all && o < 2, sym) };
    let y = || wide("y", all && o < 2 && !col, sym);
    let e = match o {
        0..=12 => format!("({x} {} {})", ops[o], y()),
        13 => format!("({x} IS NOT NULL)"),
        14 => format!("({x} IN (1, {}, NULL))", y()),
        15 => format!("({x} BETWEEN {} AND 3)", y()),
        16 => format!("(-{x})"),
        17 => format!("(NOT {x})"),
        18 => format!("ABS({x})"),
        19 => format!("ROUND({x})"),
        20 => format!("LENGTH({x})"),
        21 => format!("COALESCE({x}, {})", y()),
        22 => format!("NULLIF({x}, {})", y()),
        23 => format!("UPPER({x})"),
        24 => format!("SUBSTR({x}, {}, {})", y(), 2),
        25 => format!("CONCAT({x}, {})", y()),
        26 => format!("LTRIM(LOWER({x}))"),
        27 => format!("CEIL({x})"),
        28 => format!("FLOOR({x})"),
        29 => format!("SQRT({x})"),
        30 => format!("({x} NOT IN (SELECT k FROM u))"),
        31 => format!("CASE {x} WHEN {} THEN 2 END", y()),
        _ => format!("CASE WHEN {x} THEN {} ELSE 1 END", y()),
    };
    let q = match place {
        0 => format!("SELECT {e} FROM t"),
        1 => format!("SELECT id FROM t WHERE {e}"),
        2 => format!("SELECT SUM({e}), MIN({e}), COUNT({e}), AVG({e}) FROM t"),
        3 => format!("SELECT id FROM t ORDER BY {e}"),
        4 => format!("INSERT INTO t (id, i) VALUES (9, {})", if x.len() > 2 { e } else { y() }),
        5 => format!("UPDATE t SET i = {e}"),
        6 => format!("DELETE FROM t WHERE {e}"),
        7 => format!("SELECT f, COUNT(*) FROM t GROUP BY f HAVING COUNT(*) > {}", y()),
        _ => format!("SELECT t.id FROM t JOIN u ON t.id = u.id AND {}", if x == "id" || x == "s" { "TRUE".to_string() } else { e }),
    };
    if (place == 0 || place == 5) && ax::choose("ses", 2) == 1 { b.offer_session(&q) } else { b.offer(&q); }
}
/// statements that are well formed but wrong for the schema
fn stmt(_: &[String]) {
    let b = base();
    let l = [
        "SELECT nosuch FROM t", "SELECT * FROM nosuch", "SELECT t.nosuch FROM t", "SELECT x.id FROM t", "SELECT id, COUNT(*) FROM t", "SELECT COUNT(COUNT(*)) FROM t", "SELECT SUM(s) FROM t", "SELECT AVG(f) FROM t", "SELECT id FROM t GROUP BY s", "SELECT id FROM t HAVING id > 1",
        "SELECT id FROM t ORDER BY nosuch", "SELECT id FROM t LIMIT 99999999999999999999", "SELECT id FROM t LIMIT 1 OFFSET 99999999999999999999", "SELECT id FROM t LIMIT 0", "SELECT id FROM t LIMIT -1", "SELECT (SELECT id FROM t) FROM t", "SELECT id FROM t WHERE id = (SELECT id FROM t)", "SELECT id FROM t WHERE id IN (SELECT id, i FROM t)", "SELECT id FROM t WHERE (SELECT COUNT(*) FROM u) > 1", "SELECT EXISTS (SELECT 1 FROM u) FROM t",
        "INSERT INTO t VALUES (9)", "INSERT INTO t VALUES (9, 1, 2, 3, 4, 5, 6, 7)", "INSERT INTO t VALUES ('x', 'y', 'z', 'w', 1, 2)", "INSERT INTO t VALUES (1, 1, 1, 1.0, '', TRUE)", "INSERT INTO t VALUES (NULL, 1, 1, 1.0, '', TRUE)", "INSERT INTO t VALUES (9, 99999999999, 1, 1.0, '', TRUE)", "INSERT INTO t (id, id) VALUES (9, 10)", "INSERT INTO t (nosuch) VALUES (9)", "INSERT INTO t (s) VALUES ('only')", "INSERT INTO t SELECT * FROM u", "INSERT INTO u SELECT id, k, s FROM u", "INSERT INTO nosuch VALUES (1)", "INSERT INTO t VALUES ()", "INSERT INTO t VALUES (9, id, b, d, s, f)", "INSERT INTO u VALUES (9, COUNT(*), 'x')",
        "UPDATE t SET nosuch = 1", "UPDATE t SET id = 1", "UPDATE t SET id = NULL", "UPDATE t SET i = 'x'", "UPDATE t SET i = 1, i = 2", "UPDATE nosuch SET i = 1", "UPDATE u SET k = 1", "UPDATE t SET i = COUNT(*)", "UPDATE t SET i = (SELECT k FROM u)", "UPDATE t SET i = 1 WHERE nosuch", "UPDATE t SET i = i / (id - 2)",
        "DELETE FROM nosuch", "DELETE FROM t WHERE 1 / (id - 2) > 0", "DELETE FROM t WHERE s", "DELETE FROM t WHERE COUNT(*) > 1",
        "CREATE TABLE t (id INT, PRIMARY KEY(id))", "CREATE TABLE n (id INT)", "CREATE TABLE n (id INT, id INT, PRIMARY KEY(id))", "CREATE TABLE n (id NOSUCH, PRIMARY KEY(id))", "CREATE TABLE n (id INT, PRIMARY KEY(nosuch))", "CREATE TABLE n ()", "CREATE TABLE n (id INT, PRIMARY KEY(id), PRIMARY KEY(id))", "CREATE TABLE n (id INT DEFAULT 'x', PRIMARY KEY(id))", "CREATE TABLE n (id INT DEFAULT 1/0, PRIMARY KEY(id))", "CREATE TABLE n (id INT, v INT CHECK (v > 0), PRIMARY KEY(id))", "CREATE TABLE n (id INT, v INT REFERENCES t(id), PRIMARY KEY(id))", "CREATE TABLE n (id INT, v INT REFERENCES nosuch(id), PRIMARY KEY(id))", "CREATE TABLE n (id INT, v INT, PRIMARY KEY(id), FOREIGN KEY (v) REFERENCES u(nosuch))",
        "CREATE INDEX ui ON t(s)", "CREATE INDEX n ON t(nosuch)", "CREATE INDEX n ON nosuch(id)", "CREATE INDEX n ON t()", "CREATE UNIQUE INDEX n ON t(f)", "CREATE INDEX n ON t(s, s)", "CREATE INDEX t ON u(k)", "CREATE TABLE ui (id INT, PRIMARY KEY(id))",
        "DROP TABLE nosuch", "DROP INDEX nosuch", "DROP TABLE ui", "DROP INDEX t", "DROP TABLE t", "SELECT * FROM ui", "INSERT INTO ui VALUES (1)", "DELETE FROM ui", "UPDATE ui SET k = 5", "DROP TABLE u", "DROP INDEX ui",
        "ALTER TABLE u ADD COLUMN k INT", "ALTER TABLE u ADD COLUMN n INT NOT NULL", "ALTER TABLE u DROP COLUMN nosuch", "ALTER TABLE u DROP COLUMN id", "ALTER TABLE nosuch ADD COLUMN x INT", "ALTER TABLE u ALTER COLUMN nosuch SET NOT NULL", "ALTER TABLE u ADD CONSTRAINT c UNIQUE (nosuch)", "ALTER TABLE u ADD CONSTRAINT c UNIQUE (s)", "ALTER TABLE u ADD CONSTRAINT c PRIMARY KEY (s)", "ALTER TABLE u ALTER COLUMN s SET DEFAULT 'x'", "ALTER TABLE u ALTER COLUMN s DROP NOT NULL",
        "BEGIN", "COMMIT", "ROLLBACK", "SELECT", "SELECT FROM t", "SELECT * FROM t t t", "SELECT * FROM t, t", "SELECT * FROM t a, t a", "SELECT a.id FROM t a JOIN t b", "SELECT * FROM t JOIN u", "SELECT * FROM t FULL JOIN u ON t.id = u.id", "SELECT * FROM t RIGHT JOIN u ON t.i > u.k", "SELECT id AS x, i AS x FROM t ORDER BY x", "SELECT * FROM (SELECT id, id FROM t) AS q", "WITH q AS (SELECT * FROM q) SELECT * FROM q", "WITH RECURSIVE q AS (SELECT id FROM t) SELECT * FROM q", "WITH t AS (SELECT 1 FROM u) SELECT * FROM t", "SELECT * FROM meta_table", "SELECT * FROM axmos_meta",
        "SELECT NOSUCH(id) FROM t", "SELECT ABS() FROM t", "SELECT ABS(id, id) FROM t", "SELECT SUBSTR(s) FROM t", "SELECT SUBSTR(s, -1, -1) FROM t", "SELECT SUBSTR(s, 99, 99) FROM t", "SELECT SUBSTR(s, 1, 9999999999) FROM t", "SELECT CAST(s AS INT) FROM t", "SELECT CAST(d AS INT) FROM t", "SELECT CAST(s AS NOSUCH) FROM t", "SELECT REPLACE(s, '', 'x') FROM t", "SELECT ROUND(d, 400) FROM t", "SELECT SQRT(-1) FROM t", "SELECT POWER(10, 400) FROM t", "SELECT MOD(i, 0) FROM t", "SELECT LOWER(1) FROM t", "SELECT TRIM(s), LTRIM(s), RTRIM(s) FROM t", "SELECT CEIL(d), FLOOR(d) FROM t", "SELECT s LIKE s FROM t", "SELECT 'a' LIKE NULL FROM t", "SELECT CASE END FROM t", "SELECT CASE i WHEN 1 THEN 2 END FROM t", "SELECT * , * FROM t", "SELECT t.*, u.* FROM t, u", "SELECT id FROM t WHERE *", "SELECT COUNT(DISTINCT *) FROM t", "SELECT MAX(*) FROM t", "SELECT COUNT(*) + 1, -SUM(i) FROM t", "SELECT SUM(i) / COUNT(nosuch) FROM t", "SELECT 1 WHERE 1 = 1", "SELECT id FROM t WHERE (id, i) IN ((1, 5))", "SELECT (1, 2) FROM t", "SELECT id FROM t ORDER BY 1", "SELECT id FROM t ORDER BY 99", "SELECT id FROM t GROUP BY 1", "SELECT id FROM t ORDER BY COUNT(*)",
    ];
    let q = l[ax::choose("sql", l.len() as u64)];
    match ax::choose("how", 3) {
        0 => { b.offer(q); }
        1 => b.offer_session(q),
        _ => { let r = b.d.batch(&["INSERT INTO z VALUES (8, 8)", q]); if PANICS.load(SeqCst) > 0 { return ax::fail("panic") } if r.is_err() { ax::check_u(same_list(&b.all("z"), &b.z) & same_list(&b.all("t"), &b.t), "state-after-error"); } }
    }
}
/// nesting of every kind up to far more than is accepted
fn deep(_: &[String]) {
    let b = base();
    let n = [40, 166, 240, 400, 498, 1000, 4000][ax::choose("n", 7)];
    let rep = |s: &str| s.repeat(n);
    let e = match ax::choose("form", 12) {
        0 => format!("{}1=1{}", rep("("), rep(")")),
        1 => format!("{}id=1", rep("NOT ")),
        2 => vec!["id=1"; n].join(" OR "),
        3 => format!("id = {}", vec!["1"; n].join("+")),
        4 => format!("id = {}id", rep("- ")),
        5 => format!("id = {}1{}", rep("CASE WHEN id=1 THEN "), rep(" ELSE 2 END")),
        6 => format!("{}id=1{}", rep("id IN (SELECT id FROM t WHERE "), rep(")")),
        7 => format!("id = {}1{}", rep("ABS("), rep(")")),
        8 => format!("id IN ({})", vec!["1"; n].join(",")),
        9 => format!("s = '{}'", rep("x")),
        10 => format!("{}id FROM t{}", rep("(SELECT id FROM "), rep(") AS q ")),
        _ => rep("("),
    };
    let q = format!("SELECT id FROM t WHERE {e}");
    b.offer(&q);
}
/// rows with long histories, large values, many columns
fn rows(_: &[String]) {
    let b = base();
    let x = lit(ax::int("x", 0, 9));
    match ax::choose("what", 6) {
        0 => { for k in 0..270 { if let Err(e) = b.d.ex(&format!("UPDATE u SET s = '{k}' WHERE id = 1")) { ax::note(&e); return ax::fail("update-refused") } } b.offer(&format!("UPDATE u SET k = 90 + {x}, s = 'n' WHERE id = 1")); }
        1 => { let s = "y".repeat(30000); b.offer(&format!("UPDATE t SET s = '{s}' WHERE id <= {x}")); }
        2 => { let s = "y".repeat(70000); b.offer(&format!("INSERT INTO t (id, s) VALUES (100 + {x}, '{s}')")); }
        3 => { let c: Vec<String> = (0..120).map(|i| format!("c{i} INT")).collect(); b.offer(&format!("CREATE TABLE n (id BIGINT, {}, PRIMARY KEY(id))", c.join(", "))); let v: Vec<String> = (0..120).map(|_| x.clone()).collect(); b.offer(&format!("INSERT INTO n VALUES (1, {})", v.join(", "))); b.offer("SELECT * FROM n WHERE c119 > 3"); }
        4 => { let n = "n".repeat(5000); b.offer(&format!("CREATE TABLE {n} (id BIGINT, v INT, PRIMARY KEY(id))")); b.offer(&format!("INSERT INTO {n} VALUES ({x}, {x})")); b.offer(&format!("DROP TABLE {n}")); }
        _ => { for k in 0..6 { b.offer(&format!("SELECT id / (id - id) FROM t WHERE id > {k}")); b.offer("SELECT nosuch"); } }
    }
}
