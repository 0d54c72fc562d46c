//! Plan independence: the same query over every access path, join order and state of statistics,
//! against reference semantics.
use crate::{ax, db::*, sqlm::*};
pub const TABLE: &[(&str, fn(&[String]))] = &[("c05_multi", multi), ("c06_join3", join3), ("c06_index", index), ("c06_composite", composite), ("c06_wide", wide), ("c06_dml", dml), ("c06_states", states), ("c06_known", known)];

pub struct T { pub name: &'static str, pub cols: [&'static str; 3], pub rows: Vec<MRow> }
fn mk(d: &Db, name: &'static str, cols: [&'static str; 3], base: i64, n: i64, hi: i64, nulls: bool, extra: &str) -> T { let mut t = T { name, cols, rows: vec![] }; create(d, &t, extra); fill(d, &mut t, base, n, hi, nulls); t }
fn create(d: &Db, t: &T, extra: &str) { let (name, cols) = (t.name, t.cols);
    d.must(&format!("CREATE TABLE {name} ({} BIGINT, {} INT, {} INT, PRIMARY KEY({}){extra})", cols[0], cols[1], cols[2], cols[0]), "setup-create");
}
/// concrete rows, for statistics that do not depend on symbolic values
fn known_rows(d: &Db, t: &mut T, base: i64, n: i64) {
    for i in 0..n {
        let r: MRow = vec![Some(base + i), Some(i % 3), Some((i + 1) % 3)];
        d.must(&format!("INSERT INTO {} VALUES ({}, {}, {})", t.name, base + i, i % 3, (i + 1) % 3), "setup-insert");
        t.rows.push(r);
    }
}
fn fill(d: &Db, t: &mut T, base: i64, n: i64, hi: i64, nulls: bool) { let (name, cols) = (t.name, t.cols); let rows = &mut t.rows;
    for i in 0..n {
        let r = vec![Some(base + i), oint(&format!("{}{i}", cols[1]), 0, hi, nulls && i == 0), Some(ax::int(&format!("{}{i}", cols[2]), 0, hi))];
        d.must(&format!("INSERT INTO {name} VALUES ({}, {}, {})", base + i, litn(r[1]), litn(r[2])), "setup-insert");
        rows.push(r);
    }
}
/// the tuples of ids returned are exactly the combinations of rows that satisfy `p`, once each
fn expect(got: &[Row], tabs: &[&T], p: &P, id: &str) {
    let g: Vec<Vec<i64>> = got.iter().map(|r| r.iter().map(|v| match v { V::I(i) => ax::conc_i(*i), _ => -1 }).collect()).collect();
    let (mut ok, mut total) = (1u64, 0u64);
    let mut rec: Vec<(Vec<i64>, MRow)> = vec![(vec![], vec![])];
    for t in tabs {
        rec = rec.iter().flat_map(|(i, r)| t.rows.iter().map(move |x| { let mut a = i.clone(); a.push(x[0].unwrap()); let mut b = r.clone(); b.extend(x.iter().cloned()); (a, b) })).collect();
    }
    for (i, r) in &rec {
        let w = p.ev(r).t;
        ok &= (g.iter().filter(|x| *x == i).count() as u64 == w) as u64;
        total += w;
    }
    ok &= (total == g.len() as u64) as u64;
    ax::check_u(ok, id);
}
fn names(tabs: &[&T]) -> Vec<String> { tabs.iter().flat_map(|t| t.cols.iter().map(move |c| format!("{}.{c}", t.name))).collect() }
fn sqlp(p: &P, tabs: &[&T]) -> String { let n = names(tabs); let r: Vec<&str> = n.iter().map(|s| s.as_str()).collect(); p.sql(&r) }
/// which operators the plan uses; only for queries without symbolic literals
fn plan(d: &Db, q: &str) {
    let e = d.d().explain(q).unwrap_or_default();
    for k in ["IndexScan", "SeqScan", "NLJoin", "MergeJoin", "HashJoin", "Filter", "Sort"] { if e.contains(k) { ax::reach(&format!("plan-{k}")); } }
}

fn multi(_: &[String]) {
    let d = Db::create();
    let t = mk(&d, "t", ["id", "a", "b"], 1, 3, 7, true, "");
    let (x, y) = (ax::int("x", 0, 7), ax::int("y", 0, 7));
    let one = |r: Result<Vec<Row>, String>, p: P, id: &str| match r { Ok(r) => expect(&r, &[&t], &p, id), Err(e) => { ax::note(&e); ax::fail("multi-error") } };
    match ax::choose("form", 13) {
        0 => one(d.rows(&format!("SELECT s.id FROM (SELECT id, a FROM t WHERE a BETWEEN {} AND {}) s WHERE s.a <> 3", lit(x), lit(y))), and(P::Between(c(1), l(x), l(y), false), P::Cmp("<>", c(1), l(3))), "multi-derived"),
        1 => one(d.rows(&format!("SELECT s.id FROM (SELECT id, a FROM t WHERE a IN ({}, {}, 0)) s", lit(x), lit(y))), P::In(c(1), vec![l(x), l(y), l(0)], false), "multi-derived-in"),
        2 => {
            let Ok(r) = d.rows(&format!("SELECT p.id, q.id FROM (SELECT id, a FROM t WHERE a < {}) p JOIN (SELECT id, b FROM t WHERE b >= {}) q ON p.a < q.b", lit(x), lit(y))) else { return ax::fail("multi-error") };
            expect(&r, &[&t, &t], &and(and(P::Cmp("<", c(1), l(x)), P::Cmp(">=", c(5), l(y))), P::Cmp("<", c(1), c(5))), "multi-two-derived");
        }
        3 => {
            let Ok(r) = d.rows("SELECT x.id, y.id FROM t x JOIN t y ON x.a = y.b WHERE x.id <> y.id") else { return ax::fail("multi-error") };
            expect(&r, &[&t, &t], &and(P::Cmp("=", c(1), c(5)), P::Cmp("<>", c(0), c(3))), "multi-self");
        }
        4 => one(d.rows(&format!("SELECT id FROM t WHERE NOT a = {} AND b > {}", lit(x), lit(y))), and(not(P::Cmp("=", c(1), l(x))), P::Cmp(">", c(2), l(y))), "multi-not"),
        5 => one(d.rows(&format!("WITH s AS (SELECT id, a FROM t WHERE a > {}) SELECT id FROM s WHERE a < {}", lit(x), lit(y))), and(P::Cmp(">", c(1), l(x)), P::Cmp("<", c(1), l(y))), "multi-with"),
        6 => {
            let Ok(r) = d.rows(&format!("WITH s AS (SELECT id, a, b FROM t WHERE b > {}) SELECT * FROM s", lit(x))) else { return ax::fail("multi-error") };
            if r.iter().any(|r| r.len() != 3) { return ax::fail("multi-with-star"); }
            let want: Vec<Row> = t.rows.iter().filter(|r| ax::decide(r[2].unwrap() > x)).map(|r| r.iter().map(|v| mv(*v)).collect()).collect();
            ax::check_u(same_bag(&r, &want), "multi-with-star");
        }
        7 => {
            let Ok(r) = d.rows("SELECT id, a + b AS s FROM t ORDER BY s DESC, id") else { return ax::fail("multi-error") };
            if r.len() != 3 { return ax::fail("multi-order-alias"); }
            let mut ok = 1u64;
            for w in r.windows(2) {
                ok &= match (&w[0][1], &w[1][1]) { (V::N, _) => 1, (_, V::N) => 0, (V::I(p), V::I(q)) => (*p > *q) as u64 | ((*p == *q) as u64 & matches!((&w[0][0], &w[1][0]), (V::I(i), V::I(j)) if ax::decide(i < j)) as u64), _ => 0 };
            }
            let want: Vec<Row> = t.rows.iter().map(|r| vec![mv(r[0]), mv(add(c(1), c(2)).ev(r))]).collect();
            ax::check_u(ok & same_bag(&r, &want), "multi-order-alias");
        }
        8 => {
            let Ok(r) = d.rows("SELECT DISTINCT b FROM t ORDER BY b LIMIT 2") else { return ax::fail("multi-error") };
            let mut v: Vec<i64> = vec![];
            for r in &t.rows { let b = r[2].unwrap(); if !v.iter().any(|x| ax::decide(*x == b)) { v.push(b); } }
            // insertion sort with forks
            for i in 1..v.len() { let mut j = i; while j > 0 && ax::decide(v[j] < v[j - 1]) { v.swap(j, j - 1); j -= 1; } }
            v.truncate(2);
            ax::check_u(same_list(&r, &v.iter().map(|x| vec![V::I(*x)]).collect::<Vec<_>>()), "multi-distinct-limit");
        }
        9 => {
            let Ok(r) = d.rows("SELECT s.a, s.n FROM (SELECT a, COUNT(*) AS n FROM t GROUP BY a) s WHERE s.n > 1") else { return ax::fail("multi-error") };
            let mut want: Vec<Row> = vec![];
            for (i, r) in t.rows.iter().enumerate() {
                let same = |p: &MRow, q: &MRow| ax::decide(eqv(&mv(p[1]), &mv(q[1])));
                if t.rows[..i].iter().any(|p| same(p, r)) { continue; }
                let n = t.rows.iter().filter(|p| same(p, r)).count() as i64;
                if n > 1 { want.push(vec![mv(r[1]), V::I(n)]); }
            }
            ax::check_u(same_bag(&r, &want), "multi-derived-group");
        }
        10 => {
            d.must("CREATE TABLE z (id BIGINT, p INT, q INT, PRIMARY KEY(id))", "setup-create");
            let n = match d.ex(&format!("INSERT INTO z SELECT id + 10, b, a FROM t WHERE b > {}", lit(x))) { Ok(Out::Count(n)) => n, _ => return ax::fail("multi-insert-select") };
            let Ok(r) = d.rows("SELECT id, p, q FROM z") else { return ax::fail("multi-error") };
            let want: Vec<Row> = t.rows.iter().filter(|r| ax::decide(r[2].unwrap() > x)).map(|r| vec![V::I(r[0].unwrap() + 10), mv(r[2]), mv(r[1])]).collect();
            ax::check_u(same_bag(&r, &want) & (n == want.len() as u64) as u64, "multi-insert-select");
        }
        11 => {
            d.must("CREATE TABLE z (id BIGINT, p INT, q INT, PRIMARY KEY(id))", "setup-create");
            d.must(&format!("INSERT INTO z (q, id) VALUES ({}, 4), ({}, 5)", lit(x), lit(y)), "multi-columns");
            let Ok(r) = d.rows("SELECT id, p, q FROM z") else { return ax::fail("multi-error") };
            ax::check_u(same_bag(&r, &[vec![V::I(4), V::N, V::I(x)], vec![V::I(5), V::N, V::I(y)]]), "multi-columns");
        }
        _ => {
            let Ok(r) = d.rows("SELECT id FROM t ORDER BY a + b, b - a LIMIT 3 OFFSET 0") else { return ax::fail("multi-error") };
            let k = |i: i64| { let r = t.rows.iter().find(|r| r[0] == Some(i)).unwrap(); (add(c(1), c(2)).ev(r), sub(c(2), c(1)).ev(r)) };
            if r.len() != 3 { return ax::fail("multi-order-expr"); }
            let ids: Vec<i64> = r.iter().map(|r| match r[0] { V::I(i) => ax::conc_i(i), _ => 0 }).collect();
            let mut ok = 1u64;
            for w in ids.windows(2) {
                let ((a0, a1), (b0, b1)) = (k(w[0]), k(w[1]));
                ok &= match (a0, b0) { (None, None) => 1, (Some(_), None) => 1, (None, Some(_)) => 0, (Some(a), Some(b)) => (a < b) as u64 | ((a == b) as u64 & (a1.unwrap() <= b1.unwrap()) as u64) };
            }
            ax::check_u(ok, "multi-order-expr");
        }
    }
}
/// three-way joins of tables of different sizes, before and after ANALYZE
fn join3(a: &[String]) {
    let d = Db::create();
    let (mut t, mut u, mut v) = (T { name: "t", cols: ["id", "a", "b"], rows: vec![] }, T { name: "u", cols: ["uid", "k", "m"], rows: vec![] }, T { name: "v", cols: ["vid", "q", "r"], rows: vec![] });
    create(&d, &t, ""); create(&d, &u, ""); create(&d, &v, "");
    // statistics: none, or gathered over concrete rows of several sizes
    let big = a.first().is_some();
    let st = if big { ax::choose("stats", 4) } else { [0, 1, 3][ax::choose("stats", 3)] };
    let hi = if big { 3 } else { 2 };
    let sz = [[0, 0, 0], [3, 2, 1], [1, 2, 4], [2, 5, 1]][st];
    known_rows(&d, &mut t, 1, sz[0]); known_rows(&d, &mut u, 101, sz[1]); known_rows(&d, &mut v, 201, sz[2]);
    if st > 0 { if d.analyze().is_err() { ax::fail("analyze-failed"); } }
    fill(&d, &mut t, 11, 1, hi, true); fill(&d, &mut u, 111, 1 + (st == 0) as i64, hi, false); fill(&d, &mut v, 211, 1, hi, false);
    let x = ax::int("x", 0, hi);
    let (t, u, v) = (t, u, v);
    let tabs = [&t, &u, &v];
    let e1 = P::Cmp("=", c(1), c(4));
    let e2 = P::Cmp("=", c(5), c(7));
    let e3 = P::Cmp("=", c(2), c(8));
    let lt = P::Cmp("<", c(1), c(8));
    let f = [None, Some(P::Cmp(">", c(2), l(x))), Some(P::Cmp("<=", c(7), l(x))), Some(and(P::Cmp("<>", c(4), l(x)), P::Cmp("<", c(2), c(8)))), Some(or(P::Cmp("=", c(1), c(7)), P::Cmp("=", c(5), l(x))))][ax::choose("filter", 5)].clone();
    let form = ax::choose("form", 6);
    let sel = ["SELECT t.id, u.uid, v.vid FROM ", "SELECT v.vid, t.id, u.uid FROM "][(form + st) % 2];
    let (from, on) = match form {
        0 => (format!("t JOIN u ON {} JOIN v ON {}", sqlp(&e1, &tabs), sqlp(&e2, &tabs)), and(e1, e2)),
        1 => (format!("u JOIN v ON {} JOIN t ON {}", sqlp(&e2, &tabs), sqlp(&e1, &tabs)), and(e1, e2)),
        2 => (format!("v JOIN u ON {} JOIN t ON {}", sqlp(&e2, &tabs), sqlp(&and(e1.clone(), e3.clone()), &tabs)), and(e2, and(e1, e3))),
        3 => (format!("t JOIN v ON {} JOIN u ON {}", sqlp(&lt, &tabs), sqlp(&e1, &tabs)), and(lt, e1)),
        4 => (format!("t CROSS JOIN u JOIN v ON {}", sqlp(&and(e2.clone(), lt.clone()), &tabs)), and(e2, lt)),
        _ => ("t, u, v".to_string(), and(e1, e2)),
    };
    let comma = from == "t, u, v";
    let p = match (&f, comma) { (Some(f), _) => and(on.clone(), f.clone()), _ => on.clone() };
    let wh = if comma { Some(p.clone()) } else { f };
    let q = format!("{sel}{from}{}", wh.as_ref().map(|w| format!(" WHERE {}", sqlp(w, &tabs))).unwrap_or_default());
    if wh.is_none() || !q.contains("198700") && !ax::is_symbolic() { plan(&d, &q); }
    match d.rows(&q) {
        Ok(r) => {
            let r: Vec<Row> = if sel.starts_with("SELECT v") { r.into_iter().map(|x| vec![x[1].clone(), x[2].clone(), x[0].clone()]).collect() } else { r };
            expect(&r, &tabs, &p, "join3-rows");
        }
        Err(e) => { ax::note(&e); ax::fail("join3-error") }
    }
}
/// predicates over an indexed column
fn ipred(k: usize, x: i64, y: i64) -> P {
    let (a, b) = (|| c(1), || c(2));
    match k {
        0 => P::Cmp("=", a(), l(x)), 1 => P::Cmp("<", a(), l(x)), 2 => P::Cmp("<=", a(), l(x)), 3 => P::Cmp(">", a(), l(x)), 4 => P::Cmp(">=", a(), l(x)),
        5 => P::Between(a(), l(x), l(y), false), 6 => and(P::Cmp(">", a(), l(x)), P::Cmp("<", a(), l(y))), 7 => and(P::Cmp("=", a(), l(x)), P::Cmp("=", b(), l(y))),
        8 => and(P::Cmp(">=", a(), l(x)), P::Cmp(">", b(), l(y))), 9 => P::In(a(), vec![l(x), l(y)], false), 10 => or(P::Cmp("=", a(), l(x)), P::Cmp("=", b(), l(y))),
        11 => and(P::Cmp("=", a(), l(x)), P::Cmp("=", a(), l(y))), 12 => and(P::Cmp(">", a(), l(x)), P::Cmp(">", a(), l(y))), 13 => P::Cmp(">", l(x), a()), 14 => P::Cmp("=", l(x), a()),
        15 => P::Cmp("=", b(), l(y)), 16 => not(P::Cmp("<", a(), l(x))), 17 => P::Cmp("<>", a(), l(x)), 18 => P::IsNull(a(), false), 19 => and(P::Cmp("=", c(0), l(2)), P::Cmp("<=", a(), l(y))),
        20 => P::Cmp("<=", c(0), l(x)), 21 => and(P::Cmp(">", c(0), l(1)), P::Cmp("<", a(), b())), 22 => P::Cmp("=", a(), b()), 23 => and(P::Between(a(), l(x), l(y), false), P::Cmp("<>", b(), l(x))),
        24 => and(P::Cmp("<=", a(), l(x)), P::Cmp(">=", a(), l(x))), 25 => P::Cmp("=", add(a(), l(1)), l(x)), 26 => P::Between(c(0), l(x), l(y), false), _ => and(P::Cmp(">=", c(0), l(2)), P::Cmp("<=", c(0), l(x))),
    }
}
const IP: u64 = 28;
fn setup_index(extra: &str, uniq2: bool) -> (Db, T) {
    let d = Db::create();
    d.must(&format!("CREATE TABLE t (id BIGINT, a INT, b INT, PRIMARY KEY(id), {extra})"), "setup-create");
    let nul = ax::choose("null", 3);
    let mut rows: Vec<MRow> = vec![];
    for i in 0..3i64 {
        let r: MRow = vec![Some(i + 1), if nul == 1 && i == 0 || nul == 2 && i < 2 { None } else { Some(ax::int(&format!("a{i}"), -2, 5)) }, if uniq2 && (nul == 1 && i == 1 || nul == 2 && i == 0) { None } else { Some(ax::int(&format!("b{i}"), -2, 5)) }];
        for q in &rows { if let (Some(p), Some(q1)) = (r[1], q[1]) { if uniq2 { if let (Some(b), Some(b1)) = (r[2], q[2]) { let e = ((p == q1) as u64) & ((b == b1) as u64); ax::assume(e == 0) } } else { ax::assume(p != q1) } } }
        rows.push(r);
    }
    if ax::flag("analyze") {
        d.must("INSERT INTO t VALUES (31, 20, 1), (32, 21, 2), (33, 22, 2), (34, NULL, 3)", "setup-insert");
        if d.analyze().is_err() { ax::fail("analyze-failed"); }
        d.must("DELETE FROM t WHERE id > 30", "setup-delete");
    }
    for r in &rows { d.must(&format!("INSERT INTO t VALUES ({}, {}, {})", r[0].unwrap(), litn(r[1]), litn(r[2])), "setup-insert"); }
    (d, T { name: "t", cols: ["id", "a", "b"], rows })
}
fn index(_: &[String]) {
    let (d, t) = setup_index("UNIQUE(a)", false);
    plan(&d, "SELECT id FROM t WHERE a = 5");
    let (x, y) = (ax::int("x", 0, 7), ax::int("y", 0, 7));
    let p = ipred(ax::choose("pred", IP), x, y);
    match d.rows(&format!("SELECT t.id FROM t WHERE {}", sqlp(&p, &[&t]))) { Ok(r) => expect(&r, &[&t], &p, "index-rows"), Err(e) => { ax::note(&e); ax::fail("index-error") } }
}
fn composite(_: &[String]) {
    let (d, t) = setup_index("UNIQUE(a, b)", true);
    plan(&d, "SELECT id FROM t WHERE a = 5 AND b > 1");
    let (x, y) = (ax::int("x", 0, 7), ax::int("y", 0, 7));
    let p = ipred(ax::choose("pred", IP), x, y);
    match d.rows(&format!("SELECT t.id FROM t WHERE {}", sqlp(&p, &[&t]))) { Ok(r) => expect(&r, &[&t], &p, "composite-rows"), Err(e) => { ax::note(&e); ax::fail("composite-error") } }
}
/// sizes that make the optimizer swap the sides of a join
fn wide(a: &[String]) {
    let hi = if a.is_empty() { 2 } else { 3 };
    let d = Db::create();
    let big = [1usize, 1500][ax::choose("big", 2)];
    let mut tabs = vec![];
    for (n, cols, base, cnt) in [("t", ["id", "a", "s"], 1i64, 2i64), ("u", ["uid", "k", "w"], 11, 4)] {
        d.must(&format!("CREATE TABLE {n} ({} BIGINT, {} INT, {} TEXT, PRIMARY KEY({}))", cols[0], cols[1], cols[2], cols[0]), "setup-create");
        let mut rows = vec![];
        for i in 0..cnt {
            d.must(&format!("INSERT INTO {n} VALUES ({}, {}, '{}')", base + i, i, "z".repeat(if n == "u" { big } else { 1 })), "setup-insert");
            rows.push(vec![Some(base + i), Some(i), None]);
        }
        tabs.push(T { name: n, cols, rows });
    }
    if ax::flag("analyze") { if d.analyze().is_err() { ax::fail("analyze-failed"); } }
    for t in &mut tabs { for i in 5..(if t.name == "u" && !a.is_empty() { 7 } else { 6 }) {
        let v = ax::int(&format!("{}{i}", t.cols[1]), 0, hi);
        let base = t.rows[0][0].unwrap();
        d.must(&format!("INSERT INTO {} VALUES ({}, {}, 'y')", t.name, base + i, lit(v)), "setup-insert");
        t.rows.push(vec![Some(base + i), Some(v), None]);
    } }
    let x = ax::int("x", 0, hi);
    let (t, u) = (&tabs[0], &tabs[1]);
    let on = [P::Cmp("=", c(1), c(4)), P::Cmp("<", c(1), c(4)), and(P::Cmp("=", c(1), c(4)), P::Cmp("<>", c(0), c(3)))][ax::choose("on", 3)].clone();
    let wh = [None, Some(P::Cmp(">", c(1), l(x))), Some(P::Cmp("<=", c(4), l(x)))][ax::choose("where", 3)].clone();
    let q0 = format!("SELECT t.id, u.uid FROM t JOIN u ON {}", sqlp(&on, &[t, u]));
    if wh.is_none() { plan(&d, &q0); }
    let q = format!("{q0}{}", wh.as_ref().map(|w| format!(" WHERE {}", sqlp(w, &[t, u]))).unwrap_or_default());
    let p = match wh { Some(w) => and(on, w), None => on };
    match d.rows(&q) { Ok(r) => expect(&r, &[t, u], &p, "wide-rows"), Err(e) => { ax::note(&e); ax::fail("wide-error") } }
}
/// DELETE and UPDATE through an index
fn dml(_: &[String]) {
    let (d, t) = setup_index("UNIQUE(a)", false);
    let (x, y) = (ax::int("x", 0, 7), ax::int("y", 0, 7));
    let p = ipred(ax::choose("pred", 10), x, y);
    let w = P::sql(&p, &["id", "a", "b"]);
    let up = ax::flag("update");
    let r = if up { d.ex(&format!("UPDATE t SET b = 100 WHERE {w}")) } else { d.ex(&format!("DELETE FROM t WHERE {w}")) };
    let Ok(Out::Count(n)) = r else { return ax::fail("dml-error") };
    let hit: Vec<bool> = t.rows.iter().map(|r| ax::decide(p.ev(r).t != 0)).collect();
    let want: Vec<Row> = t.rows.iter().zip(&hit).filter(|(_, h)| up || !**h).map(|(r, h)| vec![mv(r[0]), mv(r[1]), if *h { V::I(100) } else { mv(r[2]) }]).collect();
    ax::check(n == hit.iter().filter(|h| **h).count() as u64, "dml-count");
    let Ok(r) = d.rows("SELECT id, a, b FROM t") else { return ax::fail("dml-error") };
    ax::check_u(same_bag(&r, &want), "dml-table");
    let Ok(r) = d.rows(&format!("SELECT id, a, b FROM t WHERE a >= {}", lit(x))) else { return ax::fail("dml-error") };
    let want: Vec<Row> = want.into_iter().filter(|r| match r[1] { V::I(a) => ax::decide(a >= x), _ => false }).collect();
    ax::check_u(same_bag(&r, &want), "dml-index");
}
/// the index agrees with the table whatever happened before
fn states(_: &[String]) {
    let (d, t) = setup_index("UNIQUE(a)", false);
    let mut rows = t.rows.clone();
    let z = ax::int("z", 6, 7);
    let steps = 2;
    for k in 0..steps {
        match ax::choose(&format!("step{k}"), 8) {
            0 => { d.must("DELETE FROM t WHERE id = 2", "states-error"); rows.retain(|r| r[0] != Some(2)); }
            1 => {
                // insert a row with the values of a row that may have been deleted
                let old = &t.rows[1];
                let clash = rows.iter().any(|r| r[0] == Some(2) || r[0] == Some(40 + k));
                let r = d.ex(&format!("INSERT INTO t VALUES ({}, {}, 0)", 40 + k, litn(old[1])));
                let dup = clash && old[1].is_some() || rows.iter().any(|r| r[1].is_some() && old[1].is_some() && ax::decide(r[1] == old[1]));
                if r.is_ok() == dup { return ax::fail("states-insert"); }
                if !dup { rows.push(vec![Some(40 + k), old[1], Some(0)]); }
            }
            2 => {
                let mut s = d.session().unwrap();
                let _ = s.ex(&format!("INSERT INTO t VALUES ({}, {}, 0)", 50 + k, lit(z)));
                let _ = s.ex("DELETE FROM t WHERE id = 1");
                if s.abort().is_err() { ax::fail("states-abort"); }
            }
            3 => { let r = d.ex(&format!("INSERT INTO t VALUES ({}, {}, 0)", 60 + k, lit(z))); let dup = rows.iter().any(|r| r[1].is_some() && ax::decide(r[1] == Some(z))); if r.is_ok() == dup { return ax::fail("states-insert"); } if !dup { rows.push(vec![Some(60 + k), Some(z), Some(0)]); } }
            4 => { d.must("UPDATE t SET b = b + 1 WHERE id <= 2", "states-error"); for r in &mut rows { if r[0] <= Some(2) { r[2] = r[2].map(|b| b + 1); } } }
            5 => if d.vacuum().is_err() { ax::fail("states-vacuum"); },
            6 => { let mut s = d.session().unwrap(); if s.ex("DELETE FROM t WHERE id = 3").is_err() { ax::fail("states-error"); } if s.commit().is_err() { ax::fail("states-commit"); } rows.retain(|r| r[0] != Some(3)); }
            _ => if d.flush().is_err() { ax::fail("states-flush"); },
        }
    }
    let x = ax::int("x", 0, 7);
    let p = [P::Cmp("=", c(1), l(x)), P::Cmp(">=", c(1), l(x)), P::Cmp("<", c(1), l(x)), P::Cmp(">=", c(0), l(0))][ax::choose("pred", 4)].clone();
    let now = T { name: "t", cols: t.cols, rows };
    match d.rows(&format!("SELECT t.id FROM t WHERE {}", sqlp(&p, &[&now]))) { Ok(r) => expect(&r, &[&now], &p, "states-rows"), Err(e) => { ax::note(&e); ax::fail("states-error") } }
}
/// an UPDATE of an indexed column leaves the index as it was (recorded finding)
fn known(_: &[String]) {
    let (d, mut t) = setup_index("UNIQUE(a)", false);
    let z = ax::int("z", 6, 7);
    d.must(&format!("UPDATE t SET a = {} WHERE id = 3", lit(z)), "setup-update");
    t.rows[2][1] = Some(z);
    let x = ax::int("x", 0, 7);
    let p = P::Cmp(">=", c(1), l(x));
    match d.rows(&format!("SELECT t.id FROM t WHERE {}", sqlp(&p, &[&t]))) { Ok(r) => expect(&r, &[&t], &p, "index-after-update"), Err(_) => ax::fail("known-error") }
}
