//! Query answers against reference SQL semantics.
use crate::{ax, db::*, sqlm::*};
pub const TABLE: &[(&str, fn(&[String]))] = &[("c05_where", where_), ("c05_compose", compose), ("c05_project", project), ("c05_join", join), ("c05_agg", agg), ("c05_group", group),
    ("c05_order", order), ("c05_distinct", distinct), ("c05_like", like), ("c05_dml", dml), ("c05_func", func), ("c05_types", types), ("c05_mix", mix), ("c05_known", known)];
const N: [&str; 3] = ["id", "a", "b"];

/// t(id, a, b) with `n` rows of symbolic values
pub fn setup(n: i64, lo: i64, hi: i64, nulls: &[bool]) -> (Db, Vec<MRow>) {
    let d = Db::create();
    d.must("CREATE TABLE t (id BIGINT, a INT, b INT, PRIMARY KEY(id))", "setup-create");
    let mut m = vec![];
    for i in 0..n {
        let nl = nulls[i as usize];
        let r = vec![Some(i + 1), oint(&format!("a{i}"), lo, hi, nl), oint(&format!("b{i}"), lo, hi, nl)];
        match d.must(&format!("INSERT INTO t VALUES ({}, {}, {})", i + 1, litn(r[1]), litn(r[2])), "setup-insert") { Out::Count(1) => {}, _ => ax::fail("insert-count") }
        m.push(r);
    }
    (d, m)
}
pub fn ids(rows: &[Row]) -> Vec<i64> { rows.iter().map(|r| match r.first() { Some(V::I(i)) => ax::conc_i(*i), _ => -1 }).collect() }
/// the ids returned are exactly those of the model rows for which `want` holds, once each
pub fn check_ids(got: &[i64], m: &[MRow], want: &dyn Fn(&MRow) -> u64, id: &str) {
    let mut ok = 1u64;
    for r in m {
        let k = got.iter().filter(|x| Some(**x) == r[0]).count() as u64;
        ok &= (k == want(r)) as u64;
    }
    ok &= got.iter().all(|g| m.iter().any(|r| r[0] == Some(*g))) as u64;
    ax::check_u(ok, id);
}
fn atom(k: usize, x: i64, y: i64) -> P {
    let (a, b) = (|| c(1), || c(2));
    match k {
        0 => P::Cmp("=", a(), l(x)), 1 => P::Cmp("<>", a(), l(x)), 2 => P::Cmp("<", a(), l(x)), 3 => P::Cmp("<=", a(), l(x)), 4 => P::Cmp(">", a(), l(x)), 5 => P::Cmp(">=", a(), l(x)),
        6 => P::Cmp("=", a(), b()), 7 => P::Cmp("<", b(), a()), 8 => P::IsNull(b(), false), 9 => P::IsNull(b(), true),
        10 => P::Between(a(), l(x), l(y), false), 11 => P::Between(a(), l(x), l(y), true), 12 => P::In(a(), vec![l(x), l(y)], false), 13 => P::In(a(), vec![l(x), l(y)], true),
        14 => P::In(a(), vec![l(x), E::Null], false), 15 => P::In(a(), vec![l(x), E::Null], true), 16 => P::Cmp("=", a(), E::Null), 17 => P::Cmp(">", add(a(), mul(b(), l(2))), l(x)),
        18 => P::Cmp("<", sub(sub(a(), b()), l(x)), l(y)), 19 => P::Cmp("<=", sub(a(), sub(b(), l(x))), l(y)), 20 => P::Cmp("=", neg(a()), b()), 21 => P::Cmp(">", l(x), a()),
        22 => P::Cmp("!=", a(), b()), 23 => P::Between(l(x), a(), b(), false), 24 => P::Cmp("<", mul(add(a(), b()), l(2)), l(x)), 25 => P::Cmp("=", c(0), l(y)),
        26 => P::Cmp(">=", c(0), a()), 27 => P::In(a(), vec![b(), l(x), l(y)], false), 28 => P::In(a(), vec![b(), l(x)], true), 29 => P::Between(a(), b(), l(y), true),
        30 => P::IsNull(add(a(), b()), false), 31 => P::Cmp("<=", l(x), b()), _ => unreachable!(),
    }
}
const ATOMS: u64 = 32;
/// single predicates in SELECT, DELETE and UPDATE
fn where_(a: &[String]) {
    let w: i64 = a.first().map(|s| s.parse().unwrap()).unwrap_or(8);
    let (d, m) = setup(2, -w, w - 1, &[false, true]);
    let (x, y) = (ax::int("x", 0, 2 * w - 1), ax::int("y", 0, 2 * w - 1));
    let p = atom(ax::choose("atom", ATOMS), x, y);
    let p = if ax::flag("not") { not(p) } else { p };
    run_stmt(&d, &m, &p, ax::choose("stmt", 3));
}
fn run_stmt(d: &Db, m: &[MRow], p: &P, stmt: usize) {
    let w = p.sql(&N);
    match stmt {
        0 => match d.rows(&format!("SELECT id FROM t WHERE {w}")) {
            Ok(r) => check_ids(&ids(&r), m, &|r| p.ev(r).t, "where-select"),
            Err(_) => ax::fail("where-error"),
        },
        1 => {
            let Ok(Out::Count(n)) = d.ex(&format!("DELETE FROM t WHERE {w}")) else { return ax::fail("delete-error") };
            ax::check(n == m.iter().map(|r| p.ev(r).t).sum::<u64>(), "delete-count");
            let Ok(r) = d.rows("SELECT id, a, b FROM t") else { return ax::fail("select-after-delete") };
            check_ids(&ids(&r), m, &|r| p.ev(r).t ^ 1, "delete-effect");
            check_vals(&r, m, &|r| r.clone(), "delete-values");
        }
        _ => {
            let z = ax::int("z", 0, 99);
            let Ok(Out::Count(n)) = d.ex(&format!("UPDATE t SET b = {} WHERE {w}", lit(z))) else { return ax::fail("update-error") };
            ax::check(n == m.iter().map(|r| p.ev(r).t).sum::<u64>(), "update-count");
            let Ok(r) = d.rows("SELECT id, a, b FROM t") else { return ax::fail("select-after-update") };
            check_ids(&ids(&r), m, &|_| 1, "update-rows");
            let mut ok = 1u64;
            for g in &r {
                let V::I(i) = g[0] else { return ax::fail("update-values") };
                let o = &m[(ax::conc_i(i) - 1) as usize];
                let t = p.ev(o).t;
                let old = eqv(&g[1], &mv(o[1])) as u64 & eqv(&g[2], &mv(o[2])) as u64;
                let new = eqv(&g[1], &mv(o[1])) as u64 & eqv(&g[2], &V::I(z)) as u64;
                ok &= (t & new) | ((t ^ 1) & old);
            }
            ax::check_u(ok, "update-values");
        }
    }
}
/// every returned row holds the values the model computes for its id
fn check_vals(got: &[Row], m: &[MRow], f: &dyn Fn(&MRow) -> MRow, id: &str) {
    let mut ok = 1u64;
    for g in got {
        let V::I(i) = g[0] else { return ax::fail(id) };
        let i = ax::conc_i(i);
        let Some(o) = m.iter().find(|r| r[0] == Some(i)) else { return ax::fail(id) };
        let w: Vec<V> = f(o).into_iter().map(mv).collect();
        ok &= eqrow(g, &w);
    }
    ax::check_u(ok, id);
}
/// boolean structure: NOT, AND, OR without parentheses where the precedence makes them redundant
fn compose(_: &[String]) {
    let (d, m) = setup(2, -9, 9, &[false, true]);
    let (x, y) = (ax::int("x", 0, 9), ax::int("y", 0, 9));
    let at = |n: &str| match ax::choose(n, 4) { 0 => P::Cmp("<", c(1), l(x)), 1 => P::Cmp("=", c(2), l(y)), 2 => P::Cmp(">=", c(2), c(1)), _ => P::IsNull(c(1), false) };
    let form = ax::choose("form", 12);
    let (p, q) = (at("p"), at("q"));
    let e = match form {
        0 => and(p, q), 1 => or(p, q), 2 => and(not(p), q), 3 => or(p, not(q)), 4 => not(and(p, q)), 5 => not(or(p, q)),
        f => { let r = at("r"); match f { 6 => or(and(p, q), r), 7 => or(p, and(q, r)), 8 => and(or(p, q), r), 9 => and(p, or(q, r)), 10 => or(and(not(p), q), r), _ => not(or(p, not(and(q, r)))) } }
    };
    run_stmt(&d, &m, &e, 0);
}
fn project(_: &[String]) {
    let (d, m) = setup(2, -40, 40, &[false, true]);
    let x = ax::int("x", 0, 40);
    let e = match ax::choose("expr", 14) {
        0 => add(c(1), c(2)), 1 => sub(c(1), c(2)), 2 => mul(c(1), l(3)), 3 => neg(c(1)), 4 => add(c(1), mul(c(2), l(x))), 5 => sub(sub(c(1), c(2)), l(x)), 6 => sub(c(1), sub(c(2), l(x))),
        7 => mul(add(c(1), c(2)), l(2)), 8 => add(neg(c(1)), c(2)), 9 => sub(l(x), c(1)), 10 => mul(neg(add(c(1), c(2))), l(2)), 11 => E::Null, 12 => l(x), _ => mul(mul(c(0), c(0)), c(1)),
    };
    match ax::choose("form", 2) {
        0 => match d.rows(&format!("SELECT id, {} FROM t", e.sql(&N))) {
            Ok(r) => { check_ids(&ids(&r), &m, &|_| 1, "project-rows"); check_vals(&r, &m, &|r| vec![r[0], e.ev(r)], "project-values") }
            Err(_) => ax::fail("project-error"),
        },
        _ => {
            // through a derived table, with aliases
            match d.rows(&format!("SELECT q.i, q.v FROM (SELECT id AS i, {} AS v FROM t) AS q", e.sql(&N))) {
                Ok(r) => { check_ids(&ids(&r), &m, &|_| 1, "derived-rows"); check_vals(&r, &m, &|r| vec![r[0], e.ev(r)], "derived-values") }
                Err(_) => ax::fail("derived-error"),
            }
        }
    }
}
fn join(a: &[String]) {
    let d = Db::create();
    d.must("CREATE TABLE t (id BIGINT, a INT, b INT, PRIMARY KEY(id))", "setup-create");
    d.must("CREATE TABLE u (id BIGINT, k INT, m INT, PRIMARY KEY(id))", "setup-create");
    let big = a.first().map(|s| s.as_str()) == Some("3");
    let (mut t, mut u): (Vec<MRow>, Vec<MRow>) = (vec![], vec![]);
    let kind = ax::choose("join", 6);
    let nt = ax::choose("nt", 3) as i64 + if big { 1 } else { 0 };
    let nu = ax::choose("nu", 3) as i64;
    for i in 0..nt {
        let r = vec![Some(i + 1), oint(&format!("a{i}"), 0, 9, i == 0), Some(ax::int(&format!("b{i}"), 0, 9))];
        d.must(&format!("INSERT INTO t VALUES ({}, {}, {})", i + 1, litn(r[1]), litn(r[2])), "setup-insert");
        t.push(r);
    }
    for i in 0..nu {
        let r = vec![Some(i + 11), oint(&format!("k{i}"), 0, 9, i == 0), Some(ax::int(&format!("m{i}"), 0, 9))];
        d.must(&format!("INSERT INTO u VALUES ({}, {}, {})", i + 11, litn(r[1]), litn(r[2])), "setup-insert");
        u.push(r);
    }
    let n = ["t.id", "t.a", "t.b", "u.id", "u.k", "u.m"];
    let on = if kind == 4 { None } else {
        Some(match ax::choose("on", 6) {
            0 => P::Cmp("=", c(1), c(4)), 1 => P::Cmp("=", c(4), c(1)), 2 => P::Cmp("<", c(1), c(4)), 3 => and(P::Cmp("=", c(1), c(4)), P::Cmp(">", c(2), c(5))),
            4 => and(P::Cmp("=", c(1), c(4)), P::Cmp("=", c(5), c(2))), _ => P::Cmp("<>", c(2), c(5)),
        })
    };
    let x = ax::int("x", 0, 9);
    let wh = match ax::choose("where", 4) { 0 => None, 1 => Some(P::Cmp(">", c(2), l(x))), 2 => Some(P::IsNull(c(4), kind < 4)), _ => Some(P::Cmp("<=", c(5), c(2))) };
    let (kw, lo, ro) = match kind { 0 => ("JOIN", false, false), 1 => ("LEFT JOIN", true, false), 2 => ("RIGHT JOIN", false, true), 3 => ("FULL JOIN", true, true), 4 => ("CROSS JOIN", false, false), _ => (",", false, false) };
    let mut sql = if kind == 5 {
        format!("SELECT t.id, u.id FROM t, u WHERE {}", match (&on, &wh) { (Some(o), Some(w)) => and(o.clone(), w.clone()).sql(&n), (Some(o), None) => o.sql(&n), _ => unreachable!() })
    } else {
        format!("SELECT t.id, u.id FROM t {kw} u{}", on.as_ref().map(|p| format!(" ON {}", p.sql(&n))).unwrap_or_default())
    };
    if kind != 5 { if let Some(w) = &wh { sql += &format!(" WHERE {}", w.sql(&n)); } }
    let r = match d.rows(&sql) { Ok(r) => r, Err(_) => return ax::fail("join-error") };
    let got: Vec<(i64, i64)> = r.iter().map(|r| {
        let f = |v: &V| match v { V::I(i) => ax::conc_i(*i), V::N => 0, _ => -1 };
        if r.len() != 2 { (-1, -1) } else { (f(&r[0]), f(&r[1])) }
    }).collect();
    let cat = |a: Option<&MRow>, b: Option<&MRow>| -> MRow { let z = vec![None; 3]; a.unwrap_or(&z).iter().chain(b.unwrap_or(&z)).cloned().collect() };
    let mut ok = 1u64;
    let mut total = 0u64;
    let mut expect = |ti: i64, ui: i64, w: u64| { ok &= (got.iter().filter(|g| **g == (ti, ui)).count() as u64 == w) as u64; total += w; };
    let mt = |a: &MRow, b: &MRow| on.as_ref().map(|p| p.ev(&cat(Some(a), Some(b))).t).unwrap_or(1);
    let wt = |r: MRow| wh.as_ref().map(|p| p.ev(&r).t).unwrap_or(1);
    for a in &t { for b in &u { expect(a[0].unwrap(), b[0].unwrap(), mt(a, b) & wt(cat(Some(a), Some(b)))); } }
    if lo { for a in &t { let mut un = 1; for b in &u { un &= mt(a, b) ^ 1; } expect(a[0].unwrap(), 0, un & wt(cat(Some(a), None))); } }
    if ro { for b in &u { let mut un = 1; for a in &t { un &= mt(a, b) ^ 1; } expect(0, b[0].unwrap(), un & wt(cat(None, Some(b)))); } }
    ok &= (total == got.len() as u64) as u64;
    ax::check_u(ok, "join-rows");
}
fn summary(rows: &[(u64, Option<i64>)]) -> (i64, i64, V, i64, i64, u64) {
    // (count of rows in, count of non-null, sum or null, min, max, any)
    let (mut n, mut k, mut s) = (0i64, 0i64, 0i64);
    let (mut mn, mut mx) = (i64::MAX, i64::MIN);
    let mut any = 0u64;
    for (w, v) in rows {
        n += *w as i64;
        if let Some(v) = v {
            k += *w as i64;
            any |= *w;
            s += ax::ite(*w != 0, *v, 0);
            mn = ax::ite(*w != 0 && *v < mn, *v, mn);
            mx = ax::ite(*w != 0 && *v > mx, *v, mx);
        }
    }
    (n, k, V::I(s), mn, mx, any)
}
fn agg_ok(g: &[V], rows: &[(u64, Option<i64>)]) -> u64 {
    if g.len() != 5 { return 0; }
    let (n, k, s, mn, mx, any) = summary(rows);
    let isn = |v: &V| matches!(v, V::N) as u64;
    let vals = eqv(&g[2], &s) as u64 & eqv(&g[3], &V::I(mn)) as u64 & eqv(&g[4], &V::I(mx)) as u64;
    let nulls = isn(&g[2]) & isn(&g[3]) & isn(&g[4]);
    eqv(&g[0], &V::I(n)) as u64 & eqv(&g[1], &V::I(k)) as u64 & ((any & vals) | ((any ^ 1) & nulls))
}
fn agg(_: &[String]) {
    let (d, m) = setup(3, -4, 3, &[false, true, true]);
    let x = ax::int("x", 0, 20);
    let p = match ax::choose("where", 3) { 0 => None, 1 => Some(P::Cmp(">", c(1), l(x))), _ => Some(P::Cmp("<", c(0), l(0))) };
    let w = p.as_ref().map(|p| format!(" WHERE {}", p.sql(&N))).unwrap_or_default();
    match ax::choose("form", 3) {
        0 => {
            let Ok(r) = d.rows(&format!("SELECT COUNT(*), COUNT(b), SUM(b), MIN(b), MAX(b) FROM t{w}")) else { return ax::fail("agg-error") };
            let rows: Vec<_> = m.iter().map(|r| (p.as_ref().map(|p| p.ev(r).t).unwrap_or(1), r[2])).collect();
            if r.len() != 1 { return ax::fail("agg-one-row"); }
            ax::check_u(agg_ok(&r[0], &rows), "agg-values");
        }
        1 => {
            let Ok(r) = d.rows(&format!("SELECT COUNT(DISTINCT b) FROM t{w}")) else { return ax::fail("agg-error") };
            let mut n = 0i64;
            for (i, r) in m.iter().enumerate() {
                let Some(v) = r[2] else { continue };
                let mut first = p.as_ref().map(|p| p.ev(r).t).unwrap_or(1);
                for q in &m[..i] { if let Some(o) = q[2] { first &= ((o == v) as u64 & p.as_ref().map(|p| p.ev(q).t).unwrap_or(1)) ^ 1; } }
                n += first as i64;
            }
            if r.len() != 1 { return ax::fail("agg-one-row"); }
            ax::check(eqv(&r[0][0], &V::I(n)), "agg-distinct");
        }
        _ => {
            let Ok(r) = d.rows(&format!("SELECT SUM(a + b), COUNT(a) FROM t{w}")) else { return ax::fail("agg-error") };
            let rows: Vec<_> = m.iter().map(|r| (p.as_ref().map(|p| p.ev(r).t).unwrap_or(1), add(c(1), c(2)).ev(r))).collect();
            let (_, _, s, _, _, any) = summary(&rows);
            let k: i64 = m.iter().filter(|r| r[1].is_some()).map(|r| p.as_ref().map(|p| p.ev(r).t).unwrap_or(1) as i64).sum();
            if r.len() != 1 || r[0].len() != 2 { return ax::fail("agg-one-row"); }
            ax::check_u(((any & eqv(&r[0][0], &s) as u64) | ((any ^ 1) & matches!(r[0][0], V::N) as u64)) & eqv(&r[0][1], &V::I(k)) as u64, "agg-expr");
        }
    }
}
fn eqo(a: Option<i64>, b: Option<i64>) -> u64 { match (a, b) { (None, None) => 1, (Some(a), Some(b)) => (a == b) as u64, _ => 0 } }
fn group(_: &[String]) {
    let (d, m) = setup(3, -3, 3, &[false, true, true]);
    match ax::choose("form", 3) {
        0 => {
            let Ok(r) = d.rows("SELECT a, COUNT(*), COUNT(b), SUM(b), MIN(b), MAX(b) FROM t GROUP BY a") else { return ax::fail("group-error") };
            let mut ok = 1u64;
            // each group: its aggregates; each row: exactly one group
            for g in &r {
                if g.len() != 6 { return ax::fail("group-shape"); }
                let rows: Vec<_> = m.iter().map(|x| (eqv(&mv(x[1]), &g[0]) as u64, x[2])).collect();
                ok &= agg_ok(&g[1..], &rows);
            }
            for x in &m { ok &= (r.iter().map(|g| eqv(&mv(x[1]), &g[0]) as u64).sum::<u64>() == 1) as u64; }
            for g in &r { ok &= (m.iter().map(|x| eqv(&mv(x[1]), &g[0]) as u64).sum::<u64>() > 0) as u64; }
            ax::check_u(ok, "group-values");
        }
        1 => {
            let Ok(r) = d.rows("SELECT a, b, COUNT(*) FROM t GROUP BY a, b") else { return ax::fail("group-error") };
            let mut ok = 1u64;
            for g in &r {
                let n: u64 = m.iter().map(|x| eqo_v(x, g)).sum();
                ok &= eqv(&g[2], &V::I(n as i64)) as u64;
            }
            for x in &m { ok &= (r.iter().map(|g| eqo_v(x, g)).sum::<u64>() == 1) as u64; }
            ax::check_u(ok, "group-two");
        }
        _ => {
            let Ok(r) = d.rows("SELECT a, AVG(id) FROM t WHERE b IS NOT NULL GROUP BY a") else { return ax::fail("group-error") };
            let mut ok = 1u64;
            for g in &r {
                let (mut s, mut n) = (0i64, 0i64);
                for x in &m { if x[2].is_some() { let w = ax::decide(eqv(&mv(x[1]), &g[0])); if w { s += x[0].unwrap(); n += 1; } } }
                ok &= eqv(&g[1], &V::F(s as f64 / n as f64)) as u64;
            }
            ax::check_u(ok, "group-avg");
        }
    }
}
fn eqo_v(x: &MRow, g: &Row) -> u64 { eqv(&mv(x[1]), &g[0]) as u64 & eqv(&mv(x[2]), &g[1]) as u64 }
/// ORDER BY, LIMIT, OFFSET. NULLs sort as larger than every value unless stated otherwise.
fn order(_: &[String]) {
    let keys = ax::choose("keys", 5);
    // two-key forms: two rows that may tie on NULL
    let (d, m) = setup(3, -3, 3, if keys >= 2 { &[true, true, false] } else { &[true, false, false] });
    let ob = ["a", "a DESC", "a, id DESC", "b DESC, a", "a + b, id"][keys];
    let lim = ax::choose("limit", 5);
    let off = ax::choose("offset", 4);
    let mut sql = format!("SELECT id, a, b FROM t ORDER BY {ob}");
    if lim < 4 { sql += &format!(" LIMIT {lim}"); }
    if off > 0 { sql += &format!(" OFFSET {}", off - 1); }
    let Ok(r) = d.rows(&sql) else { return ax::fail("order-error") };
    let got = ids(&r);
    let o = off.saturating_sub(1).min(3);
    let want = (3 - o).min(if lim < 4 { lim } else { 3 });
    if got.len() != want { return ax::fail("order-count"); }
    check_vals(&r, &m, &|r| r.clone(), "order-values");
    let key = |x: &MRow| -> Vec<(Option<i64>, bool)> { match keys { 0 => vec![(x[1], false)], 1 => vec![(x[1], true)], 2 => vec![(x[1], false), (x[0], true)], 3 => vec![(x[2], true), (x[1], false)], _ => vec![(add(c(1), c(2)).ev(x), false), (x[0], false)] } };
    // strictly before / equal, NULL last ascending, first descending
    let before = |x: &MRow, y: &MRow| -> (u64, u64) {
        let (mut lt, mut eq) = (0u64, 1u64);
        for ((a, desc), (b, _)) in key(x).into_iter().zip(key(y)) {
            let (l, e) = match (a, b) { (None, None) => (0, 1), (None, Some(_)) => (0, 0), (Some(_), None) => (1, 0), (Some(a), Some(b)) => ((a < b) as u64, (a == b) as u64) };
            let l = if desc { (l ^ 1) & (e ^ 1) } else { l };
            lt |= eq & l;
            eq &= e;
        }
        (lt, eq)
    };
    let mut ok = 1u64;
    let rows: Vec<&MRow> = got.iter().filter_map(|g| m.iter().find(|r| r[0] == Some(*g))).collect();
    if rows.len() != got.len() { return ax::fail("order-values"); }
    for i in 0..rows.len() { for j in 0..rows.len() { if i == j { continue; } ok &= (got[i] != got[j]) as u64; if i < j { ok &= before(rows[j], rows[i]).0 ^ 1; } } }
    // the slice is the right one: number of rows strictly before / not after each returned row
    for (i, x) in rows.iter().enumerate() {
        let (mut lt, mut le) = (0u64, 0u64);
        for y in &m { let (l, e) = before(y, x); lt += l; le += l | e; }
        let pos = (o + i) as u64;
        ok &= (lt <= pos) as u64 & (pos < le) as u64;
    }
    ax::check_u(ok, "order-position");
}
fn distinct(_: &[String]) {
    let (d, m) = setup(3, -3, 3, &[false, true, true]);
    let two = ax::flag("two");
    let Ok(r) = d.rows(if two { "SELECT DISTINCT a, b FROM t" } else { "SELECT DISTINCT a FROM t" }) else { return ax::fail("distinct-error") };
    let same = |x: &MRow, g: &Row| eqv(&mv(x[1]), &g[0]) as u64 & if two { eqv(&mv(x[2]), &g[1]) as u64 } else { 1 };
    let mut ok = 1u64;
    for x in &m { ok &= (r.iter().map(|g| same(x, g)).sum::<u64>() == 1) as u64; }
    for g in &r { ok &= (m.iter().map(|x| same(x, g)).sum::<u64>() > 0) as u64; }
    ax::check_u(ok, "distinct-rows");
}
fn like_model(s: &[u8], p: &[u8]) -> u64 {
    // dynamic programming over concrete lengths, conditions stay symbolic
    let (n, k) = (s.len(), p.len());
    // positions of pattern symbols depend on escapes: fork on them
    let mut sy: Vec<(u8, u8)> = vec![]; // (kind 0 byte 1 any 2 seq, byte)
    let mut i = 0;
    while i < k {
        if ax::decide(p[i] == b'\\') { if i + 1 < k { sy.push((0, p[i + 1])); i += 2; } else { sy.push((0, p[i])); i += 1; } }
        else if ax::decide(p[i] == b'%') { sy.push((2, 0)); i += 1; }
        else if ax::decide(p[i] == b'_') { sy.push((1, 0)); i += 1; }
        else { sy.push((0, p[i])); i += 1; }
    }
    let mut dp = vec![vec![0u64; n + 1]; sy.len() + 1];
    dp[0][0] = 1;
    for j in 1..=sy.len() {
        for i in 0..=n {
            dp[j][i] = match sy[j - 1] {
                (2, _) => dp[j - 1][i] | if i > 0 { dp[j][i - 1] } else { 0 },
                (1, _) => if i > 0 { dp[j - 1][i - 1] } else { 0 },
                (_, b) => if i > 0 { dp[j - 1][i - 1] & (s[i - 1] == b) as u64 } else { 0 },
            };
        }
    }
    dp[sy.len()][n]
}
fn like(a: &[String]) {
    let max = a.first().and_then(|s| s.parse().ok()).unwrap_or(3u64);
    let n = ax::choose("n", max + 2) as usize;
    let k = ax::choose("k", max + 2) as usize;
    let s = ax::bytes("s", n);
    let p = ax::bytes("p", k);
    for b in s.iter().chain(&p) { ax::assume(*b < 128); }
    let bl = axmosdb::types::Blob::from_unencoded_slice(&s);
    let Ok(r) = bl.like_bytes(&p) else { return ax::fail("like-error") };
    ax::check_u((like_model(&s, &p) == r as u64) as u64, "like-result");
}
fn dml(_: &[String]) {
    let (d, m) = setup(2, -40, 40, &[false, true]);
    let x = ax::int("x", 0, 40);
    let all = |d: &Db| d.rows("SELECT id, a, b FROM t");
    match ax::choose("form", 7) {
        0 => { // swap: every assignment reads the old row
            let Ok(Out::Count(n)) = d.ex("UPDATE t SET a = b, b = a") else { return ax::fail("update-error") };
            ax::check(n == 2, "update-count");
            let Ok(r) = all(&d) else { return ax::fail("select-error") };
            check_ids(&ids(&r), &m, &|_| 1, "update-rows");
            check_vals(&r, &m, &|r| vec![r[0], r[2], r[1]], "update-swap");
        }
        1 => {
            let Ok(Out::Count(n)) = d.ex(&format!("UPDATE t SET a = a + {}, b = a * 2 WHERE id = 2", lit(x))) else { return ax::fail("update-error") };
            ax::check(n == 1, "update-count");
            let Ok(r) = all(&d) else { return ax::fail("select-error") };
            check_ids(&ids(&r), &m, &|_| 1, "update-rows");
            check_vals(&r, &m, &|r| if r[0] == Some(2) { vec![r[0], add(c(1), l(x)).ev(r), mul(c(1), l(2)).ev(r)] } else { r.clone() }, "update-expr");
        }
        2 => {
            let Ok(Out::Count(n)) = d.ex(&format!("INSERT INTO t (b, id) VALUES ({}, 3), (5, 4)", lit(x))) else { return ax::fail("insert-error") };
            ax::check(n == 2, "insert-count");
            let Ok(r) = all(&d) else { return ax::fail("select-error") };
            let mut m = m; m.push(vec![Some(3), None, Some(x)]); m.push(vec![Some(4), None, Some(5)]);
            check_ids(&ids(&r), &m, &|_| 1, "insert-rows");
            check_vals(&r, &m, &|r| r.clone(), "insert-values");
        }
        3 => {
            let Ok(Out::Count(n)) = d.ex(&format!("INSERT INTO t SELECT id + 10, b, a FROM t WHERE a < {}", lit(x))) else { return ax::fail("insert-error") };
            let p = P::Cmp("<", c(1), l(x));
            ax::check(n == m.iter().map(|r| p.ev(r).t).sum::<u64>(), "insert-select-count");
            let Ok(r) = all(&d) else { return ax::fail("select-error") };
            let mut ext = m.clone();
            for r in &m { ext.push(vec![Some(r[0].unwrap() + 10), r[2], r[1]]); }
            check_ids(&ids(&r), &ext, &|r| if r[0].unwrap() > 10 { p.ev(&m[(r[0].unwrap() - 11) as usize]).t } else { 1 }, "insert-select-rows");
            check_vals(&r, &ext, &|r| r.clone(), "insert-select-values");
        }
        4 => { // delete, insert again, count
            let Ok(Out::Count(n)) = d.ex("DELETE FROM t") else { return ax::fail("delete-error") };
            ax::check(n == 2, "delete-count");
            let Ok(r) = all(&d) else { return ax::fail("select-error") };
            ax::check(r.is_empty(), "delete-all");
            d.must(&format!("INSERT INTO t VALUES (1, {}, 0)", lit(x)), "reinsert-error");
            let Ok(r) = all(&d) else { return ax::fail("select-error") };
            check_ids(&ids(&r), &[vec![Some(1)]], &|_| 1, "reinsert-rows");
            check_vals(&r, &[vec![Some(1), Some(x), Some(0)]], &|r| r.clone(), "reinsert-values");
        }
        5 => { // an update that addresses nothing
            let Ok(Out::Count(n)) = d.ex("UPDATE t SET a = 1 WHERE id > 10") else { return ax::fail("update-error") };
            ax::check(n == 0, "update-count");
            let Ok(Out::Count(n)) = d.ex("DELETE FROM t WHERE a IS NULL AND a IS NOT NULL") else { return ax::fail("delete-error") };
            ax::check(n == 0, "delete-count");
            let Ok(r) = all(&d) else { return ax::fail("select-error") };
            check_ids(&ids(&r), &m, &|_| 1, "noop-rows");
            check_vals(&r, &m, &|r| r.clone(), "noop-values");
        }
        _ => { // repeated updates of one row
            d.must(&format!("UPDATE t SET a = {} WHERE id = 1", lit(x)), "update-error");
            d.must("UPDATE t SET b = NULL WHERE id = 1", "update-error");
            d.must("UPDATE t SET a = a + 1 WHERE id = 1", "update-error");
            let Ok(r) = all(&d) else { return ax::fail("select-error") };
            check_ids(&ids(&r), &m, &|_| 1, "update-rows");
            check_vals(&r, &m, &|r| if r[0] == Some(1) { vec![r[0], Some(x + 1), None] } else { r.clone() }, "update-sequence");
        }
    }
}
fn func(_: &[String]) {
    let (d, m) = setup(2, -40, 40, &[false, true]);
    let (sql, f): (&str, Box<dyn Fn(&MRow) -> Option<i64>>) = match ax::choose("f", 6) {
        0 => ("COALESCE(a, b)", Box::new(|r| r[1].or(r[2]))),
        1 => ("NULLIF(a, b)", Box::new(|r| match (r[1], r[2]) { (Some(x), Some(y)) => if ax::decide(x == y) { None } else { Some(x) }, (x, _) => x })),
        2 => ("a / 3", Box::new(|r| r[1].map(|x| x / 3))),
        3 => ("a % 3", Box::new(|r| r[1].map(|x| x % 3))),
        4 => ("a / (b * b + 1)", Box::new(|r| Some(r[1]? / (r[2]? * r[2]? + 1)))),
        _ => ("COALESCE(a, 7) - COALESCE(b, 5)", Box::new(|r| Some(r[1].unwrap_or(7) - r[2].unwrap_or(5)))),
    };
    let Ok(r) = d.rows(&format!("SELECT id, {sql} FROM t")) else { return ax::fail("func-error") };
    check_ids(&ids(&r), &m, &|_| 1, "func-rows");
    check_vals(&r, &m, &|r| vec![r[0], f(r)], "func-values");
}
/// BIGINT, DOUBLE, BOOL and TEXT columns: stored values come back, predicates compare by value
fn types(_: &[String]) {
    let d = Db::create();
    d.must("CREATE TABLE v (id BIGINT, k BIGINT, f DOUBLE, o BOOLEAN, s TEXT, PRIMARY KEY(id))", "setup-create");
    let k = ax::int("k", 0, (1 << 52) - 1);
    ax::assume(k > i32::MAX as i64);
    let o = ax::flag("o");
    let len = ax::choose("len", 3);
    let ch = [b'a', b'b', b'z', b' '];
    let s: String = (0..len).map(|i| ch[ax::choose(&format!("s{i}"), 4)] as char).collect();
    d.must(&format!("INSERT INTO v VALUES (1, {}, 1.5, {}, '{s}'), (2, 5, -0.25, NULL, NULL)", litb(k), if o { "TRUE" } else { "FALSE" }), "setup-insert");
    let sel = |w: &str, e: &[i64], id: &str| match d.rows(&format!("SELECT id FROM v WHERE {w}")) { Ok(r) => { let mut g = ids(&r); g.sort(); ax::check(g == e, id) } Err(_) => ax::fail(id) };
    match ax::choose("q", 8) {
        0 => {
            let Ok(r) = d.rows("SELECT k, f, o, s FROM v WHERE id = 1") else { return ax::fail("types-error") };
            ax::check_u((r.len() == 1) as u64 & eqrow(&r[0], &[V::I(k), V::F(1.5), V::B(o), V::S(s.clone().into_bytes())]), "types-values");
        }
        1 => { let y = ax::int("y", 0, (1 << 52) - 1); ax::assume(y > i32::MAX as i64); let e = ax::decide(k < y); sel(&format!("k < {}", litb(y)), if e { &[1, 2] } else { &[2] }, "types-bigint"); }
        2 => sel("f > 1", &[1], "types-double-int"),
        3 => sel("f < 0.5", &[2], "types-double"),
        4 => sel("o = TRUE", if o { &[1] } else { &[] }, "types-bool"),
        5 => sel("s = 'ab'", if s == "ab" { &[1] } else { &[] }, "types-text-eq"),
        6 => sel("s < 'b'", if s.as_str() < "b" { &[1] } else { &[] }, "types-text-lt"),
        _ => sel("s LIKE 'a%'", if s.starts_with('a') { &[1] } else { &[] }, "types-text-like"),
    }
}
/// arithmetic and comparisons between columns of different numeric types: the result keeps its value
fn mix(_: &[String]) {
    let d = Db::create();
    d.must("CREATE TABLE m (id BIGINT, a INT, u UINT, b BIGINT, w BIGUINT, f FLOAT, d DOUBLE, PRIMARY KEY(id))", "setup-create");
    const N: [&str; 4] = ["a", "u", "b", "w"];
    let one = |q: &str| match d.rows(q) { Ok(r) if r.len() == 1 && r[0].len() == 1 => r[0][0].clone(), _ => { ax::fail("mix-error"); V::N } };
    if ax::choose("class", 4) == 3 {
        // floating point operands, concrete values: the solver decides nothing about them but the integers' storage
        let f = [0.5, -1.25, 3.0][ax::choose("f", 3)];
        let i = [0i64, 3, 40, 16_777_217][ax::choose("i", 4)];
        let j = ax::choose("j", 4);
        let fl = ["f", "d"][ax::choose("fd", 2)];
        d.must(&format!("INSERT INTO m VALUES (1, {i}, {i}, {i}, {i}, {f}, {f})"), "setup-insert");
        let op = ["+", "-", "*", "/"][ax::choose("op", 4)];
        let swap = ax::flag("swap");
        let (x, y) = if swap { (i as f64, f) } else { (f, i as f64) };
        if op == "/" && y == 0.0 { return }
        let e = match op { "+" => x + y, "-" => x - y, "*" => x * y, _ => x / y };
        let t = if swap { format!("{} {op} {fl}", N[j]) } else { format!("{fl} {op} {}", N[j]) };
        let g = one(&format!("SELECT {t} FROM m"));
        ax::check(matches!(g, V::F(v) if v == e), "mix-float");
        let g = one(&format!("SELECT COUNT(*) FROM m WHERE {fl} < {}", N[j]));
        ax::check_u(eqv(&g, &V::I((f < i as f64) as i64)) as u64, "mix-float-cmp");
        return;
    }
    let (xi, yi) = (ax::choose("x", 4), ax::choose("y", 4));
    let mut v = [1i64, 2, 3, 4];
    let mut t: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    for (k, n) in [(xi, "xv"), (yi, "yv")] {
        if n == "yv" && yi == xi { continue; }
        let big = k != 0 && ax::flag(&format!("{n}.big"));
        if big {
            v[k] = ax::int(n, 0, if k == 1 { u32::MAX as i64 } else { 1 << 52 });
            ax::assume(v[k] > i32::MAX as i64);
            t[k] = litb(v[k]);
        } else {
            v[k] = ax::int(n, if k % 2 == 1 { 0 } else { -1_000_000 }, 1_000_000);
            t[k] = lit(v[k]);
        }
    }
    d.must(&format!("INSERT INTO m VALUES (1, {}, {}, {}, {}, 0.5, 0.5)", t[0], t[1], t[2], t[3]), "setup-insert");
    let (x, y) = (v[xi], v[yi]);
    match ax::choose("form", 3) {
        0 => {
            let k = ax::choose("op", 2);
            let e = if k == 0 { x + y } else { x - y };
            // out of the result's range is an error, not a value
            if xi % 2 == 1 && yi % 2 == 1 { ax::assume(e >= 0); }
            if xi == 1 && yi == 1 { ax::assume(e <= u32::MAX as i64); }
            let g = one(&format!("SELECT {} {} {} FROM m", N[xi], ["+", "-"][k], N[yi]));
            ax::check(eqv(&g, &V::I(e)), "mix-value");
        }
        1 => {
            let k = [3i64, 5_000_000_000][ax::choose("lit", 2)];
            if k == 3 && xi == 0 { ax::assume(x * 3 <= i32::MAX as i64); }
            let g = one(&format!("SELECT {} + {k} FROM m", N[xi]));
            ax::check(eqv(&g, &V::I(x + k)), "mix-literal");
        }
        _ => {
            let k = ax::choose("cmp", 6);
            let e = match k { 0 => x == y, 1 => x != y, 2 => x < y, 3 => x <= y, 4 => x > y, _ => x >= y } as u64;
            match d.rows(&format!("SELECT id FROM m WHERE {} {} {}", N[xi], ["=", "<>", "<", "<=", ">", ">="][k], N[yi])) {
                Ok(r) => ax::check_u((r.len() as u64 == e) as u64, "mix-cmp"),
                Err(_) => ax::fail("mix-cmp-error"),
            }
        }
    }
}
/// constructs the engine is known to get wrong (see known_findings.jsonl)
fn known(_: &[String]) {
    let (d, m) = setup(2, 0, 9, &[false, false]);
    match ax::choose("form", 5) {
        0 => { let r = d.rows("SELECT COUNT(*) + 1 FROM t"); ax::check(matches!(r.as_deref(), Ok([r]) if eqv(&r[0], &V::I(3))), "expression-over-aggregate"); }
        1 => {
            let r = d.rows("SELECT COUNT(*), a FROM t GROUP BY a");
            let ok = match &r { Ok(r) => { let mut ok = 1u64; for g in r { ok &= (m.iter().map(|x| eqv(&mv(x[1]), &g[1]) as u64).sum::<u64>() > 0) as u64; } ok } _ => 0 };
            ax::check_u(ok, "aggregate-before-group-column");
        }
        2 => ax::check(d.rows("SELECT a, COUNT(*) FROM t GROUP BY a HAVING COUNT(*) > 0").is_ok(), "having"),
        3 => ax::check(d.rows("SELECT a FROM t GROUP BY a ORDER BY a").is_ok(), "order-after-group"),
        _ => { let r = d.rows("SELECT 1"); ax::check(matches!(r.as_deref(), Ok([r]) if eqv(&r[0], &V::I(1))), "select-without-from"); }
    }
}
