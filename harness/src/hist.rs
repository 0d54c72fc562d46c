//! Histories of statements, sessions and maintenance without crashes, in lockstep with the reference.
use crate::{ax, db::*, sim::*, sqlm::litn};
pub const TABLE: &[(&str, fn(&[String]))] = &[("c03_rollback", c03_rollback), ("c03_mix", c03_mix), ("c03_stmt", c03_stmt), ("c03_update", c03_update), ("c03_ddl", c03_ddl), ("c03_reinsert", c03_reinsert),
    ("c04_reads", c04_reads), ("c04_conflict", c04_conflict), ("c04_update", c04_update),
    ("c07_keys", c07_keys), ("c07_null", c07_null), ("c07_multi", c07_multi), ("c07_index", c07_index), ("c07_sessions", c07_sessions), ("c07_update", c07_update),
    ("c09_reopen", c09_reopen), ("c09_cycles", c09_cycles), ("c09_mix", c09_mix),
    ("c12_config", c12_config), ("c12_evict", c12_evict), ("c13_mix", c13_mix), ("c13_bounded", c13_bounded), ("c13_drop", c13_drop), ("c13_open", c13_open), ("c15_ddl", c15_ddl), ("c15_mix", c15_mix), ("c15_alter", c15_alter)];

pub fn sv(n: &str) -> Option<i64> { Some(ax::int(n, 0, 1000)) }
pub fn one(t: &'static str, id: i64, v: Option<i64>) -> Op { Ins(t, vec![(id, v, 4)]) }
fn base(w: &mut World) {
    w.run(&[St::A(Create("t")), St::A(Ins("t", vec![(1, sv("b0"), 4), (2, sv("b1"), 4)])), St::A(Create("u")), St::A(one("u", 1, sv("b2")))]);
}
/// the database goes on working after the history
fn after(w: &mut World) {
    w.ses = Default::default();
    for k in 0..3 { w.m.tx[k] = None; }
    w.read();
    w.step(&St::A(one("t", 900, Some(9))));
    w.step(&St::A(Del("t", W::Id(1))));
    if !w.m.tabs.contains_key("w") { w.step(&St::A(Create("w"))); }
    w.step(&St::A(one("w", 901, Some(5))));
    w.read();
    match ax::choose("after", 3) {
        0 => w.step(&St::Reopen),
        1 => w.step(&St::Vac),
        _ => {}
    }
    w.read();
}
fn depth(a: &[String], d: usize) -> usize { a.first().and_then(|s| s.parse().ok()).unwrap_or(d) }

// ---------- C03 ----------
fn c03_rollback(_: &[String]) {
    let mut w = World::new("rollback");
    base(&mut w);
    if ax::flag("index") { w.step(&St::A(CreateU("w"))); w.step(&St::A(Ins("w", vec![(1, Some(-1), 4), (2, Some(-2), 4)]))); }
    let x = sv("x");
    let has = w.m.tabs.contains_key("w");
    let n = if has { 12 } else { 8 };
    let ops: Vec<Op> = match ax::choose("script", n) {
        0 => vec![one("t", 3, x)],
        1 => vec![Del("t", W::Lt(x.unwrap()))],
        2 => vec![one("t", 3, x), Del("t", W::Id(3)), one("u", 3, x)],
        3 => vec![Del("t", W::Id(1)), one("t", 3, x), Del("u", W::All)],
        4 => vec![Ins("t", vec![(3, x, 6000), (4, x, 1000)]), Del("t", W::All)],
        5 => vec![if has { one("w", 5, x) } else { Create("w") }, one("w", 4, x)],
        6 => vec![if has { Del("w", W::Id(1)) } else { CreateU("w") }, one("w", 4, Some(7)), Del("w", W::All), one("t", 3, x)],
        7 => vec![Ins("t", (10..60).map(|i| (i, Some(i), 100)).collect())],
        8 => vec![one("w", 3, x), one("w", 4, Some(2000))],
        9 => vec![Del("w", W::Id(1)), one("w", 3, x)],
        10 => vec![Del("w", W::All), Del("t", W::All)],
        _ => vec![one("w", 3, x), Del("w", W::Id(3)), one("w", 4, x)],
    };
    match ax::choose("end", 5) {
        0 => { w.step(&St::B(0)); for o in &ops { w.step(&St::S(0, o.clone())); } w.step(&St::R(0)); }
        1 => { w.step(&St::B(0)); for o in &ops { w.step(&St::S(0, o.clone())); } w.step(&St::D(0)); }
        2 => { w.step(&St::B(0)); for o in &ops { w.step(&St::S(0, o.clone())); } w.step(&St::S(0, Bad("INSERT INTO nosuch VALUES (1, 2, 'x')"))); w.step(&St::R(0)); }
        3 => { let mut b = ops.clone(); b.push(Bad("SELECT nosuch FROM t")); w.step(&St::Batch(b)); }
        _ => { let mut b = ops.clone(); b.push(Ins("t", vec![(70, Some(1), 4), (71, Some(1), 4), (70, Some(1), 4)])); w.step(&St::Batch(b)); }
    }
    w.read();
    // the same work again, committed this time
    if ax::flag("again") { for o in &ops { w.step(&St::A(o.clone())); } w.read(); }
    after(&mut w);
}
/// free combinations; everybody looks after every step
fn c03_mix(a: &[String]) {
    let mut w = World::new("mix");
    base(&mut w);
    if ax::flag("uniq") { w.step(&St::A(CreateU("w"))); }
    let t = if w.m.tabs.contains_key("w") { "w" } else { "t" };
    for k in 0..depth(a, 3) {
        let id = 20 + k as i64;
        let open = w.m.tx[0].is_some();
        let s = match ax::choose(&format!("step{k}"), 8) {
            0 => if open { St::S(0, one(t, id, Some(100 + k as i64))) } else { St::B(0) },
            1 => if open { St::S(0, Del(t, W::Id(if t == "t" { 1 } else { id - 1 }))) } else { St::A(one(t, id, Some(200 + k as i64))) },
            2 => if open { St::S(0, Ins(t, vec![(id + 30, Some(500), 4), (id + 30, Some(501), 4)])) } else { St::A(Ins(t, vec![(id + 40, Some(600), 4), (id + 41, Some(601), 4), (id + 40, Some(602), 4)])) },
            3 => { if !open { ax::assume(false) } St::R(0) }
            4 => { if !open { ax::assume(false) } St::C(0) }
            5 => St::Batch(vec![one(t, id, Some(300 + k as i64)), Del(t, W::Id(id - 1)), Bad("DELETE FROM nosuch")]),
            6 => { if !open { ax::assume(false) } St::D(0) }
            _ => St::A(Del(t, W::Id(id - 1))),
        };
        w.step(&s);
        w.read();
        if w.m.tx[0].is_some() { w.step(&St::SRead(0)); }
    }
    after(&mut w);
}
/// statements that fail in the middle
fn c03_stmt(_: &[String]) {
    let mut w = World::new("stmt");
    base(&mut w);
    w.step(&St::A(CreateU("w")));
    w.step(&St::A(Ins("w", vec![(1, Some(10), 4), (2, Some(20), 4), (3, None, 4)])));
    let (x, y) = (Some(ax::int("x", 8, 22)), Some(ax::int("y", 8, 22)));
    let op = match ax::choose("op", 8) {
        0 => Ins("t", vec![(3, x, 4), (4, y, 4), (1, x, 4)]),
        1 => Ins("t", vec![(3, x, 4), (3, y, 4)]),
        2 => Ins("w", vec![(4, x, 4), (5, y, 4)]),
        3 => Ins("w", vec![(4, Some(70), 4), (5, x, 4), (6, Some(71), 5000)]),
        4 => Bad("INSERT INTO t (id, a, s) SELECT id + 1, a, s FROM t"),
        5 => Bad("INSERT INTO w VALUES (8, 80, 'x'), (9, 81)"),
        6 => Bad("UPDATE w SET a = 500 / (id - 2)"),
        _ => Bad("DELETE FROM t WHERE 10 / (id - 2) > 0"),
    };
    if ax::flag("session") {
        w.step(&St::B(0));
        w.step(&St::S(0, one("t", 30, x)));
        w.step(&St::S(0, op));
        w.step(&St::SRead(0));
        w.step(&St::S(0, one("w", 31, Some(99))));
        w.step(&St::SRead(0));
        w.step(&St::C(0));
    } else { w.step(&St::A(op)); }
    w.read();
    after(&mut w);
}
/// rolled back UPDATE (recorded finding)
fn c03_update(_: &[String]) {
    let mut w = World::new("rolled-update");
    base(&mut w);
    let x = sv("x");
    w.run(&[St::B(0), St::S(0, [Set("t", W::Id(1), x), Add("t", W::All, 1), Len("t", W::Id(2), 9)][ax::choose("op", 3)].clone()), St::R(0)]);
    w.read();
}
/// rolled back schema changes
fn c03_ddl(_: &[String]) {
    let mut w = World::new("rolled-ddl");
    base(&mut w);
    let x = sv("x");
    let ops = match ax::choose("script", 8) {
        0 => vec![Drop("u")],
        1 => vec![Index("ix", "t")],
        2 => vec![Create("w"), one("w", 1, x), Drop("w")],
        3 => vec![Drop("u"), CreateU("u"), one("u", 1, x), one("u", 2, x)],
        4 => vec![Index("ix", "u"), one("u", 7, x), Drop("u")],
        5 => vec![Ins("u", vec![(5, x, 4), (6, x, 6000)]), Drop("u"), one("t", 9, x)],
        6 => vec![CreateU("w"), one("w", 1, x), Index("ix", "t"), Drop("t")],
        _ => vec![Drop("t"), Drop("u"), Create("t"), one("t", 1, x)],
    };
    match ax::choose("end", 4) {
        0 => { w.step(&St::B(0)); for o in ops { w.step(&St::S(0, o)); } w.step(&St::R(0)); }
        1 => { w.step(&St::B(0)); for o in ops { w.step(&St::S(0, o)); } w.step(&St::D(0)); }
        2 => { let mut o = ops; o.push(Bad("SELECT nosuch FROM t")); w.step(&St::Batch(o)); }
        // the process ends with the work still open
        _ => { w.step(&St::B(0)); for o in ops { w.step(&St::S(0, o)); } w.step(&St::Reopen); }
    }
    w.read();
    w.step(&St::A(one("t", 40, w.m.tabs["t"].rows[&1].0)));
    w.step(&St::A(one("w", 41, Some(3))));
    if ax::flag("vacuum") { w.step(&St::Vac); w.read(); }
    w.step(&St::A(one("u", 42, w.m.tabs["u"].rows[&1].0)));
    after(&mut w);
}

/// a row deleted and inserted again with the same key, rolled back (recorded finding)
fn c03_reinsert(_: &[String]) {
    let mut w = World::new("reinsert");
    base(&mut w);
    let o = vec![Del("t", W::Id(1)), one("t", 1, Some(5))];
    if ax::flag("batch") { let mut o = o; o.push(Bad("SELECT")); w.step(&St::Batch(o)); } else { w.step(&St::B(0)); for o in o { w.step(&St::S(0, o)); } w.step(&St::R(0)); }
    w.read();
    w.step(&St::A(Del("t", W::Id(1))));
}

// ---------- C04 ----------
fn c04_reads(a: &[String]) {
    let mut w = World::new("reads");
    base(&mut w);
    w.step(&St::B(0));
    let x = sv("x");
    for k in 0..depth(a, 3) {
        let id = 20 + k as i64;
        let open = w.m.tx[1].is_some();
        let prev = if k > 0 { id - 1 } else { 2 };
        let s = match ax::choose(&format!("step{k}"), 10) {
            0 => St::S(0, one("t", id, x)),
            1 => St::S(0, Del("t", W::Id(prev))),
            2 => if open { St::S(1, one("t", id, x)) } else { St::B(1) },
            3 => if open { St::S(1, Del("t", W::Id(prev))) } else { St::A(Del("t", W::Lt(x.unwrap()))) },
            4 => if open { St::C(1) } else { St::A(one("t", id, x)) },
            5 => if open { St::R(1) } else { St::A(Del("t", W::Id(1))) },
            6 => St::A(Del("t", W::Id(prev))),
            7 => St::Flush,
            8 => if open { St::D(1) } else { St::Batch(vec![one("t", id, x), Del("t", W::Id(1)), one("u", id, x)]) },
            _ => { w.step(&St::C(0)); w.read(); St::B(0) }
        };
        w.step(&s);
        w.step(&St::SRead(0));
        if w.m.tx[1].is_some() { w.step(&St::SRead(1)); }
        w.read();
    }
    w.step(&St::SRead(0));
    w.step(&St::C(0));
    w.read();
}
/// two writers of the same rows; nobody reads what is not committed
fn c04_conflict(a: &[String]) {
    let mut w = World::new("conflict");
    base(&mut w);
    if ax::flag("index") { w.step(&St::A(CreateU("w"))); w.step(&St::A(Ins("w", vec![(1, Some(-1), 4), (2, Some(-2), 4)]))); }
    let t = if w.m.tabs.contains_key("w") { "w" } else { "t" };
    let x = ax::int("x", 0, 1000);
    let mut done = [false; 2];
    let op = |k: usize, c: usize| match c {
        0 => Add(t, W::Id(1), 1), 1 => Del(t, W::Id(1)), 2 => one(t, 7, Some(x + k as i64)), 3 => Len(t, W::Id(2), 6 + k), _ => Del(t, W::Id(7)),
    };
    w.step(&St::B(0));
    for k in 0..depth(a, 4) {
        let s = match ax::choose(&format!("step{k}"), 7) {
            c @ 0..4 => if !done[0] { let o = op(k, c); if t == "w" && matches!(o, Add(..)) { ax::assume(false) } St::S(0, o) } else { ax::assume(false); St::Flush },
            4 => if done[1] { ax::assume(false); St::Flush } else if w.m.tx[1].is_some() { let c = ax::choose(&format!("op{k}"), 5); let o = op(k, c); if t == "w" && matches!(o, Add(..)) { ax::assume(false) } St::S(1, o) } else { St::B(1) },
            5 => if done[0] { ax::assume(false); St::Flush } else { done[0] = true; St::C(0) },
            _ => if w.m.tx[1].is_none() { let c = ax::choose(&format!("op{k}"), 3); let o = op(k, c); if t == "w" && matches!(o, Add(..)) { ax::assume(false) } St::A(o) } else { done[1] = true; St::C(1) },
        };
        w.step(&s);
    }
    for k in 0..2 { if w.m.tx[k].is_some() { w.step(&St::C(k)); } }
    w.read();
}
/// updates change the row in place: they are seen before they are committed and by older snapshots (recorded finding)
fn c04_update(_: &[String]) {
    let c = ax::choose("script", 2);
    let mut w = World::new(["uncommitted-update", "later-update"][c]);
    base(&mut w);
    let x = sv("x");
    w.run(&[St::B(0), St::B(1), St::S(1, Set("t", W::Id(1), x))]);
    if c == 1 { w.step(&St::C(1)); }
    w.step(&St::SRead(0));
}

// ---------- C07 ----------
/// single statements against a UNIQUE column, values symbolic
fn c07_keys(a: &[String]) {
    let mut w = World::new("keys");
    w.step(&St::A(CreateU("t")));
    let n = depth(a, 3);
    for k in 0..n {
        let v = || Some(ax::int(&format!("v{k}"), 0, 3));
        let id = 1 + ax::choose(&format!("id{k}"), 3) as i64;
        let s = match ax::choose(&format!("step{k}"), 8) {
            0 => St::A(one("t", id, v())),
            1 => St::A(one("t", id, None)),
            2 => St::A(Del("t", W::Id(id))),
            3 => { ax::assume(id == 1); St::A(Del("t", W::Eq(v().unwrap()))) }
            4 => St::A(Ins("t", vec![(id, v(), 4), (id + 1, Some(ax::int(&format!("w{k}"), 0, 3)), 4)])),
            5 => { ax::assume(id == 1); w.run(&[St::B(0), St::S(0, one("t", 4, Some(2))), St::S(0, Del("t", W::All)), St::R(0)]); St::Read }
            6 => { ax::assume(id == 1); St::Vac }
            _ => St::A(Len("t", W::Id(id), 7)),
        };
        w.step(&s);
        w.read();
    }
    w.step(&St::A(one("t", 8, Some(ax::int("z", 0, 3)))));
    w.read();
}
fn c07_null(_: &[String]) {
    let mut w = World::new("null");
    w.step(&St::A(CreateNN("t")));
    w.step(&St::A(Ins("t", vec![(1, sv("b0"), 4), (2, sv("b1"), 4)])));
    let x = sv("x");
    let s = match ax::choose("op", 8) {
        0 => St::A(one("t", 3, None)),
        1 => St::A(Set("t", W::Id(1), None)),
        2 => St::A(Set("t", W::Lt(x.unwrap()), None)),
        3 => St::A(Ins("t", vec![(3, x, 4), (4, None, 4), (5, x, 4)])),
        4 => St::A(Bad("INSERT INTO t (id, s) VALUES (3, 'x')")),
        5 => St::A(Bad("UPDATE t SET a = NULL")),
        6 => St::Batch(vec![one("t", 3, x), one("t", 4, None)]),
        _ => { w.run(&[St::B(0), St::S(0, one("t", 3, x)), St::S(0, one("t", 4, None)), St::S(0, Set("t", W::Id(3), None)), St::SRead(0)]); St::C(0) }
    };
    w.step(&s);
    w.read();
    w.step(&St::A(Set("t", W::All, x)));
    w.read();
    after(&mut w);
}
/// composite keys
fn c07_multi(_: &[String]) {
    let d = Db::create();
    // from kind 3 on, columns of different size and alignment in one constraint
    let kind = ax::choose("kind", 6);
    d.must(["CREATE TABLE t (a INT, b INT, c INT, PRIMARY KEY(a, b))", "CREATE TABLE t (c BIGINT, a INT, b INT, PRIMARY KEY(c), UNIQUE(a, b))", "CREATE TABLE t (a INT, b INT, c INT, UNIQUE(a), UNIQUE(b))",
        "CREATE TABLE t (c INT, a INT, b BIGINT, PRIMARY KEY(c), UNIQUE(a, b))", "CREATE TABLE t (c INT, s TEXT, a BIGINT, b INT, PRIMARY KEY(c), UNIQUE(s, a, b))", "CREATE TABLE t (c INT, a INT, s TEXT, b BIGINT, x BOOLEAN, PRIMARY KEY(a, x, b, s))"][kind], "setup-create");
    let mut rows: Vec<[Option<i64>; 2]> = vec![];
    for k in 0..3 {
        let nul = kind != 0 && kind != 5 && ax::flag(&format!("null{k}"));
        let r = [Some(ax::int(&format!("a{k}"), 0, 2)), if nul { None } else { Some(ax::int(&format!("b{k}"), -1, 2)) }];
        let sql = if kind == 4 { format!("INSERT INTO t (c, s, a, b) VALUES ({}, 'abc', {}, {})", k + 1, litn(r[0]), litn(r[1])) }
        else if kind == 5 { format!("INSERT INTO t (c, a, s, b, x) VALUES ({}, {}, 'abcd', {}, TRUE)", k + 1, litn(r[0]), litn(r[1])) }
        else if kind == 1 || kind == 3 { format!("INSERT INTO t (c, a, b) VALUES ({}, {}, {})", k + 1, litn(r[0]), litn(r[1])) } else { format!("INSERT INTO t (a, b, c) VALUES ({}, {}, {})", litn(r[0]), litn(r[1]), k + 1) };
        let got = d.ex(&sql).is_ok();
        let eq = |x: &Option<i64>, y: &Option<i64>| -> u64 { match (x, y) { (Some(x), Some(y)) => (x == y) as u64, _ => 0 } };
        let mut dup = 0u64;
        for q in &rows { let (e0, e1) = (eq(&q[0], &r[0]), eq(&q[1], &r[1])); dup |= if kind == 2 { e0 | e1 } else { e0 & e1 }; }
        ax::check_u((got as u64) ^ dup, if got { "multi-duplicate" } else { "multi-rejected" });
        if got { rows.push(r); }
    }
    let Ok(r) = d.rows("SELECT a, b FROM t") else { return ax::fail("multi-error") };
    let want: Vec<Row> = rows.iter().map(|r| r.iter().map(|v| v.map_or(V::N, V::I)).collect()).collect();
    ax::check_u(same_bag(&r, &want), "multi-rows");
}
/// CREATE UNIQUE INDEX over existing rows
fn c07_index(_: &[String]) {
    let mut w = World::new("index");
    w.step(&St::A(Create("t")));
    let v = |n: &str| Some(ax::int(n, 0, 5));
    w.step(&St::A(Ins("t", vec![(1, v("a"), 4), (2, v("b"), 4), (3, if ax::flag("null") { None } else { v("c") }, 4)])));
    match ax::choose("before", 4) { 0 => {} 1 => w.step(&St::A(Del("t", W::Id(2)))), 2 => w.run(&[St::B(0), St::S(0, one("t", 9, v("c2"))), St::R(0)]), _ => w.step(&St::A(Set("t", W::Id(1), v("d")))) }
    w.step(&St::A(Index("ix", "t")));
    w.step(&St::A(one("t", 4, v("e"))));
    w.read();
    if ax::flag("reopen") { w.step(&St::Reopen); }
    w.step(&St::A(one("t", 5, v("f"))));
    w.read();
}
/// two sessions inserting values that may collide
fn c07_sessions(a: &[String]) {
    let mut w = World::new("sessions");
    w.step(&St::A(CreateU("t")));
    w.step(&St::A(one("t", 1, Some(0))));
    for k in 0..depth(a, 4) {
        let j = ax::choose(&format!("who{k}"), 3);
        let id = 10 + k as i64;
        let v = Some(ax::int(&format!("v{k}"), 0, 1));
        let s = match (j, ax::choose(&format!("step{k}"), 4)) {
            (2, 0) => St::A(one("t", id, v)),
            (2, 1) => St::A(Del("t", W::Id(1))),
            (2, _) => { ax::assume(false); St::Read }
            (_, c) if w.m.tx[j].is_none() => { ax::assume(c == 0); St::B(j) }
            (_, 0) => St::S(j, one("t", id, v)),
            (_, 1) => St::S(j, Del("t", W::Id(1))),
            (_, 2) => St::C(j),
            _ => St::R(j),
        };
        w.step(&s);
        w.read();
        // no committed state has a duplicate
        let r: Vec<i64> = w.m.tabs["t"].rows.values().filter_map(|x| x.0).collect();
        let mut dup = 0u64;
        for i in 0..r.len() { for j in 0..i { dup |= (r[i] == r[j]) as u64; } }
        ax::check_u(1 - dup, "sessions-duplicate");
    }
}
/// an index entry stays at the old value when the column is updated (recorded finding)
fn c07_update(_: &[String]) {
    let mut w = World::new("update-of-unique");
    w.step(&St::A(CreateU("t")));
    w.step(&St::A(Ins("t", vec![(1, Some(10), 4), (2, Some(20), 4)])));
    w.step(&St::A(Set("t", W::Id(1), Some(30))));
    w.step(&St::A(one("t", 3, Some([10, 30][ax::choose("v", 2)]))));
    w.read();
}

// ---------- C09 ----------
fn any_cfg(tag: &str) -> axmosdb::DBConfig { let p = [4096, 8192, 16384][ax::choose(&format!("{tag}page"), 3)]; let (c, m, s) = [(64, 3, 2), (128, 4, 1), (1000, 2, 3)][ax::choose(&format!("{tag}rest"), 3)]; axmosdb::DBConfig::new(p, c, 2, m, s) }
fn reopen_with(w: &mut World, c: axmosdb::DBConfig) {
    w.ses = Default::default();
    w.m.tx = Default::default();
    drop(w.db.take());
    match Db::open_with(c) { Ok(d) => w.db = Some(d), Err(e) => { ax::note(&e); ax::fail(&format!("{}-open", w.tag)); std::process::exit(0) } }
}
fn c09_reopen(_: &[String]) {
    let mut w = World::with("reopen", any_cfg("create"));
    base(&mut w);
    w.step(&St::A(CreateU("w")));
    w.step(&St::A(Ins("w", vec![(1, Some(ax::int("k", 0, 9)), 4), (2, None, 3000), (3, Some(50), 9000)])));
    w.run(&[St::B(0), St::S(0, one("t", 77, Some(1))), St::S(0, Del("t", W::Id(1)))]);
    match ax::choose("end", 4) { 0 => w.step(&St::R(0)), 1 => w.step(&St::C(0)), 2 => {} _ => { w.step(&St::R(0)); w.step(&St::Vac); } }
    if ax::flag("flush") { w.step(&St::Flush); }
    reopen_with(&mut w, any_cfg("open"));
    w.read();
    // constraints are still there and new rows do not collide with old ones
    w.step(&St::A(one("w", 4, Some(ax::int("z", 0, 9)))));
    w.step(&St::A(one("w", 1, Some(70))));
    w.step(&St::A(one("t", 78, Some(1))));
    w.step(&St::A(Drop("u")));
    w.step(&St::A(CreateNN("u")));
    w.step(&St::A(one("u", 1, None)));
    w.read();
    reopen_with(&mut w, cfg());
    w.read();
    w.step(&St::A(one("u", 2, None)));
    w.step(&St::A(one("u", 3, Some(1))));
    w.read();
}
/// many close/open cycles with work and rolled-back work in between
fn c09_cycles(_: &[String]) {
    let mut w = World::new("cycles");
    base(&mut w);
    let x = ax::int("x", 0, 1000);
    let (ro, fl) = (ax::flag("rollback"), ax::flag("vacuum"));
    for k in 0..6i64 {
        w.step(&St::A(one("t", 100 + k, Some(x + k))));
        w.step(&St::A(Del("t", W::Id(98 + k))));
        if ro { w.run(&[St::B(0), St::S(0, one("t", 200 + k, Some(1))), St::S(0, Del("u", W::All)), St::R(0)]); }
        w.step(&St::A(Set("u", W::Id(1), Some(x - k))));
        if k % 2 == 1 { w.step(&St::A(Create("w"))); w.step(&St::A(one("w", k, Some(k)))); } else if k > 0 { w.step(&St::A(Drop("w"))); }
        if fl && k % 3 == 2 { w.step(&St::Vac); }
        w.read();
        w.step(&St::Reopen);
        w.read();
    }
}
fn c09_mix(a: &[String]) {
    let mut w = World::new("mix9");
    base(&mut w);
    for k in 0..depth(a, 3) {
        let id = 20 + k as i64;
        let x = sv("x");
        match ax::choose(&format!("step{k}"), 8) {
            0 => w.step(&St::A(one("t", id, x))),
            1 => w.step(&St::A(Del("t", W::Id(if k == 0 { 1 } else { id - 1 })))),
            2 => w.run(&[St::B(0), St::S(0, one("t", id, x)), St::S(0, Del("t", W::Id(2))), St::R(0)]),
            3 => w.run(&[St::B(0), St::S(0, one("u", id, x)), St::S(0, Del("u", W::Id(1))), St::C(0)]),
            4 => if w.m.tabs.contains_key("w") { w.step(&St::A(Drop("w"))) } else { w.step(&St::A(CreateU("w"))); w.step(&St::A(one("w", id, x))) },
            5 => w.step(&St::Flush),
            6 => w.step(&St::Vac),
            _ => w.step(&St::A(Set("u", W::All, x))),
        }
        if ax::flag(&format!("reopen{k}")) { w.step(&St::Reopen); }
        w.read();
    }
    w.step(&St::Reopen);
    w.read();
    if w.m.tabs.contains_key("w") { w.step(&St::A(one("w", 800, w.m.tabs["w"].rows.values().next().and_then(|r| r.0)))); }
    w.step(&St::A(one("t", 801, Some(1))));
    w.read();
}

// ---------- C12 ----------
fn cfgs(small: bool) -> axmosdb::DBConfig {
    let page = [4096, 8192, 16384, 32768, 65536][ax::choose("page", 5)];
    let cache = if small { [12, 24][ax::choose("cache", 2)] } else { 200 };
    let (pool, keys, sib) = [(1, 3, 2), (4, 2, 1), (2, 5, 3), (3, 8, 1)][ax::choose("tree", 4)];
    axmosdb::DBConfig::new(page, cache, pool, keys, sib)
}
fn work(w: &mut World, script: usize) {
    base(w);
    let x = ax::int("x", 0, 1000);
    match script {
        0 => {
            for k in 0..30i64 { w.step(&St::A(Ins("t", vec![(100 + (k * 7) % 30, Some(k), if k % 5 == 0 { 2000 } else { 150 })]))); }
            w.step(&St::A(Del("t", W::Lt(12))));
            w.step(&St::A(Len("t", W::Eq(20), 5000)));
        }
        1 => {
            w.step(&St::A(CreateU("w")));
            w.step(&St::A(Ins("w", (1..60).map(|k| (k, Some(k * 3 % 61 + 2000), 40)).collect())));
            w.step(&St::A(one("w", 70, Some(2003))));
            w.run(&[St::B(0), St::S(0, Del("w", W::Lt(2030))), St::S(0, Ins("w", vec![(80, Some(x), 9000), (81, Some(-5), 30000)])), St::C(0)]);
            w.step(&St::A(Del("w", W::Id(81))));
        }
        2 => {
            w.run(&[St::B(0), St::S(0, Ins("t", (10..50).map(|k| (k, Some(k), 600)).collect())), St::R(0)]);
            w.step(&St::Vac);
            w.step(&St::A(Ins("t", (10..50).map(|k| (k, Some(x), 300)).collect())));
            w.step(&St::A(Drop("u")));
            w.step(&St::A(Create("u")));
            w.step(&St::A(Ins("u", (1..40).map(|k| (k, Some(k), 500)).collect())));
        }
        _ => {
            for k in 0..8i64 { w.step(&St::A(Ins("t", vec![(100 - k, Some(x), 12000)]))); w.step(&St::A(Len("t", W::Id(100 - k), 100))); }
            w.step(&St::A(Add("t", W::All, 1)));
            w.step(&St::A(Del("t", W::Lt(500))));
        }
    }
    w.read();
}
fn c12_config(_: &[String]) {
    let s = ax::choose("script", 4);
    let mut w = World::with("config", cfgs(false));
    work(&mut w, s);
    w.step(&St::Reopen);
    w.read();
}
/// caches smaller than the data
fn c12_evict(_: &[String]) {
    let s = ax::choose("script", 4);
    let mut w = World::with("evict12", cfgs(true));
    work(&mut w, s);
    w.step(&St::Flush);
    w.read();
}

// ---------- C13 ----------
fn c13_mix(a: &[String]) {
    let mut w = World::new("vacuum");
    base(&mut w);
    w.step(&St::A(CreateU("w")));
    w.step(&St::A(Ins("w", vec![(1, Some(1), 4), (2, Some(2), 4)])));
    let x = sv("x");
    for k in 0..depth(a, 3) {
        let id = 20 + k as i64;
        match ax::choose(&format!("step{k}"), 10) {
            0 => w.step(&St::A(one("t", id, x))),
            1 => w.step(&St::A(Del("t", W::Id(1)))),
            2 => w.run(&[St::B(0), St::S(0, one("t", id, x)), St::S(0, Del("t", W::Id(2))), St::S(0, Del("w", W::Id(1))), St::S(0, one("w", id, Some(50))), St::R(0)]),
            3 => w.step(&St::A(Add("t", W::All, 1))),
            4 => { w.step(&St::A(Del("w", W::Id(2)))); w.step(&St::A(one("w", id, Some(2)))); }
            5 => if w.m.tabs.contains_key("u") { w.step(&St::A(Drop("u"))) } else { w.step(&St::A(Create("u"))); w.step(&St::A(one("u", 1, x))) },
            6 => w.step(&St::A(Ins("t", vec![(id, x, 5000)]))),
            7 => w.run(&[St::B(0), St::S(0, one("t", id, x)), St::S(0, Del("t", W::Id(1)))]),
            8 => w.step(&St::A(Len("t", W::Id(2), 4000))),
            _ => w.step(&St::Reopen),
        }
        if k + 1 == depth(a, 3) || ax::flag(&format!("vac{k}")) {
            w.step(&St::Vac);
            w.ses = Default::default();
            w.read();
        } else { w.ses = Default::default(); w.m.tx = Default::default(); }
    }
    w.step(&St::A(one("w", 700, Some(50))));
    w.step(&St::A(one("w", 701, Some(2))));
    after(&mut w);
}
/// sessions that are open while VACUUM runs go on as one transaction or are refused as one
fn c13_open(a: &[String]) {
    let mut w = World::new("vacopen");
    base(&mut w);
    w.step(&St::A(CreateU("w")));
    w.step(&St::A(Ins("w", vec![(1, Some(1), 4), (2, Some(2), 4)])));
    let x = sv("x");
    w.step(&St::B(0));
    match ax::choose("before", 4) {
        0 => {}
        1 => w.step(&St::S(0, one("t", 20, x))),
        2 => w.run(&[St::S(0, Del("w", W::Id(1))), St::S(0, one("w", 21, Some(50)))]),
        _ => w.step(&St::SRead(0)),
    }
    if ax::flag("other") { w.step(&St::A(one("t", 30, x))); }
    let mut tx = w.m.tx[0].clone();
    for k in 0..depth(a, 2) {
        if k == 0 || ax::flag("again") { w.step(&St::Vac); }
        let op = match ax::choose(&format!("then{k}"), 6) {
            0 => None,
            1 => Some(one("t", 40 + k as i64, x)),
            2 => Some(one("w", 50 + k as i64, Some(60 + k as i64))),
            3 => Some(Del("t", W::Id(1))),
            4 => Some(Create("v")),
            _ => Some(Del("w", W::Id(2))),
        };
        w.m.tx[0] = tx.clone();
        match op {
            Some(op) => { let st = St::S(0, op); let m = w.m.clone(); if w.engine(&st).is_ok() { ax::reach("goes-on"); if w.m.step(&st).is_none() { ax::fail("vacopen-unexpected-success"); } } else { ax::reach("refused"); w.m = m; } }
            None => {
                let want = tx.as_ref().unwrap().view.clone();
                for (t, tab) in &want { if let Ok(r) = w.ses[0].as_mut().unwrap().rows(&format!("SELECT id, a, s FROM {t}")) { ax::check_u(eq_tab(&r, tab), "vacopen-session-read"); } }
            }
        }
        tx = w.m.tx[0].take();
        w.read();
    }
    match ax::choose("end", 3) {
        0 => { w.m.tx[0] = tx; let m = w.m.clone(); if w.engine(&St::C(0)).is_ok() { w.m.step(&St::C(0)); } else { w.m = m; w.m.tx[0] = None; } }
        1 => { let _ = w.engine(&St::R(0)); }
        _ => { let _ = w.engine(&St::D(0)); }
    }
    w.read();
    w.step(&St::A(one("w", 700, Some(60))));
    w.step(&St::A(one("t", 40, Some(3))));
    after(&mut w);
}
/// storage stays bounded over update/vacuum cycles
fn c13_bounded(_: &[String]) {
    let mut w = World::new("bounded");
    base(&mut w);
    let kind = ax::choose("kind", 5);
    w.step(&St::A(Ins("t", (10..40).map(|k| (k, Some(k), 300)).collect())));
    if kind == 4 { w.step(&St::A(CreateU("w"))); }
    let size = || std::fs::metadata(path()).map(|m| m.len()).unwrap_or(0);
    let mut after3 = 0;
    for k in 0..8i64 {
        match kind {
            0 => { w.step(&St::A(Add("t", W::All, 1))); w.step(&St::A(Len("t", W::All, 250 + 10 * (k as usize % 3)))); }
            1 => { w.step(&St::A(Del("t", W::All))); w.step(&St::A(Ins("t", (10..40).map(|i| (i, Some(i + k), 300)).collect()))); }
            2 => w.run(&[St::B(0), St::S(0, Ins("t", (50..80).map(|i| (i, Some(i), 300)).collect())), St::R(0)]),
            3 => { w.step(&St::A(Create("w"))); w.step(&St::A(Ins("w", (1..20).map(|i| (i, Some(i), 2500)).collect()))); w.step(&St::A(Drop("w"))); }
            _ => { w.step(&St::A(Ins("w", (1..40).map(|i| (i, Some(i), 20)).collect()))); w.step(&St::A(Del("w", W::All))); }
        }
        w.step(&St::Vac);
        if k == 3 { after3 = size(); }
    }
    w.read();
    ax::noteval("size3", after3 as i64);
    ax::noteval("size7", size() as i64);
    ax::check(size() <= after3 + 4096 && after3 > 0, "bounded-growth");
}
fn c13_drop(_: &[String]) {
    let mut w = World::new("vacdrop");
    base(&mut w);
    w.step(&St::A(CreateU("w")));
    w.step(&St::A(Ins("w", (1..30).map(|k| (k, Some(k), 400)).collect())));
    match ax::choose("how", 4) {
        0 => w.step(&St::A(Drop("w"))),
        1 => w.run(&[St::B(0), St::S(0, Drop("w")), St::C(0)]),
        2 => w.run(&[St::B(0), St::S(0, Create("nn")), St::R(0)]),
        _ => { w.step(&St::A(Drop("w"))); w.step(&St::A(Create("w"))); w.step(&St::A(one("w", 1, Some(4)))); }
    }
    w.step(&St::Vac);
    w.read();
    w.step(&St::Vac);
    after(&mut w);
}

// ---------- C15 ----------
fn c15_ddl(_: &[String]) {
    let mut w = World::new("ddl");
    base(&mut w);
    let x = sv("x");
    match ax::choose("script", 9) {
        0 => { w.run(&[St::A(Create("t")), St::A(CreateU("u")), St::A(Drop("w")), St::A(one("w", 1, x))]); }
        1 => { w.run(&[St::A(Drop("u")), St::Read, St::A(one("u", 1, x)), St::A(CreateU("u")), St::Read, St::A(one("u", 1, x)), St::A(one("u", 2, x)), St::Read]); }
        2 => { w.run(&[St::B(0), St::S(0, Create("w")), St::S(0, one("w", 1, x)), St::SRead(0), St::Read, St::C(0), St::Read]); }
        3 => { w.run(&[St::B(0), St::S(0, CreateU("w")), St::S(0, one("w", 1, x)), St::Read, St::R(0), St::Read, St::A(Create("w")), St::A(one("w", 2, x)), St::Read]); }
        4 => { w.run(&[St::Batch(vec![Create("w"), one("w", 1, x), Bad("CREATE TABLE t (id INT)")]), St::Read, St::A(CreateU("w")), St::A(one("w", 1, x)), St::Read]); }
        5 => { w.run(&[St::Batch(vec![Drop("u"), CreateU("u"), one("u", 1, x)]), St::Read, St::A(one("u", 2, x)), St::Read]); }
        6 => { for _ in 0..3 { w.run(&[St::A(CreateU("w")), St::A(one("w", 1, x)), St::A(Drop("w")), St::Read]); } }
        7 => { w.run(&[St::B(0), St::S(0, Create("w")), St::D(0), St::Read, St::A(Create("w")), St::Read]); }
        _ => { w.run(&[St::A(Index("ix", "t")), St::A(one("t", 5, w.m.tabs["t"].rows[&1].0)), St::A(Index("ix2", "u")), St::A(Drop("t")), St::Read, St::A(Create("t")), St::A(Ins("t", vec![(1, x, 4), (2, x, 4)])), St::Read]); }
    }
    after(&mut w);
}
fn c15_mix(a: &[String]) {
    let mut w = World::new("ddlmix");
    base(&mut w);
    let x = sv("x");
    for k in 0..depth(a, 3) {
        let open = w.m.tx[0].is_some();
        let have = w.m.tabs.contains_key("w");
        let mine = w.m.tx[0].as_ref().is_some_and(|t| t.view.contains_key("w"));
        let s = match ax::choose(&format!("step{k}"), 10) {
            0 => St::A(if k % 2 == 0 { Create("w") } else { CreateU("w") }),
            8 => { if !open || !mine { ax::assume(false) } St::S(0, Drop("w")) }
            9 => { if open || !have { ax::assume(false) } St::A(Index(["ix0", "ix1", "ix2", "ix3", "ix4", "ix5"][k], "w")) }
            1 => { if open && mine && !have { ax::assume(false) } St::A(Drop("w")) }
            2 => if open { if have { ax::assume(false) } St::S(0, Create("w")) } else { St::B(0) },
            3 => if open { if !mine { ax::assume(false) } St::S(0, one("w", 30 + k as i64, x)) } else { St::A(one("w", 40 + k as i64, x)) },
            4 => { if !open { ax::assume(false) } St::C(0) }
            5 => { if !open { ax::assume(false) } St::R(0) }
            6 => { if open { ax::assume(false) } St::Reopen }
            _ => { if open { ax::assume(false) } St::Vac }
        };
        w.step(&s);
        w.read();
    }
    after(&mut w);
}
/// ALTER TABLE ADD / DROP COLUMN
fn c15_alter(_: &[String]) {
    let d = Db::create();
    d.must("CREATE TABLE t (id BIGINT, a INT, s TEXT, PRIMARY KEY(id))", "setup-create");
    let x = ax::int("x", 0, 100);
    d.must(&format!("INSERT INTO t VALUES (1, {}, 'ab'), (2, 7, 'c')", lit(x)), "setup-insert");
    let (id, q, want): (&str, &str, Vec<Row>) = match ax::choose("op", 3) {
        0 => { let ok = d.ex("ALTER TABLE t ADD COLUMN b INT").is_ok(); ax::check(ok, "alter-add"); ("alter-add-read", "SELECT id, a, b FROM t", vec![vec![V::I(1), V::I(x), V::N], vec![V::I(2), V::I(7), V::N]]) }
        1 => { let ok = d.ex("ALTER TABLE t DROP COLUMN a").is_ok(); ax::check(ok, "alter-drop"); ("alter-drop-read", "SELECT id, s FROM t", vec![vec![V::I(1), V::S(b"ab".to_vec())], vec![V::I(2), V::S(b"c".to_vec())]]) }
        _ => { let ok = d.ex("ALTER TABLE t ALTER COLUMN a SET NOT NULL").is_ok(); ax::check(ok, "alter-null"); ax::check(d.ex("INSERT INTO t VALUES (3, NULL, 'x')").is_err(), "alter-null-kept"); ("alter-null-read", "SELECT id, a FROM t", vec![vec![V::I(1), V::I(x)], vec![V::I(2), V::I(7)]]) }
    };
    match d.rows(q) { Ok(r) => ax::check_u(same_bag(&r, &want), id), Err(_) => ax::fail(id) }
}
