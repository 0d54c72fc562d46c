//! C14: two clients at once; every schedule with up to a number of delays.
use crate::ax;
use crate::db::*;
use std::collections::BTreeMap;
pub const TABLE: &[(&str, fn(&[String]))] = &[("c14_pair", pair), ("c14_trio", trio), ("c14_known", known)];

#[derive(Clone, Copy)]
pub enum Op { Ins(usize, i64, i64, usize), Many(usize, i64, i64), Del(usize, i64), Upd(usize, i64, i64), Sel(usize), Join, Make, Flush }
/// one transaction: its statements and whether it is a session of its own
#[derive(Clone)]
pub struct Tx { ops: Vec<Op>, ses: bool }
#[derive(Clone, Debug)]
enum R { N(u64), Rows(Vec<(i64, i64)>), Ddl, Err(String) }
const T: [&str; 3] = ["t", "u", "w"];
fn text(n: usize, c: char) -> String { std::iter::repeat_n(c, n).collect() }
fn sql(o: Op) -> String {
    match o {
        Op::Ins(t, i, v, n) => format!("INSERT INTO {} VALUES ({i}, {v}, '{}')", T[t], text(n, 'x')),
        Op::Many(t, i, n) => format!("INSERT INTO {} VALUES {}", T[t], (0..n).map(|k| format!("({}, {k}, '{}')", i + k, text(700, 'm'))).collect::<Vec<_>>().join(", ")),
        Op::Del(t, i) => format!("DELETE FROM {} WHERE id = {i}", T[t]),
        Op::Upd(t, i, v) => format!("UPDATE {} SET v = {v} WHERE id = {i}", T[t]),
        Op::Sel(t) => format!("SELECT id, v FROM {}", T[t]),
        Op::Join => "SELECT t.id, u.v FROM t JOIN u ON t.id = u.id".into(),
        Op::Flush => String::new(),
        Op::Make => "CREATE TABLE w (id BIGINT, v INT, s TEXT, PRIMARY KEY(id))".into(),
    }
}
fn res(r: Result<Out, String>) -> R {
    match r {
        Ok(Out::Count(n)) => R::N(n),
        Ok(Out::Ddl) => R::Ddl,
        Ok(Out::Rows(l)) => R::Rows(pairs(&l)),
        Err(e) => R::Err(e),
    }
}
fn num(v: &V) -> i64 { match v { V::I(x) => *x, _ => -999 } }
fn pairs(l: &[Row]) -> Vec<(i64, i64)> { let mut v: Vec<_> = l.iter().map(|r| (num(&r[0]), num(&r[1]))).collect(); v.sort(); v }
type St = [Option<BTreeMap<i64, i64>>; 3];
/// what the statement gives in that state
fn apply(s: &mut St, o: Op, r: &R) -> bool {
    match (o, r) {
        (Op::Make, R::Ddl) => { if s[2].is_some() { return false } s[2] = Some(BTreeMap::new()); true }
        (Op::Ins(t, i, v, _), R::N(1)) => { let Some(m) = &mut s[t] else { return false }; m.insert(i, v).is_none() }
        (Op::Many(t, i, n), R::N(k)) => { let Some(m) = &mut s[t] else { return false }; *k == n as u64 && (0..n).all(|k| m.insert(i + k, k).is_none()) }
        (Op::Del(t, i), R::N(k)) => { let Some(m) = &mut s[t] else { return false }; *k == m.remove(&i).is_some() as u64 }
        (Op::Upd(t, i, v), R::N(k)) => { let Some(m) = &mut s[t] else { return false }; *k == match m.get_mut(&i) { Some(x) => { *x = v; 1 } None => 0 } }
        (Op::Sel(t), R::Rows(l)) => { let Some(m) = &s[t] else { return false }; m.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>() == *l }
        (Op::Join, R::Rows(l)) => { let (Some(m), Some(n)) = (&s[0], &s[1]) else { return false }; n.iter().filter(|(k, _)| m.contains_key(k)).map(|(a, b)| (*a, *b)).collect::<Vec<_>>() == *l }
        (Op::Flush, R::Ddl) => true,
        _ => false,
    }
}
/// a refusal that the client can expect: somebody else's write came first
fn expected(e: &str) -> bool { e.contains("onflict") || e.contains("UNIQUE") || e.contains("already exists") || e.contains("duplicate") || e.contains("uplicate") || e.contains("not found") }
struct Done { tx: Tx, out: Vec<R>, committed: bool }
fn client(d: &Db, l: &[Tx]) -> Vec<Done> {
    let mut v = vec![];
    for tx in l {
        let mut out = vec![];
        let mut committed = true;
        if tx.ses {
            match d.session() {
                Err(e) => { out.push(R::Err(e)); committed = false }
                Ok(mut s) => {
                    for o in &tx.ops { let r = res(s.ex(&sql(*o))); let bad = matches!(r, R::Err(_)); out.push(r); if bad { committed = false; break } }
                    if committed { if let Err(e) = s.commit() { out.push(R::Err(e)); committed = false } } else { let _ = s.abort(); }
                }
            }
        } else {
            let r = if let Op::Flush = tx.ops[0] { res(d.flush().map(|_| Out::Ddl)) } else { res(d.ex(&sql(tx.ops[0]))) };
            committed = !matches!(r, R::Err(_));
            out.push(r);
        }
        v.push(Done { tx: tx.clone(), out, committed });
    }
    v
}
/// some order of the committed transactions gives these results and this end
fn serial(l: &[&[Done]], s: &St, end: &St) -> bool {
    if l.iter().all(|x| x.is_empty()) { return s == end }
    for k in 0..l.len() {
        let Some(d) = l[k].first() else { continue };
        let mut q = s.clone();
        if d.committed && !d.tx.ops.iter().zip(&d.out).all(|(o, r)| apply(&mut q, *o, r)) { continue }
        let mut m = l.to_vec();
        m[k] = &l[k][1..];
        if serial(&m, &q, end) { return true }
    }
    false
}
fn one(o: Op) -> Vec<Tx> { vec![Tx { ops: vec![o], ses: false }] }
fn ses(o: &[Op]) -> Vec<Tx> { vec![Tx { ops: o.to_vec(), ses: true }] }
/// what a client does; `k` keeps the keys of the two apart
fn script(i: usize, k: i64) -> Vec<Tx> {
    match i {
        0 => one(Op::Ins(0, 100 + k, k, 4)),
        1 => one(Op::Sel(0)),
        2 => one(Op::Ins(1, 100 + k, k, 9000)),
        3 => one(Op::Ins(0, 50, k, 4)),
        4 => one(Op::Del(0, 2)),
        5 => one(Op::Many(0, 200 + k * 20, 8)),
        6 => one(Op::Upd(0, 1 + k, 77)),
        7 => one(Op::Make),
        8 => ses(&[Op::Ins(0, 100 + k, k, 4), Op::Ins(1, 50, k, 4)]),
        9 => ses(&[Op::Ins(1, 100 + k, k, 4), Op::Ins(0, 50, k, 4)]),
        10 => { let mut v = one(Op::Ins(0, 100 + k, k, 4)); v.extend(one(Op::Del(0, 100 + k))); v }
        11 => ses(&[Op::Sel(0), Op::Sel(0)]),
        12 => one(Op::Join),
        13 => one(Op::Flush),
        14 => ses(&[Op::Del(0, 2), Op::Del(1, 3)]),
        15 => ses(&[Op::Del(1, 3), Op::Del(0, 2)]),
        17 => ses(&[Op::Upd(1, 3, 5), Op::Del(0, 2)]),
        _ => one(Op::Del(1, 3)),
    }
}
const N: u64 = 17;
/// UPDATE is seen at once by sessions that have begun before: recorded on its own
fn upd_read(i: usize, j: usize) -> bool { (i, j) == (6, 11) }
fn make(cache: u64, pool: u64) -> (Db, St) {
    let d = Db::create_with(axmosdb::DBConfig::new(4096, cache as usize, pool as usize, 3, 2));
    for t in ["t", "u"] { d.must(&format!("CREATE TABLE {t} (id BIGINT, v INT, s TEXT, PRIMARY KEY(id))"), "setup-create"); }
    let mut s: St = [Some(BTreeMap::new()), Some(BTreeMap::new()), None];
    for t in 0..2 { for i in 1..5 { let o = Op::Ins(t, i, i * 10, 20); d.must(&sql(o), "setup-insert"); apply(&mut s, o, &R::N(1)); } }
    (d, s)
}
/// everything that came back, and what is left, against the serial orders
fn judge(d: &Db, s: &St, l: &[&[Done]], id: &str) {
    for x in l.iter().flat_map(|x| x.iter()) { for r in &x.out { if let R::Err(e) = r { ax::note(e); ax::reach("refused"); if !expected(e) { return ax::fail("internal-error") } } } }
    let mut end: St = [None, None, None];
    for t in 0..3 {
        match d.rows(&sql(Op::Sel(t))) { Ok(l) => end[t] = Some(pairs(&l).into_iter().collect()), Err(e) => if t < 2 { ax::note(&e); return ax::fail("read-after") } }
    }
    if !serial(l, s, &end) { ax::note(&format!("{:?} {:?}", l.iter().map(|x| x.iter().map(|y| &y.out).collect::<Vec<_>>()).collect::<Vec<_>>(), end)); return ax::fail(id) }
    ax::check(true, "serial-order");
    // the database is whole
    if !matches!(d.ex("INSERT INTO t VALUES (900, 9, 'z')"), Ok(Out::Count(1))) { return ax::fail("dead-after") }
    crate::c11::audit(d);
}
fn arg(a: &[String], i: usize, d: u64) -> u64 { a.get(i).and_then(|x| x.parse().ok()).unwrap_or(d) }
/// args: delays, first script of the one client, number of them, cache pages, workers
fn pair(a: &[String]) {
    let (delays, lo, n, cache, pool) = (arg(a, 0, 1), arg(a, 1, 0), arg(a, 2, N), arg(a, 3, 64), arg(a, 4, 2));
    let i = (lo + ax::choose("a", n.min(N - lo)) as u64) as usize;
    let j = ax::choose("b", N);
    if j < i || upd_read(i, j) { ax::assume(false) }
    run2(i, j, delays, cache, pool, "no-serial-order");
}
fn run2(i: usize, j: usize, delays: u64, cache: u64, pool: u64, id: &str) {
    let (d, s) = make(cache, pool);
    let (ta, tb) = (script(i, 1), script(j, 2));
    if ax::is_symbolic() { ax::sched(delays as u32) }
    let (ra, rb) = std::thread::scope(|sc| {
        let h = sc.spawn(|| client(&d, &tb));
        let ra = client(&d, &ta);
        (ra, h.join().unwrap())
    });
    if ax::is_symbolic() { ax::sched_off() }
    judge(&d, &s, &[&ra, &rb], id);
}
fn known(_: &[String]) {
    let (i, j) = [(6, 11), (11, 17), (4, 17), (14, 17)][ax::choose("pair", 4)];
    run2(i, j, 1, 64, 2, if i == 6 || i == 11 { "update-seen-by-older-session" } else { "refused-session-keeps-update" });
}
/// three clients; args: delays, workers
fn trio(a: &[String]) {
    let (delays, pool) = (arg(a, 0, 1), arg(a, 1, 2));
    const L: [[usize; 3]; 10] = [[0, 0, 0], [0, 1, 3], [3, 3, 3], [5, 1, 1], [8, 9, 1], [4, 12, 2], [6, 6, 1], [2, 16, 12], [8, 9, 13], [7, 0, 7]];
    let l = L[ax::choose("clients", 10)];
    let (d, s) = make(64, pool);
    let t: Vec<Vec<Tx>> = l.iter().enumerate().map(|(k, i)| script(*i, 1 + k as i64)).collect();
    if ax::is_symbolic() { ax::sched(delays as u32) }
    let (ra, rb, rc) = std::thread::scope(|sc| {
        let h = sc.spawn(|| client(&d, &t[1]));
        let g = sc.spawn(|| client(&d, &t[2]));
        let ra = client(&d, &t[0]);
        (ra, h.join().unwrap(), g.join().unwrap())
    });
    if ax::is_symbolic() { ax::sched_off() }
    judge(&d, &s, &[&ra, &rb, &rc], "no-serial-order");
}
