//! C18: a stored row with its history, against a list of versions.
use crate::ax;
use crate::c19::{sym_of, unchanged_of, M};
use axmosdb::types::{DataType, DataTypeKind};
use axmosdb::verif::view::{Reader, Versions};

const KINDS: [DataTypeKind; 8] = [DataTypeKind::Int, DataTypeKind::BigInt, DataTypeKind::UInt, DataTypeKind::BigUInt, DataTypeKind::Float, DataTypeKind::Double, DataTypeKind::Bool, DataTypeKind::Blob];

/// what became of a transaction when the snapshot was taken
#[derive(Clone, Copy, PartialEq)]
enum St { Committed, Active, Aborted, Own }

struct Model { vers: Vec<(u64, Vec<M>)>, del: Option<u64> }
impl Model {
    fn read(&self, sees: &dyn Fn(u64) -> bool) -> Option<&Vec<M>> {
        if self.del.is_some_and(|d| sees(d)) { return None; }
        self.vers.iter().rev().find(|v| sees(v.0)).map(|v| &v.1)
    }
}
fn value(name: &str, k: DataTypeKind, null: bool) -> (DataType, M) {
    if null && ax::flag(&format!("{name}null")) { return (DataType::Null, M::Null); }
    sym_of(name, k)
}
fn shape(i: usize) -> Vec<DataTypeKind> {
    use DataTypeKind::*;
    match i {
        0 => vec![BigUInt, Int, Blob],
        1 => vec![Int, Blob, BigInt],
        2 => vec![Blob, Bool, Double],
        3 => vec![BigInt, Bool, Int],
        4 => vec![Bool, Blob, Blob],
        5 => vec![UInt, Float, BigUInt],
        6 => vec![Blob, Double, Bool, Int],
        7 => vec![Int, UInt, Bool, Blob, BigInt],
        8 => vec![BigUInt],
        _ => vec![Blob, BigInt, Blob, Bool, Int, Double, UInt, Float, Blob, BigUInt, Bool, Int, Blob],
    }
}
fn same(got: &[DataType], want: &[M]) -> bool {
    if got.len() != want.len() { return false; }
    let mut ok = true;
    for (g, w) in got.iter().zip(want) { ok &= unchanged_of(g, w); }
    ok
}
fn check_read(v: &Versions, m: &Model, r: &Reader, sees: &dyn Fn(u64) -> bool, id: &str) {
    match (v.read(r), m.read(sees)) {
        (Ok(None), None) => ax::check(true, id),
        (Ok(Some(g)), Some(w)) => ax::check(same(&g, w), id),
        _ => ax::fail(id),
    }
}
/// Rows of every shape are encoded and decoded without change.
fn build(a: &[String]) {
    let nul = a.first().is_some();
    let s = ax::choose("shape", 10);
    let cols = shape(s);
    let keys = if cols.len() > 2 { 1 + ax::choose("keys", 3.min(cols.len() as u64 - 1)) } else { 1 };
    let wide = cols.len() > 6;
    let mut row = vec![];
    let mut want = vec![];
    for (i, k) in cols.iter().enumerate() {
        let (d, m) = if wide && !nul && i >= keys && i % 3 != 1 {
            // of the wide row only some columns take part
            (DataType::Null, M::Null)
        } else { value(&format!("c{i}"), *k, i >= keys) };
        row.push(d); want.push(m);
    }
    let Ok(mut v) = Versions::build(&cols, keys, &row, 5) else { return ax::fail("not-built") };
    if ax::flag("reload") && v.reload().is_err() { return ax::fail("not-reloaded"); }
    match v.last() { Ok(g) => ax::check(same(&g, &want), "decoded"), Err(_) => ax::fail("not-decoded") }
    ax::check(matches!(v.num_versions(), Ok(1)), "versions-of-new-row");
}
/// A chain of updates by various transactions, perhaps a deletion, perhaps trimmed, and readers of all kinds.
fn chain(a: &[String]) {
    let depth: usize = a.first().and_then(|x| x.parse().ok()).unwrap_or(2);
    let shapes: u64 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(8);
    let cols = shape([1, 2, 7, 6, 0, 3, 4, 5][ax::choose("shape", shapes)]);
    let keys = 1;
    let nv = cols.len() - keys;
    let n = ax::choose("updates", depth as u64 + 1);
    // who creates the versions: one transaction after the other, or the same again
    let mut xid = 5u64;
    let mut row = vec![];
    let mut cur = vec![];
    for (i, k) in cols.iter().enumerate() { let (d, m) = value(&format!("c{i}"), *k, n == 0 && i >= keys && i <= 2); row.push(d); cur.push(m); }
    let Ok(mut v) = Versions::build(&cols, keys, &row, xid) else { return ax::fail("not-built") };
    let mut m = Model { vers: vec![(xid, cur.clone())], del: None };
    for u in 0..n {
        if ax::flag(&format!("new{u}")) { xid += 2; }
        // which columns change
        let mask = if nv <= 2 { 1 + ax::choose(&format!("mask{u}"), (1 << nv) - 1) } else { [1, 1 << (nv - 1), (1 << nv) - 1][ax::choose(&format!("mask{u}"), 3)] };
        let mut ch = vec![];
        for c in 0..nv {
            if mask >> c & 1 == 0 { continue; }
            let (d, w) = value(&format!("u{u}c{c}"), cols[keys + c], ch.is_empty());
            cur[keys + c] = w;
            ch.push((c, d));
        }
        if v.update(&ch, xid).is_err() { return ax::fail("not-updated"); }
        m.vers.push((xid, cur.clone()));
        if u == 0 && v.reload().is_err() { return ax::fail("not-reloaded"); }
    }
    match v.num_versions() { Ok(k) => ax::check(k == n + 1, "number-of-versions"), Err(_) => ax::fail("number-of-versions") }
    match v.last() { Ok(g) => ax::check(same(&g, &m.vers[n].1), "last-version"), Err(_) => ax::fail("last-version") }
    if ax::flag("delete") {
        if ax::flag("delnew") { xid += 2; }
        if v.delete(xid).is_err() { return ax::fail("not-deleted"); }
        m.del = Some(xid);
    }
    readers(&mut v, &m);
}
/// Snapshots over what the creators may have become, before and after trimming.
fn readers(v: &mut Versions, m: &Model) {
    let mut who: Vec<u64> = m.vers.iter().map(|v| v.0).chain(m.del).collect();
    who.dedup();
    // the reader is one of them, started between two of them or after all of them
    let pos = ax::choose("reader", who.len() as u64 * 2 + 1);
    let me = if pos < who.len() * 2 { who[pos / 2] + (pos % 2) as u64 } else { 40 };
    let mut st = vec![];
    for (i, w) in who.iter().enumerate() {
        // whoever wrote after the one that is still running either wrote nothing on top of it or is later:
        // a row is changed by one transaction at a time, so all but the last writer have ended by then
        let s = if *w == me { St::Own } else { [St::Committed, St::Active, St::Aborted][ax::choose(&format!("st{i}"), 3)] };
        st.push(s);
    }
    let active: Vec<u64> = who.iter().zip(&st).filter(|(_, s)| **s == St::Active).map(|p| *p.0).collect();
    let aborted: Vec<u64> = who.iter().zip(&st).filter(|(_, s)| **s == St::Aborted).map(|p| *p.0).collect();
    // the last one that committed; whoever is later had not begun or was running
    let top = who.iter().zip(&st).filter(|(_, s)| **s == St::Committed).map(|p| *p.0).max().unwrap_or(3);
    let top = if st[0] == St::Committed && ax::flag("othercommit") { top + 1 } else { top };
    // those that began after the snapshot are in none of its lists
    let listed: Vec<u64> = active.iter().copied().filter(|w| *w < me || ax::flag("listed")).collect();
    let hidden = active.iter().any(|w| *w <= top && !listed.contains(w));
    if hidden { ax::assume(false); }
    let xmin = listed.iter().copied().chain([me]).min().unwrap();
    let r = Reader { xid: me, xmin, xmax: Some(top), active: listed.clone(), aborted: aborted.clone() };
    let (who2, st2) = (who.clone(), st.clone());
    let sees = move |x: u64| who2.iter().zip(&st2).any(|(w, s)| *w == x && matches!(s, St::Committed | St::Own));
    check_read(v, m, &r, &sees, "read");
    // trimming for a horizon not above this snapshot
    let horizon = if ax::flag("early") { xmin.saturating_sub(2) } else { xmin };
    // whoever is older than the horizon has ended
    match v.vacuum(horizon, &aborted) { Ok(f) => if f > 0 { ax::reach("trimmed") }, Err(_) => return ax::fail("not-trimmed") }
    check_read(v, m, &r, &sees, "read-after-trim");
    if v.reload().is_err() { return ax::fail("not-reloaded"); }
    check_read(v, m, &r, &sees, "read-after-trim-reload");
}
/// More versions of one row than a version counter holds.
fn many(_: &[String]) {
    let cols = [DataTypeKind::BigUInt, DataTypeKind::Int, DataTypeKind::Blob];
    let (d0, m0) = sym_of("c1", DataTypeKind::Int);
    let (d1, m1) = sym_of("c2", DataTypeKind::Blob);
    let Ok(mut v) = Versions::build(&cols, 1, &[DataType::BigUInt(7.into()), d0, d1], 5) else { return ax::fail("not-built") };
    let n = [8, 255, 256, 300][ax::choose("n", 4)];
    let mut cur = vec![M::Int(7), m0, m1];
    let mut m = Model { vers: vec![(5, cur.clone())], del: None };
    for i in 0..n as u64 {
        let (d, w) = sym_of(&format!("u{i}"), DataTypeKind::Int);
        let (d, w) = if i % 5 == 3 { (DataType::Null, M::Null) } else { (d, w) };
        cur[1] = w;
        if v.update(&[(0, d)], 6 + i).is_err() { return ax::fail("not-updated"); }
        m.vers.push((6 + i, cur.clone()));
    }
    match v.num_versions() { Ok(k) => ax::check(k == n + 1, "number-of-versions"), Err(_) => ax::fail("number-of-versions") }
    for top in [4u64, 5, 6, 9, 5 + n as u64 / 2, 4 + n as u64, 5 + n as u64, 400] {
        let r = Reader { xid: 900, xmin: 900, xmax: Some(top), active: vec![], aborted: vec![] };
        check_read(&v, &m, &r, &|x| x <= top, "read");
    }
    let h = 5 + n as u64 / 2;
    if v.vacuum(h, &[]).is_err() { return ax::fail("not-trimmed"); }
    ax::reach("trimmed");
    for top in [h - 1, h, h + 1, 5 + n as u64] {
        let r = Reader { xid: 900, xmin: h, xmax: Some(top), active: vec![], aborted: vec![] };
        check_read(&v, &m, &r, &|x| x <= top, "read-after-trim");
    }
}
pub const TABLE: &[(&str, fn(&[String]))] = &[("c18_build", build), ("c18_chain", chain), ("c18_many", many)];
