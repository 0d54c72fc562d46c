//! Storage components by themselves: the log, stored trees, tuples with versions.
use crate::ax;
use axmosdb::types::DataType;
use axmosdb::verif::view::{Log, Rec};
pub const TABLE: &[(&str, fn(&[String]))] = &[("c17_log", c17_log), ("c17_fill", c17_fill), ("c17_crash", c17_crash)];

fn path(n: &str) -> String { if ax::is_symbolic() { format!("/ax/{n}") } else { n.to_string() } }
fn opt(name: &str, some: bool) -> Option<u64> {
    let v = ax::bits64(name);
    if some { Some(v) } else { None }
}
/// contents with symbolic ends
fn payload(name: &str, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| (i * 7 + 3) as u8).collect();
    if n == 0 { return v; }
    let s = ax::bytes(name, 2.min(n));
    v[0] = s[0];
    if n > 1 { v[n - 1] = s[1]; }
    v
}
fn same_opt(a: Option<u64>, b: Option<u64>) -> u64 {
    match (a, b) { (None, None) => 1, (Some(x), Some(y)) => (x == y) as u64, _ => 0 }
}
fn same_bytes(a: &[u8], b: &[u8]) -> u64 {
    if a.len() != b.len() { return 0; }
    let mut r = 0u8;
    for i in 0..a.len() { r |= a[i] ^ b[i]; }
    (r == 0) as u64
}
fn same_rec(a: &Rec, b: &Rec) -> u64 {
    (a.lsn == b.lsn) as u64 & (a.tid == b.tid) as u64 & same_opt(a.prev, b.prev) & same_opt(a.object, b.object) & same_opt(a.row, b.row) & (a.kind == b.kind) as u64 & same_bytes(&a.undo, &b.undo) & same_bytes(&a.redo, &b.redo)
}
struct Model { recs: Vec<Rec>, forced: usize, room: usize, zero: bool, max: usize, }
impl Model {
    fn new(max: usize) -> Self { Model { recs: vec![], forced: 0, room: max - 64, zero: true, max } }
    fn clear(&mut self) { *self = Model::new(self.max) }
    /// where the next record goes, as far as sizes worth trying depend on it
    fn place(&mut self, size: usize) {
        if self.room >= size { self.room -= size } else { self.zero = false; self.room = self.max - size }
    }
    fn replay(&mut self) {
        self.room = self.max - 64;
        let sizes: Vec<usize> = self.recs.iter().map(|r| Log::record_size(r.undo.len(), r.redo.len())).collect();
        for s in sizes { self.place(s) }
    }
    fn last(&self) -> Option<u64> { self.recs.last().map(|r| r.lsn) }
}
fn push(log: &mut Log, m: &mut Model, k: usize, undo: usize, redo: usize, symbolic: bool) -> bool {
    let mut r = if symbolic {
        let some = [7, 0, 5][ax::choose(&format!("some{k}"), 3)];
        Rec { lsn: 0, tid: ax::bits64(&format!("tid{k}")), prev: opt(&format!("prev{k}"), some & 1 == 1), object: opt(&format!("obj{k}"), some & 2 == 2), row: opt(&format!("row{k}"), some & 4 == 4), kind: (k % 10) as u8, undo: payload(&format!("undo{k}"), undo), redo: payload(&format!("redo{k}"), redo) }
    } else {
        let t = ax::bits64(&format!("tid{k}"));
        Rec { lsn: 0, tid: t, prev: if k % 2 == 0 { None } else { Some(t) }, object: Some(!t), row: if k % 3 == 0 { None } else { Some(k as u64) }, kind: (k % 10) as u8, undo: payload(&format!("undo{k}"), undo), redo: payload(&format!("redo{k}"), redo) }
    };
    let size = Log::record_size(undo, redo);
    match log.push(&r) {
        Ok(lsn) => {
            if size > m.max { ax::fail("log-accepts-too-large"); }
            if let Some(l) = m.last() { ax::check(lsn > l, "log-lsn-order"); }
            r.lsn = lsn;
            m.place(size);
            m.recs.push(r);
            true
        }
        Err(e) => { ax::note(&e); if size <= m.max { ax::fail("log-rejects-record"); } false }
    }
}
fn compare(got: &[Rec], want: &[Rec], id: &str) {
    let mut ok = (got.len() == want.len()) as u64;
    for (a, b) in got.iter().zip(want) { ok &= same_rec(a, b); }
    ax::check_u(ok, id);
    for w in got.windows(2) { ax::check(w[0].lsn < w[1].lsn, "log-lsn-order"); }
}
fn read(log: &mut Log, m: &Model, ahead: usize, id: &str) {
    match log.read(ahead) {
        Ok(g) => compare(&g, &m.recs[..m.forced], id),
        Err(e) => { ax::note(&e); ax::fail(&format!("{id}-failed")) }
    }
}
/// undo and redo lengths whose record takes exactly `total` bytes, or as near as there are
fn split(total: usize, how: usize) -> (usize, usize) {
    let head = Log::record_size(0, 0);
    let p = total.saturating_sub(head);
    match how % 3 { 0 => (0, p), 1 => (p / 2, p - p / 2), _ => (p, 0) }
}
fn ok<T>(r: Result<T, String>, id: &str) -> Option<T> {
    match r { Ok(v) => Some(v), Err(e) => { ax::note(&e); ax::fail(id); None } }
}
/// every script of pushes of chosen sizes, forces, closings, losses, truncations
fn c17_log(a: &[String]) {
    let depth: usize = a.first().map(|s| s.parse().unwrap()).unwrap_or(4);
    let p = path("l.log");
    let Some(log) = ok(Log::create(&p), "log-create") else { return };
    let mut log = Some(log);
    let mut m = Model::new(log.as_ref().unwrap().max_record());
    if !ax::flag("fresh") {
        // the file has a header before anything is appended
        let Some(()) = ok(log.as_mut().unwrap().force(), "log-force") else { return };
    }
    let mut n = 0;
    let mut dirty = true;
    let at = ax::choose("read_at", depth as u64);
    for k in 0..depth {
        let l = log.as_mut().unwrap();
        match ax::choose(&format!("step{k}"), 9) {
            c @ 0..=4 => {
                let (u, r) = match c {
                    0 => split(ax::choose(&format!("small{k}"), 3) * 77, n),
                    1 => split(m.room, n + 1),
                    2 => split(m.room + 8, n),
                    3 => split(m.max, n),
                    _ => split(13000, n),
                };
                if Log::record_size(u, r) > m.max { if !push(l, &mut m, n, u, r, false) { ax::reach("rejected"); } }
                else { push(l, &mut m, n, u, r, k == 0); n += 1; }
                dirty = true;
            }
            5 => { if !dirty { ax::assume(false) } let Some(()) = ok(l.force(), "log-force") else { return }; m.forced = m.recs.len(); dirty = false; }
            6 => {
                drop(log.take());
                m.forced = m.recs.len();
                dirty = false;
                log = ok(Log::open(&p), "log-open");
                if log.is_none() { return }
            }
            7 => {
                if m.forced == m.recs.len() { ax::assume(false) }
                log.take().unwrap().lose();
                // a log never forced has no header: there is nothing to reopen
                m.recs.truncate(m.forced);
                m.replay();
                log = ok(Log::open(&p), "log-open");
                if log.is_none() { return }
                ax::reach("lost");
            }
            _ => { let Some(()) = ok(l.truncate(), "log-truncate") else { return }; m.clear(); dirty = true; ax::reach("truncated"); }
        }
        if k + 1 == depth || k + 1 == at {
            let ahead = if k + 1 == depth { [0, 1, 2, 4][ax::choose("ahead", 4)] } else { 1 };
            read(log.as_mut().unwrap(), &m, ahead, "log-read");
        }
    }
    let mut l = log.take().unwrap();
    ok(l.force(), "log-force");
    m.forced = m.recs.len();
    read(&mut l, &m, 3, "log-read-end");
}
/// many blocks, forces at every boundary
fn c17_fill(_: &[String]) {
    let p = path("f.log");
    let Some(mut log) = ok(Log::create(&p), "log-create") else { return };
    let mut m = Model::new(log.max_record());
    let first = [0, 64, 1000, 40000][ax::choose("first", 4)];
    let (u, r) = split(first, 0);
    push(&mut log, &mut m, 0, u, r, false);
    let size = [96, 13000, 20400, 20480, 40000, 0][ax::choose("size", 6)];
    let every = 1 + ax::choose("every", 3);
    let close = ax::flag("close");
    let bad = ax::choose("bad", 3);
    for k in 1..9 {
        if k == 2 + bad * 3 {
            // too large by the least there is: refused, and nothing changes
            let (u, r) = split(m.max + 8, k);
            if !push(&mut log, &mut m, 50 + k, u, r, false) { ax::reach("rejected"); }
        }
        let (u, r) = split(if size == 0 { m.room } else { size }, k);
        let (u, r) = if Log::record_size(u, r) > m.max { split(m.max, k) } else { (u, r) };
        push(&mut log, &mut m, k, u, r, false);
        if k % every == 0 {
            if close {
                drop(log);
                let Some(l) = ok(Log::open(&p), "log-open") else { return };
                log = l;
            } else if ok(log.force(), "log-force").is_none() { return }
            m.forced = m.recs.len();
        }
        if k % 4 == 0 { read(&mut log, &m, k / 4, "log-fill"); }
    }
    read(&mut log, &m, ax::choose("ahead", 4), "log-fill");
}
/// death inside a force, a truncation or an opening: what was forced is there, and nothing else than what was appended
fn c17_crash(_: &[String]) {
    let p = path("c.log");
    let ph = ax::phase();
    let g = ax::ghost();
    let before = ax::choose("before", 4);
    let kind = ax::choose("kind", 4);
    let sizes: Vec<usize> = [vec![80], vec![20000, 20000], vec![40000, 300, 40000], vec![13000; 7]][ax::choose("sizes", 4)].clone();
    let plan = |log: &mut Log, m: &mut Model, live: bool| -> bool {
        // live: also forces; else only the model
        for k in 0..before { let (u, r) = split([100, 30000, 40000][k], k); if live { push(log, m, k, u, r, false); } }
        true
    };
    if ph == 0 {
        let Some(mut log) = ok(Log::create(&p), "log-create") else { return };
        let mut m = Model::new(log.max_record());
        plan(&mut log, &mut m, true);
        if ok(log.force(), "log-force").is_none() { return }
        g[0] = before as u64; // forced
        g[1] = before as u64; // appended
        g[2] = 0; // truncation begun
        ax::crash_region(true, 200);
        if kind == 2 || kind == 3 {
            g[2] = 1;
            ok(log.truncate(), "log-truncate");
            g[0] = 0;
            g[1] = 0;
            g[2] = 2;
            m.clear();
        }
        for (i, s) in sizes.iter().enumerate() {
            let (u, r) = split(*s, i);
            push(&mut log, &mut m, 10 + i, u, r, false);
            g[1] = m.recs.len() as u64;
            if kind == 1 || i + 1 == sizes.len() || (kind == 3 && i == 1) {
                if ok(log.force(), "log-force").is_none() { return }
                g[0] = m.recs.len() as u64;
            }
        }
        ax::crash_now();
        return;
    }
    // the same records again, as the reference
    let all = |from: usize| -> Vec<(usize, usize, usize)> {
        let mut v = vec![];
        if from == 0 { for k in 0..before { let (u, r) = split([100, 30000, 40000][k], k); v.push((k, u, r)); } }
        for (i, s) in sizes.iter().enumerate() { let (u, r) = split(*s, i); v.push((10 + i, u, r)); }
        v
    };
    if ph == 1 { ax::crash_region(true, 50); }
    let Some(mut log) = ok(Log::open(&p), "log-open-after-crash") else { return };
    if ph == 1 { if ax::flag("die_after_open") { ax::crash_now(); } ax::crash_region(false, 0); }
    let Some(got) = ok(log.read(ax::choose("ahead", 3)), "log-read-after-crash") else { return };
    let (forced, appended, trunc) = (g[0] as usize, g[1] as usize, g[2]);
    let mk = |l: Vec<(usize, usize, usize)>| -> Vec<Rec> {
        let mut lsn = 0;
        l.into_iter().map(|(k, u, r)| {
            let t = ax::bits64(&format!("tid{k}"));
            let rec = Rec { lsn, tid: t, prev: if k % 2 == 0 { None } else { Some(t) }, object: Some(!t), row: if k % 3 == 0 { None } else { Some(k as u64) }, kind: (k % 10) as u8, undo: payload(&format!("undo{k}"), u), redo: payload(&format!("redo{k}"), r) };
            lsn += 1;
            rec
        }).collect()
    };
    let full = mk(all(if trunc == 2 { 1 } else { 0 }));
    let prefix = |lo: usize, hi: usize| -> u64 {
        if got.len() < lo || got.len() > hi { return 0; }
        let mut ok = 1;
        for (a, b) in got.iter().zip(&full) { ok &= same_rec(a, b); }
        ok
    };
    // while a truncation is under way the log is as before or empty
    let hi = (appended + 1).min(full.len());
    let good = if trunc == 1 { prefix(before, before) | (got.is_empty()) as u64 } else { prefix(forced, hi) };
    ax::check_u(good, "log-after-crash");
    // it goes on from there
    let mut m = Model::new(log.max_record());
    m.recs = got;
    m.replay();
    for k in 0..3 {
        let (u, r) = split([200, 40000, 20000][k], k);
        push(&mut log, &mut m, 20 + k, u, r, false);
    }
    if ok(log.force(), "log-force").is_none() { return }
    m.forced = m.recs.len();
    read(&mut log, &m, 1, "log-goes-on");
    drop(log);
    let Some(mut log) = ok(Log::open(&p), "log-open") else { return };
    read(&mut log, &m, 2, "log-goes-on");
    ax::reach("crash-inside");
}
#[allow(unused)]
fn dt(v: i64) -> DataType { DataType::BigInt(axmosdb::types::Int64(v)) }
