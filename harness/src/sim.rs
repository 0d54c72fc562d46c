//! A reference database: tables as maps, sessions as snapshots with a write log. Scripts of
//! statements run on the engine and on the reference in lockstep.
#![allow(dead_code)]
use crate::{ax, db::*};
use std::collections::BTreeMap;

/// value columns of a row: a (nullable integer, possibly symbolic) and the length of the text s
pub type Val = (Option<i64>, usize);
#[derive(Clone, Default, PartialEq)]
pub struct Tab { pub rows: BTreeMap<i64, Val>, pub uniq: bool, pub notnull: bool }
pub type Tabs = BTreeMap<&'static str, Tab>;
#[derive(Clone, Copy)]
pub enum W { Id(i64), Lt(i64), Eq(i64), All }
#[derive(Clone)]
pub enum Op {
    Ins(&'static str, Vec<(i64, Option<i64>, usize)>), Del(&'static str, W),
    /// SET a = v
    Set(&'static str, W, Option<i64>),
    /// SET a = a + v
    Add(&'static str, W, i64),
    /// SET s = text of that length
    Len(&'static str, W, usize),
    Create(&'static str), CreateU(&'static str), CreateNN(&'static str), Drop(&'static str),
    /// CREATE UNIQUE INDEX name ON table(a)
    Index(&'static str, &'static str),
    /// a statement that must fail
    Bad(&'static str),
}
#[derive(Clone)]
pub enum St { A(Op), B(usize), S(usize, Op), C(usize), R(usize), D(usize), Batch(Vec<Op>), Flush, Vac, Ana, Reopen, Read, SRead(usize) }
pub use Op::*;
#[derive(Clone)]
enum Delta { Put(&'static str, i64, Val), Rm(&'static str, i64), Tab(&'static str, bool, bool), NoTab(&'static str), Uniq(&'static str) }
/// what a statement writes: rows, and tables as a whole (id -1)
type Touch = Vec<(&'static str, i64)>;
#[derive(Clone)]
pub struct Tx { pub view: Tabs, log: Vec<Delta>, start: usize, touch: Touch }
#[derive(Clone, Default)]
pub struct Model { pub tabs: Tabs, pub tx: [Option<Tx>; 3], commits: Vec<Touch>, last: Touch }

fn text(n: usize) -> String { "x".repeat(n) }
fn nl(v: Option<i64>) -> String { match v { None => "NULL".into(), Some(v) if !ax::is_concrete(v as u64) || v >= 0 => lit(v), Some(v) => format!("-{}", -v) } }
fn wsql(w: &W) -> String {
    match w { W::Id(i) => format!(" WHERE id = {i}"), W::Lt(x) => format!(" WHERE a < {}", lit(*x)), W::Eq(x) => format!(" WHERE a = {}", lit(*x)), W::All => String::new() }
}
impl Op {
    pub fn sql(&self) -> String {
        match self {
            Ins(t, r) => format!("INSERT INTO {t} VALUES {}", r.iter().map(|(i, a, n)| format!("({i}, {}, '{}')", nl(*a), text(*n))).collect::<Vec<_>>().join(", ")),
            Del(t, w) => format!("DELETE FROM {t}{}", wsql(w)),
            Set(t, w, v) => format!("UPDATE {t} SET a = {}{}", nl(*v), wsql(w)),
            Add(t, w, v) => format!("UPDATE {t} SET a = a + {}{}", lit(*v), wsql(w)),
            Len(t, w, n) => format!("UPDATE {t} SET s = '{}'{}", text(*n), wsql(w)),
            Create(t) => format!("CREATE TABLE {t} (id BIGINT, a INT, s TEXT, PRIMARY KEY(id))"),
            CreateU(t) => format!("CREATE TABLE {t} (id BIGINT, a INT, s TEXT, PRIMARY KEY(id), UNIQUE(a))"),
            CreateNN(t) => format!("CREATE TABLE {t} (id BIGINT, a INT NOT NULL, s TEXT, PRIMARY KEY(id))"),
            Drop(t) => format!("DROP TABLE {t}"),
            Index(n, t) => format!("CREATE UNIQUE INDEX {n} ON {t}(a)"),
            Bad(s) => s.to_string(),
        }
    }
    /// what the statement tries to write
    fn aims(&self, v: &Tabs, log: &[Delta]) -> Touch {
        let mut t = touched(log);
        match self {
            Ins(n, r) => t.extend(r.iter().map(|x| (*n, x.0))),
            Set(n, ..) | Add(n, ..) | Len(n, ..) if v.get(n).is_some_and(|t| t.uniq) => t.push((n, -1)),
            Create(n) | CreateU(n) | CreateNN(n) | Drop(n) | Index(_, n) => t.push((n, -1)),
            _ => {}
        }
        t
    }
    /// effect on a view; Err(()) when the statement must be rejected
    fn model(&self, v: &mut Tabs, log: &mut Vec<Delta>) -> Result<Option<u64>, ()> {
        let hit = |tab: &Tab, w: &W| -> Vec<i64> {
            tab.rows.iter().filter(|(id, (a, _))| match w {
                W::Id(i) => **id == *i,
                W::All => true,
                W::Lt(x) => a.is_some_and(|a| ax::decide(a < *x)),
                W::Eq(x) => a.is_some_and(|a| ax::decide(a == *x)),
            }).map(|(i, _)| *i).collect()
        };
        let dup = |tab: &Tab| -> bool {
            let mut d = 0u64;
            let r: Vec<i64> = tab.rows.values().filter_map(|x| x.0).collect();
            for i in 0..r.len() { for j in 0..i { d |= (r[i] == r[j]) as u64; } }
            tab.uniq && ax::decide(d != 0)
        };
        match self {
            Ins(t, r) => {
                let mut n = v.get(t).ok_or(())?.clone();
                for (i, a, l) in r { if n.notnull && a.is_none() { return Err(()); } if n.rows.insert(*i, (*a, *l)).is_some() { return Err(()); } }
                if dup(&n) { return Err(()); }
                for (i, a, l) in r { log.push(Delta::Put(t, *i, (*a, *l))); }
                v.insert(t, n);
                Ok(Some(r.len() as u64))
            }
            Del(t, w) => {
                let n = v.get_mut(t).ok_or(())?;
                let h = hit(n, w);
                for i in &h { n.rows.remove(i); log.push(Delta::Rm(t, *i)); }
                Ok(Some(h.len() as u64))
            }
            Set(t, w, _) | Len(t, w, _) | Add(t, w, _) => {
                let mut n = v.get(t).ok_or(())?.clone();
                let h = hit(&n, w);
                for i in &h {
                    let x = n.rows[i];
                    let y = match self { Set(_, _, v) => (*v, x.1), Add(_, _, d) => (x.0.map(|q| q + d), x.1), Len(_, _, l) => (x.0, *l), _ => unreachable!() };
                    if n.notnull && y.0.is_none() { return Err(()); }
                    n.rows.insert(*i, y);
                }
                if !h.is_empty() && dup(&n) { return Err(()); }
                for i in &h { log.push(Delta::Put(t, *i, n.rows[i])); }
                v.insert(t, n);
                Ok(Some(h.len() as u64))
            }
            Create(t) | CreateU(t) | CreateNN(t) => {
                if v.contains_key(t) { return Err(()); }
                let (u, nn) = (matches!(self, CreateU(_)), matches!(self, CreateNN(_)));
                v.insert(t, Tab { rows: BTreeMap::new(), uniq: u, notnull: nn });
                log.push(Delta::Tab(t, u, nn));
                Ok(None)
            }
            Drop(t) => { v.remove(t).ok_or(())?; log.push(Delta::NoTab(t)); Ok(None) }
            Index(_, t) => {
                let mut n = v.get(t).ok_or(())?.clone();
                n.uniq = true;
                if dup(&n) { return Err(()); }
                v.insert(t, n);
                log.push(Delta::Uniq(t));
                Ok(None)
            }
            Bad(_) => Err(()),
        }
    }
}
fn touched(log: &[Delta]) -> Touch { log.iter().map(|d| match d { Delta::Put(t, i, _) | Delta::Rm(t, i) => (*t, *i), Delta::Tab(t, ..) | Delta::NoTab(t) | Delta::Uniq(t) => (*t, -1) }).collect() }
impl Model {
    /// writes that other transactions made and a transaction that began at `start` cannot see
    fn unseen(&self, me: Option<usize>, start: usize) -> Touch {
        let mut v: Touch = self.commits[start.min(self.commits.len())..].iter().flatten().cloned().collect();
        for (k, t) in self.tx.iter().enumerate() { if Some(k) != me { if let Some(t) = t { v.extend(t.touch.iter().cloned()); } } }
        v
    }
    fn clash(&self, mine: &Touch, other: &Touch) -> bool {
        mine.iter().any(|(t, i)| other.iter().any(|(u, j)| t == u && (i == j || *i == -1 || *j == -1 || self.uniq(t))))
    }
    fn uniq(&self, t: &str) -> bool { self.tabs.get(t).is_some_and(|t| t.uniq) || self.tx.iter().flatten().any(|x| x.view.get(t).is_some_and(|t| t.uniq)) }
    /// a statement that has just been modelled may be refused because of concurrent work
    fn may_fail(&self, s: &St) -> bool {
        match s {
            St::A(_) | St::Batch(_) => self.clash(&self.last, &self.unseen(None, usize::MAX)),
            St::S(k, _) => { let Some(t) = &self.tx[*k] else { return false }; self.clash(&self.last, &self.unseen(Some(*k), t.start)) }
            _ => false,
        }
    }
    /// two transactions that wrote the same row: the later commit must fail
    fn must_fail(&self, k: usize) -> bool {
        let Some(t) = &self.tx[k] else { return false };
        let later: Touch = self.commits[t.start..].iter().flatten().cloned().collect();
        t.touch.iter().any(|x| later.contains(x))
    }
    fn apply(&mut self, log: Vec<Delta>) {
        for d in log {
            match d {
                Delta::Put(t, i, v) => { if let Some(x) = self.tabs.get_mut(t) { x.rows.insert(i, v); } }
                Delta::Rm(t, i) => { if let Some(x) = self.tabs.get_mut(t) { x.rows.remove(&i); } }
                Delta::Tab(t, u, nn) => { self.tabs.insert(t, Tab { rows: BTreeMap::new(), uniq: u, notnull: nn }); }
                Delta::NoTab(t) => { self.tabs.remove(t); }
                Delta::Uniq(t) => { if let Some(x) = self.tabs.get_mut(t) { x.uniq = true; } }
            }
        }
    }
    /// the effect of a step; what the engine must answer: None = failure
    pub fn step(&mut self, s: &St) -> Option<Option<u64>> {
        match s {
            St::A(op) => {
                let (mut v, mut log) = (self.tabs.clone(), vec![]);
                let r = op.model(&mut v, &mut log);
                self.last = op.aims(&self.tabs, &log);
                match r { Ok(n) => { if !log.is_empty() { self.commits.push(touched(&log)); } self.apply(log); Some(n) } Err(()) => None }
            }
            St::Batch(ops) => {
                let (mut v, mut log) = (self.tabs.clone(), vec![]);
                for op in ops { op.model(&mut v, &mut log).ok()?; }
                self.last = touched(&log);
                self.commits.push(touched(&log));
                self.apply(log);
                Some(None)
            }
            St::B(k) => { self.tx[*k] = Some(Tx { view: self.tabs.clone(), log: vec![], start: self.commits.len(), touch: vec![] }); Some(None) }
            St::S(k, op) => {
                let tx = self.tx[*k].as_mut()?;
                let (mut v, mut log) = (tx.view.clone(), vec![]);
                let r = op.model(&mut v, &mut log);
                self.last = op.aims(&tx.view, &log);
                match r { Ok(n) => { tx.view = v; tx.touch.extend(touched(&log)); tx.log.extend(log); Some(n) } Err(()) => None }
            }
            St::C(k) => { let tx = self.tx[*k].take()?; if !tx.touch.is_empty() { self.commits.push(tx.touch); } self.apply(tx.log); Some(None) }
            // VACUUM rolls back whatever is still open
            St::Vac => { self.tx = Default::default(); Some(None) }
            St::R(k) | St::D(k) => { self.tx[*k] = None; Some(None) }
            St::Reopen => { self.tx = Default::default(); Some(None) }
            _ => Some(None),
        }
    }
}
/// all rows of `t`, as (id, a, length of s), agree with the reference
pub fn eq_tab(rows: &[Row], t: &Tab) -> u64 {
    if rows.len() != t.rows.len() { return 0; }
    let mut ok = 1u64;
    let mut seen = vec![];
    for r in rows {
        let (id, a, s) = match &r[..] { [V::I(i), a, V::S(s)] => (ax::conc_i(*i), a, s), _ => return 0 };
        if seen.contains(&id) { return 0; }
        seen.push(id);
        let Some((ma, l)) = t.rows.get(&id) else { return 0 };
        if s.len() != *l || !s.iter().all(|c| *c == b'x') { return 0; }
        ok &= match (a, ma) { (V::N, None) => 1, (V::I(x), Some(y)) => (x == y) as u64, _ => 0 };
    }
    ok
}
pub const NAMES: [&str; 3] = ["t", "u", "w"];
/// visible contents of every table name: None = no such table
pub fn snapshot(ex: &mut dyn FnMut(&str) -> Result<Vec<Row>, String>) -> Vec<Option<Vec<Row>>> {
    NAMES.iter().map(|n| ex(&format!("SELECT id, a, s FROM {n}")).ok()).collect()
}
pub fn eq_snap(got: &[Option<Vec<Row>>], want: &Tabs) -> u64 {
    let mut ok = 1u64;
    for (n, g) in NAMES.iter().zip(got) {
        ok &= match (g, want.get(n)) { (None, None) => 1, (Some(r), Some(t)) => eq_tab(r, t), _ => 0 };
    }
    ok
}
fn before_may(before: &Model, after: &Model, s: &St) -> bool { let mut b = before.clone(); b.last = after.last.clone(); b.may_fail(s) }
pub struct World { pub db: Option<Db>, pub ses: [Option<Ses>; 3], pub m: Model, pub tag: String, pub lax: bool }
impl World {
    pub fn new(tag: &str) -> World { World::with(tag, cfg()) }
    pub fn with(tag: &str, c: axmosdb::DBConfig) -> World { World { db: Some(Db::create_with(c)), ses: Default::default(), m: Model::default(), tag: tag.into(), lax: false } }
    pub fn d(&self) -> &Db { self.db.as_ref().unwrap() }
    fn id(&self, s: &str) -> String { format!("{}-{s}", self.tag) }
    pub fn run(&mut self, steps: &[St]) { for s in steps { self.step(s); } }
    pub fn step(&mut self, s: &St) {
        let before = self.m.clone();
        let must = if let St::C(k) = s { self.m.must_fail(*k) } else { false };
        let want = self.m.step(s);
        let may = before_may(&before, &self.m, s);
        let got: Result<Option<u64>, String> = self.engine(s);
        match (&want, &got) {
            (Some(_), Ok(_)) if must => ax::fail(&self.id("both-committed")),
            (Some(_), Err(_)) if must => { self.m = before; if let St::C(k) = s { self.m.tx[*k] = None; } }
            (Some(w), Ok(g)) => { if w.is_some() && w != g { ax::fail(&self.id("count")); } }
            (None, Err(_)) => {}
            (Some(_), Err(_)) if may => { ax::reach("conflict"); self.m = before; }
            (Some(_), Err(e)) => { ax::note(e); ax::fail(&self.id("unexpected-error")) }
            (None, Ok(_)) if matches!(s, St::R(_) | St::D(_)) => {}
            (None, Ok(_)) => ax::fail(&self.id("unexpected-success")),
        }
    }
    /// runs the step on the engine alone
    pub fn engine(&mut self, s: &St) -> Result<Option<u64>, String> {
        let n = |o: Out| match o { Out::Count(n) => Some(n), _ => None };
        match s {
            St::A(op) => self.d().ex(&op.sql()).map(n),
            St::Batch(ops) => { let v: Vec<String> = ops.iter().map(|o| o.sql()).collect(); let w: Vec<&str> = v.iter().map(|s| s.as_str()).collect(); self.d().batch(&w).map(|_| None) }
            St::B(k) => self.d().session().map(|s| { self.ses[*k] = Some(s); None }),
            St::S(k, op) => match self.ses[*k].as_mut() { Some(s) => s.ex(&op.sql()).map(n), None => Err("no session".into()) },
            St::C(k) => match self.ses[*k].take() { Some(s) => s.commit().map(|_| None), None => Err("no session".into()) },
            St::R(k) => match self.ses[*k].take() { Some(s) => s.abort().map(|_| None), None => Ok(None) },
            St::D(k) => { drop(self.ses[*k].take()); Ok(None) }
            St::Flush => self.d().flush().map(|_| None),
            St::Vac => self.d().vacuum().map(|_| None),
            St::Ana => self.d().analyze().map(|_| None),
            St::Reopen => {
                self.ses = Default::default();
                drop(self.db.take());
                self.db = Some(Db::open()?);
                Ok(None)
            }
            St::Read => {
                let db = self.db.as_ref().unwrap();
                let g = snapshot(&mut |q| db.rows(q));
                ax::check_u(eq_snap(&g, &self.m.tabs), &self.id("read"));
                Ok(None)
            }
            St::SRead(k) => {
                let ses = self.ses[*k].as_mut().unwrap();
                // only existing tables: a failing statement ends the transaction
                let Some(tx) = self.m.tx[*k].as_ref() else { return Ok(None) };
                let want = &tx.view;
                let mut ok = 1u64;
                for (t, tab) in want { match ses.rows(&format!("SELECT id, a, s FROM {t}")) { Ok(r) => ok &= eq_tab(&r, tab), Err(_) => ok = 0 } }
                ax::check_u(ok, &format!("{}-session-read", self.tag));
                Ok(None)
            }
        }
    }
    pub fn read(&mut self) { self.step(&St::Read); }
}
