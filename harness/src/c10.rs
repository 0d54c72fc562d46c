//! C10: a tree is an ordered map; C11: every page of its file has one owner.
use crate::ax;
use axmosdb::DBConfig;
use axmosdb::types::{Blob, DataType, DataTypeKind, Int64, UInt64};
use axmosdb::verif::view::{self, Tree};
pub const TABLE: &[(&str, fn(&[String]))] = &[("c10_one", one), ("c10_any", any), ("c10_sweep", sweep), ("c10_grow", grow)];

#[derive(Clone)]
pub enum K { U(u64), I(i64), T(Vec<u8>), C(i64, Vec<u8>) }
fn lt_b(a: &[u8], b: &[u8]) -> bool {
    for i in 0..a.len().min(b.len()) {
        if ax::decide(a[i] != b[i]) { return ax::decide(a[i] < b[i]); }
    }
    a.len() < b.len()
}
impl K {
    fn eq(&self, o: &K) -> bool {
        match (self, o) {
            (K::U(a), K::U(b)) => ax::decide(a == b),
            (K::I(a), K::I(b)) => ax::decide(a == b),
            (K::T(a), K::T(b)) => a.len() == b.len() && !lt_b(a, b) && !lt_b(b, a),
            (K::C(a, x), K::C(b, y)) => ax::decide(a == b) && x.len() == y.len() && !lt_b(x, y) && !lt_b(y, x),
            _ => false,
        }
    }
    fn lt(&self, o: &K) -> bool {
        match (self, o) {
            (K::U(a), K::U(b)) => ax::decide(a < b),
            (K::I(a), K::I(b)) => ax::decide(a < b),
            (K::T(a), K::T(b)) => lt_b(a, b),
            (K::C(a, x), K::C(b, y)) => if ax::decide(a == b) { lt_b(x, y) } else { ax::decide(a < b) },
            _ => false,
        }
    }
    fn row(&self) -> Vec<DataType> {
        match self {
            K::U(a) => vec![DataType::BigUInt(UInt64(*a))],
            K::I(a) => vec![DataType::BigInt(Int64(*a))],
            K::T(a) => vec![blob(a)],
            K::C(a, b) => vec![DataType::BigInt(Int64(*a)), blob(b)],
        }
    }
}
fn blob(b: &[u8]) -> DataType { DataType::Blob(Blob::from_unencoded_slice(b)) }
fn cols(kind: usize) -> (Vec<DataTypeKind>, usize) {
    use DataTypeKind::*;
    match kind { 0 => (vec![BigUInt, Blob], 1), 1 => (vec![BigInt, Blob], 1), 2 => (vec![Blob, Blob], 1), _ => (vec![BigInt, Blob, Blob], 2) }
}
/// the i-th of a row of keys with gaps between them, texts of `tlen` bytes
fn key(kind: usize, i: u64, tlen: usize) -> K {
    let text = |i: u64| { let mut v = vec![b'a'; tlen.max(3)]; let n = v.len(); v[n - 2] = 40 + (i / 50) as u8 * 4; v[n - 1] = 20 + (i % 50) as u8 * 4; v };
    match kind {
        0 => K::U(0x7fff_ffff_ffff_fff0u64.wrapping_add(i * 10)),
        1 => K::I(i as i64 * 10 - 60),
        2 => K::T(text(i)),
        _ => K::C(i as i64 / 3 - 2, text(i % 3)),
    }
}
/// any key at all (texts: of that length)
fn sym(kind: usize, name: &str, tlen: usize, narrow: bool) -> K {
    let text = || { let t = tlen.max(3); let mut v = vec![b'a'; t]; let s = ax::bytes(&format!("{name}s"), 2); v[t - 2] = s[0]; v[t - 1] = s[1]; v };
    match kind {
        0 => K::U(if narrow { ax::int(name, 0, 1000) as u64 } else { ax::bits64(name) }),
        1 => K::I(if narrow { ax::int(name, -500, 500) } else { ax::bits64(name) as i64 }),
        2 => K::T(text()),
        _ => K::C(ax::bits64(name) as i64, text()),
    }
}
fn payload(tag: usize, len: usize) -> Vec<u8> { (0..len).map(|i| (i * 7 + tag * 31 + i / 256) as u8).collect() }

pub struct T { t: Tree, kind: usize, tlen: usize, m: Vec<(K, usize, usize)>, tag: usize, gone: Vec<K>, audit: bool }
fn must(r: Result<(), String>, id: &str) -> bool { match r { Ok(()) => true, Err(e) => { ax::note(&e); ax::fail(id); false } } }
impl T {
    fn new(kind: usize, tlen: usize, page: usize, min_keys: usize, sib: usize, cache: usize, audit: bool) -> Option<T> {
        let (c, k) = cols(kind);
        let cfg = DBConfig::new(page, cache, 1, min_keys, sib);
        let p = if ax::is_symbolic() { "/ax/t.db" } else { "t.db" };
        match Tree::create(p, cfg, &c, k) {
            Ok(t) => Some(T { t, kind, tlen, m: vec![], tag: 0, gone: vec![], audit }),
            Err(e) => { ax::note(&e); ax::fail("tree-create"); None }
        }
    }
    fn row(&mut self, k: &K, len: usize) -> Vec<DataType> { self.tag += 1; let mut r = k.row(); r.push(blob(&payload(self.tag, len))); r }
    /// place of the key: found there, or to go there
    fn find(&self, k: &K) -> Result<usize, usize> {
        let (mut a, mut b) = (0, self.m.len());
        while a < b {
            let c = (a + b) / 2;
            if self.m[c].0.eq(k) { return Ok(c) }
            if self.m[c].0.lt(k) { a = c + 1 } else { b = c }
        }
        Err(a)
    }
    fn put(&mut self, op: usize, k: &K, len: usize) -> bool {
        let at = self.find(k);
        let row = self.row(k, len);
        match (op, at) {
            (0, Err(i)) => { if !must(self.t.insert(&row), "tree-insert") { return false } self.m.insert(i, (k.clone(), self.tag, len)); }
            (0, Ok(_)) => if self.t.insert(&row).is_ok() { ax::fail("tree-insert-duplicate"); return false },
            (1, Err(i)) => { if !must(self.t.upsert(&row), "tree-upsert") { return false } self.m.insert(i, (k.clone(), self.tag, len)); }
            (1, Ok(i)) => { if !must(self.t.upsert(&row), "tree-upsert") { return false } self.m[i] = (k.clone(), self.tag, len); ax::reach("replaced"); }
            (2, Ok(i)) => { if !must(self.t.update(&row), "tree-update") { return false } self.m[i] = (k.clone(), self.tag, len); }
            (2, Err(_)) => if self.t.update(&row).is_ok() { ax::fail("tree-update-absent"); return false },
            (_, Ok(i)) => { if !must(self.t.remove(&row), "tree-remove") { return false } let (k, ..) = self.m.remove(i); self.gone.push(k); ax::reach("removed"); }
            (_, Err(_)) => if self.t.remove(&row).is_ok() { ax::fail("tree-remove-absent"); return false },
        }
        true
    }
    fn same(got: &[DataType], k: &K, tag: usize, len: usize) -> u64 {
        let kr = k.row();
        if got.len() != kr.len() + 1 { return 0; }
        let mut ok = 1u64;
        for (a, b) in got.iter().zip(&kr) {
            ok &= match (a, b) {
                (DataType::BigUInt(a), DataType::BigUInt(b)) => (a.0 == b.0) as u64,
                (DataType::BigInt(a), DataType::BigInt(b)) => (a.0 == b.0) as u64,
                (DataType::Blob(a), DataType::Blob(b)) => bytes_eq(a.data().unwrap_or(&[]), b.data().unwrap_or(&[])),
                _ => 0,
            };
        }
        match &got[kr.len()] { DataType::Blob(b) => ok & (b.data().unwrap_or(&[]) == payload(tag, len)) as u64, _ => 0 }
    }
    /// everything that can be seen from outside
    fn check(&mut self) {
        if self.audit { return self.structure() }
        for back in [false, true] {
            match self.t.scan(back) {
                Err(e) => { ax::note(&e); return ax::fail("tree-scan-error") }
                Ok(mut rows) => {
                    if back { rows.reverse(); }
                    if rows.len() != self.m.len() { return ax::fail("tree-scan-count") }
                    let mut ok = 1;
                    for (r, (k, t, l)) in rows.iter().zip(&self.m) { ok &= Self::same(r, k, *t, *l); }
                    ax::check_u(ok, "tree-scan");
                }
            }
        }
        let mut ok = 1;
        for i in 0..self.m.len() {
            let (k, t, l) = self.m[i].clone();
            let mut probe = k.row();
            probe.push(blob(b""));
            match self.t.get(&probe) {
                Ok(Some(r)) => ok &= Self::same(&r, &k, t, l),
                Ok(None) => { return ax::fail("tree-lookup-missing") }
                Err(e) => { ax::note(&e); return ax::fail("tree-lookup-error") }
            }
        }
        ax::check_u(ok, "tree-lookup");
        for k in self.gone.clone() {
            if self.find(&k).is_ok() { continue }
            let mut probe = k.row();
            probe.push(blob(b""));
            match self.t.get(&probe) { Ok(None) => {}, Ok(Some(_)) => return ax::fail("tree-lookup-removed"), Err(e) => { ax::note(&e); return ax::fail("tree-lookup-error") } }
        }
        self.structure();
    }
    /// separators, depth, sibling links; owners of pages
    fn structure(&mut self) {
        let h = view::head(&self.t.pager);
        let n = h.total_pages as usize;
        let mut own = vec![0u8; n.max(1)];
        let mut levels: Vec<Vec<u64>> = vec![];
        let mut leaf_depth = None;
        let mut prev_key: Option<DataType> = None;
        let keyed = !(self.kind == 2 || self.kind == 3) || self.tlen < 40;
        let mut st = Walk { read: &|p| view::node(&self.t.pager, p), link: &|p| view::link(&self.t.pager, p), key: &|b| self.t.key(b), own: &mut own, levels: &mut levels, leaf_depth: &mut leaf_depth, last: &mut prev_key, keyed, strict: self.kind != 3, bad: None, cells: 0 };
        st.node(self.t.root, 0);
        let (bad, cells) = (st.bad, st.cells);
        if let Some(id) = bad {
            if self.audit == id.starts_with("page-") { ax::fail(id) }
            return;
        }
        if !self.audit {
            ax::check(cells == self.m.len(), "tree-structure-count");
            for l in &levels {
                for (i, p) in l.iter().enumerate() {
                    let Ok(nd) = view::node(&self.t.pager, *p) else { return ax::fail("tree-node-unreadable") };
                    let prev = if i > 0 { Some(l[i - 1]) } else { None };
                    if nd.prev != prev || nd.next != l.get(i + 1).copied() { return ax::fail("tree-sibling-links") }
                }
            }
            ax::check(true, "tree-structure");
            if levels.len() > 2 { ax::reach("three-levels"); }
            return;
        }
        pages(view::head(&self.t.pager), &|p| view::link(&self.t.pager, p), &mut own);
    }
}
/// the free list, and every page having exactly one owner given the owners outside it
pub fn pages(h: view::Head, link: &dyn Fn(u64) -> Result<(u64, Option<u64>), String>, own: &mut Vec<u8>) {
    let mut at = h.first_free;
    let mut last = None;
    let mut steps = 0;
    while let Some(p) = at {
        if p == 0 || p as usize >= own.len() { return ax::fail("page-free-list-range") }
        own[p as usize] += 1;
        steps += 1;
        if steps > own.len() { return ax::fail("page-free-list-cycle") }
        match link(p) { Ok((n, next)) => { if n != p { return ax::fail("page-number") } last = Some(p); at = next; } Err(e) => { ax::note(&e); return ax::fail("page-free-list-unreadable") } }
    }
    if last != h.last_free { return ax::fail("page-free-list-tail") }
    if steps > 0 { ax::reach("free-pages"); }
    for p in 1..own.len() {
        if own[p] == 0 { return ax::fail("page-lost") }
        if own[p] > 1 { return ax::fail("page-shared") }
    }
    ax::check(true, "page-owners");
}
pub struct Walk<'a> { pub read: &'a dyn Fn(u64) -> Result<view::Node, String>, pub link: &'a dyn Fn(u64) -> Result<(u64, Option<u64>), String>, pub key: &'a dyn Fn(&[u8]) -> Result<DataType, String>, pub own: &'a mut Vec<u8>, pub levels: &'a mut Vec<Vec<u64>>, pub leaf_depth: &'a mut Option<usize>, pub last: &'a mut Option<DataType>, pub keyed: bool, pub strict: bool, pub bad: Option<&'static str>, pub cells: usize }
fn key_le(a: &DataType, b: &DataType, strict: bool) -> bool {
    match (a, b) {
        (DataType::BigUInt(a), DataType::BigUInt(b)) => if strict { a.0 < b.0 } else { a.0 <= b.0 },
        (DataType::BigInt(a), DataType::BigInt(b)) => if strict { a.0 < b.0 } else { a.0 <= b.0 },
        (DataType::Blob(a), DataType::Blob(b)) => { let (a, b) = (a.data().unwrap_or(&[]), b.data().unwrap_or(&[])); if strict { lt_b(a, b) } else { !lt_b(b, a) } }
        _ => false,
    }
}
impl Walk<'_> {
    fn fail(&mut self, id: &'static str) { if self.bad.is_none() { self.bad = Some(id) } }
    fn page(&mut self, p: u64) -> bool {
        if p == 0 || p as usize >= self.own.len() { self.fail("page-range"); return false }
        self.own[p as usize] += 1;
        if self.own[p as usize] > 1 { self.fail("page-shared"); return false }
        true
    }
    fn seen(&mut self, bytes: &[u8], sep: bool) {
        if !self.keyed { return }
        let Ok(k) = (self.key)(bytes) else { return };
        if let Some(l) = self.last.take() {
            let strict = !sep && self.strict;
            if !ax::decide(key_le(&l, &k, strict)) {
                // the leaf key that follows its own separator is allowed to equal it
                self.fail("tree-key-order");
            }
        }
        *self.last = Some(k);
    }
    pub fn node(&mut self, p: u64, depth: usize) {
        if self.bad.is_some() || !self.page(p) { return }
        let Ok(n) = (self.read)(p) else { return self.fail("tree-node-unreadable") };
        if n.page != p { return self.fail("page-number") }
        while self.levels.len() <= depth { self.levels.push(vec![]) }
        self.levels[depth].push(p);
        let leaf = n.right.is_none();
        if leaf {
            if *self.leaf_depth.get_or_insert(depth) != depth { return self.fail("tree-leaf-depth") }
        }
        if n.cells.is_empty() && depth > 0 { return self.fail("tree-empty-node") }
        for c in &n.cells {
            if let Some(l) = c.left {
                if leaf { return self.fail("tree-leaf-child") }
                self.node(l, depth + 1);
                self.seen(&c.bytes, true);
            } else {
                if !leaf { return self.fail("tree-child-missing") }
                self.cells += 1;
                let first = self.cells > 1 && std::ptr::eq(c, &n.cells[0]);
                // the first key of a leaf may equal the separator before it
                self.seen(&c.bytes, first);
            }
            let mut o = c.overflow;
            while let Some(x) = o {
                if self.bad.is_some() || !self.page(x) { return }
                match (self.link)(x) { Ok((num, next)) => { if num != x { return self.fail("page-number") } o = next; } Err(_) => return self.fail("page-chain-unreadable") }
            }
        }
        if let Some(r) = n.right { self.node(r, depth + 1); }
    }
}
fn bytes_eq(a: &[u8], b: &[u8]) -> u64 {
    if a.len() != b.len() { return 0; }
    let mut r = 0u8;
    for i in 0..a.len() { r |= a[i] ^ b[i]; }
    (r == 0) as u64
}
const SIZES: [usize; 7] = [4, 300, 900, 1300, 2900, 5000, 13000];
/// sizes of the rows loaded first
fn shape(s: usize, i: usize) -> usize {
    match s {
        0 => 20,
        1 => 900,
        2 => [20, 1300, 300][i % 3],
        3 => if i % 4 == 3 { 5000 } else { 60 },
        4 => 1000 + (i * 37) % 300,
        5 => 9000,
        6 => if i < 9 { 1200 } else { 10 },
        _ => [1300, 3, 2900, 700, 4100][i % 5],
    }
}
fn order(o: usize, n: usize) -> Vec<usize> {
    match o {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).map(|i| (i * 7 + 3) % n).collect::<Vec<_>>(),
        _ => { let mut v = vec![]; for i in 0..n.div_ceil(2) { v.push(n - 1 - i); if i != n - 1 - i { v.push(i); } } v }
    }
}
fn perm(o: usize, n: usize) -> Vec<usize> {
    let v = order(o, n);
    let mut s = v.clone();
    s.sort_unstable();
    s.dedup();
    if s.len() == n { v } else { order(3, n) }
}
fn args(a: &[String]) -> (bool, Vec<usize>) { (a.iter().any(|x| x == "pages"), a.iter().filter_map(|x| x.parse().ok()).collect()) }
/// loaded trees, then operations with any key at all
fn one(a: &[String]) {
    let (audit, a) = args(a);
    let (kinds, count, depth) = (a[0], a[1], a[2]);
    let kind = if kinds < 4 { kinds } else { ax::choose("kind", 4) };
    let s = ax::choose("shape", 8);
    let tlen = if kind >= 2 { [3, 700, 3, 5000][(s + kind) % 4] } else { 0 };
    let (mk, sib) = [(3, 2), (2, 1), (4, 3), (3, 1)][s % 4];
    let Some(mut t) = T::new(kind, tlen, 4096, mk, sib, 64, audit) else { return };
    for i in perm(s % 4, count) { let k = key(kind, i as u64, tlen); if !t.put(0, &k, shape(s, i)) { return } }
    t.check();
    for d in 0..depth {
        let op = ax::choose(&format!("op{d}"), 4);
        let len = if op == 3 { 0 } else { SIZES[ax::choose(&format!("len{d}"), 7)] };
        let k = sym(kind, &format!("k{d}"), tlen, false);
        if !t.put(op, &k, len) { return }
    }
    t.check();
}
/// keys in any order, nothing there before
fn any(a: &[String]) {
    let (audit, a) = args(a);
    let (kinds, n) = (a[0], a[1]);
    let kind = if kinds < 4 { kinds } else { ax::choose("kind", 4) };
    let s = ax::choose("sizes", 5);
    let Some(mut t) = T::new(kind, 3, 4096, 3, 1 + s % 2, 64, audit) else { return };
    let mut ks = vec![];
    for i in 0..n {
        // short texts of any length, larger ones with shared beginnings in the others
        let k = if kind == 2 && n < 5 { let l = ax::choose(&format!("l{i}"), 3); K::T(ax::bytes(&format!("k{i}"), l)) } else { sym(kind, &format!("k{i}"), 3, n > 4) };
        let len = match s { 0 => 900, 1 => 1300, 2 => [2900, 20][i % 2], 3 => 6000, _ => [1000, 1300, 700, 20, 1300][i % 5] };
        if !t.put(1, &k, len) { return }
        ks.push(k);
    }
    t.check();
    let r = ax::choose("then", 3);
    if r == 0 { return }
    // all of them away, and back
    for k in &ks { if !t.put(3, k, 0) { return } if r == 2 { t.check() } }
    t.check();
    for (i, k) in ks.iter().enumerate() { if !t.put(0, k, [40, 1300][i % 2]) { return } }
    t.check();
}
/// larger trees emptied and filled again in all orders, keys relative to one unknown
fn sweep(a: &[String]) {
    let (audit, a) = args(a);
    let n = a[0];
    let kind = ax::choose("kind", 4);
    let s = ax::choose("shape", 8);
    let sib = 1 + ax::choose("sib", 3);
    let mk = 2 + (s + sib) % 3;
    let tlen = if kind >= 2 { [3, 900][s % 2] } else { 0 };
    let page = if s == 1 { 8192 } else { 4096 };
    let Some(mut t) = T::new(kind, tlen, page, mk, sib, 64, audit) else { return };
    let base = ax::int("base", 0, 200);
    let at = |i: usize| -> K { match key(kind, i as u64, tlen) { K::I(x) => K::I(x + base), K::U(x) => K::U(x + base as u64), K::C(x, y) => K::C(x + base, y), k => k } };
    for i in perm(ax::choose("in", 4), n) { let k = at(i); if !t.put(0, &k, shape(s, i)) { return } }
    t.check();
    // every third row gets another size
    let grow = ax::choose("change", 3);
    for i in (0..n).step_by(3) { let k = at(i); if !t.put(1, &k, [3, 1300, 7000][grow]) { return } }
    t.check();
    let out = perm(ax::choose("out", 4), n);
    for (j, i) in out.into_iter().enumerate() { let k = at(i); if !t.put(3, &k, 0) { return } if j == n / 4 || j == n / 2 || j + 3 == n { t.check() } }
    t.check();
    for i in perm(2, n) { let k = at(i); if !t.put(0, &k, shape(7 - s, i)) { return } }
    t.check();
    if audit {
        if !must(t.t.dealloc(), "tree-dealloc") { return }
        let mut own = vec![0u8; view::head(&t.t.pager).total_pages as usize];
        pages(view::head(&t.t.pager), &|p| view::link(&t.t.pager, p), &mut own);
    }
}
/// freed pages are taken before the file grows
fn grow(a: &[String]) {
    let (_, a) = args(a);
    let n = a[0];
    let s = ax::choose("shape", 8);
    let o = ax::choose("out", 4);
    let base = ax::bits64("base") as i64;
    ax::assume((-1000..1000).contains(&base));
    let Some(mut t) = T::new(1, 0, 4096, 3, 2, 64, true) else { return };
    let fill = |t: &mut T| -> bool { for i in 0..n { let k = K::I(base + i as i64); if !t.put(0, &k, shape(s, i)) { return false } } true };
    if !fill(&mut t) { return }
    let mut most = view::head(&t.t.pager).total_pages;
    for r in 0..3 {
        for i in perm(o, n) { let k = K::I(base + i as i64); if !t.put(3, &k, 0) { return } }
        t.check();
        // emptied: one page is left, the rest is free
        let h = view::head(&t.t.pager);
        if r == 0 { most = h.total_pages; }
        if !fill(&mut t) { return }
        ax::check(view::head(&t.t.pager).total_pages <= most, "page-file-grows");
    }
    t.check();
}
