//! C19: equality, hashing, order, conversion and storage of values, over all bit patterns.
use crate::ax;
use crate::db::*;
use axmosdb::types::{bool::Bool, Blob, DataType, DataTypeKind, DataTypeRef, Float32, Float64, Int32, Int64, UInt32, UInt64};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

const KINDS: [DataTypeKind; 8] = [DataTypeKind::Int, DataTypeKind::BigInt, DataTypeKind::UInt, DataTypeKind::BigUInt, DataTypeKind::Float, DataTypeKind::Double, DataTypeKind::Bool, DataTypeKind::Blob];

/// What a value is, kept apart from the engine's own types.
#[derive(Clone)]
pub enum M { Null, Int(i128), Flt(u64), Bool(bool), Text(Vec<u8>) }

/// a value of this type with every bit pattern, texts of 0, 1, 3 or 70 bytes
pub fn sym_of(name: &str, k: DataTypeKind) -> (DataType, M) {
    if k != DataTypeKind::Blob { return sym(name, Some(k), 0, false); }
    let n = [0, 1, 3, 70][ax::choose(&format!("{name}len"), 4)];
    let mut v = ax::bytes(name, n.min(3));
    v.resize(n, b'z');
    (DataType::Blob(Blob::from_unencoded_slice(&v)), M::Text(v))
}
pub fn unchanged_of(d: &DataType, m: &M) -> bool { unchanged(d, m) }
fn text(name: &str, max: usize, long: bool) -> Vec<u8> {
    let shapes = max + 1 + if long { 5 } else { 0 };
    let k = ax::choose(&format!("{name}len"), shapes as u64);
    let n = if k <= max { k } else { [63, 64, 127, 8191, 8192][k - max - 1] };
    if n <= max { return ax::bytes(&format!("{name}b"), n); }
    let mut v = vec![b'a'; n];
    let b = ax::bytes(&format!("{name}b"), 2);
    v[0] = b[0];
    v[n - 1] = b[1];
    v
}
fn sym(name: &str, k: Option<DataTypeKind>, max: usize, long: bool) -> (DataType, M) {
    match k {
        None => (DataType::Null, M::Null),
        Some(DataTypeKind::Int) => { let v = ax::raw(name, 32) as u32 as i32; (DataType::Int(Int32(v)), M::Int(v as i128)) }
        Some(DataTypeKind::UInt) => { let v = ax::raw(name, 32) as u32; (DataType::UInt(UInt32(v)), M::Int(v as i128)) }
        Some(DataTypeKind::BigInt) => { let v = ax::raw(name, 64) as i64; (DataType::BigInt(Int64(v)), M::Int(v as i128)) }
        Some(DataTypeKind::BigUInt) => { let v = ax::raw(name, 64); (DataType::BigUInt(UInt64(v)), M::Int(v as i128)) }
        Some(DataTypeKind::Float) => { let v = ax::raw(name, 32) as u32; (DataType::Float(Float32(f32::from_bits(v))), M::Flt(widen(v))) }
        Some(DataTypeKind::Double) => { let v = ax::raw(name, 64); (DataType::Double(Float64(f64::from_bits(v))), M::Flt(v)) }
        Some(DataTypeKind::Bool) => { let v = ax::raw(name, 1) == 1; (DataType::Bool(Bool(v)), M::Bool(v)) }
        _ => { let v = text(name, max, long); (DataType::Blob(Blob::from_unencoded_slice(&v)), M::Text(v)) }
    }
}
/// bits of the double with the value of the float with these bits
fn widen(b: u32) -> u64 {
    let s = ((b >> 31) as u64) << 63;
    let e = (b >> 23 & 255) as u64;
    let m = (b & 0x7f_ffff) as u64;
    if e == 255 { return s | 0x7ff << 52 | m << 29; }
    if e != 0 { return s | (e + 1023 - 127) << 52 | m << 29; }
    if m == 0 { return s; }
    // subnormal: normalise by the position of the highest set bit
    let z = (m as u32).leading_zeros() as u64; // 9..=31
    let sh = z - 8;
    s | (1023 - 126 - sh) << 52 | ((m << sh) & 0x7f_ffff) << 29
}
/// doubles as integers in their numeric order; every NaN is one value above all others
fn fkey(b: u64) -> i64 {
    if is_nan(b) { return i64::MAX; }
    let mag = (b & !(1 << 63)) as i64;
    if b >> 63 == 1 { -mag } else { mag }
}
fn is_nan(b: u64) -> bool { b << 1 > 0x7ffu64 << 53 }
/// the integer against the double, by mathematical value
fn int_flt(i: i128, b: u64) -> Ordering {
    if is_nan(b) { return Ordering::Less; }
    let neg = b >> 63 == 1;
    let e = (b >> 52 & 0x7ff) as i64;
    let frac = b & ((1 << 52) - 1);
    let m = (if e == 0 { frac } else { frac | 1 << 52 }) as i128;
    let x = (if e == 0 { 1 } else { e }) - 1075; // value = m * 2^x
    // the largest integer not above the magnitude, and whether something is left over
    let (whole, rest) = if x >= 66 { (1i128 << 118, false) } else if x >= 0 { (m << x, false) } else if x <= -64 { (0, m != 0) } else { (m >> -x, m & ((1i128 << -x) - 1) != 0) };
    if !neg { return i.cmp(&whole).then(if rest { Ordering::Less } else { Ordering::Equal }); }
    i.cmp(&-whole).then(if rest { Ordering::Greater } else { Ordering::Equal })
}
fn model(a: &M, b: &M) -> Option<Ordering> {
    match (a, b) {
        (M::Int(x), M::Int(y)) => Some(x.cmp(y)),
        (M::Flt(x), M::Flt(y)) => Some(fkey(*x).cmp(&fkey(*y))),
        (M::Int(x), M::Flt(y)) => Some(int_flt(*x, *y)),
        (M::Flt(x), M::Int(y)) => Some(int_flt(*y, *x).reverse()),
        (M::Bool(x), M::Bool(y)) => Some((*x as u8).cmp(&(*y as u8))),
        (M::Text(x), M::Text(y)) => {
            for i in 0..x.len().min(y.len()) {
                if x[i] != y[i] { return Some(if x[i] < y[i] { Ordering::Less } else { Ordering::Greater }); }
            }
            Some(x.len().cmp(&y.len()))
        }
        _ => None,
    }
}
/// What a value feeds to a hasher.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
fn fed<T: Hash>(d: &T) -> Vec<u8> { let mut r = Rec::default(); d.hash(&mut r); r.0 }
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = 0;
    for i in 0..a.len() { r |= a[i] ^ b[i]; }
    r == 0
}
fn kind_at(i: usize) -> Option<DataTypeKind> { if i < 8 { Some(KINDS[i]) } else { None } }
/// A pair of values of any two types: equality, order and hashing against the mathematical order.
fn pair(a: &[String]) {
    let max = a.first().and_then(|x| x.parse().ok()).unwrap_or(2);
    let ka = ax::choose("ka", 9);
    let kb = ax::choose("kb", 9);
    let (x, mx) = sym("x", kind_at(ka), max, ka == kb);
    let (y, my) = sym("y", kind_at(kb), max, ka == kb);
    laws(&x, &mx, &y, &my);
}
fn laws(x: &DataType, mx: &M, y: &DataType, my: &M) {
    let want = model(mx, my);
    let same = matches!((mx, my), (M::Null, M::Null)) || want == Some(Ordering::Equal);
    let got = x.partial_cmp(y);
    ax::check(got == want, "order");
    ax::check(y.partial_cmp(x) == want.map(Ordering::reverse), "order-back");
    ax::check((x == y) == same, "equality");
    ax::check((y == x) == same, "equality-back");
    if x == y {
        ax::reach("equal");
        ax::check(same_bytes(&fed(x), &fed(y)), "hash");
    }
    // the same through borrowed values
    let (sx, sy) = (x.serialize(), y.serialize());
    if let (Ok(bx), Ok(by)) = (sx, sy) {
        let (ax_, ay_) = (aligned(&bx), aligned(&by));
        let rx = x.kind().deserialize(bytes_of(&ax_, bx.len()), 0);
        let ry = y.kind().deserialize(bytes_of(&ay_, by.len()), 0);
        let (Ok((rx, _)), Ok((ry, _))) = (rx, ry) else { ax::fail("stored-value-unreadable"); return };
        ax::check(rx.partial_cmp(&ry) == want, "ref-order");
        ax::check((rx == ry) == same, "ref-equality");
        if rx == ry {
            ax::check(same_bytes(&fed(&rx), &fed(&ry)), "ref-hash");
            ax::check(same_bytes(&fed(&rx), &fed(x)), "ref-own-hash");
        }
    }
}
/// storage aligned for any type
fn aligned(b: &[u8]) -> Vec<u64> {
    let mut v = vec![0u64; b.len().div_ceil(8) + 1];
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr() as *mut u8, b.len()) };
    v
}
fn bytes_of(v: &[u64], n: usize) -> &[u8] { unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, n) } }

fn unchanged(d: &DataType, m: &M) -> bool {
    match (d, m) {
        (DataType::Null, M::Null) => true,
        (DataType::Int(v), M::Int(i)) => v.0 as i128 == *i,
        (DataType::UInt(v), M::Int(i)) => v.0 as i128 == *i,
        (DataType::BigInt(v), M::Int(i)) => v.0 as i128 == *i,
        (DataType::BigUInt(v), M::Int(i)) => v.0 as i128 == *i,
        (DataType::Float(v), M::Flt(b)) => (is_nan(*b) && v.0 != v.0) || widen(v.0.to_bits()) == *b,
        (DataType::Double(v), M::Flt(b)) => v.0.to_bits() == *b,
        (DataType::Bool(v), M::Bool(b)) => v.0 == *b,
        (DataType::Blob(v), M::Text(t)) => v.data().map(|d| same_bytes(d, t)).unwrap_or(false),
        _ => false,
    }
}
fn bits_same(a: &DataType, b: &DataType) -> bool {
    match (a, b) {
        (DataType::Float(x), DataType::Float(y)) => x.0.to_bits() == y.0.to_bits(),
        _ => true,
    }
}
/// One value: stored and loaded at every alignment, cast to its own type, cast between integer types.
fn one(a: &[String]) {
    let max = a.first().and_then(|x| x.parse().ok()).unwrap_or(3);
    let ka = ax::choose("ka", 9);
    let (x, m) = sym("x", kind_at(ka), max, true);
    ax::check(unchanged(&x.clone(), &m), "clone");
    ax::check(x == x, "reflexive");
    if ka == 8 {
        // the hash kept in statistics, for the floats that are equal without being the same
        let f = |b: u64| DataType::Double(Float64(f64::from_bits(b)));
        let g = |b: u32| DataType::Float(Float32(f32::from_bits(b)));
        let eqs = [(f(0), f(1 << 63)), (f(0x7ff8 << 48), f(0xfff8_0000_0000_0001)), (g(0), g(1 << 31)), (g(0x7fc00000), g(0xffc00001)), (f(0x4008 << 48), DataType::Int(Int32(3))), (DataType::BigInt(Int64(5)), DataType::UInt(UInt32(5)))];
        for (a, b) in eqs { ax::check(a == b && a.hash128() == b.hash128() && a.hash64() == b.hash64(), "stable-hash"); }
    }
    let Some(k) = kind_at(ka) else {
        for k in KINDS { ax::check(matches!(x.try_cast(k), Ok(DataType::Null)), "null-cast"); }
        return;
    };
    match x.try_cast(k) { Ok(c) => ax::check(unchanged(&c, &m) && bits_same(&c, &x) && c.kind() == k, "own-cast"), Err(_) => ax::fail("own-cast-refused") }
    let Ok(s) = x.serialize() else { ax::fail("not-stored"); return };
    ax::check(s.len() == x.runtime_size(), "stored-size");
    let al = aligned(&s);
    match k.deserialize(bytes_of(&al, s.len()), 0) {
        Ok((r, n)) => { ax::check(n == s.len(), "load-cursor"); owned(r, &x, &m, "load"); }
        Err(_) => ax::fail("load-refused"),
    }
    // within a larger buffer, where a value may have to be aligned first
    let cur = ax::choose("cur", 9);
    let mut buf = vec![0xa5a5a5a5a5a5a5a5u64; (s.len() + cur).div_ceil(8) + 3];
    let cap = buf.len() * 8;
    let w = { let b = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, cap) }; x.write_to(b, cur) };
    let Ok(end) = w else { ax::fail("write-refused"); return };
    let b = bytes_of(&buf, cap);
    for i in 0..cur { ax::check(b[i] == 0xa5, "write-before"); }
    for i in end..cap { ax::check(b[i] == 0xa5, "write-after"); }
    match k.deserialize(b, cur) {
        Ok((r, n)) => { ax::check(n == end, "cursor-after-load"); owned(r, &x, &m, "load-at"); }
        Err(_) => ax::fail("load-at-refused"),
    }
    // a value cut short is refused, not invented
    if s.len() > 1 && k.is_numeric() == false {
        ax::check(k.deserialize(bytes_of(&al, s.len() - 1), 0).is_err(), "short");
    }
}
fn owned(r: DataTypeRef<'_>, x: &DataType, m: &M, id: &str) {
    match r.to_owned() { Some(o) => ax::check(unchanged(&o, m) && bits_same(&o, x), id), None => ax::fail(id) }
}
fn range(k: DataTypeKind) -> Option<(i128, i128)> {
    Some(match k {
        DataTypeKind::Int => (i32::MIN as i128, i32::MAX as i128),
        DataTypeKind::BigInt => (i64::MIN as i128, i64::MAX as i128),
        DataTypeKind::UInt => (0, u32::MAX as i128),
        DataTypeKind::BigUInt => (0, u64::MAX as i128),
        _ => return None,
    })
}
/// Casts between types: integers keep their value or are refused exactly when the type cannot hold it.
fn cast(_: &[String]) {
    let ka = ax::choose("ka", 7);
    let kb = ax::choose("kb", 7);
    let (x, m) = sym("x", kind_at(ka), 0, false);
    let t = KINDS[kb];
    let c = x.try_cast(t);
    if let Ok(c) = &c { ax::check(c.kind() == t, "cast-kind"); }
    match (&m, range(t)) {
        (M::Int(i), Some((lo, hi))) => {
            let fits = *i >= lo && *i <= hi;
            match c {
                Ok(c) => ax::check(fits && unchanged(&c, &m), "int-cast"),
                Err(_) => ax::check(!fits, "int-cast-refused"),
            }
        }
        (M::Flt(b), Some((lo, hi))) => if let Ok(c) = c {
            // the fraction is dropped, nothing else
            let v = match c { DataType::Int(v) => v.0 as i128, DataType::UInt(v) => v.0 as i128, DataType::BigInt(v) => v.0 as i128, DataType::BigUInt(v) => v.0 as i128, _ => 0 };
            ax::check(v >= lo && v <= hi, "float-cast-range");
            let _ = b;
        },
        (M::Flt(b), None) if t == DataTypeKind::Double => match c { Ok(DataType::Double(v)) => ax::check(v.0.to_bits() == *b || is_nan(*b) && v.0 != v.0, "widen"), _ => ax::fail("widen-refused") },
        _ => {}
    }
}
/// Three texts or booleans: the order is transitive, so that sorting makes sense.
fn triple(a: &[String]) {
    let max = a.first().and_then(|x| x.parse().ok()).unwrap_or(2);
    let k = ax::choose("k", 8);
    if a.len() < 2 && (k == 4 || k == 5) { return; }
    let (x, _) = sym("x", kind_at(k), max, false);
    let (y, _) = sym("y", kind_at(k), max, false);
    let (z, _) = sym("z", kind_at(k), max, false);
    let le = |a: &DataType, b: &DataType| matches!(a.partial_cmp(b), Some(Ordering::Less | Ordering::Equal));
    ax::check(le(&x, &y) || le(&y, &x), "total");
    ax::check(!(le(&x, &y) && le(&y, &z)) || le(&x, &z), "transitive");
    ax::check(!(x == y && y == z) || x == z, "equal-transitive");
}

fn letters(name: &str, max: usize) -> Vec<u8> {
    let n = ax::choose(&format!("{name}len"), max as u64 + 1);
    let b = ax::bytes(name, n);
    for c in &b { ax::assume((*c >= b'a') & (*c <= b'z')); }
    b
}
fn column(k: usize) -> &'static str { ["INT", "BIGINT", "UINT", "BIGUINT", "FLOAT", "DOUBLE", "BOOLEAN", "TEXT"][k] }
fn value(name: &str, k: usize) -> (String, M) {
    match k {
        6 => { let b = ax::flag(name); (if b { "TRUE".into() } else { "FALSE".into() }, M::Bool(b)) }
        7 => { let t = letters(name, 2); (format!("'{}'", unsafe { String::from_utf8_unchecked(t.clone()) }), M::Text(t)) }
        4 | 5 if !FULL.load(std::sync::atomic::Ordering::Relaxed) => {
            // the special values, and doubles of either sign between 1/2 and 8 with six bits of fraction
            let few = [7, 0, 2, 4, 5];
            let c = if name == "v0" { ax::choose("v0class", 8) } else { few[ax::choose(&format!("{name}class"), if name == "x" && k == 5 { 5 } else { 4 }) + if name == "x" && k == 5 { 0 } else { 1 }] };
            let f = [f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1e-40, 0.0][c];
            let f = if c == 7 && k == 5 { let r = ax::raw(name, 9); f64::from_bits((r & 1) << 63 | (1022 + (r >> 1 & 3)) << 52 | (r >> 3) << 46) } else { f };
            if k == 4 {
                let b = if c == 7 { let r = ax::raw(name, 9) as u32; (r & 1) << 31 | (126 + (r >> 1 & 3)) << 23 | (r >> 3) << 17 } else { (f as f32).to_bits() };
                (litd(DataType::Float(Float32(f32::from_bits(b)))), M::Flt(widen(b)))
            } else { (litd(DataType::Double(Float64(f))), M::Flt(f.to_bits())) }
        }
        _ => { let (d, m) = sym(name, kind_at(k), 0, false); (litd(d), m) }
    }
}
static FULL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn held(v: &V, m: &M) -> bool {
    match (v, m) {
        (V::N, M::Null) => true,
        (V::I(i), M::Int(j)) => *i as u64 == *j as u64,
        (V::F(f), M::Flt(b)) => f.to_bits() == *b || (f.is_nan() && is_nan(*b)),
        (V::B(a), M::Bool(b)) => a == b,
        (V::S(a), M::Text(b)) => same_bytes(a, b),
        _ => false,
    }
}
fn id_of(v: &V) -> Option<usize> { match v { V::I(i) => Some(ax::conc_i(*i) as usize), _ => None } }
/// ids of the rows, checking that each row comes once and carries its value
fn ids(r: &[Row], ms: &[M], id: &str) -> Option<Vec<usize>> {
    let mut out = vec![];
    for row in r {
        let Some(i) = row.first().and_then(id_of) else { ax::fail(id); return None };
        if i >= ms.len() || out.contains(&i) { ax::fail(id); return None; }
        if row.len() > 1 { ax::check(held(&row[1], &ms[i]), "stored-value"); }
        out.push(i);
    }
    Some(out)
}
/// order with NULL above everything, as ORDER BY has it
fn cmp_null(a: &M, b: &M) -> Ordering {
    match (a, b) { (M::Null, M::Null) => Ordering::Equal, (M::Null, _) => Ordering::Greater, (_, M::Null) => Ordering::Less, _ => model(a, b).unwrap() }
}
fn eqm(a: &M, b: &M) -> bool { cmp_null(a, b) == Ordering::Equal }
/// A column of every type with values of all bit patterns: what sorting, grouping, searching and
/// both kinds of trees make of them.
fn sql(a: &[String]) {
    init();
    hook_always();
    let n: usize = a.first().and_then(|x| x.parse().ok()).unwrap_or(3);
    if a.get(1).is_some_and(|x| x == "full") { FULL.store(true, std::sync::atomic::Ordering::Relaxed); }
    let k = if let Some(k) = a.get(2) { k.parse().unwrap() } else { ax::choose("type", 8) };
    let what = ax::choose("what", 9);
    let d = Db::create();
    if what == 8 { return keys(&d, k, n); }
    d.must(&format!("CREATE TABLE t (id INT, v {}, PRIMARY KEY(id))", column(k)), "create");
    if what == 6 { d.must("CREATE UNIQUE INDEX ix ON t(v)", "create-index"); }
    let mut ms: Vec<M> = vec![];
    let mut dups = false;
    let null = if what == 6 { 0 } else { ax::choose("null", 2) };
    for i in 0..n {
        let (t, m) = if i == 1 && null == 1 { ("NULL".into(), M::Null) } else { value(&format!("v{i}"), k) };
        let dup = what >= 6 && !matches!(m, M::Null) && ms.iter().any(|o| !matches!(o, M::Null) && ax::decide(eqm(o, &m)));
        if what == 6 && dup { ax::check(d.ex(&format!("INSERT INTO t VALUES ({i}, {t})")).is_err(), "unique"); ax::reach("duplicate"); return; }
        dups |= dup;
        d.must(&format!("INSERT INTO t VALUES ({i}, {t})"), "insert");
        ms.push(m);
    }
    if what == 7 && dups { ax::check(d.ex("CREATE UNIQUE INDEX ix ON t(v)").is_err(), "unique-index"); return; }
    if what == 7 { d.must("CREATE UNIQUE INDEX ix ON t(v)", "create-index"); }
    match what {
        0 | 1 => {
            let Ok(r) = d.rows(&format!("SELECT id, v FROM t ORDER BY v{}", if what == 1 { " DESC" } else { "" })) else { return ax::fail("order-by-error") };
            let Some(o) = ids(&r, &ms, "order-by-rows") else { return };
            ax::check(o.len() == n, "order-by-rows");
            for w in o.windows(2) {
                let c = cmp_null(&ms[w[0]], &ms[w[1]]);
                ax::check(if what == 0 { c != Ordering::Greater } else { c != Ordering::Less }, "order-by");
            }
        }
        2 | 3 => {
            let Ok(r) = d.rows(if what == 2 { "SELECT DISTINCT v FROM t" } else { "SELECT v, COUNT(*) FROM t GROUP BY v" }) else { return ax::fail("distinct-error") };
            // classes of the model
            let mut reps: Vec<usize> = vec![];
            let mut cnt: Vec<i64> = vec![];
            for i in 0..n { match reps.iter().position(|j| ax::decide(eqm(&ms[*j], &ms[i]))) { Some(p) => cnt[p] += 1, None => { reps.push(i); cnt.push(1) } } }
            ax::check(r.len() == reps.len(), "distinct-classes");
            for (p, rep) in reps.iter().enumerate() {
                // any value of the class may stand for it
                let of = |row: &Row| (0..n).any(|i| ax::decide(eqm(&ms[i], &ms[*rep])) && ax::decide(held(&row[0], &ms[i])));
                let Some(row) = r.iter().find(|r| of(r)) else { ax::fail("distinct-missing"); return };
                if what == 3 { ax::check(matches!(&row[1], V::I(c) if *c == cnt[p]), "group-count"); }
            }
        }
        4 => {
            let (t, m) = value("x", k);
            for (op, f) in [("=", (|o| o == Ordering::Equal) as fn(Ordering) -> bool), ("<", |o| o == Ordering::Less), (">=", |o| o != Ordering::Less)] {
                let Ok(r) = d.rows(&format!("SELECT id FROM t WHERE v {op} {t}")) else { return ax::fail("where-error") };
                let Some(o) = ids(&r, &ms, "where-rows") else { return };
                for i in 0..n { ax::check(o.contains(&i) == model(&ms[i], &m).map(f).unwrap_or(false), "where"); }
            }
            let Ok(r) = d.rows(&format!("SELECT id FROM t WHERE v IN ({t})")) else { return ax::fail("in-error") };
            let Some(o) = ids(&r, &ms, "in-rows") else { return };
            for i in 0..n { ax::check(o.contains(&i) == (model(&ms[i], &m) == Some(Ordering::Equal)), "in"); }
        }
        5 => {
            if k == 6 { return; }
            let Ok(r) = d.rows("SELECT MIN(v), MAX(v) FROM t") else { return ax::fail("minmax-error") };
            let real: Vec<&M> = ms.iter().filter(|m| !matches!(m, M::Null)).collect();
            let (mut lo, mut hi) = (real[0], real[0]);
            for m in &real { if ax::decide(cmp_null(m, lo) == Ordering::Less) { lo = m; } if ax::decide(cmp_null(m, hi) == Ordering::Greater) { hi = m; } }
            let class = |v: &V, m: &M| real.iter().any(|x| ax::decide(eqm(x, m)) && ax::decide(held(v, x)));
            ax::check(r.len() == 1 && r[0].len() == 2 && class(&r[0][0], lo) && class(&r[0][1], hi), "min-max");
        }
        _ => {
            let (t, m) = value("x", k);
            for (op, f) in [("=", (|o| o == Ordering::Equal) as fn(Ordering) -> bool), (">", |o| o == Ordering::Greater)] {
                let Ok(r) = d.rows(&format!("SELECT id, v FROM t WHERE v {op} {t}")) else { return ax::fail("index-error") };
                let Some(o) = ids(&r, &ms, "index-rows") else { return };
                for i in 0..n { ax::check(o.contains(&i) == model(&ms[i], &m).map(f).unwrap_or(false), "index"); }
            }
        }
    }
}
/// the values as keys of a table: equal ones are refused, the others come back in order and are found
fn keys(d: &Db, k: usize, n: usize) {
    d.must(&format!("CREATE TABLE t (v {}, id INT, PRIMARY KEY(v))", column(k)), "create");
    let mut ms: Vec<M> = vec![];
    let mut txt = vec![];
    for i in 0..n {
        let (t, m) = value(&format!("v{i}"), k);
        let dup = ms.iter().any(|o| ax::decide(eqm(o, &m)));
        match d.ex(&format!("INSERT INTO t VALUES ({t}, {})", ms.len())) {
            Ok(_) => { ax::check(!dup, "duplicate-key"); ms.push(m); txt.push(t); }
            Err(_) => ax::check(dup, "key-refused"),
        }
    }
    let Ok(r) = d.rows("SELECT id, v FROM t") else { return ax::fail("scan-error") };
    let Some(o) = ids(&r, &ms, "scan-rows") else { return };
    ax::check(o.len() == ms.len(), "scan-rows");
    for (i, t) in txt.iter().enumerate() {
        let Ok(r) = d.rows(&format!("SELECT id, v FROM t WHERE v = {t}")) else { return ax::fail("lookup-error") };
        let Some(o) = ids(&r, &ms, "lookup-rows") else { return };
        ax::check(o == [i], "lookup");
    }
}
pub const TABLE: &[(&str, fn(&[String]))] = &[("c19_pair", pair), ("c19_one", one), ("c19_cast", cast), ("c19_triple", triple), ("c19_sql", sql)];
