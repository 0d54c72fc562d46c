//! Hash-consed bit-vector expression DAG with local simplification and a concrete evaluator.
use std::collections::HashMap;

pub type E = u32; // expression id; 0 is reserved ("no expression" = concrete value)

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum K {
    Const, // value in a|b<<32 .. wide table index
    Var,   // a = var index
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Not, Eq, Ult, Ule, Slt, Sle,
    Concat, // a = hi, b = lo
    Extract, // a, b = lo bit
    ZExt, SExt,
    Ite, // a cond, b, c
    FAdd, FSub, FMul, FDiv, FRem, FOeq, FOlt, FOle, FIsNan, FSqrt,
    FRound, // b = mode: 0 ceil 1 floor 2 trunc 3 round(away) 4 rint(even)
    SiToFp, UiToFp, FpToSi, FpToUi, // result width = w, a operand
    FpExt, FpTrunc,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct N {
    pub k: K,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn mask64(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub struct Arena {
    pub n: Vec<N>,
    map: HashMap<N, E, BuildFx>,
    pub consts: Vec<u128>,
    constmap: HashMap<u128, u32, BuildFx>,
    pub vars: Vec<(String, u32)>,
    pub byname: HashMap<(String, u32), E>,
    pub has_fp: Vec<bool>,
    // eval memo
    memo: Vec<u128>,
    memo_ep: Vec<u32>,
    epoch: u32,
    pub last_model: usize,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for c in b { self.write_u64(*c as u64) }
    }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_u128(&mut self, v: u128) { self.write_u64(v as u64); self.write_u64((v >> 64) as u64) }
    fn write_isize(&mut self, v: isize) { self.write_u64(v as u64) }
}
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            n: vec![], map: HashMap::default(), consts: vec![], constmap: HashMap::default(), vars: vec![], byname: HashMap::default(),
            has_fp: vec![], memo: vec![], memo_ep: vec![], epoch: 1, last_model: 0,
        };
        a.push(N { k: K::Const, w: 1, a: u32::MAX, b: 0, c: 0 }); // dummy 0
        a
    }
    fn push(&mut self, n: N) -> E {
        let id = self.n.len() as E;
        let fp = matches!(n.k, K::FAdd | K::FSub | K::FMul | K::FDiv | K::FRem | K::FOeq | K::FOlt | K::FOle | K::FIsNan | K::FSqrt
            | K::FRound | K::SiToFp | K::UiToFp | K::FpToSi | K::FpToUi | K::FpExt | K::FpTrunc)
            || self.kids(&n).iter().any(|&k| k != 0 && self.has_fp[k as usize]);
        self.n.push(n);
        self.has_fp.push(fp);
        self.memo.push(0);
        self.memo_ep.push(0);
        id
    }
    pub fn kids(&self, n: &N) -> [E; 3] {
        match n.k {
            K::Const | K::Var => [0, 0, 0],
            K::Extract | K::FRound => [n.a, 0, 0],
            K::Not | K::ZExt | K::SExt | K::FIsNan | K::FSqrt | K::SiToFp | K::UiToFp | K::FpToSi | K::FpToUi | K::FpExt | K::FpTrunc => [n.a, 0, 0],
            K::Ite => [n.a, n.b, n.c],
            _ => [n.a, n.b, 0],
        }
    }
    fn mk(&mut self, k: K, w: u32, a: u32, b: u32, c: u32) -> E {
        let n = N { k, w: w as u8, a, b, c };
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.push(n);
        self.map.insert(n, e);
        e
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        let idx = match self.constmap.get(&v) {
            Some(&i) => i,
            None => { let i = self.consts.len() as u32; self.consts.push(v); self.constmap.insert(v, i); i }
        };
        self.mk(K::Const, w, idx, 0, 0)
    }
    /// the variable of this name, created on first use
    pub fn named(&mut self, name: &str, w: u32) -> E {
        if let Some(&x) = self.byname.get(&(name.to_string(), w)) { return x; }
        let x = self.var(name, w);
        self.byname.insert((name.to_string(), w), x);
        x
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        let i = self.vars.len() as u32;
        self.vars.push((name.to_string(), w));
        self.mk(K::Var, w, i, 0, 0)
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 { self.n[e as usize].w as u32 }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.k == K::Const { Some(self.consts[n.a as usize]) } else { None }
    }
    pub fn tru(&mut self) -> E { self.cst(1, 1) }
    pub fn fls(&mut self) -> E { self.cst(0, 1) }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(v) = self.as_const(a) { return self.cst(!v, w); }
        let n = self.n[a as usize];
        if n.k == K::Not { return n.a; }
        if w == 1 {
            match n.k {
                K::Ult => return self.bin(K::Ule, n.b, n.a),
                K::Ule => return self.bin(K::Ult, n.b, n.a),
                K::Slt => return self.bin(K::Sle, n.b, n.a),
                K::Sle => return self.bin(K::Slt, n.b, n.a),
                _ => {}
            }
        }
        self.mk(K::Not, w, a, 0, 0)
    }
    pub fn is_bool_op(k: K) -> bool {
        matches!(k, K::Eq | K::Ult | K::Ule | K::Slt | K::Sle | K::FOeq | K::FOlt | K::FOle)
    }
    pub fn eval_bin(k: K, w: u32, a: u128, b: u128) -> u128 {
        let m = mask(w);
        let r = match k {
            K::Add => a.wrapping_add(b),
            K::Sub => a.wrapping_sub(b),
            K::Mul => a.wrapping_mul(b),
            K::UDiv => if b == 0 { m } else { a / b },
            K::URem => if b == 0 { a } else { a % b },
            K::SDiv => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 { if x >= 0 { m } else { 1 } } else { x.wrapping_div(y) as u128 }
            }
            K::SRem => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 { a } else { x.wrapping_rem(y) as u128 }
            }
            K::And => a & b,
            K::Or => a | b,
            K::Xor => a ^ b,
            K::Shl => if b >= w as u128 { 0 } else { a << b },
            K::LShr => if b >= w as u128 { 0 } else { a >> b },
            K::AShr => { let x = sext128(a, w); if b >= w as u128 { if x < 0 { m } else { 0 } } else { (x >> b) as u128 } }
            K::Eq => (a == b) as u128,
            K::Ult => (a < b) as u128,
            K::Ule => (a <= b) as u128,
            K::Slt => (sext128(a, w) < sext128(b, w)) as u128,
            K::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
            K::FAdd | K::FSub | K::FMul | K::FDiv | K::FRem => {
                if w == 32 {
                    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    let r = match k { K::FAdd => x + y, K::FSub => x - y, K::FMul => x * y, K::FDiv => x / y, _ => x % y };
                    (if r.is_nan() { 0x7fc00000 } else { r.to_bits() }) as u128
                } else {
                    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                    let r = match k { K::FAdd => x + y, K::FSub => x - y, K::FMul => x * y, K::FDiv => x / y, _ => x % y };
                    (if r.is_nan() { 0x7ff8000000000000 } else { r.to_bits() }) as u128
                }
            }
            K::FOeq | K::FOlt | K::FOle => {
                let (x, y) = if w == 32 { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) } else { (f64::from_bits(a as u64), f64::from_bits(b as u64)) };
                (match k { K::FOeq => x == y, K::FOlt => x < y, _ => x <= y }) as u128
            }
            _ => unreachable!(),
        };
        if Self::is_bool_op(k) { r } else { r & m }
    }
    /// if e is ZExt, the width of the significant part
    fn zpart(&self, e: E) -> Option<(E, u32)> {
        let n = self.n[e as usize];
        if n.k == K::ZExt { return Some((n.a, self.w(n.a))); }
        if n.k == K::Concat {
            if self.as_const(n.a) == Some(0) { return Some((n.b, self.w(n.b))); }
        }
        None
    }
    pub fn bin(&mut self, k: K, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", k);
        let rw = if Self::is_bool_op(k) { 1 } else { w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = Self::eval_bin(k, w, x, y);
            return self.cst(v, rw);
        }
        if matches!(k, K::FOeq | K::FOlt | K::FOle | K::FAdd | K::FSub) {
            if let Some(r) = self.fp_exact(k, a, b, w) { return r; }
        }
        let m = mask(w);
        // commutative: constant to the right
        if matches!(k, K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq) && (ca.is_some() || (cb.is_none() && a > b)) {
            if !(ca.is_none() && cb.is_none() && a == b) {
                if ca.is_some() || a > b { return self.bin_ord(k, b, a, w, rw, m); }
            }
        }
        self.bin_ord(k, a, b, w, rw, m)
    }
    fn bin_ord(&mut self, k: K, a: E, b: E, w: u32, rw: u32, m: u128) -> E {
        let cb = self.as_const(b);
        let ca = self.as_const(a);
        match k {
            K::Add => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    let n = self.n[a as usize];
                    if n.k == K::Add { if let Some(c2) = self.as_const(n.b) { let s = self.cst(c.wrapping_add(c2), w); return self.bin(K::Add, n.a, s); } }
                }
            }
            K::Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(0, w); }
                if let Some(c) = cb { let s = self.cst((!c).wrapping_add(1), w); return self.bin(K::Add, a, s); }
            }
            K::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(c) = cb { if c.is_power_of_two() { let s = self.cst(c.trailing_zeros() as u128, w); return self.bin(K::Shl, a, s); } }
            }
            K::UDiv => {
                if cb == Some(1) { return a; }
                if let Some(c) = cb { if c != 0 && c.is_power_of_two() { let s = self.cst(c.trailing_zeros() as u128, w); return self.bin(K::LShr, a, s); } }
            }
            K::URem => {
                if let Some(c) = cb { if c != 0 && c.is_power_of_two() { let s = self.cst(c - 1, w); return self.bin(K::And, a, s); } }
            }
            K::And => {
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if a == b { return a; }
                if let Some(c) = cb {
                    // low mask
                    if c != 0 && (c & (c + 1)) == 0 {
                        let bits = c.trailing_ones();
                        if bits < w { let x = self.extract(a, 0, bits); return self.zext(x, w); }
                    }
                    // single contiguous run of ones starting at lo>0
                    let lo = c.trailing_zeros();
                    let run = c >> lo;
                    if lo > 0 && (run & (run.wrapping_add(1))) == 0 && w <= 64 {
                        let len = run.trailing_ones();
                        let x = self.extract(a, lo, len);
                        let z = self.cst(0, lo);
                        let y = self.concat(x, z);
                        return self.zext(y, w);
                    }
                }
                if w == 1 {
                    let na = self.n[a as usize];
                    let nb = self.n[b as usize];
                    if (na.k == K::Not && na.a == b) || (nb.k == K::Not && nb.a == a) { return self.fls(); }
                }
            }
            K::Or => {
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if a == b { return a; }
                if w == 1 {
                    let na = self.n[a as usize];
                    let nb = self.n[b as usize];
                    if (na.k == K::Not && na.a == b) || (nb.k == K::Not && nb.a == a) { return self.tru(); }
                }
                if let Some(r) = self.or_concat(a, b, w) { return r; }
                if let Some(r) = self.or_concat(b, a, w) { return r; }
            }
            K::Xor => {
                if cb == Some(0) { return a; }
                if cb == Some(m) { return self.not(a); }
                if a == b { return self.cst(0, w); }
            }
            K::Shl => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if c >= w as u128 { return self.cst(0, w); }
                    let c = c as u32;
                    let x = self.extract(a, 0, w - c);
                    let z = self.cst(0, c);
                    return self.concat(x, z);
                }
            }
            K::LShr => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if c >= w as u128 { return self.cst(0, w); }
                    let c = c as u32;
                    let x = self.extract(a, c, w - c);
                    return self.zext(x, w);
                }
            }
            K::AShr => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    let c = (c as u32).min(w - 1);
                    let x = self.extract(a, c, w - c);
                    return self.sext(x, w);
                }
            }
            K::Eq => {
                if a == b { return self.tru(); }
                if let Some(c) = cb {
                    let n = self.n[a as usize];
                    if w == 1 { return if c == 1 { a } else { self.not(a) }; }
                    match n.k {
                        K::ZExt => {
                            let iw = self.w(n.a);
                            if c > mask(iw) { return self.fls(); }
                            let s = self.cst(c, iw);
                            return self.bin(K::Eq, n.a, s);
                        }
                        K::SExt => {
                            let iw = self.w(n.a);
                            let t = c & mask(iw);
                            if (sext128(t, iw) as u128) & m != c { return self.fls(); }
                            let s = self.cst(t, iw);
                            return self.bin(K::Eq, n.a, s);
                        }
                        K::Ite => {
                            let (x, y) = (self.as_const(n.b), self.as_const(n.c));
                            if let (Some(x), Some(y)) = (x, y) {
                                return match (x == c, y == c) {
                                    (true, true) => self.tru(),
                                    (false, false) => self.fls(),
                                    (true, false) => n.a,
                                    (false, true) => self.not(n.a),
                                };
                            }
                            if x.is_some() || y.is_some() {
                                let l = self.bin(K::Eq, n.b, b);
                                let r = self.bin(K::Eq, n.c, b);
                                return self.ite(n.a, l, r);
                            }
                        }
                        K::Add => {
                            if let Some(c2) = self.as_const(n.b) { let s = self.cst(c.wrapping_sub(c2), w); return self.bin(K::Eq, n.a, s); }
                        }
                        K::Not => { let s = self.cst(!c, w); return self.bin(K::Eq, n.a, s); }
                        K::Xor => {
                            if let Some(c2) = self.as_const(n.b) { let s = self.cst(c ^ c2, w); return self.bin(K::Eq, n.a, s); }
                        }
                        K::Concat => {
                            // split only when one half is constant
                            let lw = self.w(n.b);
                            let (hc, lc) = (self.as_const(n.a), self.as_const(n.b));
                            if let Some(h) = hc {
                                if h != c >> lw { return self.fls(); }
                                let s = self.cst(c, lw);
                                return self.bin(K::Eq, n.b, s);
                            }
                            if let Some(l) = lc {
                                if l != c & mask(lw) { return self.fls(); }
                                let hw = self.w(n.a);
                                let s = self.cst(c >> lw, hw);
                                return self.bin(K::Eq, n.a, s);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                    if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(K::Eq, na.a, nb.a); }
                    if na.k == K::SExt && nb.k == K::SExt && self.w(na.a) == self.w(nb.a) { return self.bin(K::Eq, na.a, nb.a); }
                }
            }
            K::Ult => {
                if a == b { return self.fls(); }
                if cb == Some(0) { return self.fls(); }
                if ca == Some(m) { return self.fls(); }
                if ca == Some(0) { let z = self.cst(0, w); let q = self.bin(K::Eq, b, z); return self.not(q); }
                if cb == Some(1) { let z = self.cst(0, w); return self.bin(K::Eq, a, z); }
                if let (Some(c), Some((x, xw))) = (cb, self.zpart(a)) {
                    if c > mask(xw) { return self.tru(); }
                    let s = self.cst(c, xw);
                    return self.bin(K::Ult, x, s);
                }
                if let (Some(c), Some((x, xw))) = (ca, self.zpart(b)) {
                    if c >= mask(xw) { return self.fls(); }
                    let s = self.cst(c, xw);
                    return self.bin(K::Ult, s, x);
                }
                if let (Some((x, xw)), Some((y, yw))) = (self.zpart(a), self.zpart(b)) { if xw == yw { return self.bin(K::Ult, x, y); } }
            }
            K::Ule => {
                if a == b { return self.tru(); }
                if ca == Some(0) { return self.tru(); }
                if cb == Some(m) { return self.tru(); }
                if cb == Some(0) { return self.bin(K::Eq, a, b); }
                if let (Some(c), Some((x, xw))) = (cb, self.zpart(a)) {
                    if c >= mask(xw) { return self.tru(); }
                    let s = self.cst(c, xw);
                    return self.bin(K::Ule, x, s);
                }
                if let (Some(c), Some((x, xw))) = (ca, self.zpart(b)) {
                    if c > mask(xw) { return self.fls(); }
                    let s = self.cst(c, xw);
                    return self.bin(K::Ule, s, x);
                }
                if let (Some((x, xw)), Some((y, yw))) = (self.zpart(a), self.zpart(b)) { if xw == yw { return self.bin(K::Ule, x, y); } }
            }
            K::Slt | K::Sle => {
                if a == b { return if k == K::Slt { self.fls() } else { self.tru() }; }
                let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                if na.k == K::SExt && nb.k == K::SExt && self.w(na.a) == self.w(nb.a) { return self.bin(k, na.a, nb.a); }
                if na.k == K::SExt {
                    if let Some(c) = cb {
                        let iw = self.w(na.a);
                        let t = c & mask(iw);
                        if (sext128(t, iw) as u128) & m == c { let s = self.cst(t, iw); return self.bin(k, na.a, s); }
                        return self.cst(if sext128(c, w) > 0 { 1 } else { 0 }, 1);
                    }
                }
                if nb.k == K::SExt {
                    if let Some(c) = ca {
                        let iw = self.w(nb.a);
                        let t = c & mask(iw);
                        if (sext128(t, iw) as u128) & m == c { let s = self.cst(t, iw); return self.bin(k, s, nb.a); }
                        return self.cst(if sext128(c, w) < 0 { 1 } else { 0 }, 1);
                    }
                }
            }
            _ => {}
        }
        // push constant op through ite of constants
        if rw == w || rw == 1 {
            if let Some(_) = cb {
                let n = self.n[a as usize];
                if n.k == K::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() && !matches!(k, K::FAdd | K::FSub | K::FMul | K::FDiv | K::FRem) {
                    let l = self.bin(k, n.b, b);
                    let r = self.bin(k, n.c, b);
                    return self.ite(n.a, l, r);
                }
            }
        }
        self.mk(k, rw, a, b, 0)
    }
    /// a = Concat(h, 0_k) (or with zext above), b = zero-extended <=k bits
    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        // find number of low zero bits of a
        let lz = self.low_zeros(a);
        if lz == 0 { return None; }
        let (bx, bw) = self.zpart(b)?;
        if bw > lz { return None; }
        let hi = self.extract(a, bw, w - bw);
        Some(self.concat(hi, bx))
    }
    fn low_zeros(&self, e: E) -> u32 {
        let n = self.n[e as usize];
        match n.k {
            K::Const => { let c = self.consts[n.a as usize]; if c == 0 { n.w as u32 } else { c.trailing_zeros() } }
            K::Concat => {
                let lw = self.w(n.b);
                let z = self.low_zeros(n.b);
                if z == lw { lw + self.low_zeros(n.a) } else { z }
            }
            K::ZExt | K::SExt => { let z = self.low_zeros(n.a); if z == self.w(n.a) { n.w as u32 } else { z } }
            _ => 0,
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, len: u32) -> E {
        let w = self.w(a);
        debug_assert!(lo + len <= w, "extract {} {} of {}", lo, len, w);
        if lo == 0 && len == w { return a; }
        if let Some(v) = self.as_const(a) { return self.cst(v >> lo, len); }
        let n = self.n[a as usize];
        match n.k {
            K::Extract => return self.extract(n.a, n.b + lo, len),
            K::Concat => {
                let lw = self.w(n.b);
                if lo + len <= lw { return self.extract(n.b, lo, len); }
                if lo >= lw { return self.extract(n.a, lo - lw, len); }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + len - lw);
                return self.concat(h, l);
            }
            K::ZExt => {
                let iw = self.w(n.a);
                if lo + len <= iw { return self.extract(n.a, lo, len); }
                if lo >= iw { return self.cst(0, len); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, len);
            }
            K::SExt => {
                let iw = self.w(n.a);
                if lo + len <= iw { return self.extract(n.a, lo, len); }
                if lo < iw { let x = self.extract(n.a, lo, iw - lo); return self.sext(x, len); }
                let x = self.extract(n.a, iw - 1, 1);
                return self.sext(x, len);
            }
            K::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() || len == 8 || len == 1 {
                    let l = self.extract(n.b, lo, len);
                    let r = self.extract(n.c, lo, len);
                    return self.ite(n.a, l, r);
                }
            }
            K::And | K::Or | K::Xor => {
                if self.as_const(n.b).is_some() || len <= 8 {
                    let l = self.extract(n.a, lo, len);
                    let r = self.extract(n.b, lo, len);
                    return self.bin(n.k, l, r);
                }
            }
            K::Not => { let x = self.extract(n.a, lo, len); return self.not(x); }
            K::Add | K::Sub | K::Mul => {
                if lo == 0 && len < w && (self.zpart(n.a).is_some() || self.zpart(n.b).is_some() || self.as_const(n.b).is_some()) {
                    let l = self.extract(n.a, 0, len);
                    let r = self.extract(n.b, 0, len);
                    return self.bin(n.k, l, r);
                }
            }
            _ => {}
        }
        self.mk(K::Extract, len, a, lo, 0)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) { return self.cst(x << lw | y, w); }
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nh.b == nl.b + lw {
            return self.extract(nh.a, nl.b, w);
        }
        // extract(x,lw..) ++ x[..lw] where l is the full low part of wider thing handled above; l itself whole var:
        if nh.k == K::Concat && nl.k == K::Extract {
            let lo = self.n[nh.b as usize];
            if lo.k == K::Extract && lo.a == nl.a && lo.b == nl.b + lw {
                let j = self.concat(nh.b, l);
                return self.concat(nh.a, j);
            }
        }
        if nl.k == K::Concat {
            let hi = self.n[nl.a as usize];
            if nh.k == K::Extract && hi.k == K::Extract && hi.a == nh.a && nh.b == hi.b + hi.w as u32 {
                let j = self.concat(h, nl.a);
                return self.concat(j, nl.b);
            }
            if self.as_const(h).is_some() && self.as_const(nl.a).is_some() {
                let j = self.concat(h, nl.a);
                return self.concat(j, nl.b);
            }
        }
        if self.as_const(h) == Some(0) { return self.zext(l, w); }
        if nh.k == K::ZExt {
            // zext(x) ++ l  => zext(x ++ l)
            let j = self.concat(nh.a, l);
            return self.zext(j, w);
        }
        // ite distribution: both Ite with same condition
        if nh.k == K::Ite && nl.k == K::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        if nh.k == K::Ite && self.as_const(l).is_some() && self.as_const(nh.b).is_some() && self.as_const(nh.c).is_some() {
            let x = self.concat(nh.b, l);
            let y = self.concat(nh.c, l);
            return self.ite(nh.a, x, y);
        }
        self.mk(K::Concat, w, h, l, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        debug_assert!(w > aw);
        if let Some(v) = self.as_const(a) { return self.cst(v, w); }
        let n = self.n[a as usize];
        if n.k == K::ZExt { return self.zext(n.a, w); }
        if n.k == K::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(K::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(v) = self.as_const(a) { return self.cst(sext128(v, aw) as u128, w); }
        let n = self.n[a as usize];
        if n.k == K::SExt { return self.sext(n.a, w); }
        if n.k == K::ZExt { return self.zext(n.a, w); }
        if n.k == K::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(K::SExt, w, a, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.as_const(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let nc = self.n[c as usize];
        if nc.k == K::Not { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(K::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(K::And, n, b); }
                (None, Some(0)) => return self.bin(K::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(K::Or, n, a); }
                _ => {}
            }
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.k == K::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.k == K::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        self.mk(K::Ite, w, c, a, b)
    }
    /// Number of bits of a signed representation that is known to hold `e` read as a signed integer.
    pub fn sbits(&self, e: E, depth: u32) -> u32 {
        let n = self.n[e as usize];
        let w = n.w as u32;
        if depth == 0 { return w; }
        let r = match n.k {
            K::Const => { let v = sext128(self.consts[n.a as usize], w); if v >= 0 { 129 - v.leading_zeros() } else { 129 - (!v).leading_zeros() } }
            K::SExt => self.sbits(n.a, depth - 1),
            K::ZExt => self.w(n.a) + 1,
            K::Concat => { if self.as_const(n.a) == Some(0) { self.w(n.b) + 1 } else { self.sbits(n.a, depth - 1) + self.w(n.b) } }
            K::Add | K::Sub => self.sbits(n.a, depth - 1).max(self.sbits(n.b, depth - 1)) + 1,
            K::Mul => self.sbits(n.a, depth - 1) + self.sbits(n.b, depth - 1),
            K::Ite => self.sbits(n.b, depth - 1).max(self.sbits(n.c, depth - 1)),
            K::Not => self.sbits(n.a, depth - 1),
            _ => w,
        };
        r.min(w)
    }
    /// If the float expression `e` (width w) is exactly an integer of few bits: (integer expr of 64 bits, signed bits).
    fn exact_int(&mut self, e: E, w: u32) -> Option<(E, u32)> {
        let lim = if w == 64 { 53 } else { 24 };
        if let Some(v) = self.as_const(e) {
            let f = if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
            if f.is_finite() && f.fract() == 0.0 && f.abs() < (1u64 << (lim - 1)) as f64 && !(f == 0.0 && f.is_sign_negative()) {
                let c = self.cst(f as i64 as u128, 64);
                let b = self.sbits(c, 2);
                return Some((c, b));
            }
            return None;
        }
        let n = self.n[e as usize];
        match n.k {
            K::SiToFp => {
                let b = self.sbits(n.a, 12);
                if b > lim { return None; }
                let aw = self.w(n.a);
                let x = if aw < 64 { self.sext(n.a, 64) } else if aw == 64 { n.a } else { return None };
                Some((x, b))
            }
            K::UiToFp => {
                let aw = self.w(n.a);
                let b = if aw < lim { aw + 1 } else { let b = self.sbits(n.a, 12); if b >= aw { return None } b };
                if b > lim || aw > 64 { return None; }
                let x = if aw < 64 { self.zext(n.a, 64) } else { n.a };
                Some((x, b))
            }
            K::FpExt => { let aw = self.w(n.a); self.exact_int(n.a, aw) }
            K::Ite => {
                let (x, bx) = self.exact_int(n.b, w)?;
                let (y, by) = self.exact_int(n.c, w)?;
                Some((self.ite(n.a, x, y), bx.max(by)))
            }
            _ => None,
        }
    }
    fn fp_exact(&mut self, k: K, a: E, b: E, w: u32) -> Option<E> {
        let lim = if w == 64 { 53 } else { 24 };
        let ia = self.exact_int(a, w);
        let ib = self.exact_int(b, w);
        match (k, ia, ib) {
            (K::FOeq, Some((x, _)), Some((y, _))) => Some(self.bin(K::Eq, x, y)),
            (K::FOlt, Some((x, _)), Some((y, _))) => Some(self.bin(K::Slt, x, y)),
            (K::FOle, Some((x, _)), Some((y, _))) => Some(self.bin(K::Sle, x, y)),
            (K::FAdd | K::FSub, Some((x, p)), Some((y, q))) if p.max(q) + 1 <= lim => {
                let r = self.bin(if k == K::FAdd { K::Add } else { K::Sub }, x, y);
                Some(self.un(K::SiToFp, r, w, 0))
            }
            (K::FOeq | K::FOlt | K::FOle, Some((x, _)), None) | (K::FOeq | K::FOlt | K::FOle, None, Some((x, _))) => {
                // integer against a non-integral / huge constant
                let ce = if ia.is_some() { b } else { a };
                let v = self.as_const(ce)?;
                let f = if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                if f.is_nan() { return Some(self.fls()); }
                if f == 0.0 { let z = self.cst(0, 64); return Some(match k { K::FOeq => self.bin(K::Eq, x, z), K::FOlt => if ia.is_some() { self.bin(K::Slt, x, z) } else { self.bin(K::Slt, z, x) }, _ => if ia.is_some() { self.bin(K::Sle, x, z) } else { self.bin(K::Sle, z, x) } }); }
                if k == K::FOeq { if f.fract() != 0.0 || f.abs() >= 9.3e18 { return Some(self.fls()); } return None; }
                if f.abs() >= 9.2e18 { let t = if ia.is_some() { f > 0.0 } else { f < 0.0 }; return Some(if t { self.tru() } else { self.fls() }); }
                if f.fract() == 0.0 { return None; }
                let fl = self.cst(f.floor() as i64 as u128, 64);
                // x < f  <=>  x <= floor(f);   f < x  <=>  floor(f) < x
                Some(if ia.is_some() { self.bin(K::Sle, x, fl) } else { self.bin(K::Slt, fl, x) })
            }
            _ => None,
        }
    }
    pub fn un(&mut self, k: K, a: E, w: u32, b: u32) -> E {
        if self.as_const(a).is_none() {
            let aw = self.w(a);
            match k {
                K::FIsNan => { if self.exact_int(a, aw).is_some() { return self.fls(); } }
                K::FRound => { if self.exact_int(a, aw).is_some() { return a; } }
                K::FpToSi => { if let Some((x, bits)) = self.exact_int(a, aw) { if bits <= w { return if w < 64 { self.extract(x, 0, w) } else { self.sext(x, w) }; } } }
                K::FpExt => { if let Some((x, _)) = self.exact_int(a, aw) { return self.un(K::SiToFp, x, w, 0); } }
                _ => {}
            }
        }
        if let Some(v) = self.as_const(a) {
            let aw = self.w(a);
            let r = Self::eval_un(k, aw, w, b, v);
            return self.cst(r, w);
        }
        self.mk(k, w, a, b, 0)
    }
    pub fn eval_un(k: K, aw: u32, w: u32, b: u32, v: u128) -> u128 {
        let f = |v: u128, w: u32| -> f64 { if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } };
        let pack = |x: f64, w: u32| -> u128 {
            if w == 32 { let y = x as f32; (if y.is_nan() { 0x7fc00000 } else { y.to_bits() }) as u128 }
            else { (if x.is_nan() { 0x7ff8000000000000 } else { x.to_bits() }) as u128 }
        };
        match k {
            K::FIsNan => f(v, aw).is_nan() as u128,
            K::FSqrt => if aw == 32 { let r = f32::from_bits(v as u32).sqrt(); (if r.is_nan() { 0x7fc00000 } else { r.to_bits() }) as u128 } else { pack(f(v, aw).sqrt(), w) },
            K::FRound => { let x = f(v, aw); let r = match b { 0 => x.ceil(), 1 => x.floor(), 2 => x.trunc(), 3 => x.round(), _ => x.round_ties_even() }; pack(r, w) }
            K::SiToFp => { let x = sext128(v, aw); if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 } }
            K::UiToFp => { if w == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 } }
            K::FpToSi => { // saturating semantics (matches llvm.fptosi.sat / rust `as`); plain fptosi out of range is poison anyway
                let x = f(v, aw);
                let lo = -(2f64.powi(w as i32 - 1)); let hi = 2f64.powi(w as i32 - 1);
                let r: i128 = if x.is_nan() { 0 } else if x <= lo { -(1i128 << (w - 1)) } else if x >= hi { (1i128 << (w - 1)) - 1 } else { x as i128 };
                (r as u128) & mask(w)
            }
            K::FpToUi => {
                let x = f(v, aw);
                let hi = 2f64.powi(w as i32);
                if x.is_nan() || x <= 0.0 { 0 } else if x >= hi { mask(w) } else { x as u128 }
            }
            K::FpExt | K::FpTrunc => pack(f(v, aw), w),
            K::Not => !v & mask(w),
            K::ZExt => v,
            K::SExt => (sext128(v, aw) as u128) & mask(w),
            _ => unreachable!("{:?}", k),
        }
    }

    /// Start a new evaluation epoch (call when the model changes).
    pub fn new_epoch(&mut self) { self.epoch += 1; }
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        if self.memo_ep[e as usize] == self.epoch { return self.memo[e as usize]; }
        let n = self.n[e as usize];
        let r = match n.k {
            K::Const => self.consts[n.a as usize],
            K::Var => model.get(n.a as usize).copied().unwrap_or(0) & mask(n.w as u32),
            K::Ite => { if self.eval(n.a, model) == 1 { self.eval(n.b, model) } else { self.eval(n.c, model) } }
            K::Concat => { let lw = self.w(n.b); self.eval(n.a, model) << lw | self.eval(n.b, model) }
            K::Extract => (self.eval(n.a, model) >> n.b) & mask(n.w as u32),
            K::Not | K::ZExt | K::SExt | K::FIsNan | K::FSqrt | K::FRound | K::SiToFp | K::UiToFp | K::FpToSi | K::FpToUi | K::FpExt | K::FpTrunc => {
                let v = self.eval(n.a, model);
                Self::eval_un(n.k, self.w(n.a), n.w as u32, n.b, v)
            }
            _ => { let (x, y) = (self.eval(n.a, model), self.eval(n.b, model)); Self::eval_bin(n.k, self.w(n.a), x, y) }
        };
        self.memo[e as usize] = r;
        self.memo_ep[e as usize] = self.epoch;
        r
    }
    pub fn vars_of(&self, e: E, out: &mut std::collections::BTreeSet<u32>) {
        let mut st = vec![e];
        let mut seen = std::collections::HashSet::new();
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            let n = self.n[x as usize];
            if n.k == K::Var { out.insert(n.a); }
            for k in self.kids(&n) { if k != 0 { st.push(k); } }
        }
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n[e as usize];
        match n.k {
            K::Const => format!("{:#x}:{}", self.consts[n.a as usize], n.w),
            K::Var => self.vars[n.a as usize].0.clone(),
            _ if depth == 0 => "..".into(),
            K::Extract => format!("{}[{}+:{}]", self.show(n.a, depth - 1), n.b, n.w),
            _ => {
                let ks: Vec<String> = self.kids(&n).iter().filter(|&&k| k != 0).map(|&k| self.show(k, depth - 1)).collect();
                format!("({:?}:{} {})", n.k, n.w, ks.join(" "))
            }
        }
    }
}
