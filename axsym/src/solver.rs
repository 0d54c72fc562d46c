//! Z3 back end (C API). Queries are sliced by variable connectivity, cached, and discharged incrementally.
use crate::expr::*;
use std::collections::{BTreeSet, HashMap};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Params = *mut c_void;
type Sym = *mut c_void;
#[allow(dead_code)]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context(cfg: *mut c_void) -> Ctx;
    fn Z3_mk_solver(c: Ctx) -> Solver;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_reset(c: Ctx, s: Solver);
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, complete: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Sym, ty: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, n: *const c_char, s: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, s: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_fpa_sort(c: Ctx, e: c_uint, s: c_uint) -> Sort;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, bv: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, rm: Ast, t: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, rm: Ast, t: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, rm: Ast, t: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, rm: Ast, t: Ast, sz: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, rm: Ast, t: Ast, sz: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, t: Ast) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_get_error_code(c: Ctx) -> c_int;
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_set_error_handler(c: Ctx, h: extern "C" fn(Ctx, c_int));
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: Ctx, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string() };
    eprintln!("axsym: (error z3 {})", m);
    std::process::abort();
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: Ctx,
    s: Solver,
    sfp: Solver,
    asts: Vec<Ast>,
    varsets: HashMap<E, Rc<Vec<u32>>, BuildFx>,
    cache: HashMap<Vec<E>, Res, BuildFx>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub max_us: u64,
    pub dump: Option<String>,
    stack: Vec<E>,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err);
            let mk = |logic: &str| -> Solver {
                let l = CString::new(logic).unwrap();
                let s = if logic.is_empty() { Z3_mk_solver(c) } else { Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())) };
                Z3_solver_inc_ref(c, s);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("rlimit").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
                Z3_solver_set_params(c, s, p);
                s
            };
            let s = mk("QF_BV");
            let sfp = mk("QF_BVFP");
            Z3 { c, s, sfp, asts: vec![], varsets: HashMap::default(), cache: HashMap::default(), queries: 0, cache_hits: 0, sat: 0, unsat: 0, unknown: 0, time_us: 0, max_us: 0, dump: None, stack: vec![] }
        }
    }
    pub fn varset(&mut self, ar: &Arena, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&e) { return v.clone(); }
        let mut s = BTreeSet::new();
        ar.vars_of(e, &mut s);
        let v = Rc::new(s.into_iter().collect::<Vec<_>>());
        self.varsets.insert(e, v.clone());
        v
    }
    unsafe fn fpsort(&self, w: u32) -> Sort { if w == 32 { Z3_mk_fpa_sort(self.c, 8, 24) } else { Z3_mk_fpa_sort(self.c, 11, 53) } }
    unsafe fn num(&self, v: u128, w: u32) -> Ast {
        let s = Z3_mk_bv_sort(self.c, w);
        if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else {
            let t = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, t.as_ptr(), s)
        }
    }
    unsafe fn b2v(&self, b: Ast) -> Ast { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(0, 1)) }
    unsafe fn v2b(&self, v: Ast) -> Ast { Z3_mk_eq(self.c, v, self.num(1, 1)) }
    unsafe fn ieee(&self, f: Ast, w: u32) -> Ast {
        let nan = if w == 32 { self.num(0x7fc00000, 32) } else { self.num(0x7ff8000000000000, 64) };
        Z3_mk_ite(self.c, Z3_mk_fpa_is_nan(self.c, f), nan, Z3_mk_fpa_to_ieee_bv(self.c, f))
    }
    fn tr(&mut self, ar: &Arena, e: E) -> Ast {
        if self.asts.len() < ar.n.len() { self.asts.resize(ar.n.len(), std::ptr::null_mut()); }
        if !self.asts[e as usize].is_null() { return self.asts[e as usize]; }
        // iterative post-order to avoid deep recursion
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if !self.asts[x as usize].is_null() { st.pop(); continue; }
            let n = ar.n[x as usize];
            let ks = ar.kids(&n);
            let mut ready = true;
            for k in ks { if k != 0 && self.asts[k as usize].is_null() { st.push(k); ready = false; } }
            if ready { let a = unsafe { self.tr1(ar, n) }; self.asts[x as usize] = a; st.pop(); }
        }
        self.asts[e as usize]
    }
    unsafe fn tr1(&mut self, ar: &Arena, n: N) -> Ast {
        let c = self.c;
        let w = n.w as u32;
        let g = |e: E| self.asts[e as usize];
        let (a, b) = (g(n.a.min(ar.n.len() as u32 - 1)), if n.k != K::Extract && n.k != K::FRound { g(n.b.min(ar.n.len() as u32 - 1)) } else { std::ptr::null_mut() });
        let aw = if matches!(n.k, K::Const | K::Var) { 0 } else { ar.w(n.a) };
        match n.k {
            K::Const => self.num(ar.consts[n.a as usize], w),
            K::Var => {
                let name = CString::new(format!("v{}", n.a)).unwrap();
                Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), Z3_mk_bv_sort(c, w))
            }
            K::Add => Z3_mk_bvadd(c, a, b),
            K::Sub => Z3_mk_bvsub(c, a, b),
            K::Mul => Z3_mk_bvmul(c, a, b),
            K::UDiv => Z3_mk_bvudiv(c, a, b),
            K::SDiv => Z3_mk_bvsdiv(c, a, b),
            K::URem => Z3_mk_bvurem(c, a, b),
            K::SRem => Z3_mk_bvsrem(c, a, b),
            K::And => Z3_mk_bvand(c, a, b),
            K::Or => Z3_mk_bvor(c, a, b),
            K::Xor => Z3_mk_bvxor(c, a, b),
            K::Shl => Z3_mk_bvshl(c, a, b),
            K::LShr => Z3_mk_bvlshr(c, a, b),
            K::AShr => Z3_mk_bvashr(c, a, b),
            K::Not => Z3_mk_bvnot(c, a),
            K::Eq => self.b2v(Z3_mk_eq(c, a, b)),
            K::Ult => self.b2v(Z3_mk_bvult(c, a, b)),
            K::Ule => self.b2v(Z3_mk_bvule(c, a, b)),
            K::Slt => self.b2v(Z3_mk_bvslt(c, a, b)),
            K::Sle => self.b2v(Z3_mk_bvsle(c, a, b)),
            K::Concat => Z3_mk_concat(c, a, b),
            K::Extract => Z3_mk_extract(c, n.b + w - 1, n.b, a),
            K::ZExt => Z3_mk_zero_ext(c, w - aw, a),
            K::SExt => Z3_mk_sign_ext(c, w - aw, a),
            K::Ite => { let cc = self.v2b(a); Z3_mk_ite(c, cc, b, g(n.c)) }
            K::FAdd | K::FSub | K::FMul | K::FDiv => {
                let s = self.fpsort(w);
                let (x, y) = (Z3_mk_fpa_to_fp_bv(c, a, s), Z3_mk_fpa_to_fp_bv(c, b, s));
                let rm = Z3_mk_fpa_rne(c);
                let r = match n.k { K::FAdd => Z3_mk_fpa_add(c, rm, x, y), K::FSub => Z3_mk_fpa_sub(c, rm, x, y), K::FMul => Z3_mk_fpa_mul(c, rm, x, y), _ => Z3_mk_fpa_div(c, rm, x, y) };
                self.ieee(r, w)
            }
            K::FRem => { eprintln!("axsym: (error symbolic frem unsupported)"); std::process::abort() }
            K::FOeq | K::FOlt | K::FOle => {
                let s = self.fpsort(aw);
                let (x, y) = (Z3_mk_fpa_to_fp_bv(c, a, s), Z3_mk_fpa_to_fp_bv(c, b, s));
                self.b2v(match n.k { K::FOeq => Z3_mk_fpa_eq(c, x, y), K::FOlt => Z3_mk_fpa_lt(c, x, y), _ => Z3_mk_fpa_leq(c, x, y) })
            }
            K::FIsNan => { let s = self.fpsort(aw); self.b2v(Z3_mk_fpa_is_nan(c, Z3_mk_fpa_to_fp_bv(c, a, s))) }
            K::FSqrt => { let s = self.fpsort(w); self.ieee(Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), Z3_mk_fpa_to_fp_bv(c, a, s)), w) }
            K::FRound => {
                let s = self.fpsort(w);
                let rm = match n.b { 0 => Z3_mk_fpa_rtp(c), 1 => Z3_mk_fpa_rtn(c), 2 => Z3_mk_fpa_rtz(c), 3 => Z3_mk_fpa_rna(c), _ => Z3_mk_fpa_rne(c) };
                self.ieee(Z3_mk_fpa_round_to_integral(c, rm, Z3_mk_fpa_to_fp_bv(c, a, s)), w)
            }
            K::SiToFp => { let s = self.fpsort(w); self.ieee(Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, s), w) }
            K::UiToFp => { let s = self.fpsort(w); self.ieee(Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, s), w) }
            K::FpExt | K::FpTrunc => { let (s1, s2) = (self.fpsort(aw), self.fpsort(w)); self.ieee(Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), Z3_mk_fpa_to_fp_bv(c, a, s1), s2), w) }
            K::FpToSi | K::FpToUi => {
                let s = self.fpsort(aw);
                let x = Z3_mk_fpa_to_fp_bv(c, a, s);
                let fc = |v: f64| -> Ast { let bits = if aw == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }; Z3_mk_fpa_to_fp_bv(c, self.num(bits, aw), s) };
                let (lo, hi, lov, hiv) = if n.k == K::FpToSi {
                    (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), 1u128 << (w - 1), (1u128 << (w - 1)) - 1)
                } else { (0.0, 2f64.powi(w as i32), 0, mask(w)) };
                let core = if n.k == K::FpToSi { Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, w) } else { Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, w) };
                let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, fc(hi), x), self.num(hiv, w), core);
                let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, x, fc(lo)), self.num(lov, w), r);
                Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), self.num(0, w), r)
            }
        }
    }
    /// Is pc ∧ q satisfiable? Only the constraints connected with q (by shared variables) are sent.
    /// The full path condition is satisfiable by invariant, so slicing is exact.
    pub fn check(&mut self, ar: &Arena, pc: &[E], q: E) -> Res {
        if let Some(v) = ar.as_const(q) { return if v == 1 { Res::Sat(Rc::new(vec![])) } else { Res::Unsat }; }
        let mut vs: BTreeSet<u32> = self.varset(ar, q).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if used[i] { continue; }
                let s = self.varset(ar, p);
                if s.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    ch = true;
                    for v in s.iter() { vs.insert(*v); }
                }
            }
            if !ch { break; }
        }
        let cs: Vec<E> = pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, &p)| p).collect();
        let mut key = cs.clone();
        key.sort_unstable();
        key.dedup();
        key.push(q);
        if let Some(r) = self.cache.get(&key) { self.cache_hits += 1; return r.clone(); }
        self.queries += 1;
        let t0 = std::time::Instant::now();
        let fp = ar.has_fp[q as usize] || cs.iter().any(|&x| ar.has_fp[x as usize]);
        let r = unsafe {
            let s = if fp { self.sfp } else { self.s };
            if fp {
                Z3_solver_reset(self.c, s);
                for &x in &cs { let a = self.tr(ar, x); let b = self.v2b(a); Z3_solver_assert(self.c, s, b); }
                let a = self.tr(ar, q); let b = self.v2b(a);
                Z3_solver_assert(self.c, s, b);
            } else {
                // keep the common prefix of the assertion stack
                let mut common = 0;
                while common < self.stack.len() && common < cs.len() && self.stack[common] == cs[common] { common += 1; }
                if self.stack.len() > common { Z3_solver_pop(self.c, s, (self.stack.len() - common) as c_uint); self.stack.truncate(common); }
                for &x in &cs[common..] {
                    Z3_solver_push(self.c, s);
                    let a = self.tr(ar, x); let b = self.v2b(a);
                    Z3_solver_assert(self.c, s, b);
                    self.stack.push(x);
                }
                Z3_solver_push(self.c, s);
                let a = self.tr(ar, q); let b = self.v2b(a);
                Z3_solver_assert(self.c, s, b);
            }
            let r = Z3_solver_check(self.c, s);
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut vals = vec![];
                for &v in &vs {
                    let name = CString::new(format!("v{}", v)).unwrap();
                    let w = ar.vars[v as usize].1;
                    let va = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, name.as_ptr()), Z3_mk_bv_sort(self.c, w));
                    let mut o: Ast = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, va, true, &mut o);
                    let t = CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_string_lossy();
                    vals.push((v, t.parse::<u128>().unwrap_or(0)));
                }
                Z3_model_dec_ref(self.c, m);
                self.sat += 1;
                Res::Sat(Rc::new(vals))
            } else if r == -1 { self.unsat += 1; Res::Unsat } else { self.unknown += 1; Res::Unknown };
            if let (Res::Unknown, Some(d)) = (&out, &self.dump) {
                let txt = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().to_string();
                let _ = std::fs::write(format!("{}/unknown-{}.smt2", d, self.queries), txt);
            }
            if !fp { Z3_solver_pop(self.c, s, 1); }
            out
        };
        let dt = t0.elapsed().as_micros() as u64;
        self.time_us += dt;
        self.max_us = self.max_us.max(dt);
        self.cache.insert(key, r.clone());
        r
    }
}
