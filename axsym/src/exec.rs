//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::vfs::Vfs;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct Val { pub v: u64, pub e: E }
impl Val { #[inline(always)] pub fn c(v: u64) -> Val { Val { v, e: 0 } } }

#[derive(Clone, Copy, Debug)]
pub struct Frame { pub f: u32, pub pc: u32, pub base: u32, pub n: u32, pub sp: u64 }

#[derive(Clone, Debug, PartialEq)]
pub enum TS { Run, Futex { addr: u64, deadline: Option<u64> }, Join(usize), Sleep(u64), Done }

pub struct Thread {
    pub regs: Vec<Val>,
    pub frames: Vec<Frame>,
    pub st: TS,
    pub sp: u64,
    pub dtors: Vec<(u64, u64)>,
    pub keys: BTreeMap<u32, u64>,
    pub exc: u64,
    pub detached: bool,
    /// bytes of stack
    pub stack: u64,
    /// was delayed at the point where it stands
    pub skip: bool,
}
impl Clone for Thread {
    fn clone(&self) -> Self {
        let n = self.regs.len().min(self.frames.last().map(|f| (f.base + f.n) as usize).unwrap_or(0));
        Thread { regs: self.regs[..n].to_vec(), frames: self.frames.clone(), st: self.st.clone(), sp: self.sp, dtors: self.dtors.clone(), keys: self.keys.clone(), exc: self.exc, detached: self.detached, stack: self.stack, skip: self.skip }
    }
}

#[derive(Clone, Debug)]
pub enum End { Exit(i32), Abort(String), Segv(String), Hang(String), Infeasible, Violation, Unsup(String), Limit(String), Pruned, Restarted }

#[derive(Clone, Default)]
pub struct Crash { pub on: bool, pub idx: u64, pub count: u64, pub var: E, pub taken: Vec<u64>, pub max: u64 }

pub struct State {
    pub mem: Mem,
    pub th: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<E>,
    pub model: Rc<Vec<u128>>,
    pub mid: usize,
    pub eq: BTreeMap<E, u64>,
    pub vfs: Vfs,
    pub heap: u64,
    pub clock: u64,
    pub steps: u64,
    pub depth: u32,
    pub out: Vec<u8>,
    pub notes: Rc<Vec<String>>,
    pub phase: u32,
    pub rnd: u64,
    pub crash: Crash,
    pub nvars: BTreeMap<String, E>,
    pub freelist: BTreeMap<u64, Vec<u64>>,
    pub nextkey: u32,
    pub sched: Sched,
    pub viol_seen: u32,
    pub alloc_limit: u64,
    pub opaque: bool,
    pub keydtors: BTreeMap<u32, u64>,
}
#[derive(Clone, Default)]
pub struct Sched { pub on: bool, pub budget: u32, pub idx: u32, pub trace: Vec<u32> }

impl State {
    pub fn fork(&mut self) -> State {
        State {
            mem: self.mem.fork(), th: self.th.clone(), cur: self.cur, pc: self.pc.clone(), model: self.model.clone(), mid: self.mid, eq: self.eq.clone(), vfs: self.vfs.clone(),
            heap: self.heap, clock: self.clock, steps: self.steps, depth: self.depth, out: self.out.clone(), notes: self.notes.clone(), phase: self.phase, rnd: self.rnd, crash: self.crash.clone(),
            nvars: self.nvars.clone(), freelist: self.freelist.clone(), nextkey: self.nextkey, sched: self.sched.clone(), viol_seen: self.viol_seen, alloc_limit: self.alloc_limit, opaque: self.opaque, keydtors: self.keydtors.clone(),
        }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub steps: u64, pub forks: u64, pub infeasible: u64, pub viol: u64, pub unsup: u64, pub limit: u64, pub hang: u64, pub exits: u64, pub aborts: u64, pub checks: u64, pub check_queries: u64, pub pruned: u64, pub unknown: u64, pub maxdepth: u64,
    pub sym_branches: u64,
}

pub struct Opts {
    pub max_steps: u64,
    pub max_depth: u32,
    pub deadline: std::time::Instant,
    pub out: String,
    pub workers: i64,
    pub trace: bool,
    pub verbose: bool,
    pub max_enum: usize,
    pub max_viol: u64,
    pub concrete: Option<HashMap<String, u128>>,
    pub concrete_crash: Vec<u64>,
    pub concrete_sched: Vec<u32>,
}

pub type ExtFn = fn(&mut Engine, &[Val], &mut Vec<Val>) -> Result<X, End>;
pub enum X { Ok, Block, Unwind(u64), Restart }

pub struct Engine {
    pub m: Rc<Module>,
    pub ar: Arena,
    pub z: Z3,
    pub st: State,
    pub init_mem: Mem,
    pub work: std::collections::VecDeque<State>,
    pub o: Opts,
    pub s: Stats,
    pub consts: Vec<Val>,
    pub exts: Vec<Option<ExtFn>>,
    pub reached: BTreeMap<String, u64>,
    pub viols: BTreeMap<String, u64>,
    pub ids: BTreeMap<String, (u64, u64, u64)>, // check id -> (calls, solver-decided, violated)
    pub funcs_hit: Vec<bool>,
    /// width of the number a formatting function gets, 0 for other functions
    pub numfmt: Vec<u8>,
    pub shared: *mut i64,
    pub is_child: bool,
    pub unsup_why: BTreeMap<String, u64>,
    pub next_mid: usize,
    pub args: Vec<String>,
    pub profile: Vec<u64>,
}

pub fn segv(a: u64) -> End { End::Segv(format!("invalid address {:#x}", a)) }

impl Engine {
    // ---------- expressions ----------
    #[inline(always)]
    pub fn ex(&mut self, v: Val, w: u32) -> E { if v.e != 0 { v.e } else { self.ar.cst(v.v as u128, w) } }
    #[inline(always)]
    pub fn val(&mut self, e: E) -> Val {
        if let Some(c) = self.ar.as_const(e) { if self.ar.w(e) <= 64 { return Val::c(c as u64); } }
        Val { v: 0, e }
    }
    pub fn ev(&mut self, e: E) -> u128 {
        if self.ar.last_model != self.st.mid { self.ar.last_model = self.st.mid; self.ar.new_epoch(); }
        let m = self.st.model.clone();
        self.ar.eval(e, &m)
    }
    fn upd_model(&mut self, base: &Rc<Vec<u128>>, vals: &Rc<Vec<(u32, u128)>>) -> Rc<Vec<u128>> {
        let mut m = (**base).clone();
        for (v, x) in vals.iter() { if m.len() <= *v as usize { m.resize(*v as usize + 1, 0); } m[*v as usize] = *x; }
        Rc::new(m)
    }
    pub fn add_pc(&mut self, c: E) {
        if self.ar.as_const(c) == Some(1) { return; }
        // split conjunctions
        let n = self.ar.n[c as usize];
        if n.k == K::And && n.w == 1 { self.add_pc(n.a); self.add_pc(n.b); return; }
        if !self.st.pc.contains(&c) { self.st.pc.push(c); }
    }
    /// fork the current state with constraint c (feasible with the given model values)
    fn push_fork(&mut self, c: E, vals: Rc<Vec<(u32, u128)>>) {
        let mut s = self.st.fork();
        s.model = self.upd_model(&self.st.model.clone(), &vals);
        self.next_mid += 1;
        s.mid = self.next_mid;
        s.depth += 1;
        std::mem::swap(&mut self.st, &mut s);
        self.add_pc(c);
        std::mem::swap(&mut self.st, &mut s);
        self.work.push_back(s);
        self.s.forks += 1;
        self.spawn();
    }
    fn zc(&mut self, c: E) -> Result<Res, End> {
        if std::time::Instant::now() > self.o.deadline { return Err(End::Limit("wall-clock limit".into())); }
        Ok(self.z.check(&self.ar, &self.st.pc, c))
    }
    /// decide a 1-bit condition; forks when both sides are feasible
    pub fn decide(&mut self, c: E) -> Result<bool, End> {
        if let Some(v) = self.ar.as_const(c) { return Ok(v == 1); }
        if self.st.pc.contains(&c) { return Ok(true); }
        let nc = self.ar.not(c);
        if self.st.pc.contains(&nc) { return Ok(false); }
        self.s.sym_branches += 1;
        let side = self.ev(c) == 1;
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        match self.zc(other)? {
            Res::Unsat => Ok(side),
            Res::Sat(v) => {
                if self.st.depth >= self.o.max_depth { return Err(End::Limit("depth".into())); }
                self.push_fork(other, v);
                self.st.depth += 1;
                self.add_pc(mine);
                Ok(side)
            }
            Res::Unknown => { self.s.unknown += 1; Err(End::Limit("solver returned unknown".into())) }
        }
    }
    /// enumerate: one feasible concrete value for e in this state, the others in forks
    pub fn conc(&mut self, v: Val, w: u32) -> Result<u64, End> {
        if v.e == 0 { return Ok(v.v); }
        if let Some(&x) = self.st.eq.get(&v.e) { return Ok(x); }
        let x = self.ev(v.e);
        let c = self.ar.cst(x, w);
        let eq = self.ar.bin(K::Eq, v.e, c);
        let ne = self.ar.not(eq);
        match self.zc(ne)? {
            Res::Unsat => {}
            Res::Sat(m) => {
                if self.st.depth >= self.o.max_depth { return Err(End::Limit("depth (value enumeration)".into())); }
                self.push_fork(ne, m);
                self.st.depth += 1;
                self.add_pc(eq);
            }
            Res::Unknown => { self.s.unknown += 1; return Err(End::Limit("solver returned unknown".into())); }
        }
        self.st.eq.insert(v.e, x as u64);
        Ok(x as u64)
    }
    pub fn assume(&mut self, c: E) -> Result<(), End> {
        if let Some(v) = self.ar.as_const(c) { return if v == 1 { Ok(()) } else { Err(End::Infeasible) }; }
        if self.ev(c) == 1 { self.add_pc(c); return Ok(()); }
        match self.zc(c)? {
            Res::Sat(m) => {
                let b = self.st.model.clone();
                self.st.model = self.upd_model(&b, &m);
                self.next_mid += 1;
                self.st.mid = self.next_mid;
                self.add_pc(c);
                Ok(())
            }
            Res::Unsat => Err(End::Infeasible),
            Res::Unknown => { self.s.unknown += 1; Err(End::Limit("solver returned unknown".into())) }
        }
    }
    pub fn check(&mut self, v: Val, id: &str) -> Result<(), End> {
        self.s.checks += 1;
        self.ids.entry(id.to_string()).or_default().0 += 1;
        if v.e == 0 {
            if v.v & 1 == 1 { return Ok(()); }
            self.violation(id);
            return Err(End::Violation);
        }
        let c = v.e;
        let nc = self.ar.not(c);
        self.s.check_queries += 1;
        self.ids.get_mut(id).unwrap().1 += 1;
        let bad = if self.ev(c) == 0 { Some(self.st.model.clone()) } else {
            match self.zc(nc)? {
                Res::Unsat => None,
                Res::Sat(m) => { let b = self.st.model.clone(); Some(self.upd_model(&b, &m)) }
                Res::Unknown => { self.s.unknown += 1; return Err(End::Limit("solver returned unknown (check)".into())); }
            }
        };
        if let Some(m) = bad {
            let save = (self.st.model.clone(), self.st.mid);
            self.st.model = m;
            self.next_mid += 1;
            self.st.mid = self.next_mid;
            self.violation(id);
            self.st.model = save.0;
            self.st.mid = save.1;
        }
        self.assume(c)
    }
    /// records a violation if `v` can be false, and goes on without constraining the path
    pub fn soft(&mut self, v: Val, id: &str) -> Result<(), End> {
        self.s.checks += 1;
        self.ids.entry(id.to_string()).or_default().0 += 1;
        if v.e == 0 { if v.v & 1 == 0 { self.violation(id); } return Ok(()); }
        let c = v.e;
        self.s.check_queries += 1;
        self.ids.get_mut(id).unwrap().1 += 1;
        let save = (self.st.model.clone(), self.st.mid);
        if self.ev(c) != 0 {
            let nc = self.ar.not(c);
            match self.zc(nc)? {
                Res::Unsat => return Ok(()),
                Res::Sat(m) => { let b = self.st.model.clone(); self.st.model = self.upd_model(&b, &m); self.next_mid += 1; self.st.mid = self.next_mid; }
                Res::Unknown => { self.s.unknown += 1; return Err(End::Limit("solver returned unknown (check)".into())); }
            }
        }
        self.violation(id);
        self.st.model = save.0;
        self.st.mid = save.1;
        Ok(())
    }
    pub fn violation(&mut self, id: &str) {
        self.s.viol += 1;
        self.st.viol_seen += 1;
        if let Some(x) = self.ids.get_mut(id) { x.2 += 1; }
        let k = self.viols.entry(id.to_string()).or_default();
        *k += 1;
        if *k > self.o.max_viol { return; }
        self.emit_state("viol", id);
    }
    fn emit_state(&mut self, kind: &str, id: &str) {
        let mut vars = String::new();
        let nv: Vec<(String, E)> = self.st.nvars.iter().map(|(k, v)| (k.clone(), *v)).collect();
        for (n, e) in nv { let x = self.ev(e); vars.push_str(&format!("{}{}:\"{}\"", if vars.is_empty() { "" } else { "," }, js(&n), x)); }
        let crash: Vec<String> = self.st.crash.taken.iter().map(|x| x.to_string()).collect();
        let sched: Vec<String> = self.st.sched.trace.iter().map(|x| x.to_string()).collect();
        let notes: Vec<String> = self.st.notes.iter().map(|x| js(x)).collect();
        let tail: Vec<u8> = self.st.out.iter().rev().take(1500).rev().copied().collect();
        let s = format!("{{\"t\":\"{}\",\"id\":{},\"vars\":{{{}}},\"crash\":[{}],\"sched\":[{}],\"phase\":{},\"notes\":[{}],\"out\":{}}}\n", kind, js(id), vars, crash.join(","), sched.join(","), self.st.phase, notes.join(","), js(&String::from_utf8_lossy(&tail)));
        self.emit(&s);
    }
    pub fn emit(&self, s: &str) {
        use std::io::Write;
        if self.o.out.is_empty() { print!("{}", s); return; }
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(&self.o.out) { let _ = f.write_all(s.as_bytes()); }
    }

    // ---------- memory ----------
    pub fn load(&mut self, a: u64, w: u32) -> Val {
        let n = (w + 7) / 8;
        if n <= 8 { if let Some(v) = self.st.mem.read_u64(a, n) { return Val::c(if w % 8 == 0 { v } else { v & mask64(w) }); } }
        let mut bytes = [(0u8, 0 as E); 32];
        let mut any = false;
        for i in 0..n { bytes[i as usize] = self.st.mem.byte(a + i as u64); any |= bytes[i as usize].1 != 0; }
        if !any && n <= 8 { let mut v = 0u64; for i in (0..n).rev() { v = v << 8 | bytes[i as usize].0 as u64; } return Val::c(v & mask64(w)); }
        if !any { let mut v = 0u128; for i in (0..n).rev() { v = v << 8 | bytes[i as usize].0 as u128; } let e = self.ar.cst(v, w); return Val { v: 0, e }; }
        let mut e = 0;
        for i in (0..n).rev() {
            let (b, s) = bytes[i as usize];
            let x = if s != 0 { s } else { self.ar.cst(b as u128, 8) };
            e = if e == 0 { x } else { self.ar.concat(e, x) };
        }
        if self.ar.w(e) != w { e = self.ar.extract(e, 0, w); }
        self.val(e)
    }
    pub fn store(&mut self, a: u64, w: u32, v: Val) {
        let n = (w + 7) / 8;
        if v.e == 0 { self.st.mem.write_u64(a, n, v.v & mask64(w)); return; }
        let mut e = v.e;
        if self.ar.w(e) < n * 8 { e = self.ar.zext(e, n * 8); }
        if self.ar.w(e) > n * 8 { e = self.ar.extract(e, 0, n * 8); }
        for i in 0..n {
            let b = self.ar.extract(e, i * 8, 8);
            match self.ar.as_const(b) { Some(c) => self.st.mem.set_byte(a + i as u64, c as u8, 0), None => self.st.mem.set_byte(a + i as u64, 0, b) }
        }
    }
    #[inline(always)]
    pub fn okaddr(a: u64) -> bool { a >= 0x10000 && a < ADDR_LIMIT - 65536 }
    fn leaves_of(&self, e: E, add: u64, out: &mut Vec<u64>) -> bool {
        if out.len() > 64 { return false; }
        let n = self.ar.n[e as usize];
        match n.k {
            K::Const => { out.push((self.ar.consts[n.a as usize] as u64).wrapping_add(add)); true }
            K::Ite => self.leaves_of(n.b, add, out) && self.leaves_of(n.c, add, out),
            K::Add => match self.ar.as_const(n.b) { Some(c) => self.leaves_of(n.a, add.wrapping_add(c as u64), out), None => false },
            _ => false,
        }
    }
    /// load through a symbolic pointer: ite over all feasible addresses when few, otherwise enumerate by forking
    fn load_sym(&mut self, a: Val, off: u64, w: u32) -> Result<Val, End> {
        if let Some(&x) = self.st.eq.get(&a.e) { let x = x.wrapping_add(off); if !Self::okaddr(x) { return Err(segv(x)); } return Ok(self.load(x, w)); }
        let mut vals = vec![];
        if !self.leaves_of(a.e, 0, &mut vals) {
            vals.clear();
            let x = self.ev(a.e) as u64;
            vals.push(x);
            let c = self.ar.cst(x as u128, 64);
            let eq = self.ar.bin(K::Eq, a.e, c);
            let mut q = self.ar.not(eq);
            loop {
                match self.zc(q)? {
                    Res::Unsat => break,
                    Res::Unknown => { self.s.unknown += 1; return Err(End::Limit("solver returned unknown (pointer)".into())); }
                    Res::Sat(m) => {
                        if vals.len() >= 48 { let x = self.conc(a, 64)?.wrapping_add(off); if !Self::okaddr(x) { return Err(segv(x)); } return Ok(self.load(x, w)); }
                        let base = self.st.model.clone();
                        let mm = self.upd_model(&base, &m);
                        self.ar.new_epoch();
                        let y = self.ar.eval(a.e, &mm) as u64;
                        self.ar.new_epoch();
                        if vals.contains(&y) { return Err(End::Limit("inconsistent model for pointer".into())); }
                        vals.push(y);
                        let c = self.ar.cst(y as u128, 64);
                        let eq = self.ar.bin(K::Eq, a.e, c);
                        let ne = self.ar.not(eq);
                        q = self.ar.bin(K::And, q, ne);
                    }
                }
            }
        }
        vals.sort_unstable();
        vals.dedup();
        if vals.iter().any(|v| !Self::okaddr(v.wrapping_add(off))) {
            // some leaf may be invalid: fall back to exact enumeration
            let x = self.conc(a, 64)?.wrapping_add(off);
            if !Self::okaddr(x) { return Err(segv(x)); }
            return Ok(self.load(x, w));
        }
        let mut r = 0;
        for &x in vals.iter().rev() {
            let v = self.load(x.wrapping_add(off), w);
            let e = self.ex(v, w);
            if r == 0 { r = e; } else {
                let c = self.ar.cst(x as u128, 64);
                let eq = self.ar.bin(K::Eq, a.e, c);
                r = self.ar.ite(eq, e, r);
            }
        }
        Ok(self.val(r))
    }

    // ---------- state set-up ----------
    pub fn reset_image(&mut self) {
        // fresh process image, keeping VFS, ghost memory, path condition
        let mut ghost = vec![];
        for i in 0..(GHOST_SIZE / PS as u64) { let (d, s) = self.st.mem.read_bytes(GHOST_BASE + i * PS as u64, PS); if s.is_some() || d.iter().any(|&b| b != 0) { ghost.push((GHOST_BASE + i * PS as u64, d, s)); } }
        let mut mem = self.init_mem.fork();
        for (a, d, s) in ghost { mem.write_mixed(a, &d, &s); }
        self.st.mem = mem;
        self.st.th.clear();
        self.st.heap = HEAP_BASE;
        self.st.freelist.clear();
        self.st.vfs.close_all();
        self.st.crash.on = false;
        self.st.nextkey = 1;
        self.st.keydtors.clear();
        self.boot();
    }
    pub fn boot(&mut self) {
        // argv
        let mut a = HEAP_BASE;
        let mut ptrs = vec![];
        for s in self.args.clone() { let mut b = s.into_bytes(); b.push(0); self.st.mem.write_bytes(a, &b); ptrs.push(a); a += (b.len() as u64 + 15) & !15; }
        let argv = a;
        for (i, p) in ptrs.iter().enumerate() { self.st.mem.write_u64(argv + 8 * i as u64, 8, *p); }
        self.st.mem.write_u64(argv + 8 * ptrs.len() as u64, 8, 0);
        self.st.heap = (argv + 8 * ptrs.len() as u64 + 64 + 4095) & !4095;
        let main = *self.m.fidx.get("main").expect("main");
        let argc = ptrs.len() as u64;
        let t = self.new_thread(main, &[Val::c(argc), Val::c(argv)]);
        self.st.cur = t;
    }
    pub fn new_thread(&mut self, f: u32, args: &[Val]) -> usize {
        let tid = self.st.th.len();
        let base = TLS_BASE + tid as u64 * TLS_STRIDE;
        let n = self.m.tls_size;
        if n > 0 { let (d, _) = self.init_mem.read_bytes(TLS_TEMPLATE, n as usize); self.st.mem.write_bytes(base, &d); }
        let sp = STACK_BASE + tid as u64 * STACK_SIZE + 4096;
        let mut th = Thread { regs: vec![], frames: vec![], st: TS::Run, sp, dtors: vec![], keys: BTreeMap::new(), exc: 0, detached: false, stack: 8 << 20, skip: false };
        let m = self.m.clone();
        let fu = &m.funcs[f as usize];
        th.regs.resize(fu.nregs as usize + 64, Val::c(0));
        for (i, (r, _)) in fu.pregs.iter().enumerate() { th.regs[*r as usize] = args.get(i).copied().unwrap_or(Val::c(0)); }
        th.frames.push(Frame { f, pc: 0, base: 0, n: fu.nregs, sp });
        self.funcs_hit[f as usize] = true;
        self.st.th.push(th);
        tid
    }
    /// push a call of f on the current thread (used for thread-exit destructors)
    fn push_call(&mut self, f: u32, args: &[Val]) {
        let m = self.m.clone();
        let fu = &m.funcs[f as usize];
        let t = &mut self.st.th[self.st.cur];
        let base = 0;
        if t.regs.len() < fu.nregs as usize + 64 { t.regs.resize(fu.nregs as usize + 64, Val::c(0)); }
        for (i, (r, _)) in fu.pregs.iter().enumerate() { t.regs[base + *r as usize] = args.get(i).copied().unwrap_or(Val::c(0)); }
        let sp = t.sp;
        t.frames.push(Frame { f, pc: 0, base: base as u32, n: fu.nregs, sp });
        self.funcs_hit[f as usize] = true;
    }
    pub fn fn_at(&self, a: u64) -> Option<u32> {
        if a < CODE_BASE || (a - CODE_BASE) % 16 != 0 { return None; }
        let i = (a - CODE_BASE) / 16;
        if (i as usize) < self.m.funcs.len() { Some(i as u32) } else { None }
    }
    pub fn tls_base(&self) -> u64 { TLS_BASE + self.st.cur as u64 * TLS_STRIDE }
    pub fn set_errno(&mut self, e: i32) { let a = self.tls_base() + 0xF0000; self.st.mem.write_u64(a, 4, e as u32 as u64); }

    // ---------- threads ----------
    /// pick the next runnable thread; false when the process is stuck
    pub fn schedule(&mut self, from: usize) -> Result<(), End> {
        let n = self.st.th.len();
        for k in 1..=n {
            let t = (from + k) % n;
            if self.st.th[t].st != TS::Run { continue; }
            self.st.cur = t;
            // the thread whose turn it is may be passed over
            if self.st.sched.on { if let Some(nx) = self.next_run(t) { if self.delay(nx) { self.st.cur = nx; } } }
            return Ok(());
        }
        // advance the virtual clock to the earliest deadline
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in self.st.th.iter().enumerate() {
            let d = match t.st { TS::Futex { deadline: Some(d), .. } => Some(d), TS::Sleep(d) => Some(d), _ => None };
            if let Some(d) = d { if best.map_or(true, |b| d < b.0) { best = Some((d, i)); } }
        }
        match best {
            Some((d, i)) => {
                self.st.clock = self.st.clock.max(d) + 1;
                self.st.cur = i;
                let sl = matches!(self.st.th[i].st, TS::Sleep(_));
                self.st.th[i].st = TS::Run;
                if sl { self.finish_call(i, Val::c(0)); } else { self.set_errno(110); self.finish_call(i, Val::c(u64::MAX)); }
                Ok(())
            }
            None => Err(End::Hang("deadlock: every thread is blocked without a timeout".into())),
        }
    }
    fn next_run(&self, from: usize) -> Option<usize> {
        let n = self.st.th.len();
        (1..n).map(|k| (from + k) % n).find(|t| self.st.th[*t].st == TS::Run)
    }
    /// one more place where another thread may go first: a fork in which nx does, or the recorded choice
    fn delay(&mut self, nx: usize) -> bool {
        self.st.sched.idx += 1;
        let i = self.st.sched.idx;
        if self.o.concrete.is_some() { return self.o.concrete_sched.contains(&i); }
        if self.st.sched.budget == 0 { return false; }
        let mut s = self.st.fork();
        s.sched.budget -= 1;
        s.sched.trace.push(i);
        s.cur = nx;
        s.depth += 1;
        self.s.forks += 1;
        self.work.push_back(s);
        self.spawn();
        false
    }
    /// the current thread is about to take a lock: another runnable one may go first
    fn delay_here(&mut self) -> bool {
        let cur = self.st.cur;
        if std::mem::take(&mut self.st.th[cur].skip) { return false; }
        let Some(nx) = self.next_run(cur) else { return false };
        self.st.th[cur].skip = true;
        if self.delay(nx) { self.st.cur = nx; return true; }
        self.st.th[cur].skip = false;
        false
    }
    /// complete the blocked extern call on top of thread t
    pub fn finish_call(&mut self, t: usize, v: Val) {
        let m = self.m.clone();
        let fr = *self.st.th[t].frames.last().unwrap();
        if let I::Call(c) = &m.funcs[fr.f as usize].code[fr.pc as usize] {
            let th = &mut self.st.th[t];
            if c.nd > 0 { th.regs[fr.base as usize + c.d as usize] = Val { v: v.v & mask64(c.rw as u32), e: v.e }; }
            match &c.inv {
                None => th.frames.last_mut().unwrap().pc += 1,
                Some(b) => { let e = b.0.clone(); self.take_edge_t(t, &e); }
            }
        } else { panic!("finish_call: not a call"); }
    }
    fn take_edge_t(&mut self, t: usize, e: &Edge) {
        let th = &mut self.st.th[t];
        let base = th.frames.last().unwrap().base as usize;
        let vals: Vec<Val> = e.moves.iter().map(|(_, o)| if *o >= 0 { th.regs[base + *o as usize] } else { self.consts[(!*o) as usize] }).collect();
        for ((d, _), v) in e.moves.iter().zip(vals) { th.regs[base + *d as usize] = v; }
        th.frames.last_mut().unwrap().pc = e.pc;
    }
    /// pop frames until an invoke; exc is the exception object
    fn unwind(&mut self, exc: u64, skip_top: bool) -> Result<bool, End> {
        let cur = self.st.cur;
        let m = self.m.clone();
        if skip_top { let f = self.st.th[cur].frames.pop().unwrap(); self.st.th[cur].sp = f.sp; }
        // find first whether anyone catches
        while let Some(fr) = self.st.th[cur].frames.last().copied() {
            if let I::Call(c) = &m.funcs[fr.f as usize].code[fr.pc as usize] {
                if let Some(b) = &c.inv {
                    let e = b.1.clone();
                    self.st.th[cur].exc = exc;
                    self.take_edge_t(cur, &e);
                    return Ok(true);
                }
            }
            let f = self.st.th[cur].frames.pop().unwrap();
            self.st.th[cur].sp = f.sp;
        }
        Ok(false)
    }
    pub fn backtrace(&self) -> String {
        let mut s = String::new();
        if let Some(t) = self.st.th.get(self.st.cur) { for f in t.frames.iter().rev().take(12) { s.push_str(&format!("{}@{} < ", short(&self.m.funcs[f.f as usize].name), f.pc)); } }
        s
    }

    // ---------- exploration ----------
    pub fn explore(&mut self) {
        loop {
            let end = self.run();
            self.end_path(end);
            if std::time::Instant::now() > self.o.deadline && !self.work.is_empty() {
                self.s.limit += self.work.len() as u64;
                *self.unsup_why.entry("wall-clock limit".into()).or_default() += self.work.len() as u64;
                self.work.clear();
            }
            match self.work.pop_back() { Some(s) => self.st = s, None => break }
            self.spawn();
        }
        self.summary();
    }
    fn end_path(&mut self, end: End) {
        self.s.paths += 1;
        self.s.steps += self.st.steps;
        self.s.maxdepth = self.s.maxdepth.max(self.st.depth as u64);
        if self.o.verbose { eprintln!("[{}] path end {:?} steps {} depth {} pc {} phase {} work {}", std::process::id(), end, self.st.steps, self.st.depth, self.st.pc.len(), self.st.phase, self.work.len()); }
        match end {
            End::Exit(0) => { self.s.exits += 1; if self.st.viol_seen == 0 && matches!(self.s.exits, 1 | 10 | 100) { self.emit_state("path", ""); } }
            End::Exit(c) => { self.s.exits += 1; self.st.notes = Rc::new({ let mut v = (*self.st.notes).clone(); v.push(format!("exit code {}", c)); v }); self.violation("uncaught-panic"); }
            End::Abort(w) => { self.s.aborts += 1; self.note(format!("abort: {} [{}]", w, self.backtrace())); self.violation("abort"); }
            End::Segv(w) => { self.s.aborts += 1; self.note(format!("segv: {} [{}]", w, self.backtrace())); self.violation("memory-fault"); }
            End::Hang(w) => { self.s.hang += 1; self.note(format!("hang: {} [{}]", w, self.backtrace())); self.violation("hang"); }
            End::Infeasible => self.s.infeasible += 1,
            End::Pruned | End::Restarted => self.s.pruned += 1,
            End::Violation => {}
            End::Unsup(w) => { self.s.unsup += 1; let k = format!("unsupported: {} [{}]", w, self.backtrace()); *self.unsup_why.entry(k).or_default() += 1; }
            End::Limit(w) => { self.s.limit += 1; let k = format!("limit: {} [{}]", w, self.backtrace()); *self.unsup_why.entry(k).or_default() += 1; }
        }
    }
    pub fn note(&mut self, s: String) { if self.o.verbose { eprintln!("  note: {}", s); } let mut v = (*self.st.notes).clone(); v.push(s); self.st.notes = Rc::new(v); }
    fn spawn(&mut self) {
        if self.o.workers <= 1 || self.work.is_empty() { return; }
        unsafe {
            let a = std::sync::atomic::AtomicI64::from_ptr(self.shared);
            use std::sync::atomic::Ordering::SeqCst;
            while !self.work.is_empty() && a.load(SeqCst) < self.o.workers {
                if a.fetch_add(1, SeqCst) >= self.o.workers { a.fetch_sub(1, SeqCst); return; }
                let pid = libc_fork();
                if pid < 0 { a.fetch_sub(1, SeqCst); return; }
                if pid == 0 {
                    self.is_child = true;
                    let s = self.work.pop_front().unwrap();
                    std::mem::forget(std::mem::take(&mut self.work));
                    self.s = Stats::default();
                    self.reached.clear();
                    self.viols.clear();
                    self.ids.clear();
                    self.unsup_why.clear();
                    self.z.queries = 0; self.z.cache_hits = 0; self.z.sat = 0; self.z.unsat = 0; self.z.unknown = 0; self.z.time_us = 0; self.z.max_us = 0;
                    self.funcs_hit.fill(false);
                    std::mem::forget(std::mem::replace(&mut self.st, s));
                    self.explore();
                    a.fetch_sub(1, SeqCst);
                    wait_all();
                    libc_exit(0);
                }
                let mut s = self.work.pop_front().unwrap();
                s.mem.flush_tlb();
                drop(s);
            }
        }
    }
    fn summary(&mut self) {
        let s = self.s.clone();
        let mp = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
        let ids = self.ids.iter().map(|(k, v)| format!("{}:[{},{},{}]", js(k), v.0, v.1, v.2)).collect::<Vec<_>>().join(",");
        let fh: Vec<String> = self.funcs_hit.iter().enumerate().filter(|x| *x.1).map(|x| x.0.to_string()).collect();
        let line = format!("{{\"t\":\"sum\",\"paths\":{},\"steps\":{},\"forks\":{},\"infeasible\":{},\"viol\":{},\"unsup\":{},\"limit\":{},\"hang\":{},\"exits\":{},\"aborts\":{},\"checks\":{},\"check_queries\":{},\"pruned\":{},\"sym_branches\":{},\"maxdepth\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_us\":{},\"solver_max_us\":{},\"reached\":{{{}}},\"ids\":{{{}}},\"why\":{{{}}},\"funcs\":[{}]}}\n",
            s.paths, s.steps, s.forks, s.infeasible, s.viol, s.unsup, s.limit, s.hang, s.exits, s.aborts, s.checks, s.check_queries, s.pruned, s.sym_branches, s.maxdepth, self.z.queries, self.z.cache_hits, self.z.sat, self.z.unsat, self.z.unknown, self.z.time_us, self.z.max_us, mp(&self.reached), ids, mp(&self.unsup_why), fh.join(","));
        self.emit(&line);
    }

    // ---------- the interpreter ----------
    pub fn run(&mut self) -> End {
        match self.run_inner() { Ok(e) => e, Err(e) => e }
    }
    fn run_inner(&mut self) -> Result<End, End> {
        let m = self.m.clone();
        let consts: *const Val = self.consts.as_ptr();
        let mut rets: Vec<Val> = Vec::with_capacity(8);
        let mut argv: Vec<Val> = Vec::with_capacity(16);
        let max_steps = self.o.max_steps;
        'thread: loop {
            let cur = self.st.cur;
            let mut fr = *self.st.th[cur].frames.last().unwrap();
            let mut code: *const I = m.funcs[fr.f as usize].code.as_ptr();
            let mut regs: *mut Val = unsafe { self.st.th[cur].regs.as_mut_ptr().add(fr.base as usize) };
            let mut pc = fr.pc as usize;
            let mut steps = self.st.steps;
            macro_rules! g { ($o:expr) => {{ let o: O = $o; unsafe { if o >= 0 { *regs.add(o as usize) } else { *consts.add((!o) as usize) } } }}; }
            macro_rules! set { ($d:expr, $v:expr) => {{ let v: Val = $v; unsafe { *regs.add($d as usize) = v; } }}; }
            macro_rules! sync { () => {{ self.st.th[cur].frames.last_mut().unwrap().pc = pc as u32; self.st.steps = steps; }}; }
            macro_rules! reload { () => {{
                fr = *self.st.th[cur].frames.last().unwrap();
                code = m.funcs[fr.f as usize].code.as_ptr();
                regs = unsafe { self.st.th[cur].regs.as_mut_ptr().add(fr.base as usize) };
                pc = fr.pc as usize;
            }}; }
            macro_rules! edge { ($e:expr) => {{
                let e: &Edge = $e;
                if !e.moves.is_empty() {
                    if e.hazard {
                        argv.clear();
                        for (_, o) in e.moves.iter() { argv.push(g!(*o)); }
                        for ((d, _), v) in e.moves.iter().zip(argv.iter()) { set!(*d, *v); }
                    } else { for (d, o) in e.moves.iter() { let v = g!(*o); set!(*d, v); } }
                }
                pc = e.pc as usize;
            }}; }
            macro_rules! addr { ($a:expr, $off:expr) => {{
                let v: Val = $a;
                let b = if v.e == 0 { v.v } else { sync!(); self.conc(v, 64)? };
                let x = b.wrapping_add($off);
                if !Self::okaddr(x) { sync!(); return Err(segv(x)); }
                x
            }}; }
            loop {
                steps += 1;
                if steps & 0xfffff == 0 {
                    self.st.steps = steps;
                    sync!();
                    if steps > max_steps { return Err(End::Hang(format!("more than {} instructions", max_steps))); }
                    if std::time::Instant::now() > self.o.deadline { return Err(End::Limit("wall-clock limit".into())); }
                    self.spawn();
                }
                let ins = unsafe { &*code.add(pc) };
                match ins {
                    I::Bin { k, w, d, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        let w = *w as u32;
                        if x.e | y.e == 0 && w <= 64 {
                            let r = match k {
                                K::Add => x.v.wrapping_add(y.v) & mask64(w),
                                K::Sub => x.v.wrapping_sub(y.v) & mask64(w),
                                K::And => x.v & y.v,
                                K::Or => x.v | y.v,
                                K::Xor => x.v ^ y.v,
                                K::Mul => x.v.wrapping_mul(y.v) & mask64(w),
                                K::Shl => if y.v >= w as u64 { 0 } else { (x.v << y.v) & mask64(w) },
                                K::LShr => if y.v >= w as u64 { 0 } else { x.v >> y.v },
                                K::UDiv => if y.v == 0 { sync!(); return Err(End::Abort("division by zero".into())) } else { x.v / y.v },
                                K::URem => if y.v == 0 { sync!(); return Err(End::Abort("division by zero".into())) } else { x.v % y.v },
                                _ => Arena::eval_bin(*k, w, x.v as u128, y.v as u128) as u64,
                            };
                            set!(*d, Val::c(r));
                        } else {
                            let (ex, ey) = (self.ex(x, w), self.ex(y, w));
                            if *k == K::FRem && (self.ar.as_const(ex).is_none() || self.ar.as_const(ey).is_none()) { sync!(); return Err(End::Unsup("symbolic frem".into())); }
                            let r = self.ar.bin(*k, ex, ey);
                            let v = self.val(r);
                            set!(*d, v);
                        }
                        pc += 1;
                    }
                    I::Icmp { k, neg, w, d, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        let w = *w as u32;
                        if x.e | y.e == 0 && w <= 64 {
                            let r = match k {
                                K::Eq => x.v == y.v,
                                K::Ult => x.v < y.v,
                                K::Ule => x.v <= y.v,
                                _ => { let s = 64 - w; let (p, q) = (((x.v << s) as i64) >> s, ((y.v << s) as i64) >> s); if *k == K::Slt { p < q } else { p <= q } }
                            };
                            set!(*d, Val::c((r ^ *neg) as u64));
                        } else {
                            let (ex, ey) = (self.ex(x, w), self.ex(y, w));
                            let mut r = self.ar.bin(*k, ex, ey);
                            if *neg { r = self.ar.not(r); }
                            let v = self.val(r);
                            set!(*d, v);
                        }
                        pc += 1;
                    }
                    I::Load { w, d, a, off } => {
                        let av = g!(*a);
                        let w = *w as u32;
                        if av.e == 0 {
                            let x = av.v.wrapping_add(*off as u64);
                            if !Self::okaddr(x) { sync!(); return Err(segv(x)); }
                            let n = (w + 7) / 8;
                            if w <= 64 && w & 7 == 0 { if let Some(v) = self.st.mem.read_u64(x, n) { set!(*d, Val::c(v)); pc += 1; continue; } }
                            let v = self.load(x, w);
                            set!(*d, v);
                        } else {
                            sync!();
                            let v = self.load_sym(av, *off as u64, w)?;
                            set!(*d, v);
                        }
                        pc += 1;
                    }
                    I::Store { w, v, a, off } => {
                        let x = addr!(g!(*a), *off as u64);
                        let vv = g!(*v);
                        let w = *w as u32;
                        if vv.e == 0 { self.st.mem.write_u64(x, (w + 7) / 8, vv.v); } else { self.store(x, w, vv); }
                        pc += 1;
                    }
                    I::GepC { d, a, off } => {
                        let x = g!(*a);
                        if x.e == 0 { set!(*d, Val::c(x.v.wrapping_add(*off as u64))); }
                        else { let c = self.ar.cst(*off as u64 as u128, 64); let r = self.ar.bin(K::Add, x.e, c); let v = self.val(r); set!(*d, v); }
                        pc += 1;
                    }
                    I::Gep { d, a, off, i, sc, iw } => {
                        let (x, y) = (g!(*a), g!(*i));
                        if x.e | y.e == 0 {
                            let s = 64 - *iw as u32;
                            let ix = ((y.v << s) as i64) >> s;
                            set!(*d, Val::c(x.v.wrapping_add((ix.wrapping_mul(*sc)) as u64).wrapping_add(*off as u64)));
                        } else {
                            let mut ie = self.ex(y, *iw as u32);
                            ie = self.ar.sext(ie, 64);
                            let s = self.ar.cst(*sc as u64 as u128, 64);
                            let p = self.ar.bin(K::Mul, ie, s);
                            let xe = self.ex(x, 64);
                            let t = self.ar.bin(K::Add, xe, p);
                            let c = self.ar.cst(*off as u64 as u128, 64);
                            let r = self.ar.bin(K::Add, t, c);
                            let v = self.val(r);
                            set!(*d, v);
                        }
                        pc += 1;
                    }
                    I::Mov { d, a } => { let v = g!(*a); set!(*d, v); pc += 1; }
                    I::Br(e) => edge!(&**e),
                    I::CBr(c, e) => {
                        let v = g!(*c);
                        let t = if v.e == 0 { v.v & 1 == 1 } else { sync!(); self.decide(v.e)? };
                        if t { edge!(&e.0) } else { edge!(&e.1) }
                    }
                    I::Trunc { w, fw: _, d, a } => {
                        let x = g!(*a);
                        let w = *w as u32;
                        if x.e == 0 { set!(*d, Val::c(x.v & mask64(w))); } else { let r = self.ar.extract(x.e, 0, w); let v = self.val(r); set!(*d, if w > 64 { Val { v: 0, e: r } } else { v }); }
                        pc += 1;
                    }
                    I::Zext { w, fw, d, a } => {
                        let x = g!(*a);
                        if x.e == 0 && *w <= 64 { set!(*d, x); } else { let e = self.ex(x, *fw as u32); let r = self.ar.zext(e, *w as u32); let v = self.val(r); set!(*d, v); }
                        pc += 1;
                    }
                    I::Sext { w, fw, d, a } => {
                        let x = g!(*a);
                        if x.e == 0 && *w <= 64 { let s = 64 - *fw as u32; set!(*d, Val::c((((x.v << s) as i64) >> s) as u64 & mask64(*w as u32))); }
                        else { let e = self.ex(x, *fw as u32); let r = self.ar.sext(e, *w as u32); let v = self.val(r); set!(*d, v); }
                        pc += 1;
                    }
                    I::Conv { k, w, fw, d, a } => {
                        let x = g!(*a);
                        let e = self.ex(x, *fw as u32);
                        let r = self.ar.un(*k, e, *w as u32, 0);
                        let v = self.val(r);
                        set!(*d, v);
                        pc += 1;
                    }
                    I::Fcmp { p, w, d, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        let w = *w as u32;
                        let (ex, ey) = (self.ex(x, w), self.ex(y, w));
                        let r = self.fcmp(*p, ex, ey);
                        let v = self.val(r);
                        set!(*d, v);
                        pc += 1;
                    }
                    I::FNeg { w, d, a } => {
                        let x = g!(*a);
                        let w = *w as u32;
                        let e = self.ex(x, w);
                        let s = self.ar.cst(1u128 << (w - 1), w);
                        let r = self.ar.bin(K::Xor, e, s);
                        let v = self.val(r);
                        set!(*d, v);
                        pc += 1;
                    }
                    I::Select { w, d, c, a, b } => {
                        let cv = g!(*c);
                        if cv.e == 0 { let v = if cv.v & 1 == 1 { g!(*a) } else { g!(*b) }; set!(*d, v); }
                        else {
                            let (x, y) = (g!(*a), g!(*b));
                            let (ex, ey) = (self.ex(x, *w as u32), self.ex(y, *w as u32));
                            let r = self.ar.ite(cv.e, ex, ey);
                            let v = self.val(r);
                            set!(*d, v);
                        }
                        pc += 1;
                    }
                    I::Alloca { d, size, n, al } => {
                        let nv = g!(*n);
                        let nn = if nv.e == 0 { nv.v } else { sync!(); self.conc(nv, 64)? };
                        let t = &mut self.st.th[cur];
                        let p = (t.sp + al - 1) / al * al;
                        t.sp = p + (size * nn).max(1);
                        // a frame takes 64 bytes more than its variables
                        let lim = STACK_BASE + cur as u64 * STACK_SIZE + t.stack - 64 * t.frames.len() as u64;
                        if t.sp > lim { sync!(); return Err(End::Abort("stack overflow".into())); }
                        set!(*d, Val::c(p));
                        pc += 1;
                    }
                    I::Switch(s) => {
                        let (o, w, cases, edges) = &**s;
                        let v = g!(*o);
                        if v.e == 0 {
                            let ix = match cases.binary_search_by(|c| c.0.cmp(&(v.v as u128))) { Ok(i) => cases[i].1, Err(_) => 0 };
                            edge!(&edges[ix as usize]);
                        } else {
                            sync!();
                            // decide edge by edge (cases with the same target are one decision)
                            let cv = self.ev(v.e);
                            let mine = match cases.binary_search_by(|c| c.0.cmp(&cv)) { Ok(i) => cases[i].1, Err(_) => 0 };
                            let mut cond = self.ar.fls();
                            let w = *w as u32;
                            for (c, t) in cases.iter() {
                                if (mine != 0 && *t == mine) || (mine == 0 && *t != 0) {
                                    let ce = self.ar.cst(*c, w);
                                    let q = self.ar.bin(K::Eq, v.e, ce);
                                    cond = self.ar.bin(K::Or, cond, q);
                                }
                            }
                            if mine == 0 { cond = self.ar.not(cond); }
                            // the fork (if any) re-executes the switch with this target excluded
                            let t = self.decide(cond)?;
                            debug_assert!(t);
                            edge!(&edges[mine as usize]);
                        }
                    }
                    I::Call(c) => {
                        let fi = match &c.callee {
                            Callee::F(i) => Ok(*i),
                            Callee::Ext(e) => Err(*e),
                            Callee::Ind(o) => {
                                let v = g!(*o);
                                let a = if v.e == 0 { v.v } else { sync!(); self.conc(v, 64)? };
                                match self.fn_at(a) {
                                    Some(i) => if m.funcs[i as usize].defined { Ok(i) } else { match m.ext.iter().position(|x| *x == m.funcs[i as usize].name) { Some(e) => Err(e as u32), None => { sync!(); return Err(End::Unsup(format!("indirect call to {}", m.funcs[i as usize].name))) } } },
                                    None => { sync!(); return Err(End::Segv(format!("call of {:#x}", a))); }
                                }
                            }
                        };
                        match fi {
                            Ok(i) => {
                                sync!();
                                let fu = &m.funcs[i as usize];
                                let cn = m.funcs[fr.f as usize].nregs;
                                let nb = fr.base + cn;
                                let need = (nb + fu.nregs) as usize + 64;
                                let th = &mut self.st.th[cur];
                                if th.regs.len() < need { th.regs.resize(need + 4096, Val::c(0)); regs = unsafe { th.regs.as_mut_ptr().add(fr.base as usize) }; }
                                let nregs = unsafe { th.regs.as_mut_ptr().add(nb as usize) };
                                if fu.pregs.len() != c.args.len() && fu.pregs.len() > c.args.len() { return Err(End::Unsup(format!("argument mismatch calling {}", fu.name))); }
                                for (k, (r, _)) in fu.pregs.iter().enumerate() { unsafe { *nregs.add(*r as usize) = g!(c.args[k]); } }
                                let nw = if self.st.opaque { self.numfmt[i as usize] } else { 0 };
                                if nw != 0 {
                                    // text of a symbolic number: that of one of its values
                                    let p = g!(c.args[0]);
                                    if p.e == 0 && Engine::okaddr(p.v) {
                                        let v = self.load(p.v, nw as u32);
                                        if v.e != 0 {
                                            let x = self.ev(v.e) as u64;
                                            let q = crate::ext::alloc(self, 16, 16)?;
                                            self.st.mem.write_u64(q, 8, x);
                                            unsafe { *nregs.add(fu.pregs[0].0 as usize) = Val::c(q); }
                                        }
                                    }
                                }
                                let th = &mut self.st.th[cur];
                                let sp = th.sp;
                                if th.frames.len() as u64 * 64 + (sp - STACK_BASE - cur as u64 * STACK_SIZE) > th.stack { return Err(End::Abort("stack overflow (call depth)".into())); }
                                th.frames.push(Frame { f: i, pc: 0, base: nb, n: fu.nregs, sp });
                                self.funcs_hit[i as usize] = true;
                                if self.o.trace { eprintln!("{}> {}", " ".repeat(self.st.th[cur].frames.len().min(60)), short(&fu.name)); }
                                reload!();
                            }
                            Err(x) => {
                                argv.clear();
                                for o in c.args.iter() { argv.push(g!(*o)); }
                                sync!();
                                rets.clear();
                                let f = match self.exts[x as usize] { Some(f) => f, None => return Err(End::Unsup(format!("extern {}", m.ext[x as usize]))) };
                                let res = match f(self, &argv, &mut rets) { Err(End::Restarted) => continue 'thread, r => r? };
                                match res {
                                    X::Ok => {
                                        // registers may have been reallocated only by thread creation of others; reload to be safe
                                        regs = unsafe { self.st.th[cur].regs.as_mut_ptr().add(fr.base as usize) };
                                        for k in 0..c.nd as usize { let v = rets.get(k).copied().unwrap_or(Val::c(0)); set!(c.d + k as u32, Val { v: v.v & if k == 0 { mask64(c.rw as u32) } else { u64::MAX }, e: v.e }); }
                                        match &c.inv { None => pc += 1, Some(b) => edge!(&b.0) }
                                        if self.st.cur != cur { sync!(); continue 'thread; }
                                    }
                                    X::Block => { self.schedule(cur)?; continue 'thread; }
                                    X::Restart => continue 'thread,
                                    X::Unwind(exc) => {
                                        if !self.unwind(exc, false)? { return Err(End::Abort("uncaught exception".into())); }
                                        reload!();
                                    }
                                }
                            }
                        }
                    }
                    I::Ret(vs) => {
                        rets.clear();
                        for o in vs.iter() { rets.push(g!(*o)); }
                        let th = &mut self.st.th[cur];
                        let old = th.frames.pop().unwrap();
                        th.sp = old.sp;
                        if th.frames.is_empty() {
                            self.st.steps = steps;
                            if cur == 0 { return Ok(End::Exit(rets.first().map(|v| v.v as i32).unwrap_or(0))); }
                            // thread exit: run destructors
                            if let Some((f, a)) = self.st.th[cur].dtors.pop() { match self.fn_at(f) { Some(i) => { self.push_call(i, &[Val::c(a)]); continue 'thread; } None => return Err(End::Unsup("thread dtor".into())) } }
                            let k = self.st.th[cur].keys.iter().find(|(k, v)| **v != 0 && self.st.keydtors.get(k).copied().unwrap_or(0) != 0).map(|(k, v)| (*k, *v));
                            if let Some((k, v)) = k { self.st.th[cur].keys.insert(k, 0); let f = self.st.keydtors[&k]; if let Some(i) = self.fn_at(f) { self.push_call(i, &[Val::c(v)]); continue 'thread; } }
                            self.st.th[cur].st = TS::Done;
                            for t in 0..self.st.th.len() { if self.st.th[t].st == TS::Join(cur) { self.st.th[t].st = TS::Run; self.finish_call(t, Val::c(0)); } }
                            self.schedule(cur)?;
                            continue 'thread;
                        }
                        reload!();
                        if let I::Call(c) = unsafe { &*code.add(pc) } {
                            for k in 0..c.nd as usize { set!(c.d + k as u32, rets[k]); }
                            match &c.inv { None => pc += 1, Some(b) => edge!(&b.0) }
                        } else { return Err(End::Unsup("return to non-call".into())); }
                    }
                    I::Intr { k, w, fw, d, a } => {
                        match k {
                            In::Memcpy => {
                                let n = g!(a[2]);
                                sync!();
                                let n = self.conc(n, 64)?;
                                if n > 0 {
                                    let dst = addr!(g!(a[0]), 0);
                                    let src = addr!(g!(a[1]), 0);
                                    if n > 1 << 30 { return Err(segv(dst + n)); }
                                    self.st.mem.copy(dst, src, n);
                                }
                            }
                            In::Memset => {
                                let n = g!(a[2]);
                                sync!();
                                let n = self.conc(n, 64)?;
                                if n > 0 {
                                    let dst = addr!(g!(a[0]), 0);
                                    if n > 1 << 30 { return Err(segv(dst + n)); }
                                    let v = g!(a[1]);
                                    self.st.mem.fill(dst, n, v.v as u8, v.e);
                                }
                            }
                            In::Trap => { sync!(); return Err(End::Abort("trap".into())); }
                            In::Tls => { let v = g!(a[0]); set!(*d, Val::c(v.v - TLS_TEMPLATE + TLS_BASE + cur as u64 * TLS_STRIDE)); }
                            In::LoadRel => {
                                let p = addr!(g!(a[0]), 0);
                                let o = g!(a[1]);
                                sync!();
                                if o.e != 0 && !self.st.eq.contains_key(&o.e) {
                                    let c = self.ar.cst(p as u128, 64);
                                    let pe = self.ar.bin(K::Add, o.e, c);
                                    let lv = self.load_sym(Val { v: 0, e: pe }, 0, 32)?;
                                    let le = self.ex(lv, 32);
                                    let se = self.ar.sext(le, 64);
                                    let r = self.ar.bin(K::Add, se, c);
                                    let v = self.val(r);
                                    set!(*d, v);
                                } else {
                                    let o = self.conc(o, 64)?;
                                    let v = self.load(p.wrapping_add(o), 32);
                                    set!(*d, Val::c(p.wrapping_add(v.v as u32 as i32 as i64 as u64)));
                                }
                            }
                            _ => {
                                let (x, y, z) = (g!(a[0]), g!(a[1]), g!(a[2]));
                                let fw = *fw as u32;
                                let (r, r2) = self.intr(*k, *w as u32, fw, x, y, z).map_err(|e| { e })?;
                                set!(*d, r);
                                if let Some(q) = r2 { set!(*d + 1, q); }
                            }
                        }
                        pc += 1;
                    }
                    I::Pack { d, s } => {
                        let mut e = 0;
                        for (o, w) in s.iter() {
                            let v = g!(*o);
                            let x = self.ex(v, *w as u32);
                            e = if e == 0 { x } else { self.ar.concat(x, e) };
                        }
                        let mut off = 0;
                        for (r, w) in d.iter() { let x = self.ar.extract(e, off, *w as u32); let v = self.val(x); set!(*r, v); off += *w as u32; }
                        pc += 1;
                    }
                    I::Rmw { op, w, d, a, v } => {
                        let x = addr!(g!(*a), 0);
                        let w = *w as u32;
                        let nv = g!(*v);
                        let old = self.load(x, w);
                        let r = if *op == Rmw::Xchg { nv } else {
                            let k = match op { Rmw::Add => Some(K::Add), Rmw::Sub => Some(K::Sub), Rmw::And => Some(K::And), Rmw::Or => Some(K::Or), Rmw::Xor => Some(K::Xor), _ => None };
                            if let Some(k) = k {
                                if old.e | nv.e == 0 { Val::c(Arena::eval_bin(k, w, old.v as u128, nv.v as u128) as u64) }
                                else { let (p, q) = (self.ex(old, w), self.ex(nv, w)); let r = self.ar.bin(k, p, q); self.val(r) }
                            } else {
                                let (p, q) = (self.ex(old, w), self.ex(nv, w));
                                let r = match op {
                                    Rmw::Nand => { let t = self.ar.bin(K::And, p, q); self.ar.not(t) }
                                    Rmw::Max => { let c = self.ar.bin(K::Slt, p, q); self.ar.ite(c, q, p) }
                                    Rmw::Min => { let c = self.ar.bin(K::Slt, q, p); self.ar.ite(c, q, p) }
                                    Rmw::UMax => { let c = self.ar.bin(K::Ult, p, q); self.ar.ite(c, q, p) }
                                    _ => { let c = self.ar.bin(K::Ult, q, p); self.ar.ite(c, q, p) }
                                };
                                self.val(r)
                            }
                        };
                        self.store(x, w, r);
                        set!(*d, old);
                        pc += 1;
                    }
                    I::CmpX { w, d, a, c, n } => {
                        if self.st.sched.on { sync!(); if self.delay_here() { continue 'thread; } }
                        let x = addr!(g!(*a), 0);
                        let w = *w as u32;
                        let (cv, nv) = (g!(*c), g!(*n));
                        let old = self.load(x, w);
                        let ok = if old.e | cv.e == 0 { old.v == cv.v } else { sync!(); let (p, q) = (self.ex(old, w), self.ex(cv, w)); let e = self.ar.bin(K::Eq, p, q); self.decide(e)? };
                        if ok { self.store(x, w, nv); }
                        set!(*d, old);
                        set!(*d + 1, Val::c(ok as u64));
                        pc += 1;
                    }
                    I::LPad { d, sel } => { let e = self.st.th[cur].exc; set!(*d, Val::c(e)); set!(*d + 1, Val::c(*sel as u64)); pc += 1; }
                    I::Resume(o) => {
                        let v = g!(*o);
                        sync!();
                        if !self.unwind(v.v, true)? { return Err(End::Abort("uncaught exception (resume)".into())); }
                        reload!();
                    }
                    I::Fence => pc += 1,
                    I::Unreachable => { sync!(); return Err(End::Abort("unreachable executed".into())); }
                    I::Unsup(s) => { sync!(); return Err(End::Unsup(s.to_string())); }
                }
            }
        }
    }
    pub fn fcmp(&mut self, p: u8, x: E, y: E) -> E {
        let w = self.ar.w(x);
        let _ = w;
        // 0 false 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une 15 true
        let uno = |s: &mut Self| { let a = s.ar.un(K::FIsNan, x, 1, 0); let b = s.ar.un(K::FIsNan, y, 1, 0); s.ar.bin(K::Or, a, b) };
        match p {
            0 => self.ar.fls(), 15 => self.ar.tru(),
            1 => self.ar.bin(K::FOeq, x, y),
            2 => self.ar.bin(K::FOlt, y, x),
            3 => self.ar.bin(K::FOle, y, x),
            4 => self.ar.bin(K::FOlt, x, y),
            5 => self.ar.bin(K::FOle, x, y),
            6 => { let a = self.ar.bin(K::FOlt, x, y); let b = self.ar.bin(K::FOlt, y, x); self.ar.bin(K::Or, a, b) }
            7 => { let u = uno(self); self.ar.not(u) }
            8 => uno(self),
            9 => { let t = self.fcmp(6, x, y); self.ar.not(t) }
            10 => { let t = self.ar.bin(K::FOle, x, y); self.ar.not(t) }
            11 => { let t = self.ar.bin(K::FOlt, x, y); self.ar.not(t) }
            12 => { let t = self.ar.bin(K::FOle, y, x); self.ar.not(t) }
            13 => { let t = self.ar.bin(K::FOlt, y, x); self.ar.not(t) }
            _ => { let t = self.ar.bin(K::FOeq, x, y); self.ar.not(t) }
        }
    }
    fn intr(&mut self, k: In, w: u32, fw: u32, x: Val, y: Val, z: Val) -> Result<(Val, Option<Val>), End> {
        // concrete fast paths
        if x.e | y.e | z.e == 0 && fw <= 64 && w <= 64 {
            let m = mask64(fw);
            let (a, b, c) = (x.v, y.v, z.v);
            let sx = |v: u64| { let s = 64 - fw; ((v << s) as i64) >> s };
            let (imin, imax) = (-(1i128 << (fw - 1)), (1i128 << (fw - 1)) - 1);
            let f = |v: u64| if fw == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
            let pf = |v: f64| if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
            let one = |v: u64| Ok((Val::c(v), None));
            match k {
                In::Cttz => return one(if a == 0 { fw as u64 } else { a.trailing_zeros() as u64 }),
                In::Ctlz => return one(if a == 0 { fw as u64 } else { (a.leading_zeros() - (64 - fw)) as u64 }),
                In::Ctpop => return one(a.count_ones() as u64),
                In::Bswap => return one(a.swap_bytes() >> (64 - fw)),
                In::Bitrev => return one(a.reverse_bits() >> (64 - fw)),
                In::Fshl => { let s = (c % fw as u64) as u32; return one(if s == 0 { a } else { ((a << s) | (b >> (fw - s))) & m }); }
                In::Fshr => { let s = (c % fw as u64) as u32; return one(if s == 0 { b } else { ((a << (fw - s)) | (b >> s)) & m }); }
                In::UMax => return one(a.max(b)),
                In::UMin => return one(a.min(b)),
                In::SMax => return one(if sx(a) > sx(b) { a } else { b }),
                In::SMin => return one(if sx(a) < sx(b) { a } else { b }),
                In::USubSat => return one(a.saturating_sub(b)),
                In::UAddSat => { let r = a as u128 + b as u128; return one(if r > m as u128 { m } else { r as u64 }); }
                In::SSubSat => { let r = (sx(a) as i128 - sx(b) as i128).clamp(imin, imax); return one(r as u64 & m); }
                In::SAddSat => { let r = (sx(a) as i128 + sx(b) as i128).clamp(imin, imax); return one(r as u64 & m); }
                In::UMulO => { let r = a as u128 * b as u128; return Ok((Val::c(r as u64 & m), Some(Val::c((r > m as u128) as u64)))); }
                In::UAddO => { let r = a as u128 + b as u128; return Ok((Val::c(r as u64 & m), Some(Val::c((r > m as u128) as u64)))); }
                In::USubO => return Ok((Val::c(a.wrapping_sub(b) & m), Some(Val::c((a < b) as u64)))),
                In::SMulO => { let r = sx(a) as i128 * sx(b) as i128; return Ok((Val::c(r as u64 & m), Some(Val::c((r < imin || r > imax) as u64)))); }
                In::SAddO => { let r = sx(a) as i128 + sx(b) as i128; return Ok((Val::c(r as u64 & m), Some(Val::c((r < imin || r > imax) as u64)))); }
                In::SSubO => { let r = sx(a) as i128 - sx(b) as i128; return Ok((Val::c(r as u64 & m), Some(Val::c((r < imin || r > imax) as u64)))); }
                In::Ucmp => return one((if a < b { -1i64 } else if a > b { 1 } else { 0 }) as u64 & mask64(w)),
                In::Scmp => return one((if sx(a) < sx(b) { -1i64 } else if sx(a) > sx(b) { 1 } else { 0 }) as u64 & mask64(w)),
                In::Abs => return one(sx(a).unsigned_abs() & m),
                In::FMaxNum => { let (p, q) = (f(a), f(b)); return one(if p.is_nan() { b } else if q.is_nan() { a } else if p > q || (p == q && p.is_sign_positive()) { a } else { b }); }
                In::FMinNum => { let (p, q) = (f(a), f(b)); return one(if p.is_nan() { b } else if q.is_nan() { a } else if p < q || (p == q && p.is_sign_negative()) { a } else { b }); }
                In::FLog2 => return one(pf(f(a).log2())),
                In::FOther(t) => {
                    let r = match t { 0 => f(a).log10(), 1 => f(a).ln(), 2 => f(a).exp2(), 3 => f(a).exp(), 4 => f(a).powf(f(b)), 5 => f(a).powi(b as i32), 6 => f(a).sin(), _ => f(a).cos() };
                    return one(pf(r));
                }
                In::Fma => { let r = if fw == 32 { f32::from_bits(a as u32).mul_add(f32::from_bits(b as u32), f32::from_bits(c as u32)).to_bits() as u64 } else { f64::from_bits(a).mul_add(f64::from_bits(b), f64::from_bits(c)).to_bits() }; return one(r); }
                _ => {}
            }
        }
        let ex = self.ex(x, fw);
        macro_rules! ey { () => { self.ex(y, fw) }; }
        let r = match k {
            In::UMax => { let b = ey!(); let c = self.ar.bin(K::Ult, ex, b); self.ar.ite(c, b, ex) }
            In::UMin => { let b = ey!(); let c = self.ar.bin(K::Ult, b, ex); self.ar.ite(c, b, ex) }
            In::SMax => { let b = ey!(); let c = self.ar.bin(K::Slt, ex, b); self.ar.ite(c, b, ex) }
            In::SMin => { let b = ey!(); let c = self.ar.bin(K::Slt, b, ex); self.ar.ite(c, b, ex) }
            In::USubSat => { let b = ey!(); let c = self.ar.bin(K::Ult, ex, b); let d = self.ar.bin(K::Sub, ex, b); let zz = self.ar.cst(0, fw); self.ar.ite(c, zz, d) }
            In::UAddSat => { let b = ey!(); let d = self.ar.bin(K::Add, ex, b); let c = self.ar.bin(K::Ult, d, ex); let mm = self.ar.cst(mask(fw), fw); self.ar.ite(c, mm, d) }
            In::UAddO => { let b = ey!(); let d = self.ar.bin(K::Add, ex, b); let c = self.ar.bin(K::Ult, d, ex); let (p, q) = (self.val(d), self.val(c)); return Ok((p, Some(q))); }
            In::USubO => { let b = ey!(); let d = self.ar.bin(K::Sub, ex, b); let c = self.ar.bin(K::Ult, ex, b); let (p, q) = (self.val(d), self.val(c)); return Ok((p, Some(q))); }
            In::SAddO | In::SSubO | In::SAddSat | In::SSubSat => {
                let b = ey!();
                let kk = if matches!(k, In::SAddO | In::SAddSat) { K::Add } else { K::Sub };
                let d = self.ar.bin(kk, ex, b);
                // overflow by signs
                let s = |s: &mut Self, e: E| s.ar.extract(e, fw - 1, 1);
                let (sa, sb, sd) = (s(self, ex), s(self, b), s(self, d));
                let ab = self.ar.bin(K::Eq, sa, sb);
                let ab = if kk == K::Add { ab } else { self.ar.not(ab) };
                let ad = self.ar.bin(K::Eq, sa, sd);
                let nad = self.ar.not(ad);
                let o = self.ar.bin(K::And, ab, nad);
                if matches!(k, In::SAddO | In::SSubO) { let (p, q) = (self.val(d), self.val(o)); return Ok((p, Some(q))); }
                let lo = self.ar.cst(1u128 << (fw - 1), fw);
                let hi = self.ar.cst((1u128 << (fw - 1)) - 1, fw);
                let sat = self.ar.ite(sa, lo, hi);
                self.ar.ite(o, sat, d)
            }
            In::UMulO | In::SMulO => {
                if fw > 64 { return Err(End::Unsup("wide mul overflow".into())); }
                let b = ey!();
                let (xa, xb) = if k == In::UMulO { (self.ar.zext(ex, 2 * fw), self.ar.zext(b, 2 * fw)) } else { (self.ar.sext(ex, 2 * fw), self.ar.sext(b, 2 * fw)) };
                let p = self.ar.bin(K::Mul, xa, xb);
                let lo = self.ar.bin(K::Mul, ex, b);
                let back = if k == In::UMulO { self.ar.zext(lo, 2 * fw) } else { self.ar.sext(lo, 2 * fw) };
                let eq = self.ar.bin(K::Eq, p, back);
                let o = self.ar.not(eq);
                let (p, q) = (self.val(lo), self.val(o));
                return Ok((p, Some(q)));
            }
            In::Ucmp | In::Scmp => {
                let b = ey!();
                let kk = if k == In::Ucmp { K::Ult } else { K::Slt };
                let l = self.ar.bin(kk, ex, b);
                let g = self.ar.bin(kk, b, ex);
                let (m1, p1, z0) = (self.ar.cst(mask(w), w), self.ar.cst(1, w), self.ar.cst(0, w));
                let t = self.ar.ite(g, p1, z0);
                self.ar.ite(l, m1, t)
            }
            In::Abs => { let zz = self.ar.cst(0, fw); let neg = self.ar.bin(K::Sub, zz, ex); let c = self.ar.bin(K::Slt, ex, zz); self.ar.ite(c, neg, ex) }
            In::Bswap => { let mut e = self.ar.extract(ex, 0, 8); let mut o = 8; while o < fw { let b = self.ar.extract(ex, o, 8); e = self.ar.concat(e, b); o += 8; } e }
            In::Bitrev => { let mut e = self.ar.extract(ex, 0, 1); let mut o = 1; while o < fw { let b = self.ar.extract(ex, o, 1); e = self.ar.concat(e, b); o += 1; } e }
            In::Cttz => { let mut e = self.ar.cst(fw as u128, fw); for i in (0..fw).rev() { let b = self.ar.extract(ex, i, 1); let c = self.ar.cst(i as u128, fw); e = self.ar.ite(b, c, e); } e }
            In::Ctlz => { let mut e = self.ar.cst(fw as u128, fw); for i in 0..fw { let b = self.ar.extract(ex, i, 1); let c = self.ar.cst((fw - 1 - i) as u128, fw); e = self.ar.ite(b, c, e); } e }
            In::Ctpop => { let mut e = self.ar.cst(0, fw); for i in 0..fw { let b = self.ar.extract(ex, i, 1); let zx = self.ar.zext(b, fw); e = self.ar.bin(K::Add, e, zx); } e }
            In::Fshl | In::Fshr => {
                if z.e != 0 { return Err(End::Unsup("funnel shift by symbolic amount".into())); }
                let b = ey!();
                let s = (z.v % fw as u64) as u32;
                if k == In::Fshl { if s == 0 { ex } else { let h = self.ar.extract(ex, 0, fw - s); let l = self.ar.extract(b, fw - s, s); self.ar.concat(h, l) } }
                else if s == 0 { b } else { let h = self.ar.extract(ex, 0, s); let l = self.ar.extract(b, s, fw - s); self.ar.concat(h, l) }
            }
            In::FCeil => self.ar.un(K::FRound, ex, w, 0),
            In::FFloor => self.ar.un(K::FRound, ex, w, 1),
            In::FTrunc => self.ar.un(K::FRound, ex, w, 2),
            In::FRound => self.ar.un(K::FRound, ex, w, 3),
            In::FRint => self.ar.un(K::FRound, ex, w, 4),
            In::FSqrt => self.ar.un(K::FSqrt, ex, w, 0),
            In::FAbs => { let mm = self.ar.cst(mask(fw - 1), fw); self.ar.bin(K::And, ex, mm) }
            In::Copysign => { let b = ey!(); let s = self.ar.extract(b, fw - 1, 1); let l = self.ar.extract(ex, 0, fw - 1); self.ar.concat(s, l) }
            In::FpToSiSat => self.ar.un(K::FpToSi, ex, w, 0),
            In::FpToUiSat => self.ar.un(K::FpToUi, ex, w, 0),
            In::FMaxNum | In::FMinNum => {
                let b = ey!();
                let na = self.ar.un(K::FIsNan, ex, 1, 0);
                let nb = self.ar.un(K::FIsNan, b, 1, 0);
                let lt = if k == In::FMaxNum { self.ar.bin(K::FOlt, ex, b) } else { self.ar.bin(K::FOlt, b, ex) };
                let t = self.ar.ite(lt, b, ex);
                let t = self.ar.ite(nb, ex, t);
                self.ar.ite(na, b, t)
            }
            In::FpClass => {
                let mk = y.v as u32;
                let (eb, mb) = if fw == 32 { (8, 23) } else { (11, 52) };
                let sign = self.ar.extract(ex, fw - 1, 1);
                let exp = self.ar.extract(ex, mb, eb);
                let man = self.ar.extract(ex, 0, mb);
                let q = self.ar.extract(ex, mb - 1, 1);
                let ones = self.ar.cst(mask(eb), eb);
                let ez = self.ar.cst(0, eb);
                let mz = self.ar.cst(0, mb);
                let e1 = self.ar.bin(K::Eq, exp, ones);
                let e0 = self.ar.bin(K::Eq, exp, ez);
                let m0 = self.ar.bin(K::Eq, man, mz);
                let ne1 = self.ar.not(e1); let ne0 = self.ar.not(e0); let nm0 = self.ar.not(m0); let ns = self.ar.not(sign); let nq = self.ar.not(q);
                let nan = self.ar.bin(K::And, e1, nm0);
                let inf = self.ar.bin(K::And, e1, m0);
                let norm = self.ar.bin(K::And, ne1, ne0);
                let sub = self.ar.bin(K::And, e0, nm0);
                let zero = self.ar.bin(K::And, e0, m0);
                let mut r = self.ar.fls();
                let cls = [(nan, nq), (nan, q), (inf, sign), (norm, sign), (sub, sign), (zero, sign), (zero, ns), (sub, ns), (norm, ns), (inf, ns)];
                for (i, (a, b)) in cls.iter().enumerate() { if mk >> i & 1 == 1 { let t = self.ar.bin(K::And, *a, *b); r = self.ar.bin(K::Or, r, t); } }
                r
            }
            _ => return Err(End::Unsup(format!("symbolic intrinsic {:?}", k))),
        };
        Ok((self.val(r), None))
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
/// crude v0-mangling prettifier: concatenates the identifiers
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut l = 0usize;
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() { l = l * 10 + (b[i] - b'0') as usize; i += 1; }
            if i < b.len() && b[i] == b'_' { i += 1; }
            if l >= 2 && i + l <= b.len() && b[i].is_ascii_alphabetic() | (b[i] == b'_') { out.push(n[i..i + l].to_string()); i += l; } else if l < 2 { i = st + 1; } 
        } else { i += 1; }
    }
    out.join("::")
}
extern "C" { #[link_name = "fork"] fn libc_fork() -> i32; #[link_name = "_exit"] fn libc_exit(c: i32) -> !; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; }
pub fn wait_all() { unsafe { loop { let mut s = 0; let r = waitpid(-1, &mut s, 0); if r < 0 { break; } if s != 0 { eprintln!("axsym: (error worker died with status {:#x})", s); DIED.store(true, std::sync::atomic::Ordering::SeqCst); } } } }
pub static DIED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn numfmt(name: &str) -> u8 {
    let Some(i) = name.find("core3fmt3num") else { return 0 };
    if !["Display3fmt", "UpperHex3fmt", "LowerHex3fmt", "Debug3fmt"].iter().any(|k| name.contains(k)) { return 0; }
    let r = &name[i + 12..];
    let r = r.strip_prefix("3imp").unwrap_or(r);
    match r.as_bytes().first() { Some(b'h' | b'a') => 8, Some(b't' | b's') => 16, Some(b'm' | b'l') => 32, Some(b'y' | b'x' | b'j' | b'i') => 64, _ => 0 }
}
