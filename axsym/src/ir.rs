//! LLVM IR text parser and lowering to a flat register machine.
use crate::expr::K;
use crate::mem::*;
use std::collections::HashMap;

pub type O = i32; // operand: >= 0 frame register, < 0 constant table index (!o)

#[derive(Clone, PartialEq, Debug)]
pub enum T { Void, Int(u32), Ptr, F32, F64, Struct(Vec<T>, bool), Arr(u64, Box<T>), Vec(u64, Box<T>), Other }

impl T {
    pub fn bits(&self) -> u32 { match self { T::Int(w) => *w, T::Ptr => 64, T::F32 => 32, T::F64 => 64, _ => 0 } }
    pub fn align(&self) -> u64 {
        match self {
            T::Int(w) => { let b = ((*w as u64 + 7) / 8).next_power_of_two(); b.min(16) }
            T::Ptr | T::F64 => 8,
            T::F32 => 4,
            T::Struct(v, p) => if *p { 1 } else { v.iter().map(|t| t.align()).max().unwrap_or(1) },
            T::Arr(_, t) => t.align(),
            T::Vec(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn store(&self) -> u64 { match self { T::Int(w) => (*w as u64 + 7) / 8, _ => self.size() } }
    pub fn size(&self) -> u64 {
        match self {
            T::Int(_) => { let s = self.store(); (s + self.align() - 1) / self.align() * self.align() }
            T::Ptr | T::F64 => 8,
            T::F32 => 4,
            T::Struct(v, p) => {
                let mut o = 0u64;
                for t in v { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !*p { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            T::Arr(n, t) => n * t.size(),
            T::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    /// scalar leaves with byte offsets
    pub fn leaves(&self, off: u64, out: &mut Vec<(u64, T)>) {
        match self {
            T::Void | T::Other => {}
            T::Int(_) | T::Ptr | T::F32 | T::F64 => out.push((off, self.clone())),
            T::Struct(v, p) => {
                let mut o = off;
                for t in v { if !*p { let a = t.align(); o = off + (o - off + a - 1) / a * a; } t.leaves(o, out); o += t.size(); }
            }
            T::Arr(n, t) => { let s = t.size(); for i in 0..*n { t.leaves(off + i * s, out); } }
            T::Vec(n, t) => { let s = (t.bits() as u64 + 7) / 8; for i in 0..*n { t.leaves(off + i * s, out); } }
        }
    }
    pub fn nleaves(&self) -> usize {
        match self {
            T::Void | T::Other => 0,
            T::Int(_) | T::Ptr | T::F32 | T::F64 => 1,
            T::Struct(v, _) => v.iter().map(|t| t.nleaves()).sum(),
            T::Arr(n, t) | T::Vec(n, t) => *n as usize * t.nleaves(),
        }
    }
    fn field(&self, i: u64) -> (usize, T) {
        // leaf index of field start and its type
        match self {
            T::Struct(v, _) => (v[..i as usize].iter().map(|t| t.nleaves()).sum(), v[i as usize].clone()),
            T::Arr(_, t) | T::Vec(_, t) => (i as usize * t.nleaves(), (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Edge { pub pc: u32, pub moves: Box<[(u32, O)]>, pub hazard: bool }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In {
    Memcpy, Memset, Assume, Cttz, Ctlz, Ctpop, Bswap, Bitrev, Fshl, Fshr, UMax, UMin, SMax, SMin, USubSat, UAddSat, SSubSat, SAddSat,
    UMulO, SMulO, UAddO, SAddO, USubO, SSubO, Ucmp, Scmp, Trap, Tls, FMaxNum, FMinNum, FCeil, FFloor, FTrunc, FRound, FRint, FSqrt, FAbs, FLog2,
    FOther(u8), LoadRel, FpToSiSat, FpToUiSat, FpClass, Abs, Copysign, Fma, EhTypeid,
}
#[derive(Clone, Debug)]
pub enum Callee { F(u32), Ind(O), Ext(u32) }
#[derive(Clone, Debug)]
pub struct CallI { pub callee: Callee, pub args: Box<[O]>, pub d: u32, pub nd: u32, pub inv: Option<Box<(Edge, Edge)>>, pub rw: u8 }

#[derive(Clone, Debug)]
pub enum I {
    Bin { k: K, w: u8, d: u32, a: O, b: O },
    Icmp { k: K, neg: bool, w: u8, d: u32, a: O, b: O },
    Fcmp { p: u8, w: u8, d: u32, a: O, b: O },
    FNeg { w: u8, d: u32, a: O },
    Trunc { w: u8, fw: u8, d: u32, a: O },
    Zext { w: u8, fw: u8, d: u32, a: O },
    Sext { w: u8, fw: u8, d: u32, a: O },
    Conv { k: K, w: u8, fw: u8, d: u32, a: O },
    Mov { d: u32, a: O },
    Load { w: u8, d: u32, a: O, off: u32 },
    Store { w: u8, v: O, a: O, off: u32 },
    GepC { d: u32, a: O, off: i64 },
    Gep { d: u32, a: O, off: i64, i: O, sc: i64, iw: u8 },
    Alloca { d: u32, size: u64, n: O, al: u64 },
    Select { w: u8, d: u32, c: O, a: O, b: O },
    Pack { d: Box<[(u32, u8)]>, s: Box<[(O, u8)]> }, // bitcast between differently shaped values
    Call(Box<CallI>),
    Intr { k: In, w: u8, fw: u8, d: u32, a: [O; 3] },
    Br(Box<Edge>),
    CBr(O, Box<(Edge, Edge)>),
    Switch(Box<(O, u8, Vec<(u128, u32)>, Vec<Edge>)>), // case -> edge index; edge 0 = default
    Ret(Box<[O]>),
    LPad { d: u32, sel: u32 },
    Resume(O),
    Rmw { op: Rmw, w: u8, d: u32, a: O, v: O },
    CmpX { w: u8, d: u32, a: O, c: O, n: O },
    Fence,
    Unreachable,
    Unsup(Box<str>),
}

pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub pregs: Vec<(u32, u8)>,
    pub nregs: u32,
    pub code: Vec<I>,
    pub retw: Vec<u8>,
    pub defined: bool,
}
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub ext: Vec<String>,
    pub consts: Vec<(u64, u128, u8)>, // value, wide value, width
    pub init: Vec<(u64, Vec<u8>)>,    // memory image
    pub tls_size: u64,
    pub gaddr: HashMap<String, u64>,
    pub globals_end: u64,
}

struct P<'a> { s: &'a [u8], i: usize }
fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => self.line(),
                b'/' if self.s.get(self.i + 1) == Some(&b'*') => {
                    while self.i + 1 < self.s.len() && !(self.s[self.i] == b'*' && self.s[self.i + 1] == b'/') { self.i += 1; }
                    self.i += 2;
                }
                _ => break,
            }
        }
    }
    fn line(&mut self) { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } if self.i < self.s.len() { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.i).unwrap_or(&0) }
    /// next character on the same line
    fn pk(&mut self) -> u8 { while self.i < self.s.len() && self.s[self.i] == b' ' { self.i += 1; } *self.s.get(self.i).unwrap_or(&0) }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { self.fail(&format!("expected '{}'", c as char)); } }
    fn fail(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(200); let b = (self.i + 120).min(self.s.len());
        panic!("IR parse error: {} at ...{}<<<HERE>>>{}", m, String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]));
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && idch(self.s[self.i]) { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peekword(&mut self) -> &'a str { let k = self.i; let w = self.word(); self.i = k; w }
    fn eatw(&mut self, w: &str) -> bool { let k = self.i; if self.word() == w { true } else { self.i = k; false } }
    /// name after % or @
    fn name(&mut self) -> &'a str {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i = st;
            while self.s[self.i] != b'"' { self.i += 1; }
            self.i += 1;
            std::str::from_utf8(&self.s[st..self.i - 1]).unwrap()
        } else {
            let st = self.i;
            while self.i < self.s.len() && idch(self.s[self.i]) { self.i += 1; }
            std::str::from_utf8(&self.s[st..self.i]).unwrap()
        }
    }
    fn skip_balanced(&mut self) {
        // at '(' or '[' or '{' or '<'
        let mut d = 0i32;
        loop {
            match self.s[self.i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => d -= 1,
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
                _ => {}
            }
            self.i += 1;
            if d == 0 { break; }
        }
    }
    fn is_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'<' | b'[' => true,
            _ => { let w = self.peekword(); matches!(w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_mmx" | "fp128" | "x86_fp80") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit())) }
        }
    }
    fn ty(&mut self) -> T {
        match self.peek() {
            b'{' => { self.i += 1; let v = self.tylist(b'}'); T::Struct(v, false) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let v = self.tylist(b'}'); self.expect(b'>'); T::Struct(v, true) }
                else { let n = self.word().parse().unwrap(); if self.word() != "x" { self.fail("x") } let t = self.ty(); self.expect(b'>'); T::Vec(n, Box::new(t)) }
            }
            b'[' => { self.i += 1; let n = self.word().parse().unwrap(); if self.word() != "x" { self.fail("x") } let t = self.ty(); self.expect(b']'); T::Arr(n, Box::new(t)) }
            _ => {
                let w = self.word();
                match w {
                    "void" => T::Void, "ptr" => { if self.eatw("addrspace") { self.ws(); self.skip_balanced(); } T::Ptr }
                    "float" => T::F32, "double" => T::F64,
                    "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" => T::Other,
                    _ if w.starts_with('i') => T::Int(w[1..].parse().unwrap_or_else(|_| self.fail("type"))),
                    _ => self.fail("type"),
                }
            }
        }
    }
    fn tylist(&mut self, end: u8) -> Vec<T> {
        let mut v = vec![];
        if self.eat(end) { return v; }
        loop { v.push(self.ty()); if self.eat(end) { return v; } self.expect(b','); }
    }
    /// skip parameter / return attributes until something that is not an attribute keyword
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; if self.eat(b'=') { self.expect(b'"'); while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; } continue; }
            if c == b'#' { self.i += 1; self.word(); continue; }
            if !c.is_ascii_alphabetic() { return; }
            let k = self.i;
            let w = self.word();
            match w {
                "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "splat" | "c" | "ptrtoint" | "inttoptr" | "getelementptr" | "trunc" | "sub" | "add" | "xor" | "bitcast" | "asm" | "mul" | "shl" | "f0x" | "inf" | "nan" | "zext" | "sext" | "ptrtoaddr" => { self.i = k; return; }
                "to" | "unwind" | "personality" | "comdat" | "section" | "gc" | "prefix" | "prologue" => { self.i = k; return; }
                "align" => { if self.s[self.i] == b'(' { self.skip_balanced(); } else { self.word(); } continue; }
                _ => {}
            }
            if w.starts_with("f0x") { self.i = k; return; }
            // types
            self.i = k;
            if self.is_type() { return; }
            self.word();
            if self.i < self.s.len() && self.s[self.i] == b'(' { self.skip_balanced(); }
        }
    }
}

#[derive(Clone, Debug)]
enum C { Int(u128), Zero, Agg(Vec<C>), Bytes(Vec<u8>) }

pub struct Loader<'a> {
    text: &'a [u8],
    pub m: Module,
    cidx: HashMap<(u128, u8), i32>,
    impl_ext: &'a dyn Fn(&str) -> bool,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    let mut i = 0;
    while i < s.len() { if s[i] == b'\\' { if s[i + 1] == b'\\' { v.push(b'\\'); i += 2; } else { v.push(h(s[i + 1]) << 4 | h(s[i + 2])); i += 3; } } else { v.push(s[i]); i += 1; } }
    v
}

pub fn load(text: &[u8], impl_ext: &dyn Fn(&str) -> bool) -> Module {
    let mut l = Loader { text, m: Module { funcs: vec![], fidx: HashMap::new(), ext: vec![], consts: vec![], init: vec![], tls_size: 0, gaddr: HashMap::new(), globals_end: 0 }, cidx: HashMap::new(), impl_ext };
    l.run();
    l.m
}

struct FnCtx<'a> {
    locals: HashMap<&'a str, (u32, usize)>,
    nregs: u32,
    code: Vec<I>,
    labels: HashMap<&'a str, u32>,
    phis: HashMap<u32, Vec<(u32, Vec<(Vec<O>, &'a str)>)>>, // block pc -> list of (dst reg base, incoming)
}
/// edges are recorded as (pc of instr, which) and patched afterwards
struct Fix<'a> { at: usize, which: usize, from: &'a str, to: &'a str }

impl<'a> Loader<'a> {
    fn cst(&mut self, v: u128, w: u32) -> O {
        let v = v & crate::expr::mask(w);
        if let Some(&i) = self.cidx.get(&(v, w as u8)) { return i; }
        let i = !(self.m.consts.len() as i32);
        self.m.consts.push((v as u64, v, w as u8));
        self.cidx.insert((v, w as u8), i);
        i
    }
    fn run(&mut self) {
        let text = self.text;
        let mut gl: Vec<(usize, &'a str, T, u64, bool, bool)> = vec![]; // init pos, name, type, addr, tls, decl
        let mut defs: Vec<(usize, u32)> = vec![];
        let mut aliases: Vec<(&'a str, &'a str)> = vec![];
        let mut ga = GLOBAL_BASE;
        let mut tls = 0u64;
        let mut i = 0;
        while i < text.len() {
            let e = text[i..].iter().position(|&c| c == b'\n').map(|p| i + p).unwrap_or(text.len());
            let line = &text[i..e];
            if line.starts_with(b"@") {
                let mut p = P { s: text, i: i + 1 };
                let name = p.name();
                p.expect(b'=');
                let mut is_tls = false;
                let mut ext = false;
                loop {
                    let k = { p.ws(); p.i };
                    let w = p.word();
                    match w {
                        "global" | "constant" => break,
                        "alias" => break,
                        "thread_local" => { is_tls = true; if p.peek() == b'(' { p.skip_balanced(); } }
                        "external" | "extern_weak" => ext = true,
                        "" => { p.i = k; p.fail("global"); }
                        _ => { if p.i < text.len() && text[p.i] == b'(' { p.skip_balanced(); } }
                    }
                }
                if std::str::from_utf8(line).unwrap().contains(" alias ptr") || std::str::from_utf8(line).unwrap().contains("= alias") {
                    let at = line.iter().rposition(|&c| c == b'@').unwrap();
                    let mut q = P { s: text, i: i + at + 1 };
                    aliases.push((name, q.name()));
                } else {
                    let t = p.ty();
                    // alignment from the trailing ", align N"
                    let ls = std::str::from_utf8(line).unwrap();
                    let mut al = t.align();
                    if let Some(x) = ls.rfind(", align ") { let n: String = ls[x + 8..].chars().take_while(|c| c.is_ascii_digit()).collect(); al = al.max(n.parse().unwrap_or(1)); }
                    let sz = t.size().max(1);
                    if is_tls { tls = (tls + al - 1) / al * al; gl.push((p.i, name, t, TLS_TEMPLATE + tls, true, ext)); self.m.gaddr.insert(name.to_string(), TLS_TEMPLATE + tls); tls += sz; }
                    else { ga = (ga + al - 1) / al * al; gl.push((p.i, name, t, ga, false, ext)); self.m.gaddr.insert(name.to_string(), ga); ga += sz; }
                }
                i = e + 1;
                continue;
            }
            let is_def = line.starts_with(b"define ");
            if is_def || line.starts_with(b"declare ") {
                // function name: first '@' on the line outside of attributes
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let mut p = P { s: text, i: i + at + 1 };
                let name = p.name();
                let id = self.m.funcs.len() as u32;
                self.m.funcs.push(Func { name: name.to_string(), nparams: 0, pregs: vec![], nregs: 0, code: vec![], retw: vec![], defined: is_def });
                self.m.fidx.insert(name.to_string(), id);
                let weak = line.starts_with(b"declare extern_weak");
                let addr = if weak && !(self.impl_ext)(name) { 0 } else { CODE_BASE + id as u64 * 16 };
                self.m.gaddr.insert(name.to_string(), addr);
                if is_def {
                    defs.push((i, id));
                    // skip the body
                    let mut j = e + 1;
                    loop {
                        let e2 = text[j..].iter().position(|&c| c == b'\n').map(|p| j + p).unwrap_or(text.len());
                        let done = text[j..e2] == *b"}";
                        j = e2 + 1;
                        if done || j >= text.len() { break; }
                    }
                    i = j;
                    continue;
                }
            }
            i = e + 1;
        }
        for (a, b) in aliases { if let Some(&x) = self.m.gaddr.get(b) { self.m.gaddr.insert(a.to_string(), x); } }
        self.m.tls_size = tls;
        self.m.globals_end = ga;
        for (pos, name, t, addr, _tls, ext) in gl {
            if ext { continue; }
            let mut p = P { s: text, i: pos };
            let c = self.konst(&mut p, &t);
            let mut buf = vec![0u8; t.size() as usize];
            Self::emit(&t, &c, &mut buf);
            let _ = name;
            if buf.iter().any(|&b| b != 0) { self.m.init.push((addr, buf)); }
        }
        for (pos, id) in defs { self.func(pos, id); }
    }
    fn emit(t: &T, c: &C, out: &mut [u8]) {
        match (t, c) {
            (_, C::Zero) => {}
            (_, C::Bytes(b)) => out[..b.len()].copy_from_slice(b),
            (T::Struct(ts, p), C::Agg(v)) => {
                let mut o = 0u64;
                for (t, c) in ts.iter().zip(v) { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } Self::emit(t, c, &mut out[o as usize..]); o += t.size(); }
            }
            (T::Arr(_, t), C::Agg(v)) => { let s = t.size() as usize; for (i, c) in v.iter().enumerate() { Self::emit(t, c, &mut out[i * s..]); } }
            (T::Vec(_, t), C::Agg(v)) => { let s = ((t.bits() + 7) / 8) as usize; for (i, c) in v.iter().enumerate() { Self::emit(t, c, &mut out[i * s..]); } }
            (t, C::Int(v)) => { let n = t.store() as usize; for i in 0..n { out[i] = (v >> (8 * i)) as u8; } }
            _ => panic!("emit {:?} {:?}", t, c),
        }
    }
    fn flat(t: &T, c: &C, out: &mut Vec<u128>) {
        match (t, c) {
            (_, C::Zero) => for _ in 0..t.nleaves() { out.push(0) },
            (T::Arr(_, _), C::Bytes(b)) | (T::Vec(_, _), C::Bytes(b)) => for x in b { out.push(*x as u128) },
            (T::Struct(ts, _), C::Agg(v)) => for (t, c) in ts.iter().zip(v) { Self::flat(t, c, out) },
            (T::Arr(_, t), C::Agg(v)) | (T::Vec(_, t), C::Agg(v)) => for c in v { Self::flat(t, c, out) },
            (_, C::Int(v)) => out.push(*v),
            _ => panic!("flat {:?} {:?}", t, c),
        }
    }
    fn ci(c: &C) -> u128 { match c { C::Int(v) => *v, C::Zero => 0, _ => panic!("const int") } }
    fn konst(&mut self, p: &mut P<'a>, t: &T) -> C {
        match p.peek() {
            b'@' => { p.i += 1; let n = p.name(); match self.m.gaddr.get(n) { Some(&a) => C::Int(a as u128), None => { eprintln!("axsym: unknown global {}", n); C::Int(0) } } }
            b'{' | b'[' => { let end = if p.s[p.i] == b'{' { b'}' } else { b']' }; p.i += 1; self.klist(p, end) }
            b'<' => { p.i += 1; if p.peek() == b'{' { p.i += 1; let c = self.klist(p, b'}'); p.expect(b'>'); c } else { self.klist(p, b'>') } }
            c if c == b'-' || c == b'+' || c.is_ascii_digit() => {
                match t {
                    T::F32 | T::F64 => {
                        // number token may contain + - . e
                        let st = p.i;
                        while p.i < p.s.len() && (idch(p.s[p.i]) || p.s[p.i] == b'+') { p.i += 1; }
                        let s = std::str::from_utf8(&p.s[st..p.i]).unwrap();
                        let s = s.to_string();
                        Self::fp_at(p, &s, t)
                    }
                    _ => {
                        let w = p.word();
                        if let Some(x) = w.strip_prefix("u0x") { return C::Int(u128::from_str_radix(x, 16).unwrap()); }
                        if let Some(x) = w.strip_prefix('-') { C::Int((x.parse::<u128>().unwrap() as i128).wrapping_neg() as u128) } else { C::Int(w.parse().unwrap_or_else(|_| p.fail("int"))) }
                    }
                }
            }
            _ => {
                let w = p.word();
                match w {
                    "null" | "undef" | "poison" | "false" | "zeroinitializer" | "none" => C::Zero,
                    "true" => C::Int(1),
                    "c" => { p.expect(b'"'); let st = p.i; while p.s[p.i] != b'"' { p.i += 1; } let b = unescape(&p.s[st..p.i]); p.i += 1; C::Bytes(b) }
                    "splat" => { p.expect(b'('); let et = p.ty(); let c = self.konst(p, &et); p.expect(b')'); let n = match t { T::Vec(n, _) => *n, T::Arr(n, _) => *n, _ => p.fail("splat") }; C::Agg(vec![c; n as usize]) }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                        while p.peek() != b'(' { p.word(); }
                        p.expect(b'('); let st = p.ty(); let c = self.konst(p, &st); if p.word() != "to" { p.fail("to") } let dt = p.ty(); p.expect(b')');
                        C::Int(Self::ci(&c) & crate::expr::mask(dt.bits().max(1)))
                    }
                    "sub" | "add" | "xor" | "mul" | "shl" | "and" | "or" => {
                        while p.peek() != b'(' { p.word(); }
                        p.expect(b'('); let t1 = p.ty(); let a = self.konst(p, &t1); p.expect(b','); let t2 = p.ty(); let b = self.konst(p, &t2); p.expect(b')');
                        let (a, b) = (Self::ci(&a), Self::ci(&b));
                        let r = match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "xor" => a ^ b, "mul" => a.wrapping_mul(b), "and" => a & b, "or" => a | b, _ => a << b };
                        C::Int(r & crate::expr::mask(t1.bits()))
                    }
                    "getelementptr" => {
                        while p.peek() != b'(' { let _ = p.word(); }
                        p.expect(b'('); let et = p.ty(); p.expect(b',');
                        let bt = p.ty(); let base = self.konst(p, &bt);
                        let mut addr = Self::ci(&base) as u64;
                        let mut cur: Option<T> = None;
                        while p.eat(b',') {
                            let it = p.ty(); let idx = self.konst(p, &it);
                            let ix = crate::expr::sext128(Self::ci(&idx), it.bits()) as i64;
                            match &cur {
                                None => { addr = addr.wrapping_add((ix * et.size() as i64) as u64); cur = Some(et.clone()); }
                                Some(T::Struct(..)) => { let (o, ft) = Self::soff(cur.as_ref().unwrap(), ix as u64); addr += o; cur = Some(ft); }
                                Some(T::Arr(_, t)) | Some(T::Vec(_, t)) => { let t = (**t).clone(); addr = addr.wrapping_add((ix * t.size() as i64) as u64); cur = Some(t); }
                                _ => p.fail("gep const"),
                            }
                        }
                        p.expect(b')');
                        C::Int(addr as u128)
                    }
                    _ => {
                        if matches!(t, T::F32 | T::F64) {
                            return Self::fp_at(p, w, t);
                        }
                        if let Some(x) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) { return C::Int(u128::from_str_radix(x, 16).unwrap()); }
                        p.fail(&format!("constant '{}' of {:?}", w, t))
                    }
                }
            }
        }
    }
    /// a floating point constant, with the payload if it is a NaN that has one
    fn fp_at(p: &mut P, w: &str, t: &T) -> C {
        let c = Self::fp(w, t);
        if w.ends_with("nan") && p.peek() == b'(' {
            p.expect(b'(');
            let x = p.word().to_string();
            p.expect(b')');
            let x = u128::from_str_radix(x.strip_prefix("0x").unwrap_or(&x), 16).unwrap_or(0);
            let C::Int(b) = c else { unreachable!() };
            return C::Int(if w.ends_with("snan") { (b & !(1u128 << if *t == T::F32 { 22 } else { 51 })) | x } else { b | x });
        }
        c
    }
    fn fp(s: &str, t: &T) -> C {
        let hex = s.strip_prefix("0x").map(|h| (h, false)).or(s.strip_prefix("f0x").map(|h| (h, true)));
        if let Some((h, raw)) = hex {
            let v = u64::from_str_radix(h, 16).unwrap();
            return C::Int(if *t == T::F32 && !(raw && h.len() <= 8) { (f64::from_bits(v) as f32).to_bits() as u128 } else { v as u128 });
        }
        let v: f64 = match s { "nan" | "+nan" | "+qnan" | "qnan" | "snan" | "+snan" => f64::NAN, "-nan" | "-qnan" | "-snan" => -f64::NAN, "inf" | "+inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, _ => s.parse().unwrap_or_else(|_| panic!("fp const {}", s)) };
        C::Int(if *t == T::F32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 })
    }
    fn soff(t: &T, i: u64) -> (u64, T) {
        match t {
            T::Struct(v, p) => {
                let mut o = 0;
                for (k, t) in v.iter().enumerate() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } if k as u64 == i { return (o, t.clone()); } o += t.size(); }
                panic!("soff")
            }
            T::Arr(_, t) | T::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("soff"),
        }
    }
    fn klist(&mut self, p: &mut P<'a>, end: u8) -> C {
        let mut v = vec![];
        if p.eat(end) { return C::Agg(v); }
        loop { let t = p.ty(); v.push(self.konst(p, &t)); if p.eat(end) { return C::Agg(v); } p.expect(b','); }
    }
    fn local(f: &mut FnCtx<'a>, n: &'a str, k: usize) -> u32 {
        if let Some(&(r, _)) = f.locals.get(n) { return r; }
        let r = f.nregs;
        f.nregs += k as u32;
        f.locals.insert(n, (r, k));
        r
    }
    /// operand of given type -> flattened operands
    fn op(&mut self, p: &mut P<'a>, f: &mut FnCtx<'a>, t: &T) -> Vec<O> {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            let k = t.nleaves();
            let r = Self::local(f, n, k);
            return (0..k).map(|i| (r + i as u32) as O).collect();
        }
        if *t == T::Other { p.ws(); if p.s[p.i] == b'!' { p.i += 1; if p.s[p.i] == b'{' { p.skip_balanced(); } else { p.word(); if p.i < p.s.len() && p.s[p.i] == b'(' { p.skip_balanced(); } } return vec![]; } }
        let c = self.konst(p, t);
        let mut v = vec![];
        Self::flat(t, &c, &mut v);
        let mut lv = vec![];
        t.leaves(0, &mut lv);
        v.iter().zip(lv).map(|(x, (_, t))| self.cst(*x, t.bits())).collect()
    }
    fn op1(&mut self, p: &mut P<'a>, f: &mut FnCtx<'a>, t: &T) -> O { let v = self.op(p, f, t); if v.len() == 1 { v[0] } else { p.fail(&format!("scalar operand of {:?}", t)) } }
    fn tmp(f: &mut FnCtx<'a>) -> u32 { f.nregs += 1; f.nregs - 1 }

    fn func(&mut self, pos: usize, id: u32) {
        let mut p = P { s: self.text, i: pos };
        p.word(); // define
        // return type: skip linkage / attributes
        p.attrs();
        let rt = p.ty();
        p.attrs();
        p.expect(b'@');
        p.name();
        p.expect(b'(');
        let mut f = FnCtx { locals: HashMap::new(), nregs: 0, code: vec![], labels: HashMap::new(), phis: HashMap::new() };
        let mut params: Vec<(u32, u8)> = vec![];
        let mut auto = 0u32;
        let text = self.text;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' { p.i += 3; p.expect(b')'); break; }
                let t = p.ty();
                p.attrs();
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                let r = if p.peek() == b'%' { p.i += 1; let n = p.name(); Self::local(&mut f, n, lv.len()) } else { let r = f.nregs; f.nregs += lv.len() as u32; let _ = auto; auto += 1; r };
                for (i, (_, t)) in lv.iter().enumerate() { params.push((r + i as u32, t.bits() as u8)); }
                if p.eat(b')') { break; }
                p.expect(b',');
            }
        }
        while p.s[p.i] != b'{' || p.s.get(p.i + 1) != Some(&b'\n') { p.i += 1; }
        p.i += 2;
        let mut fixes: Vec<Fix<'a>> = vec![];
        let mut cur: &'a str = "";
        let mut first = true;
        loop {
            p.ws();
            if p.s[p.i] == b'}' { break; }
            // label?
            {
                let k = p.i;
                let n = if p.s[p.i] == b'"' { p.name() } else { p.word() };
                if !n.is_empty() && p.i < text.len() && text[p.i] == b':' && p.s[k] != b'%' { p.i += 1; cur = n; f.labels.insert(n, f.code.len() as u32); first = false; p.line(); continue; }
                p.i = k;
                if first { f.labels.insert("", 0); first = false; }
            }
            if p.s[p.i] == b'#' { p.line(); continue; }
            self.inst(&mut p, &mut f, cur, &mut fixes);
            p.line();
        }
        // patch edges
        for fx in &fixes {
            let pc = *f.labels.get(fx.to).unwrap_or_else(|| panic!("label {} in {}", fx.to, self.m.funcs[id as usize].name));
            let mut moves: Vec<(u32, O)> = vec![];
            if let Some(ph) = f.phis.get(&pc) {
                for (d, inc) in ph {
                    let (ops, _) = inc.iter().find(|(_, l)| *l == fx.from || (fx.from.is_empty() && !f.labels.contains_key(l))).unwrap_or_else(|| panic!("phi edge from {} to {} pc {} have {:?} code {:?}", fx.from, fx.to, pc, inc, &f.code[pc as usize..(pc as usize+3).min(f.code.len())]));
                    for (i, &o) in ops.iter().enumerate() { if o != (*d + i as u32) as O { moves.push((*d + i as u32, o)); } }
                }
            }
            // hazard: a destination that is read by a later move
            let mut hazard = false;
            for i in 0..moves.len() { for j in i + 1..moves.len() { if moves[j].1 == moves[i].0 as O { hazard = true; } } }
            let e = Edge { pc, moves: moves.into_boxed_slice(), hazard };
            match &mut f.code[fx.at] {
                I::Br(x) => **x = e,
                I::CBr(_, x) => if fx.which == 0 { x.0 = e } else { x.1 = e },
                I::Switch(x) => x.3[fx.which] = e,
                I::Call(c) => { let x = c.inv.as_mut().unwrap(); if fx.which == 0 { x.0 = e } else { x.1 = e } }
                _ => panic!("fix"),
            }
        }
        let mut lv = vec![];
        rt.leaves(0, &mut lv);
        let fu = &mut self.m.funcs[id as usize];
        fu.nparams = params.len() as u32;
        fu.pregs = params;
        fu.nregs = f.nregs;
        fu.code = f.code;
        fu.retw = lv.iter().map(|x| x.1.bits() as u8).collect();
    }
    fn lanes(t: &T) -> (T, usize) { match t { T::Vec(n, t) => ((**t).clone(), *n as usize), t => (t.clone(), 1) } }
    fn edge0() -> Edge { Edge { pc: 0, moves: Box::new([]), hazard: false } }
    fn label(p: &mut P<'a>) -> &'a str { if p.word() != "label" { p.fail("label") } p.expect(b'%'); p.name() }

    fn inst(&mut self, p: &mut P<'a>, f: &mut FnCtx<'a>, cur: &'a str, fixes: &mut Vec<Fix<'a>>) {
        let mut dname: Option<&'a str> = None;
        if p.peek() == b'%' { p.i += 1; dname = Some(p.name()); p.expect(b'='); }
        let start = { p.ws(); p.i };
        let mut w = p.word();
        while matches!(w, "tail" | "musttail" | "notail") { w = p.word(); }
        let dreg = |f: &mut FnCtx<'a>, k: usize| -> u32 { match dname { Some(n) => Self::local(f, n, k), None => { let r = f.nregs; f.nregs += k as u32; r } } };
        match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                p.attrs();
                let t = p.ty();
                let a = self.op(p, f, &t); p.expect(b','); let b = self.op(p, f, &t);
                let (et, n) = Self::lanes(&t);
                let d = dreg(f, n);
                let k = match w { "add" => K::Add, "sub" => K::Sub, "mul" => K::Mul, "udiv" => K::UDiv, "sdiv" => K::SDiv, "urem" => K::URem, "srem" => K::SRem, "and" => K::And, "or" => K::Or, "xor" => K::Xor, "shl" => K::Shl, "lshr" => K::LShr, "ashr" => K::AShr, "fadd" => K::FAdd, "fsub" => K::FSub, "fmul" => K::FMul, "fdiv" => K::FDiv, _ => K::FRem };
                for i in 0..n { f.code.push(I::Bin { k, w: et.bits() as u8, d: d + i as u32, a: a[i], b: b[i] }); }
            }
            "icmp" => {
                let mut pr = p.word();
                if pr == "samesign" { pr = p.word(); }
                let t = p.ty();
                let a = self.op(p, f, &t); p.expect(b','); let b = self.op(p, f, &t);
                let (et, n) = Self::lanes(&t);
                let d = dreg(f, n);
                let (k, neg, sw) = match pr { "eq" => (K::Eq, false, false), "ne" => (K::Eq, true, false), "ult" => (K::Ult, false, false), "ule" => (K::Ule, false, false), "ugt" => (K::Ult, false, true), "uge" => (K::Ule, false, true), "slt" => (K::Slt, false, false), "sle" => (K::Sle, false, false), "sgt" => (K::Slt, false, true), "sge" => (K::Sle, false, true), _ => p.fail("icmp pred") };
                for i in 0..n { let (x, y) = if sw { (b[i], a[i]) } else { (a[i], b[i]) }; f.code.push(I::Icmp { k, neg, w: et.bits() as u8, d: d + i as u32, a: x, b: y }); }
            }
            "fcmp" => {
                let preds = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"];
                let mut pr = p.word();
                while !preds.contains(&pr) { pr = p.word(); }
                let pi = preds.iter().position(|x| *x == pr).unwrap() as u8;
                let t = p.ty();
                let a = self.op(p, f, &t); p.expect(b','); let b = self.op(p, f, &t);
                let (et, n) = Self::lanes(&t);
                let d = dreg(f, n);
                for i in 0..n { f.code.push(I::Fcmp { p: pi, w: et.bits() as u8, d: d + i as u32, a: a[i], b: b[i] }); }
            }
            "fneg" => { p.attrs(); let t = p.ty(); let a = self.op(p, f, &t); let (et, n) = Self::lanes(&t); let d = dreg(f, n); for i in 0..n { f.code.push(I::FNeg { w: et.bits() as u8, d: d + i as u32, a: a[i] }); } }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fpext" | "fptrunc" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "ptrtoaddr" | "addrspacecast" => {
                p.attrs();
                let t = p.ty();
                let a = self.op(p, f, &t);
                if p.word() != "to" { p.fail("to") }
                let dt = p.ty();
                if w == "bitcast" {
                    let mut l1 = vec![]; t.leaves(0, &mut l1);
                    let mut l2 = vec![]; dt.leaves(0, &mut l2);
                    let d = dreg(f, l2.len());
                    if l1.len() == l2.len() { for i in 0..l1.len() { f.code.push(I::Mov { d: d + i as u32, a: a[i] }); } }
                    else {
                        let ds: Vec<(u32, u8)> = l2.iter().enumerate().map(|(i, x)| (d + i as u32, x.1.bits() as u8)).collect();
                        let ss: Vec<(O, u8)> = l1.iter().enumerate().map(|(i, x)| (a[i], x.1.bits() as u8)).collect();
                        f.code.push(I::Pack { d: ds.into(), s: ss.into() });
                    }
                    return;
                }
                let (et, n) = Self::lanes(&t);
                let (edt, _) = Self::lanes(&dt);
                let d = dreg(f, n);
                let (fw, tw) = (et.bits() as u8, edt.bits() as u8);
                for i in 0..n {
                    let d = d + i as u32; let a = a[i];
                    f.code.push(match w {
                        "trunc" => I::Trunc { w: tw, fw, d, a },
                        "zext" => I::Zext { w: tw, fw, d, a },
                        "sext" => I::Sext { w: tw, fw, d, a },
                        "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => if fw == tw { I::Mov { d, a } } else if fw > tw { I::Trunc { w: tw, fw, d, a } } else { I::Zext { w: tw, fw, d, a } },
                        "fpext" => I::Conv { k: K::FpExt, w: tw, fw, d, a },
                        "fptrunc" => I::Conv { k: K::FpTrunc, w: tw, fw, d, a },
                        "sitofp" => I::Conv { k: K::SiToFp, w: tw, fw, d, a },
                        "uitofp" => I::Conv { k: K::UiToFp, w: tw, fw, d, a },
                        "fptosi" => I::Conv { k: K::FpToSi, w: tw, fw, d, a },
                        _ => I::Conv { k: K::FpToUi, w: tw, fw, d, a },
                    });
                }
            }
            "freeze" => { let t = p.ty(); let a = self.op(p, f, &t); let d = dreg(f, a.len()); for (i, &x) in a.iter().enumerate() { f.code.push(I::Mov { d: d + i as u32, a: x }); } }
            "load" => {
                if p.eatw("atomic") {}
                if p.eatw("volatile") {}
                let t = p.ty(); p.expect(b','); let pt = p.ty(); let a = self.op1(p, f, &pt);
                let mut lv = vec![]; t.leaves(0, &mut lv);
                let d = dreg(f, lv.len());
                if lv.iter().any(|x| x.1.bits() % 8 != 0) && lv.len() > 1 && matches!(t, T::Vec(..)) {
                    let tot: usize = lv.iter().map(|x| x.1.bits() as usize).sum();
                    if tot % 8 != 0 || tot > 128 { f.code.push(I::Unsup("load of sub-byte vector".into())); return; }
                    let tr = Self::tmp(f);
                    f.code.push(I::Load { w: tot as u8, d: tr, a, off: 0 });
                    let ds: Vec<(u32, u8)> = lv.iter().enumerate().map(|(i, x)| (d + i as u32, x.1.bits() as u8)).collect();
                    f.code.push(I::Pack { d: ds.into(), s: vec![(tr as O, tot as u8)].into() });
                    return;
                }
                let a = if lv.len() > 1 { let tr = Self::tmp(f); f.code.push(I::Mov { d: tr, a }); tr as O } else { a };
                for (i, (o, t)) in lv.iter().enumerate() { f.code.push(I::Load { w: t.bits() as u8, d: d + i as u32, a, off: *o as u32 }); }
            }
            "store" => {
                if p.eatw("atomic") {}
                if p.eatw("volatile") {}
                let t = p.ty(); let v = self.op(p, f, &t); p.expect(b','); let pt = p.ty(); let a = self.op1(p, f, &pt);
                let mut lv = vec![]; t.leaves(0, &mut lv);
                if lv.iter().any(|x| x.1.bits() % 8 != 0) && lv.len() > 1 && matches!(t, T::Vec(..)) {
                    let tot: usize = lv.iter().map(|x| x.1.bits() as usize).sum();
                    if tot % 8 != 0 || tot > 128 { f.code.push(I::Unsup("store of sub-byte vector".into())); return; }
                    let tr = Self::tmp(f);
                    let ss: Vec<(O, u8)> = lv.iter().enumerate().map(|(i, x)| (v[i], x.1.bits() as u8)).collect();
                    f.code.push(I::Pack { d: vec![(tr, tot as u8)].into(), s: ss.into() });
                    f.code.push(I::Store { w: tot as u8, v: tr as O, a, off: 0 });
                    return;
                }
                for (i, (o, t)) in lv.iter().enumerate() { f.code.push(I::Store { w: t.bits() as u8, v: v[i], a, off: *o as u32 }); }
            }
            "getelementptr" => {
                while !p.is_type() { p.word(); if p.s[p.i] == b'(' { p.skip_balanced(); } }
                let et = p.ty(); p.expect(b',');
                let bt = p.ty();
                if bt != T::Ptr { f.code.push(I::Unsup("vector gep".into())); dreg(f, bt.nleaves()); return; }
                let mut base = self.op1(p, f, &bt);
                let mut off = 0i64;
                let mut dyns: Vec<(O, i64, u8)> = vec![];
                let mut curt: Option<T> = None;
                while p.pk() == b',' {
                    p.i += 1;
                    if p.peek() == b'!' { break; }
                    if !p.is_type() { break; }
                    let it = p.ty();
                    let idx = self.op1(p, f, &it);
                    let cv = if idx < 0 { Some(crate::expr::sext128(self.m.consts[(!idx) as usize].1, it.bits()) as i64) } else { None };
                    let (sc, nt) = match &curt {
                        None => (et.size() as i64, et.clone()),
                        Some(T::Struct(..)) => { let (o, ft) = Self::soff(curt.as_ref().unwrap(), cv.unwrap() as u64); off += o as i64; curt = Some(ft); continue; }
                        Some(T::Arr(_, t)) | Some(T::Vec(_, t)) => (t.size() as i64, (**t).clone()),
                        _ => p.fail("gep"),
                    };
                    match cv { Some(c) => off += c * sc, None => dyns.push((idx, sc, it.bits() as u8)) }
                    curt = Some(nt);
                }
                let d = dreg(f, 1);
                if dyns.is_empty() { f.code.push(I::GepC { d, a: base, off }); }
                else {
                    let n = dyns.len();
                    for (k, (i, sc, iw)) in dyns.into_iter().enumerate() {
                        let dd = if k + 1 == n { d } else { Self::tmp(f) };
                        f.code.push(I::Gep { d: dd, a: base, off: if k == 0 { off } else { 0 }, i, sc, iw });
                        base = dd as O;
                    }
                }
            }
            "alloca" => {
                let t = p.ty();
                let mut n = self.cst(1, 64);
                let mut al = t.align();
                while p.pk() == b',' {
                    p.i += 1;
                    if p.eatw("align") { al = al.max(p.word().parse().unwrap()); } else if p.is_type() { let it = p.ty(); n = self.op1(p, f, &it); } else { break; }
                }
                let d = dreg(f, 1);
                f.code.push(I::Alloca { d, size: t.size(), n, al });
            }
            "select" => {
                p.attrs();
                let ct = p.ty(); let c = self.op(p, f, &ct); p.expect(b',');
                let t = p.ty(); let a = self.op(p, f, &t); p.expect(b','); let t2 = p.ty(); let b = self.op(p, f, &t2);
                let mut lv = vec![]; t.leaves(0, &mut lv);
                let d = dreg(f, lv.len());
                for (i, (_, t)) in lv.iter().enumerate() { f.code.push(I::Select { w: t.bits() as u8, d: d + i as u32, c: if c.len() > 1 { c[i] } else { c[0] }, a: a[i], b: b[i] }); }
            }
            "phi" => {
                p.attrs();
                let t = p.ty();
                let d = dreg(f, t.nleaves());
                let mut inc = vec![];
                loop { p.expect(b'['); let o = self.op(p, f, &t); p.expect(b','); p.expect(b'%'); let l = p.name(); p.expect(b']'); inc.push((o, l)); if p.s[p.i] == b',' && p.s[p.i + 1] == b' ' && p.s[p.i + 2] == b'[' { p.i += 1; } else { break; } }
                f.phis.entry(f.code.len() as u32).or_default().push((d, inc));
            }
            "extractvalue" => {
                let t = p.ty(); let a = self.op(p, f, &t);
                let mut base = 0; let mut ct = t;
                while p.pk() == b',' { p.i += 1; let s = p.word(); let Ok(i) = s.parse::<u64>() else { break; }; let (o, nt) = ct.field(i); base += o; ct = nt; }
                let n = ct.nleaves();
                let d = dreg(f, n);
                for i in 0..n { f.code.push(I::Mov { d: d + i as u32, a: a[base + i] }); }
            }
            "insertvalue" => {
                let t = p.ty(); let a = self.op(p, f, &t); p.expect(b','); let vt = p.ty(); let v = self.op(p, f, &vt);
                let mut base = 0; let mut ct = t;
                while p.pk() == b',' { p.i += 1; let s = p.word(); let Ok(i) = s.parse::<u64>() else { break; }; let (o, nt) = ct.field(i); base += o; ct = nt; }
                let d = dreg(f, a.len());
                for i in 0..a.len() { let src = if i >= base && i < base + v.len() { v[i - base] } else { a[i] }; f.code.push(I::Mov { d: d + i as u32, a: src }); }
            }
            "insertelement" => {
                let t = p.ty(); let a = self.op(p, f, &t); p.expect(b','); let vt = p.ty(); let v = self.op1(p, f, &vt); p.expect(b','); let it = p.ty(); let i = self.op1(p, f, &it);
                let d = dreg(f, a.len());
                if i >= 0 { f.code.push(I::Unsup("insertelement dynamic".into())); return; }
                let ix = self.m.consts[(!i) as usize].0 as usize;
                for k in 0..a.len() { f.code.push(I::Mov { d: d + k as u32, a: if k == ix { v } else { a[k] } }); }
            }
            "extractelement" => {
                let t = p.ty(); let a = self.op(p, f, &t); p.expect(b','); let it = p.ty(); let i = self.op1(p, f, &it);
                let d = dreg(f, 1);
                if i >= 0 { f.code.push(I::Unsup("extractelement dynamic".into())); return; }
                let ix = self.m.consts[(!i) as usize].0 as usize;
                f.code.push(I::Mov { d, a: a[ix] });
            }
            "shufflevector" => {
                let t = p.ty(); let a = self.op(p, f, &t); p.expect(b','); let t2 = p.ty(); let b = self.op(p, f, &t2); p.expect(b','); let mt = p.ty(); let m = self.op(p, f, &mt);
                let d = dreg(f, m.len());
                for (k, &o) in m.iter().enumerate() { let ix = self.m.consts[(!o) as usize].0 as usize; let s = if ix < a.len() { a[ix] } else { b[ix - a.len()] }; f.code.push(I::Mov { d: d + k as u32, a: s }); }
            }
            "br" => {
                if p.peekword() == "label" { let l = Self::label(p); fixes.push(Fix { at: f.code.len(), which: 0, from: cur, to: l }); f.code.push(I::Br(Box::new(Self::edge0()))); }
                else {
                    let t = p.ty(); let c = self.op1(p, f, &t); p.expect(b','); let l1 = Self::label(p); p.expect(b','); let l2 = Self::label(p);
                    fixes.push(Fix { at: f.code.len(), which: 0, from: cur, to: l1 });
                    fixes.push(Fix { at: f.code.len(), which: 1, from: cur, to: l2 });
                    f.code.push(I::CBr(c, Box::new((Self::edge0(), Self::edge0()))));
                }
            }
            "switch" => {
                let t = p.ty(); let v = self.op1(p, f, &t); p.expect(b','); let dl = Self::label(p); p.expect(b'[');
                let at = f.code.len();
                fixes.push(Fix { at, which: 0, from: cur, to: dl });
                let mut cases = vec![]; let mut edges = vec![Self::edge0()]; let mut byl: HashMap<&str, u32> = HashMap::new();
                while !p.eat(b']') {
                    let ct = p.ty(); let c = self.konst(p, &ct); p.expect(b','); let l = Self::label(p);
                    let k = *byl.entry(l).or_insert_with(|| { edges.push(Self::edge0()); fixes.push(Fix { at, which: edges.len() - 1, from: cur, to: l }); (edges.len() - 1) as u32 });
                    cases.push((Self::ci(&c) & crate::expr::mask(t.bits()), k));
                }
                cases.sort();
                f.code.push(I::Switch(Box::new((v, t.bits() as u8, cases, edges))));
            }
            "ret" => { let t = p.ty(); let v = if t == T::Void { vec![] } else { self.op(p, f, &t) }; f.code.push(I::Ret(v.into())); }
            "unreachable" => f.code.push(I::Unreachable),
            "landingpad" => {
                let t = p.ty();
                let d = dreg(f, t.nleaves());
                let mut sel = 0;
                loop {
                    let k = { p.ws(); p.i };
                    let w = p.word();
                    match w { "cleanup" => {} "catch" => { sel = 1; let t = p.ty(); self.op(p, f, &t); } "filter" => { let t = p.ty(); self.op(p, f, &t); } _ => { p.i = k; break; } }
                }
                // back up so that the caller's line() does not skip the next statement
                if p.s[p.i] != b',' { p.i -= 1; while p.s[p.i] != b'\n' { p.i -= 1; } }
                f.code.push(I::LPad { d, sel });
            }
            "resume" => { let t = p.ty(); let v = self.op(p, f, &t); f.code.push(I::Resume(v[0])); }
            "fence" => f.code.push(I::Fence),
            "atomicrmw" => {
                p.eatw("volatile");
                let o = p.word();
                let pt = p.ty(); let a = self.op1(p, f, &pt); p.expect(b','); let t = p.ty(); let v = self.op1(p, f, &t);
                let op = match o { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "nand" => Rmw::Nand, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, _ => p.fail("rmw") };
                let d = dreg(f, 1);
                f.code.push(I::Rmw { op, w: t.bits() as u8, d, a, v });
            }
            "cmpxchg" => {
                p.eatw("weak"); p.eatw("volatile");
                let pt = p.ty(); let a = self.op1(p, f, &pt); p.expect(b','); let t = p.ty(); let c = self.op1(p, f, &t); p.expect(b','); let t2 = p.ty(); let n = self.op1(p, f, &t2);
                let d = dreg(f, 2);
                f.code.push(I::CmpX { w: t.bits() as u8, d, a, c, n });
            }
            "call" | "invoke" => self.call(p, f, cur, fixes, w == "invoke", dname),
            _ => { let _ = start; p.fail(&format!("instruction {}", w)) }
        }
    }
    fn call(&mut self, p: &mut P<'a>, f: &mut FnCtx<'a>, cur: &'a str, fixes: &mut Vec<Fix<'a>>, inv: bool, dname: Option<&'a str>) {
        p.attrs();
        let rt = p.ty();
        if p.peek() == b'(' { p.skip_balanced(); }
        let k = { p.ws(); p.i };
        let mut asm = false;
        if p.peekword() == "asm" {
            asm = true;
            p.word();
            while p.peek() != b'"' { p.word(); }
            p.i += 1; let st = p.i; while p.s[p.i] != b'"' { p.i += 1; }
            let txt = std::str::from_utf8(&p.s[st..p.i]).unwrap().to_string();
            p.i += 1; p.expect(b','); p.expect(b'"'); while p.s[p.i] != b'"' { p.i += 1; } p.i += 1;
            if !txt.is_empty() { f.code.push(I::Unsup(format!("inline asm {}", txt).into())); }
        }
        let _ = k;
        let mut name: Option<&'a str> = None;
        let mut ind: O = 0;
        if !asm {
            match p.peek() { b'@' => { p.i += 1; name = Some(p.name()); } _ => ind = self.op1(p, f, &T::Ptr) }
        }
        // arguments
        p.expect(b'(');
        let mut args: Vec<O> = vec![];
        let mut argt: Vec<T> = vec![];
        if !p.eat(b')') {
            loop {
                let t = p.ty();
                p.attrs();
                let v = self.op(p, f, &t);
                argt.push(t);
                args.extend(v);
                if p.eat(b')') { break; }
                p.expect(b',');
            }
        }
        let (mut l1, mut l2) = ("", "");
        if inv {
            p.attrs();
            if p.peek() == b'[' { p.skip_balanced(); }
            p.attrs();
            if p.word() != "to" { p.fail("invoke to") }
            l1 = Self::label(p);
            if p.word() != "unwind" { p.fail("unwind") }
            l2 = Self::label(p);
        }
        let mut lv = vec![];
        rt.leaves(0, &mut lv);
        let nd = lv.len();
        let d = match dname { Some(n) => Self::local(f, n, nd), None => { let r = f.nregs; f.nregs += nd as u32; r } };
        let rw = lv.first().map(|x| x.1.bits() as u8).unwrap_or(0);
        let mut done = asm;
        if let Some(n) = name { if let Some(x) = n.strip_prefix("llvm.") { self.intrinsic(f, x, &args, &argt, d, &rt); done = true; } }
        if done {
            if inv { fixes.push(Fix { at: f.code.len(), which: 0, from: cur, to: l1 }); f.code.push(I::Br(Box::new(Self::edge0()))); }
            return;
        }
        let callee = match name {
            Some(n) => {
                let id = self.m.fidx.get(n).copied();
                match id {
                    Some(i) if self.m.funcs[i as usize].defined => Callee::F(i),
                    _ => { let e = match self.m.ext.iter().position(|x| x == n) { Some(e) => e, None => { self.m.ext.push(n.to_string()); self.m.ext.len() - 1 } }; Callee::Ext(e as u32) }
                }
            }
            None => Callee::Ind(ind),
        };
        if inv {
            fixes.push(Fix { at: f.code.len(), which: 0, from: cur, to: l1 });
            fixes.push(Fix { at: f.code.len(), which: 1, from: cur, to: l2 });
        }
        f.code.push(I::Call(Box::new(CallI { callee, args: args.into(), d, nd: nd as u32, inv: if inv { Some(Box::new((Self::edge0(), Self::edge0()))) } else { None }, rw })));
    }
    fn intrinsic(&mut self, f: &mut FnCtx<'a>, n: &str, a: &[O], at: &[T], d: u32, rt: &T) {
        let starts = |s: &str| n.starts_with(s);
        if starts("lifetime") || starts("experimental.noalias") || starts("dbg") || starts("donothing") || starts("prefetch") || starts("invariant") || starts("x86.sse2.pause") || starts("sideeffect") { return; }
        if starts("assume") { return; }
        if starts("is.constant") { let c = self.cst(0, 1); f.code.push(I::Mov { d, a: c }); return; }
        if starts("expect") || starts("launder") || starts("strip") || starts("ssa.copy") { f.code.push(I::Mov { d, a: a[0] }); return; }
        let z = self.cst(0, 64);
        if starts("memcpy") || starts("memmove") { f.code.push(I::Intr { k: In::Memcpy, w: 64, fw: 0, d: 0, a: [a[0], a[1], a[2]] }); return; }
        if starts("memset") { f.code.push(I::Intr { k: In::Memset, w: 8, fw: 0, d: 0, a: [a[0], a[1], a[2]] }); return; }
        if starts("threadlocal.address") { f.code.push(I::Intr { k: In::Tls, w: 64, fw: 0, d, a: [a[0], z, z] }); return; }
        if starts("load.relative") { f.code.push(I::Intr { k: In::LoadRel, w: 64, fw: 0, d, a: [a[0], a[1], z] }); return; }
        if starts("trap") || starts("ubsantrap") || starts("debugtrap") { f.code.push(I::Intr { k: In::Trap, w: 0, fw: 0, d, a: [z, z, z] }); return; }
        if starts("eh.typeid.for") { let c = self.cst(1, 32); f.code.push(I::Mov { d, a: c }); return; }
        if starts("vector.reduce.") {
            let k = if starts("vector.reduce.or") { K::Or } else if starts("vector.reduce.and") { K::And } else if starts("vector.reduce.add") { K::Add } else if starts("vector.reduce.xor") { K::Xor } else { f.code.push(I::Unsup(n.into())); return; };
            let (et, cnt) = Self::lanes(&at[0]);
            f.code.push(I::Mov { d, a: a[0] });
            for i in 1..cnt { f.code.push(I::Bin { k, w: et.bits() as u8, d, a: d as O, b: a[i] }); }
            return;
        }
        let tab: &[(&str, In)] = &[
            ("cttz", In::Cttz), ("ctlz", In::Ctlz), ("ctpop", In::Ctpop), ("bswap", In::Bswap), ("bitreverse", In::Bitrev), ("fshl", In::Fshl), ("fshr", In::Fshr),
            ("umax", In::UMax), ("umin", In::UMin), ("smax", In::SMax), ("smin", In::SMin), ("usub.sat", In::USubSat), ("uadd.sat", In::UAddSat), ("ssub.sat", In::SSubSat), ("sadd.sat", In::SAddSat),
            ("umul.with", In::UMulO), ("smul.with", In::SMulO), ("uadd.with", In::UAddO), ("sadd.with", In::SAddO), ("usub.with", In::USubO), ("ssub.with", In::SSubO),
            ("ucmp", In::Ucmp), ("scmp", In::Scmp), ("maximumnum", In::FMaxNum), ("minimumnum", In::FMinNum), ("maxnum", In::FMaxNum), ("minnum", In::FMinNum),
            ("ceil", In::FCeil), ("floor", In::FFloor), ("trunc", In::FTrunc), ("roundeven", In::FRint), ("round", In::FRound), ("rint", In::FRint), ("nearbyint", In::FRint), ("sqrt", In::FSqrt), ("fabs", In::FAbs), ("log2", In::FLog2),
            ("log10", In::FOther(0)), ("log", In::FOther(1)), ("exp2", In::FOther(2)), ("exp", In::FOther(3)), ("pow", In::FOther(4)), ("powi", In::FOther(5)), ("sin", In::FOther(6)), ("cos", In::FOther(7)),
            ("fptosi.sat", In::FpToSiSat), ("fptoui.sat", In::FpToUiSat), ("is.fpclass", In::FpClass), ("abs", In::Abs), ("copysign", In::Copysign), ("fma", In::Fma), ("fmuladd", In::Fma),
        ];
        for (s, k) in tab {
            if n == *s || (n.starts_with(s) && n.as_bytes().get(s.len()) == Some(&b'.')) {
                let (et, cnt) = Self::lanes(&at[0]);
                let w = et.bits() as u8;
                let two = matches!(k, In::UMulO | In::SMulO | In::UAddO | In::SAddO | In::USubO | In::SSubO);
                if two && cnt > 1 { break; }
                let (ert, _) = Self::lanes(rt);
                let rw = if two { w } else { ert.bits() as u8 };
                let na = at.len();
                for i in 0..cnt {
                    let g = |j: usize| -> O { if j >= na { return z; } if matches!(at[j], T::Vec(..)) { a[j * cnt + i] } else { let mut o = 0; for t in &at[..j] { o += t.nleaves(); } a[o] } };
                    f.code.push(I::Intr { k: *k, w: rw, fw: w, d: d + i as u32, a: [g(0), g(1), g(2)] });
                }
                return;
            }
        }
        f.code.push(I::Unsup(format!("llvm.{}", n).into()));
    }
}
