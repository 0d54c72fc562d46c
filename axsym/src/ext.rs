//! Models of the external functions (libc, pthread, unwinder, allocator) and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::mem::*;
use std::rc::Rc;

type R = Result<X, End>;
const OK: u64 = 0;
const ERR: u64 = u64::MAX;

fn c(e: &mut Engine, a: &[Val], i: usize) -> Result<u64, End> { let v = a.get(i).copied().unwrap_or(Val::c(0)); e.conc(v, 64) }
fn ci(e: &mut Engine, a: &[Val], i: usize, w: u32) -> Result<u64, End> { let v = a.get(i).copied().unwrap_or(Val::c(0)); e.conc(v, w) }
fn ret(o: &mut Vec<Val>, v: u64) -> R { o.push(Val::c(v)); Ok(X::Ok) }
fn fail(e: &mut Engine, o: &mut Vec<Val>, errno: i32) -> R { e.set_errno(errno); ret(o, ERR) }

pub fn bytes_of(e: &mut Engine, p: u64, n: u64) -> Result<Vec<u8>, End> {
    if n == 0 { return Ok(vec![]); }
    if !Engine::okaddr(p) || n > 1 << 24 { return Err(segv(p)); }
    let (mut d, s) = e.st.mem.read_bytes(p, n as usize);
    if let Some(s) = s { for (i, &x) in s.iter().enumerate() { if x != 0 { d[i] = e.conc(Val { v: 0, e: x }, 8)? as u8; } } }
    Ok(d)
}
fn text_of(e: &mut Engine, p: u64, n: u64) -> Vec<u8> {
    // best-effort, does not constrain the state
    let (mut d, s) = e.st.mem.read_bytes(p, n as usize);
    if let Some(s) = s { for (i, &x) in s.iter().enumerate() { if x != 0 { d[i] = e.ev(x) as u8; } } }
    d
}
fn cstr(e: &mut Engine, p: u64) -> Result<String, End> {
    if !Engine::okaddr(p) { return Err(segv(p)); }
    let mut v = vec![];
    loop {
        let (b, s) = e.st.mem.byte(p + v.len() as u64);
        let b = if s != 0 { e.conc(Val { v: 0, e: s }, 8)? as u8 } else { b };
        if b == 0 { break; }
        v.push(b);
        if v.len() > 65536 { return Err(segv(p)); }
    }
    Ok(String::from_utf8_lossy(&v).to_string())
}

// ---------- allocator ----------
fn class(n: u64) -> u64 { if n <= 4096 { n.max(16).next_power_of_two() } else { (n + 4095) & !4095 } }
/// size of a request; above the harness's limit the allocation is refused
fn asz(e: &mut Engine, a: &[Val], i: usize) -> Result<u64, End> {
    let v = a.get(i).copied().unwrap_or(Val::c(0));
    let lim = e.st.alloc_limit;
    if v.e != 0 && lim != 0 {
        let l = e.ar.cst(lim as u128, 64);
        let q = e.ar.bin(K::Ult, l, v.e);
        if e.decide(q)? { return Ok(u64::MAX); }
    }
    e.conc(v, 64)
}
pub fn alloc(e: &mut Engine, n: u64, al: u64) -> Result<u64, End> {
    if n > 1 << 30 || (e.st.alloc_limit != 0 && n > e.st.alloc_limit) { return Ok(0); }
    let cl = class(n);
    if al <= 16 {
        if let Some(p) = e.st.freelist.get_mut(&cl).and_then(|v| v.pop()) { e.st.mem.write_u64(p - 16, 8, n); return Ok(p); }
    }
    let al = al.max(16);
    let p = if cl > 4096 || al > 16 { let a = al.max(16); (e.st.heap + 16 + a - 1) / a * a } else { e.st.heap + 16 };
    e.st.heap = (p + cl + 15) & !15;
    if e.st.heap > ADDR_LIMIT - (1 << 24) { return Err(End::Limit("heap exhausted".into())); }
    e.st.mem.write_u64(p - 16, 8, n);
    e.st.mem.write_u64(p - 8, 8, al);
    Ok(p)
}
pub fn dealloc(e: &mut Engine, p: u64) {
    if p == 0 { return; }
    let n = e.st.mem.header(p - 16);
    let al = e.st.mem.header(p - 8);
    let cl = class(n);
    if cl <= 4096 {
        if al <= 16 { e.st.freelist.entry(cl).or_default().push(p); }
    } else {
        let mut a = (p + 4095) & !4095;
        while a + 4096 <= p + cl { e.st.mem.drop_page(a); a += 4096; }
        if al <= 16 { e.st.freelist.entry(cl).or_default().push(p); }
    }
}
fn realloc_(e: &mut Engine, p: u64, n: u64, al: u64) -> Result<u64, End> {
    if p == 0 { return alloc(e, n, al); }
    let old = e.st.mem.header(p - 16);
    if class(n) == class(old) && al <= 16 { e.st.mem.write_u64(p - 16, 8, n); return Ok(p); }
    let q = alloc(e, n, al)?;
    if q == 0 { return Ok(0); }
    e.st.mem.copy(q, p, old.min(n));
    dealloc(e, p);
    Ok(q)
}
fn x_malloc(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let n = asz(e, a, 0)?; let p = alloc(e, n, 16)?; ret(o, p) }
fn x_calloc(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let n = asz(e, a, 0)?.saturating_mul(asz(e, a, 1)?); let p = alloc(e, n, 16)?; if p != 0 { e.st.mem.fill(p, n, 0, 0); } ret(o, p) }
fn x_mallocx(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let n = asz(e, a, 0)?; let fl = ci(e, a, 1, 32)?;
    let al = 1u64 << (fl & 63);
    let p = alloc(e, n, al)?;
    if p != 0 && fl & 0x40 != 0 { e.st.mem.fill(p, n, 0, 0); }
    ret(o, p)
}
fn x_rallocx(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let p = c(e, a, 0)?; let n = asz(e, a, 1)?; let fl = ci(e, a, 2, 32)?; let q = realloc_(e, p, n, 1u64 << (fl & 63))?; ret(o, q) }
fn x_realloc(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let p = c(e, a, 0)?; let n = asz(e, a, 1)?; let q = realloc_(e, p, n, 16)?; ret(o, q) }
fn x_free(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R { let p = c(e, a, 0)?; dealloc(e, p); Ok(X::Ok) }
fn x_memalign(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let pp = c(e, a, 0)?; let al = c(e, a, 1)?; let n = c(e, a, 2)?; let p = alloc(e, n, al)?; e.st.mem.write_u64(pp, 8, p); ret(o, 0) }

// ---------- memory / strings ----------
fn x_bcmp(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { cmp(e, a, o, false) }
fn x_memcmp(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { cmp(e, a, o, true) }
fn cmp(e: &mut Engine, a: &[Val], o: &mut Vec<Val>, ord: bool) -> R {
    let n = c(e, a, 2)?;
    if n == 0 { return ret(o, 0); }
    let (p, q) = (c(e, a, 0)?, c(e, a, 1)?);
    if !Engine::okaddr(p) || !Engine::okaddr(q) || n > 1 << 28 { return Err(segv(p.min(q))); }
    let (d1, s1) = e.st.mem.read_bytes(p, n as usize);
    let (d2, s2) = e.st.mem.read_bytes(q, n as usize);
    if s1.is_none() && s2.is_none() {
        return ret(o, match d1.cmp(&d2) { std::cmp::Ordering::Less => (-1i32) as u32 as u64, std::cmp::Ordering::Equal => 0, _ => 1 });
    }
    let n = n as usize;
    let mut prs: Vec<(E, E)> = vec![];
    let mut tail: Option<bool> = None; // definite difference: true = first less
    for i in 0..n {
        let x = s1.as_ref().map_or(0, |s| s[i]);
        let y = s2.as_ref().map_or(0, |s| s[i]);
        if x == 0 && y == 0 { if d1[i] != d2[i] { tail = Some(d1[i] < d2[i]); break; } continue; }
        if x == y { continue; }
        let ex = if x != 0 { x } else { e.ar.cst(d1[i] as u128, 8) };
        let ey = if y != 0 { y } else { e.ar.cst(d2[i] as u128, 8) };
        prs.push((ex, ey));
    }
    if !ord && tail.is_some() { return ret(o, 1); }
    if !ord {
        // merge adjacent extracts so that whole words are compared
        let mut eq = e.ar.tru();
        let mut i = 0;
        while i < prs.len() {
            let (mut x, mut y) = prs[i];
            let mut j = i + 1;
            while j < prs.len() && j - i < 8 { x = e.ar.concat(prs[j].0, x); y = e.ar.concat(prs[j].1, y); j += 1; }
            let q = e.ar.bin(K::Eq, x, y);
            eq = e.ar.bin(K::And, eq, q);
            i = j;
        }
        let ne = e.ar.not(eq);
        let r = e.ar.zext(ne, 32);
        let v = e.val(r);
        o.push(v);
        return Ok(X::Ok);
    }
    let m1 = e.ar.cst(mask(32), 32);
    let p1 = e.ar.cst(1, 32);
    let z0 = e.ar.cst(0, 32);
    let mut r = match tail { None => z0, Some(true) => m1, Some(false) => p1 };
    for (x, y) in prs.iter().rev() {
        let lt = e.ar.bin(K::Ult, *x, *y);
        let eq = e.ar.bin(K::Eq, *x, *y);
        let t = e.ar.ite(lt, m1, p1);
        r = e.ar.ite(eq, r, t);
    }
    let v = e.val(r);
    o.push(v);
    Ok(X::Ok)
}
fn x_memcpy(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let d = c(e, a, 0)?; let s = c(e, a, 1)?; let n = c(e, a, 2)?; e.st.mem.copy(d, s, n); ret(o, d) }
fn x_memset(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let d = c(e, a, 0)?; let v = ci(e, a, 1, 32)?; let n = c(e, a, 2)?; e.st.mem.fill(d, n, v as u8, 0); ret(o, d) }
fn x_strlen(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let p = c(e, a, 0)?; let s = cstr(e, p)?; ret(o, s.len() as u64) }

// ---------- unwinder ----------
fn x_raise(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R { let x = c(e, a, 0)?; Ok(X::Unwind(x)) }
fn x_noop(_: &mut Engine, _: &[Val], o: &mut Vec<Val>) -> R { ret(o, 0) }
fn x_eos(_: &mut Engine, _: &[Val], o: &mut Vec<Val>) -> R { ret(o, 5) }
fn x_abort(_: &mut Engine, _: &[Val], _: &mut Vec<Val>) -> R { Err(End::Abort("abort() called".into())) }
fn x_exit(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R { let x = ci(e, a, 0, 32)?; Err(End::Exit(x as i32)) }

// ---------- environment ----------
fn x_errno(e: &mut Engine, _: &[Val], o: &mut Vec<Val>) -> R { let b = e.tls_base(); ret(o, b + 0xF0000) }
fn x_getenv(_: &mut Engine, _: &[Val], o: &mut Vec<Val>) -> R { ret(o, 0) }
fn x_clock(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let p = c(e, a, 1)?;
    e.st.clock += 1000;
    let t = e.st.clock;
    e.st.mem.write_u64(p, 8, 1_700_000_000 + t / 1_000_000_000);
    e.st.mem.write_u64(p + 8, 8, t % 1_000_000_000);
    ret(o, 0)
}
fn x_sysconf(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let n = ci(e, a, 0, 32)?; ret(o, match n { 30 => 4096, 83 | 84 => 2, _ => 4096 }) }
fn x_self(e: &mut Engine, _: &[Val], o: &mut Vec<Val>) -> R { let t = e.st.cur as u64; ret(o, 1 + t) }
fn x_strerror(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let n = ci(e, a, 0, 32)?; let p = c(e, a, 1)?; let mut s = format!("error {}", n as i32).into_bytes(); s.push(0); e.st.mem.write_bytes(p, &s); ret(o, 0) }
fn rnd(e: &mut Engine) -> u64 { e.st.rnd = e.st.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); e.st.rnd >> 11 }
fn fill_random(e: &mut Engine, p: u64, n: u64) { for i in 0..n { let b = rnd(e) as u8; e.st.mem.set_byte(p + i, b, 0); } }
fn x_getrandom(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let p = c(e, a, 0)?; let n = c(e, a, 1)?; fill_random(e, p, n); ret(o, n) }
fn x_mmap(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let n = c(e, a, 1)?; let p = (e.st.heap + 4095) & !4095; e.st.heap = p + ((n + 4095) & !4095); ret(o, p) }
fn x_getstack(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let pa = c(e, a, 1)?; let ps = c(e, a, 2)?;
    let b = STACK_BASE + e.st.cur as u64 * STACK_SIZE;
    e.st.mem.write_u64(pa, 8, b);
    let n = e.st.th[e.st.cur].stack;
    e.st.mem.write_u64(ps, 8, n);
    ret(o, 0)
}
fn x_setstack(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let p = c(e, a, 0)?; let n = c(e, a, 1)?; e.st.mem.write_u64(p, 8, n); ret(o, 0) }
fn x_getguard(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let p = c(e, a, 1)?; e.st.mem.write_u64(p, 8, 4096); ret(o, 0) }
fn x_poll(_: &mut Engine, _: &[Val], o: &mut Vec<Val>) -> R { ret(o, 0) }

fn x_syscall(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let n = c(e, a, 0)?;
    match n {
        202 => { // futex
            let addr = c(e, a, 1)?; let op = ci(e, a, 2, 32)? & 0x7f; let v = ci(e, a, 3, 32)?;
            match op {
                0 | 9 => {
                    let cur = e.load(addr, 32);
                    let cur = e.conc(cur, 32)?;
                    if cur != v & 0xffff_ffff { return fail(e, o, 11); }
                    let tp = c(e, a, 4)?;
                    let dl = if tp == 0 { None } else {
                        let s = e.load(tp, 64).v; let ns = e.load(tp + 8, 64).v;
                        let t = s.saturating_mul(1_000_000_000).saturating_add(ns);
                        Some(if op == 9 { t.saturating_sub(1_700_000_000u64 * 1_000_000_000) } else { e.st.clock.saturating_add(t) })
                    };
                    let t = e.st.cur;
                    e.st.th[t].st = TS::Futex { addr, deadline: dl };
                    Ok(X::Block)
                }
                1 | 10 => {
                    let mut k = 0;
                    for t in 0..e.st.th.len() {
                        if k >= v as i32 as i64 { break; }
                        if let TS::Futex { addr: x, .. } = e.st.th[t].st { if x == addr { e.st.th[t].st = TS::Run; e.finish_call(t, Val::c(0)); k += 1; } }
                    }
                    sched_point(e);
                    ret(o, k as u64)
                }
                _ => Err(End::Unsup(format!("futex op {}", op))),
            }
        }
        318 => { let p = c(e, a, 1)?; let k = c(e, a, 2)?; fill_random(e, p, k); ret(o, k) }
        186 => { let t = e.st.cur as u64; ret(o, 1000 + t) }
        _ => fail(e, o, 38),
    }
}
/// deterministic cooperative scheduler: nothing to do at wake-ups
fn sched_point(_e: &mut Engine) {}
fn x_yield(e: &mut Engine, _: &[Val], o: &mut Vec<Val>) -> R {
    let cur = e.st.cur;
    let n = e.st.th.len();
    o.push(Val::c(0));
    e.st.clock += 1000;
    for k in 1..n { let t = (cur + k) % n; if e.st.th[t].st == TS::Run { e.st.cur = t; break; } }
    Ok(X::Ok)
}
fn x_nanosleep(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R {
    let k = if a.len() >= 4 { 2 } else { 0 };
    let p = c(e, a, k)?;
    let t = e.load(p, 64).v.saturating_mul(1_000_000_000).saturating_add(e.load(p + 8, 64).v);
    let cur = e.st.cur;
    let dl = e.st.clock + t;
    e.st.th[cur].st = TS::Sleep(dl);
    Ok(X::Block)
}
fn x_pcreate(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let pt = c(e, a, 0)?; let f = c(e, a, 2)?; let arg = c(e, a, 3)?;
    let Some(fi) = e.fn_at(f) else { return Err(End::Unsup("pthread_create target".into())) };
    if e.st.th.len() >= 100 { return ret(o, 11); }
    let at = c(e, a, 1)?;
    let n = if at == 0 { 8 << 20 } else { e.load(at, 64).v };
    let t = e.new_thread(fi, &[Val::c(arg)]);
    e.st.th[t].stack = n.clamp(16384, STACK_SIZE - 8192);
    e.st.mem.write_u64(pt, 8, 1 + t as u64);
    ret(o, 0)
}
fn x_pjoin(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let t = c(e, a, 0)? as usize - 1;
    if e.st.th[t].st == TS::Done { return ret(o, 0); }
    let cur = e.st.cur;
    e.st.th[cur].st = TS::Join(t);
    Ok(X::Block)
}
fn x_keycreate(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let p = c(e, a, 0)?; let d = c(e, a, 1)?; let k = e.st.nextkey; e.st.nextkey += 1; e.st.mem.write_u64(p, 4, k as u64); e.st.keydtors.insert(k, d); ret(o, 0) }
fn x_setspecific(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let k = ci(e, a, 0, 32)?; let v = c(e, a, 1)?; let t = e.st.cur; e.st.th[t].keys.insert(k as u32, v); ret(o, 0) }
fn x_getspecific(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let k = ci(e, a, 0, 32)?; let t = e.st.cur; let v = e.st.th[t].keys.get(&(k as u32)).copied().unwrap_or(0); ret(o, v) }
fn x_atexit(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let f = c(e, a, 0)?; let x = c(e, a, 1)?; let t = e.st.cur; e.st.th[t].dtors.push((f, x)); ret(o, 0) }

// ---------- files ----------
fn x_open(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let p = c(e, a, 0)?; let path = cstr(e, p)?; let fl = ci(e, a, 1, 32)?;
    if e.st.vfs.names.get(&path).is_none() && fl & 0o100 != 0 && path != "/dev/null" { crash_point(e)?; }
    if fl & 0o1000 != 0 { crash_point(e)?; }
    match e.st.vfs.open(&path, fl) { Ok(fd) => ret(o, fd), Err(x) => fail(e, o, x) }
}
fn x_close(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let fd = ci(e, a, 0, 32)?; if let Some(s) = e.st.vfs.fds.get_mut(fd as usize) { *s = None; } ret(o, 0) }
fn x_dup(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let fd = ci(e, a, 0, 32)?; let f = e.st.vfs.get(fd); e.st.vfs.fds.push(f); let n = e.st.vfs.fds.len() as u64 - 1; ret(o, n) }
fn x_fcntl(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let cmd = ci(e, a, 1, 32)?;
    if cmd == 1030 || cmd == 0 { return x_dup(e, a, o); }
    ret(o, 0)
}
fn put_stat(e: &mut Engine, p: u64, ino: u64, size: u64, dir: bool) {
    e.st.mem.fill(p, 144, 0, 0);
    e.st.mem.write_u64(p, 8, 1);
    e.st.mem.write_u64(p + 8, 8, ino + 10);
    e.st.mem.write_u64(p + 16, 8, 1);
    e.st.mem.write_u64(p + 24, 4, if dir { 0o040755 } else { 0o100644 });
    e.st.mem.write_u64(p + 48, 8, size);
    e.st.mem.write_u64(p + 56, 8, 4096);
    e.st.mem.write_u64(p + 64, 8, (size + 511) / 512);
}
fn x_fstat(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let fd = ci(e, a, 0, 32)?; let p = c(e, a, 1)?;
    match e.st.vfs.get(fd) { Some(f) => { let s = e.st.vfs.files[f.ino].size; put_stat(e, p, f.ino as u64, s, false); ret(o, 0) } None => if fd < 3 { put_stat(e, p, 1, 0, false); ret(o, 0) } else { fail(e, o, 9) } }
}
fn x_stat(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let pp = c(e, a, 0)?; let path = cstr(e, pp)?; let p = c(e, a, 1)?;
    if let Some(&i) = e.st.vfs.names.get(&path) { let s = e.st.vfs.files[i].size; put_stat(e, p, i as u64, s, false); return ret(o, 0); }
    if path == "/" || path == "." || path == "/ax" || e.st.vfs.dirs.contains(&path) { put_stat(e, p, 1, 0, true); return ret(o, 0); }
    fail(e, o, 2)
}
fn x_mkdir(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let p = c(e, a, 0)?; let s = cstr(e, p)?; e.st.vfs.dirs.insert(s); ret(o, 0) }
fn x_unlink(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { crash_point(e)?; let p = c(e, a, 0)?; let s = cstr(e, p)?; if e.st.vfs.names.remove(&s).is_some() { ret(o, 0) } else { fail(e, o, 2) } }
fn x_read(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let fd = ci(e, a, 0, 32)?; let p = c(e, a, 1)?; let n = c(e, a, 2)?;
    let Some(mut f) = e.st.vfs.get(fd) else { return fail(e, o, 9) };
    let (d, s) = e.st.vfs.read(f.ino, f.off, n);
    e.st.mem.write_mixed(p, &d, &s);
    f.off += d.len() as u64;
    e.st.vfs.fds[fd as usize] = Some(f);
    ret(o, d.len() as u64)
}
fn x_pread(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let fd = ci(e, a, 0, 32)?; let p = c(e, a, 1)?; let n = c(e, a, 2)?; let off = c(e, a, 3)?;
    let Some(f) = e.st.vfs.get(fd) else { return fail(e, o, 9) };
    let (d, s) = e.st.vfs.read(f.ino, off, n);
    e.st.mem.write_mixed(p, &d, &s);
    ret(o, d.len() as u64)
}
fn x_write(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let fd = ci(e, a, 0, 32)?; let p = c(e, a, 1)?; let n = c(e, a, 2)?;
    if fd == 1 || fd == 2 { let t = text_of(e, p, n); console(e, fd, &t); return ret(o, n); }
    let Some(_) = e.st.vfs.get(fd) else { return fail(e, o, 9) };
    crash_point(e)?;
    let mut f = e.st.vfs.get(fd).unwrap();
    let (d, s) = e.st.mem.read_bytes(p, n as usize);
    if f.append { f.off = e.st.vfs.files[f.ino].size; }
    e.st.vfs.write(f.ino, f.off, &d, &s);
    f.off += n;
    e.st.vfs.fds[fd as usize] = Some(f);
    ret(o, n)
}
fn x_pwrite(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let fd = ci(e, a, 0, 32)?; let p = c(e, a, 1)?; let n = c(e, a, 2)?; let off = c(e, a, 3)?;
    let Some(f) = e.st.vfs.get(fd) else { return fail(e, o, 9) };
    crash_point(e)?;
    let (d, s) = e.st.mem.read_bytes(p, n as usize);
    e.st.vfs.write(f.ino, off, &d, &s);
    ret(o, n)
}
fn console(e: &mut Engine, fd: u64, t: &[u8]) {
    if e.o.verbose || (fd == 1 && e.o.concrete.is_some()) { eprint!("{}", String::from_utf8_lossy(t)); }
    if e.st.out.len() < 20000 { e.st.out.extend_from_slice(t); }
}
fn x_writev(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let fd = ci(e, a, 0, 32)?; let p = c(e, a, 1)?; let n = ci(e, a, 2, 32)?;
    let mut tot = 0;
    for i in 0..n {
        let b = e.load(p + i * 16, 64).v; let l = e.load(p + i * 16 + 8, 64).v;
        if fd <= 2 { let t = text_of(e, b, l); console(e, fd, &t); } else if l > 0 { let mut oo = vec![]; x_write(e, &[Val::c(fd), Val::c(b), Val::c(l)], &mut oo)?; }
        tot += l;
    }
    ret(o, tot)
}
// one socket: what arrives is the file it was made from, what is sent is appended to /ax/sock.out
fn x_send(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let p = c(e, a, 1)?; let n = c(e, a, 2)?;
    let (d, s) = e.st.mem.read_bytes(p, n as usize);
    let Some(&ino) = e.st.vfs.names.get("/ax/sock.out") else { return fail(e, o, 32) };
    let off = e.st.vfs.files[ino].size;
    e.st.vfs.write(ino, off, &d, &s);
    ret(o, n)
}
fn h_opaque(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R { e.st.opaque = ci(e, a, 0, 32)? != 0; Ok(X::Ok) }
fn h_alloc_limit(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R { e.st.alloc_limit = c(e, a, 0)?; Ok(X::Ok) }
fn x_lseek(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let fd = ci(e, a, 0, 32)?; let off = c(e, a, 1)? as i64; let wh = ci(e, a, 2, 32)?;
    let Some(mut f) = e.st.vfs.get(fd) else { return fail(e, o, 9) };
    let base = match wh { 0 => 0, 1 => f.off as i64, _ => e.st.vfs.files[f.ino].size as i64 };
    let Some(n) = base.checked_add(off) else { return fail(e, o, 22) };
    if n < 0 { return fail(e, o, 22); }
    f.off = n as u64;
    e.st.vfs.fds[fd as usize] = Some(f);
    ret(o, n as u64)
}
fn x_ftruncate(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let fd = ci(e, a, 0, 32)?; let n = c(e, a, 1)?;
    let Some(f) = e.st.vfs.get(fd) else { return fail(e, o, 9) };
    crash_point(e)?;
    if n as i64 <= -1 { return fail(e, o, 22); }
    e.st.vfs.truncate(f.ino, n);
    ret(o, 0)
}
fn x_realpath(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let p = c(e, a, 0)?; let s = cstr(e, p)?;
    let mut b = s.into_bytes(); b.push(0);
    let q = alloc(e, 4096, 16)?;
    e.st.mem.write_bytes(q, &b);
    ret(o, q)
}
fn x_getcwd(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let p = c(e, a, 0)?; e.st.mem.write_bytes(p, b"/ax\0"); ret(o, p) }
fn x_readlink(e: &mut Engine, _: &[Val], o: &mut Vec<Val>) -> R { fail(e, o, 22) }

/// a mutating file operation is about to happen: crash here or not?
fn crash_point(e: &mut Engine) -> Result<(), End> {
    if !e.st.crash.on { return Ok(()); }
    let i = e.st.crash.count;
    let k = e.st.crash.idx;
    if let Some(_) = &e.o.concrete {
        let at = e.o.concrete_crash.get(k as usize).copied().unwrap_or(u64::MAX);
        e.st.crash.count += 1;
        if at == i { return Err(do_crash(e, i)); }
        return Ok(());
    }
    if i >= e.st.crash.max { e.st.crash.count += 1; return Ok(()); }
    let ic = e.ar.cst(i as u128, 16);
    let var = e.st.crash.var;
    let q = e.ar.bin(K::Eq, var, ic);
    let crash = e.decide(q)?;
    e.st.crash.count += 1;
    if crash { return Err(do_crash(e, i)); }
    Ok(())
}
fn do_crash(e: &mut Engine, i: u64) -> End {
    e.st.crash.taken.push(i);
    e.st.phase += 1;
    e.reset_image();
    End::Restarted
}

// ---------- harness interface ----------
/// from here on up to n times a thread may be passed over where it takes a lock or gets its turn
fn h_sched(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R {
    let n = ci(e, a, 0, 32)?;
    e.st.sched.on = n != 0xffff_ffff;
    e.st.sched.budget = if e.st.sched.on { n as u32 } else { 0 };
    Ok(X::Ok)
}
fn hstr(e: &mut Engine, a: &[Val], i: usize) -> Result<String, End> { let p = c(e, a, i)?; let n = c(e, a, i + 1)?; let b = bytes_of(e, p, n)?; Ok(String::from_utf8_lossy(&b).to_string()) }
pub fn sym(e: &mut Engine, name: &str, w: u32) -> E {
    if let Some(&x) = e.st.nvars.get(name) { return x; }
    let x = e.ar.named(name, w);
    e.st.nvars.insert(name.to_string(), x);
    x
}
fn h_sym(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let name = hstr(e, a, 0)?; let w = ci(e, a, 2, 32)? as u32;
    if let Some(m) = &e.o.concrete { let v = m.get(&name).copied().unwrap_or(0) as u64 & mask64(w); return ret(o, v); }
    let x = sym(e, &name, w);
    let z = e.ar.zext(x, 64);
    o.push(Val { v: 0, e: z });
    Ok(X::Ok)
}
fn h_bytes(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R {
    let name = hstr(e, a, 0)?; let p = c(e, a, 2)?; let n = c(e, a, 3)?;
    for i in 0..n {
        let nm = format!("{}[{}]", name, i);
        if let Some(m) = &e.o.concrete { let v = m.get(&nm).copied().unwrap_or(0) as u8; e.st.mem.set_byte(p + i, v, 0); continue; }
        let x = sym(e, &nm, 8);
        e.st.mem.set_byte(p + i, 0, x);
    }
    Ok(X::Ok)
}
fn tobool(e: &mut Engine, v: Val) -> Val {
    if v.e == 0 { return Val::c((v.v != 0) as u64); }
    let w = e.ar.w(v.e);
    if w == 1 { return v; }
    let z = e.ar.cst(0, w);
    let q = e.ar.bin(K::Eq, v.e, z);
    let n = e.ar.not(q);
    e.val(n)
}
fn h_assume(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R {
    let v = tobool(e, a[0]);
    if v.e == 0 { return if v.v == 1 { Ok(X::Ok) } else { Err(End::Infeasible) }; }
    e.assume(v.e)?;
    Ok(X::Ok)
}
fn h_check(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R { let id = hstr(e, a, 1)?; let v = tobool(e, a[0]); e.check(v, &id)?; Ok(X::Ok) }
fn h_soft(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R { let id = hstr(e, a, 1)?; let v = tobool(e, a[0]); e.soft(v, &id)?; Ok(X::Ok) }
fn h_conc(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { let v = c(e, a, 0)?; ret(o, v) }
fn h_is_sym(_: &mut Engine, _: &[Val], o: &mut Vec<Val>) -> R { ret(o, 1) }
fn h_ghost(_: &mut Engine, _: &[Val], o: &mut Vec<Val>) -> R { ret(o, GHOST_BASE) }
fn h_phase(e: &mut Engine, _: &[Val], o: &mut Vec<Val>) -> R { let p = e.st.phase as u64; ret(o, p) }
fn h_crash_region(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R {
    let on = ci(e, a, 0, 32)?; let max = c(e, a, 1)?;
    if on != 0 {
        e.st.crash.on = true;
        e.st.crash.count = 0;
        e.st.crash.max = max;
        let k = e.st.crash.taken.len();
        e.st.crash.idx = k as u64;
        if e.o.concrete.is_none() { e.st.crash.var = sym(e, &format!("crash_at.{}", k), 16); }
    } else { e.st.crash.on = false; }
    Ok(X::Ok)
}
fn h_crash_now(e: &mut Engine, _: &[Val], _: &mut Vec<Val>) -> R {
    // a crash after the last mutating operation of the region
    let i = if e.st.crash.on { e.st.crash.count } else { 60000 };
    if e.st.crash.on && e.o.concrete.is_none() && i >= e.st.crash.max { return Err(End::Limit(format!("crash points beyond the bound {}", e.st.crash.max))); }
    if e.st.crash.on && e.o.concrete.is_none() { let var = e.st.crash.var; let ic = e.ar.cst(i as u128, 16); let q = e.ar.bin(K::Eq, var, ic); e.assume(q)?; }
    do_crash(e, i);
    Ok(X::Restart)
}
fn h_reach(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R { let id = hstr(e, a, 0)?; *e.reached.entry(id).or_default() += 1; Ok(X::Ok) }
fn h_note(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R {
    let p = c(e, a, 0)?; let n = c(e, a, 1)?;
    let b = text_of(e, p, n);
    e.note(String::from_utf8_lossy(&b).to_string());
    Ok(X::Ok)
}
fn h_noteval(e: &mut Engine, a: &[Val], _: &mut Vec<Val>) -> R {
    let s = hstr(e, a, 0)?;
    let t = if a[2].e != 0 { let m = e.ev(a[2].e); format!("{} = {} (e.g. {})", s, e.ar.show(a[2].e, 6), m) } else { format!("{} = {}", s, a[2].v) };
    e.note(t);
    Ok(X::Ok)
}
fn h_ite(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    let cv = tobool(e, a[0]);
    if cv.e == 0 { o.push(if cv.v == 1 { a[1] } else { a[2] }); return Ok(X::Ok); }
    let (x, y) = (e.ex(a[1], 64), e.ex(a[2], 64));
    let r = e.ar.ite(cv.e, x, y);
    let v = e.val(r);
    o.push(v);
    Ok(X::Ok)
}
fn h_is_concrete(_: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R { ret(o, (a[0].e == 0) as u64) }
fn h_must(e: &mut Engine, a: &[Val], o: &mut Vec<Val>) -> R {
    // decide a boolean without keeping it symbolic (forks)
    let v = tobool(e, a[0]);
    let b = if v.e == 0 { v.v == 1 } else { e.decide(v.e)? };
    ret(o, b as u64)
}

pub fn table(n: &str) -> Option<ExtFn> {
    Some(match n {
        "_rjem_malloc" | "malloc" => x_malloc,
        "_rjem_calloc" | "calloc" => x_calloc,
        "_rjem_mallocx" => x_mallocx,
        "_rjem_rallocx" => x_rallocx,
        "_rjem_realloc" | "realloc" => x_realloc,
        "_rjem_sdallocx" | "_rjem_dallocx" | "_rjem_free" | "free" => x_free,
        "posix_memalign" => x_memalign,
        "bcmp" => x_bcmp, "memcmp" => x_memcmp, "memcpy" | "memmove" => x_memcpy, "memset" => x_memset, "strlen" => x_strlen,
        "_Unwind_RaiseException" => x_raise,
        "_Unwind_DeleteException" => x_noop,
        "_Unwind_Backtrace" => x_eos,
        "abort" => x_abort, "exit" | "_exit" => x_exit,
        "__errno_location" => x_errno, "getenv" => x_getenv, "clock_gettime" => x_clock, "sysconf" => x_sysconf,
        "__xpg_strerror_r" => x_strerror, "getrandom" => x_getrandom, "mmap64" | "mmap" => x_mmap,
        "munmap" | "mprotect" | "sigaction" | "sigaltstack" | "signal" | "pause" | "dl_iterate_phdr" | "dlsym" | "getauxval" | "pthread_setname_np" | "pthread_attr_init" | "pthread_attr_destroy"
        | "pthread_getattr_np" | "pthread_detach" | "fsync" | "fdatasync" | "pthread_key_delete" | "flock" | "madvise" | "setsockopt" | "ioctl" | "shutdown" => x_noop,
        "pthread_attr_setstacksize" => x_setstack, "pthread_attr_getstack" => x_getstack, "pthread_attr_getguardsize" => x_getguard,
        "poll" => x_poll, "syscall" => x_syscall, "sched_yield" => x_yield, "nanosleep" | "clock_nanosleep" => x_nanosleep,
        "pthread_self" => x_self, "pthread_create" => x_pcreate, "pthread_join" => x_pjoin, "pthread_key_create" => x_keycreate, "pthread_setspecific" => x_setspecific, "pthread_getspecific" => x_getspecific,
        "__cxa_thread_atexit_impl" => x_atexit,
        "open64" | "open" => x_open, "close" => x_close, "dup" => x_dup, "fcntl" => x_fcntl, "fstat64" | "fstat" => x_fstat, "stat64" | "stat" | "lstat64" => x_stat, "mkdir" => x_mkdir, "unlink" => x_unlink,
        "read" | "recv" => x_read, "send" => x_send, "axs_alloc_limit" => h_alloc_limit, "axs_opaque" => h_opaque, "write" => x_write, "writev" => x_writev, "pread64" => x_pread, "pwrite64" => x_pwrite, "lseek64" => x_lseek, "ftruncate64" => x_ftruncate,
        "realpath" => x_realpath, "getcwd" => x_getcwd, "readlink" => x_readlink,
        "axs_sym" => h_sym, "axs_bytes" => h_bytes, "axs_assume" => h_assume, "axs_check" => h_check, "axs_soft" => h_soft, "axs_conc" => h_conc, "axs_is_symbolic" => h_is_sym, "axs_ghost" => h_ghost, "axs_phase" => h_phase,
        "axs_crash_region" => h_crash_region, "axs_sched" => h_sched, "axs_crash_now" => h_crash_now, "axs_reach" => h_reach, "axs_note" => h_note, "axs_noteval" => h_noteval, "axs_ite" => h_ite, "axs_is_concrete" => h_is_concrete, "axs_decide" => h_must,
        _ => return None,
    })
}
pub fn weak_ok(n: &str) -> bool { matches!(n, "__cxa_thread_atexit_impl") }
#[allow(dead_code)]
pub fn rc<T>(x: T) -> Rc<T> { Rc::new(x) }
#[allow(dead_code)]
const _: u64 = OK;
