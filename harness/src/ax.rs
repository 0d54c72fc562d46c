//! Interface to the symbolic executor (or, natively, to the replay runtime in rt/rt.c).
#![allow(dead_code)]
mod c {
    unsafe extern "C" {
        pub fn axs_sym(n: *const u8, l: usize, bits: u32) -> u64;
        pub fn axs_bytes(n: *const u8, l: usize, p: *mut u8, len: usize);
        pub fn axs_assume(c: u64);
        pub fn axs_check(c: u64, id: *const u8, l: usize);
        pub fn axs_soft(c: u64, id: *const u8, l: usize);
        pub fn axs_conc(v: u64) -> u64;
        pub fn axs_decide(v: u64) -> u64;
        pub fn axs_is_symbolic() -> u64;
        pub fn axs_is_concrete(v: u64) -> u64;
        pub fn axs_ite(c: u64, a: u64, b: u64) -> u64;
        pub fn axs_reach(n: *const u8, l: usize);
        pub fn axs_note(n: *const u8, l: usize);
        pub fn axs_noteval(n: *const u8, l: usize, v: u64);
        pub fn axs_phase() -> u64;
        pub fn axs_ghost() -> *mut u8;
        pub fn axs_crash_region(on: u32, max: u64);
        pub fn axs_crash_now();
        pub fn axs_sched(n: u32);
        pub fn axs_alloc_limit(n: u64);
        pub fn axs_opaque(on: u32);
    }
}
pub fn is_symbolic() -> bool { unsafe { c::axs_is_symbolic() != 0 } }
pub fn raw(name: &str, bits: u32) -> u64 { unsafe { c::axs_sym(name.as_ptr(), name.len(), bits) } }
pub fn assume(b: bool) { unsafe { c::axs_assume(b as u64) } }
/// property assertion: the solver is asked whether it can fail on this path
pub fn check(b: bool, id: &str) { unsafe { c::axs_check(b as u64, id.as_ptr(), id.len()) } }
pub fn check_u(b: u64, id: &str) { unsafe { c::axs_check(b, id.as_ptr(), id.len()) } }
/// as [check], but the path goes on unconstrained when it fails
pub fn soft(b: bool, id: &str) { unsafe { c::axs_soft(b as u64, id.as_ptr(), id.len()) } }
pub fn fail(id: &str) { check(false, id) }
pub fn conc(v: u64) -> u64 { unsafe { c::axs_conc(v) } }
pub fn conc_i(v: i64) -> i64 { conc(v as u64) as i64 }
/// fork on a condition
pub fn decide(b: bool) -> bool { unsafe { c::axs_decide(b as u64) != 0 } }
pub fn is_concrete(v: u64) -> bool { unsafe { c::axs_is_concrete(v) != 0 } }
pub fn ite(b: bool, x: i64, y: i64) -> i64 { unsafe { c::axs_ite(b as u64, x as u64, y as u64) as i64 } }
pub fn reach(n: &str) { unsafe { c::axs_reach(n.as_ptr(), n.len()) } }
pub fn note(s: &str) { unsafe { c::axs_note(s.as_ptr(), s.len()) } }
pub fn noteval(n: &str, v: i64) { unsafe { c::axs_noteval(n.as_ptr(), n.len(), v as u64) } }
pub fn phase() -> u64 { unsafe { c::axs_phase() } }
pub fn ghost() -> &'static mut [u64] { unsafe { std::slice::from_raw_parts_mut(c::axs_ghost() as *mut u64, (1 << 20) / 8) } }
pub fn crash_region(on: bool, max: u64) { unsafe { c::axs_crash_region(on as u32, max) } }
/// from here on a thread may be passed over up to n times where it takes a lock or gets its turn
pub fn sched(n: u32) { unsafe { c::axs_sched(n) } }
/// each thread runs until it blocks
pub fn sched_off() { unsafe { c::axs_sched(u32::MAX) } }
/// single allocations above `n` bytes fail (0: no limit)
pub fn alloc_limit(n: u64) { unsafe { c::axs_alloc_limit(n) } }
/// numbers printed into texts show one of their possible values: for messages nothing depends on
pub fn opaque_text(on: bool) { unsafe { c::axs_opaque(on as u32) } }
pub fn crash_now() { unsafe { c::axs_crash_now() } }

/// symbolic choice 0..n, forked to a concrete value
pub fn choose(name: &str, n: u64) -> usize {
    let v = raw(name, 8);
    assume(v < n);
    conc(v) as usize
}
pub fn flag(name: &str) -> bool { choose(name, 2) == 1 }
/// symbolic signed integer lo..=hi kept symbolic (narrow variable, sign-extended)
pub fn int(name: &str, lo: i64, hi: i64) -> i64 {
    let span = (hi - lo) as u64;
    let mut bits = 1;
    while bits < 63 && (1u64 << bits) <= span { bits += 1; }
    let v = raw(name, bits);
    if (1u64 << bits) - 1 != span { assume(v <= span); }
    lo.wrapping_add(v as i64)
}
/// full-width symbolic 64-bit pattern
pub fn bits64(name: &str) -> u64 { raw(name, 64) }
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { c::axs_bytes(name.as_ptr(), name.len(), v.as_mut_ptr(), n) };
    v
}
