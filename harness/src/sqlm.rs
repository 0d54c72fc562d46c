//! Reference semantics of predicates and scalar expressions over rows with symbolic integers.
//! Nullness is concrete on a path; values stay symbolic, so no function here forks on them.
#![allow(dead_code)]
use crate::ax;
use crate::db::{lit, V};
pub type MRow = Vec<Option<i64>>;
/// three-valued truth: (is true, is false), both 0 = unknown
#[derive(Clone, Copy)]
pub struct T3 { pub t: u64, pub f: u64 }
impl T3 {
    pub const U: T3 = T3 { t: 0, f: 0 };
    pub fn b(x: bool) -> T3 { T3 { t: x as u64, f: x as u64 ^ 1 } }
    pub fn not(self) -> T3 { T3 { t: self.f, f: self.t } }
    pub fn and(self, o: T3) -> T3 { T3 { t: self.t & o.t, f: self.f | o.f } }
    pub fn or(self, o: T3) -> T3 { T3 { t: self.t | o.t, f: self.f & o.f } }
}
#[derive(Clone)]
pub enum E { C(usize), L(i64), Null, Add(Box<E>, Box<E>), Sub(Box<E>, Box<E>), Mul(Box<E>, Box<E>), Neg(Box<E>) }
pub fn c(i: usize) -> E { E::C(i) }
pub fn l(v: i64) -> E { E::L(v) }
pub fn add(a: E, b: E) -> E { E::Add(Box::new(a), Box::new(b)) }
pub fn sub(a: E, b: E) -> E { E::Sub(Box::new(a), Box::new(b)) }
pub fn mul(a: E, b: E) -> E { E::Mul(Box::new(a), Box::new(b)) }
pub fn neg(a: E) -> E { E::Neg(Box::new(a)) }
impl E {
    pub fn ev(&self, r: &[Option<i64>]) -> Option<i64> {
        Some(match self {
            E::C(i) => r[*i]?,
            E::L(v) => *v,
            E::Null => return None,
            E::Add(a, b) => a.ev(r)?.wrapping_add(b.ev(r)?),
            E::Sub(a, b) => a.ev(r)?.wrapping_sub(b.ev(r)?),
            E::Mul(a, b) => a.ev(r)?.wrapping_mul(b.ev(r)?),
            E::Neg(a) => a.ev(r)?.wrapping_neg(),
        })
    }
    /// text with the fewest parentheses: * binds tighter than + and -, both left-associative
    pub fn sql(&self, names: &[&str]) -> String { self.s(names, 0) }
    fn s(&self, n: &[&str], p: u8) -> String {
        let (q, t) = match self {
            E::C(i) => (9, n[*i].to_string()),
            E::L(v) => (9, lit(*v)),
            E::Null => (9, "NULL".into()),
            E::Add(a, b) => (1, format!("{} + {}", a.s(n, 1), b.s(n, 2))),
            E::Sub(a, b) => (1, format!("{} - {}", a.s(n, 1), b.s(n, 2))),
            E::Mul(a, b) => (3, format!("{} * {}", a.s(n, 3), b.s(n, 4))),
            E::Neg(a) => (5, format!("-{}", a.s(n, 6))),
        };
        if q < p { format!("({t})") } else { t }
    }
}
#[derive(Clone)]
pub enum P {
    Cmp(&'static str, E, E), IsNull(E, bool), Between(E, E, E, bool), In(E, Vec<E>, bool),
    Not(Box<P>), And(Box<P>, Box<P>), Or(Box<P>, Box<P>),
}
pub fn not(a: P) -> P { P::Not(Box::new(a)) }
pub fn and(a: P, b: P) -> P { P::And(Box::new(a), Box::new(b)) }
pub fn or(a: P, b: P) -> P { P::Or(Box::new(a), Box::new(b)) }
fn cmp(op: &str, a: Option<i64>, b: Option<i64>) -> T3 {
    let (Some(a), Some(b)) = (a, b) else { return T3::U };
    T3::b(match op { "=" => a == b, "<>" | "!=" => a != b, "<" => a < b, "<=" => a <= b, ">" => a > b, ">=" => a >= b, _ => unreachable!() })
}
impl P {
    pub fn ev(&self, r: &[Option<i64>]) -> T3 {
        match self {
            P::Cmp(op, a, b) => cmp(op, a.ev(r), b.ev(r)),
            P::IsNull(a, n) => { let x = T3::b(a.ev(r).is_none()); if *n { x.not() } else { x } }
            P::Between(x, a, b, n) => {
                let v = x.ev(r);
                let t = cmp(">=", v, a.ev(r)).and(cmp("<=", v, b.ev(r)));
                if *n { t.not() } else { t }
            }
            P::In(x, l, n) => {
                let v = x.ev(r);
                let mut t = T3::b(false);
                for e in l { t = t.or(cmp("=", v, e.ev(r))); }
                if *n { t.not() } else { t }
            }
            P::Not(a) => a.ev(r).not(),
            P::And(a, b) => a.ev(r).and(b.ev(r)),
            P::Or(a, b) => a.ev(r).or(b.ev(r)),
        }
    }
    /// NOT binds tighter than AND, AND tighter than OR; no redundant parentheses
    pub fn sql(&self, n: &[&str]) -> String { self.s(n, 0) }
    fn s(&self, n: &[&str], p: u8) -> String {
        let ng = |b: &bool| if *b { "NOT " } else { "" };
        let (q, t) = match self {
            P::Or(a, b) => (1, format!("{} OR {}", a.s(n, 1), b.s(n, 2))),
            P::And(a, b) => (3, format!("{} AND {}", a.s(n, 3), b.s(n, 4))),
            P::Not(a) => (5, format!("NOT {}", a.s(n, 6))),
            P::Cmp(op, a, b) => (6, format!("{} {op} {}", a.sql(n), b.sql(n))),
            P::IsNull(a, b) => (6, format!("{} IS {}NULL", a.sql(n), ng(b))),
            P::Between(x, a, b, g) => (6, format!("{} {}BETWEEN {} AND {}", x.sql(n), ng(g), a.sql(n), b.sql(n))),
            P::In(x, l, g) => (6, format!("{} {}IN ({})", x.sql(n), ng(g), l.iter().map(|e| e.sql(n)).collect::<Vec<_>>().join(", "))),
        };
        if q < p { format!("({t})") } else { t }
    }
}
pub fn litn(v: Option<i64>) -> String { match v { Some(x) => lit(x), None => "NULL".into() } }
pub fn mv(v: Option<i64>) -> V { match v { Some(x) => V::I(x), None => V::N } }
/// symbolic value or, when the flag choice says so, NULL
pub fn oint(name: &str, lo: i64, hi: i64, nullable: bool) -> Option<i64> {
    if nullable && ax::flag(&format!("{name}.null")) { return None; }
    Some(ax::int(name, lo, hi))
}
