//! Self-test of the machinery: a violated and a valid assertion over a symbolic row value.
use crate::{ax, db::*};
pub const TABLE: &[(&str, fn(&[String]))] = &[("smoke", smoke)];
fn smoke(_: &[String]) {
    let d = Db::create();
    d.must("CREATE TABLE t (id BIGINT, a INT, PRIMARY KEY(id))", "setup");
    let x = ax::int("x", 0, 1000);
    d.must(&format!("INSERT INTO t VALUES (1, {})", lit(x)), "setup");
    let r = d.rows("SELECT id FROM t WHERE a < 500").unwrap();
    ax::check((r.len() == 1) == (x < 500), "smoke-valid");
    ax::check(r.len() == 1 || x != 777, "smoke-cex");
}
