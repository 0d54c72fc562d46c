//! Crash harnesses: the process dies before a symbolically chosen file operation; the database is
//! opened again and compared with the reference.
use crate::{ax, db::*, sim::*};
pub const TABLE: &[(&str, fn(&[String]))] = &[("c01_ack", c01_ack), ("c01_volume", c01_volume), ("c01_evict", c01_evict), ("c01_cycles", c01_cycles), ("c02_atomic", c02_atomic), ("c02_mix", c02_mix), ("c02_undone", c02_undone), ("c08_recover", c08_recover), ("c08_flush", c08_flush), ("c08_vacuum", c08_vacuum), ("c08_clean", c08_clean)];
const MAX: u64 = 400;

/// `pre` runs outside the crash region, `steps` inside; afterwards `post` gets the reopened world.
/// `recrash`: the first reopening may die too.
pub fn crash_run(tag: &str, pre: &[St], steps: &[St], recrash: bool, post: &dyn Fn(&mut World)) { crash_with(cfg(), tag, pre, steps, recrash, post) }
pub fn crash_with(c: axmosdb::DBConfig, tag: &str, pre: &[St], steps: &[St], recrash: bool, post: &dyn Fn(&mut World)) {
    let ph = ax::phase();
    let g = ax::ghost();
    if ph == 0 {
        let mut w = World::with(tag, c);
        w.run(pre);
        g[0] = 0;
        ax::crash_region(true, MAX);
        for (i, s) in steps.iter().enumerate() {
            g[0] = i as u64;
            w.step(s);
        }
        g[0] = steps.len() as u64;
        ax::crash_now();
        return;
    }
    let mut m = Model::default();
    for s in pre { m.step(s); }
    let mut states = vec![m.tabs.clone()];
    for s in steps { m.step(s); states.push(m.tabs.clone()); }
    let i = g[0] as usize;
    if recrash && ph == 1 { ax::crash_region(true, MAX); }
    let db = match Db::open() { Ok(d) => d, Err(e) => { ax::note(&e); ax::fail(&format!("{tag}-reopen-failed")); return } };
    if recrash && ph == 1 {
        // the interrupted recovery is one of the possible ends of phase 1
        if ax::flag("crash_after_open") { ax::crash_now(); }
        ax::crash_region(false, 0);
    }
    ax::reach(if i == steps.len() { "crash-after-all" } else { "crash-inside" });
    let got = snapshot(&mut |q| db.rows(q));
    let a = eq_snap(&got, &states[i]);
    let b = if i < steps.len() { eq_snap(&got, &states[i + 1]) } else { 0 };
    ax::check_u(a | b, &format!("{tag}-contents"));
    let took_second = i < steps.len() && a == 0;
    let mut mm = Model::default();
    mm.tabs = states[if took_second { i + 1 } else { i }].clone();
    let mut w = World { db: Some(db), ses: Default::default(), m: mm, tag: tag.into(), lax: false };
    post(&mut w);
}
/// the database stays usable and a second crash or a clean reopen changes nothing
fn usable(w: &mut World) {
    let have = w.m.tabs.contains_key("t");
    if have {
        let x = ax::int("post", 0, 1000);
        w.step(&St::A(Ins("t", vec![(900, Some(x), 4)])));
        w.step(&St::A(Del("t", W::Id(1))));
    }
    if !w.m.tabs.contains_key("w") { w.step(&St::A(Create("w"))); }
    w.step(&St::A(Ins("w", vec![(901, Some(5), 4)])));
    w.read();
}
fn again(w: &mut World) {
    w.step(&St::Reopen);
    w.read();
}
fn noop(_: &mut World) {}
fn sv(i: usize) -> Option<i64> { Some(ax::int(&format!("v{i}"), 0, 1000)) }
fn ins(t: &'static str, id: i64, i: usize) -> Op { Ins(t, vec![(id, sv(i), 4)]) }
fn base() -> Vec<St> { vec![St::A(Create("t")), St::A(Ins("t", vec![(1, sv(0), 4), (2, sv(1), 4)])), St::A(Create("u")), St::A(ins("u", 1, 2))] }

/// only committed work: autocommit statements, session transactions, batches, DDL
fn c01_ack(_: &[String]) {
    let mut pre = base();
    if ax::flag("flushed") { pre.push(St::Flush); }
    let steps = match ax::choose("script", 8) {
        0 => vec![St::A(ins("t", 3, 3)), St::A(Del("t", W::Id(1))), St::A(Set("t", W::Id(2), sv(4)))],
        1 => vec![St::B(0), St::S(0, ins("t", 3, 3)), St::S(0, Del("t", W::Id(1))), St::C(0), St::A(ins("u", 2, 4))],
        2 => vec![St::Batch(vec![ins("t", 3, 3), ins("u", 3, 4), Del("t", W::Id(2))]), St::A(Add("t", W::All, 7))],
        3 => vec![St::B(0), St::B(1), St::S(0, ins("t", 3, 3)), St::S(1, ins("t", 4, 4)), St::C(1), St::S(0, ins("u", 5, 5)), St::C(0)],
        4 => vec![St::A(Create("w")), St::A(ins("w", 1, 3)), St::A(ins("w", 2, 4)), St::A(Drop("u"))],
        5 => vec![St::A(Ins("t", vec![(3, sv(3), 5000)])), St::A(Len("t", W::Id(2), 1200)), St::A(Del("t", W::Id(3)))],
        6 => vec![St::A(CreateU("w")), St::A(ins("w", 1, 3)), St::A(Del("w", W::Id(1))), St::A(ins("w", 2, 4))],
        _ => vec![St::A(Set("t", W::Id(1), sv(3))), St::A(Set("t", W::Id(1), sv(4))), St::A(Set("t", W::Id(1), None)), St::A(Del("t", W::Id(1))), St::A(ins("t", 1, 5))],
    };
    crash_run("ack", &pre, &steps, false, &noop);
}
/// amounts of log that fill blocks exactly, rotate them and are forced many times
fn c01_volume(_: &[String]) {
    let mut pre = base();
    let n = ax::choose("records", 4);
    let l = [3000, 12000, 20000, 33000][ax::choose("size", 4)];
    if ax::flag("flushed") { pre.push(St::Flush); }
    for k in 0..n { pre.push(St::A(Ins("u", vec![(10 + k as i64, sv(6), l)]))); }
    let l2 = [4, 9000, 33000][ax::choose("size2", 3)];
    let steps = vec![St::A(Ins("t", vec![(3, sv(3), l2)])), St::B(0), St::S(0, Ins("t", vec![(4, sv(4), l2)])), St::S(0, ins("t", 5, 5)), St::C(0), St::A(ins("u", 2, 4))];
    crash_run("volume", &pre, &steps, false, &noop);
}
/// work, crash, reopen, more work, crash, reopen ...
fn c01_cycles(_: &[String]) {
    let ph = ax::phase() as usize;
    let g = ax::ghost();
    const CYC: usize = 3;
    let plan: [Vec<St>; CYC] = [
        vec![St::A(ins("t", 10, 3)), St::A(Del("t", W::Id(1)))],
        match ax::choose("second", 4) { 0 => vec![St::A(Set("t", W::Id(2), sv(4))), St::A(ins("t", 11, 5))], 1 => vec![St::A(Create("w")), St::A(ins("w", 1, 5))], 2 => vec![St::Flush, St::A(ins("t", 11, 5))], _ => vec![St::B(0), St::S(0, ins("t", 12, 4)), St::S(0, ins("u", 12, 5)), St::C(0)] },
        vec![St::A(ins("u", 13, 6)), St::A(Del("t", W::Id(10)))],
    ];
    let pre = base();
    let mut m = Model::default();
    for s in &pre { m.step(s); }
    for p in plan.iter().take(ph) { for s in p { m.step(s); } }
    let mut w = if ph == 0 { let mut w = World::new("cycles"); w.run(&pre); w } else {
        let db = match Db::open() { Ok(d) => d, Err(e) => { ax::note(&e); ax::fail("cycles-reopen-failed"); return } };
        World { db: Some(db), ses: Default::default(), m: Model::default(), tag: "cycles".into(), lax: false }
    };
    w.m = m;
    w.read();
    if ph == CYC { ax::reach("all-cycles"); return; }
    g[0] = ph as u64;
    w.run(&plan[ph]);
    ax::crash_now();
}
/// a cache much smaller than the data: pages reach the file between checkpoints
fn c01_evict(_: &[String]) {
    let c = axmosdb::DBConfig::new(4096, [10, 16][ax::choose("cache", 2)], 1, 3, 2);
    let mut pre = base();
    pre.push(St::A(Ins("u", (30..42).map(|k| (k, Some(k), 1500)).collect())));
    if ax::flag("flushed") { pre.push(St::Flush); }
    let steps = match ax::choose("script", 4) {
        0 => vec![St::A(Ins("t", (50..56).map(|k| (k, sv(3), 1500)).collect())), St::A(Del("u", W::Id(35))), St::A(ins("t", 3, 4))],
        1 => vec![St::B(0), St::S(0, Ins("t", (50..58).map(|k| (k, sv(3), 1500)).collect())), St::S(0, Del("u", W::Lt(35))), St::A(ins("u", 3, 4)), St::R(0), St::A(ins("u", 4, 4))],
        2 => vec![St::B(0), St::S(0, Ins("t", (50..58).map(|k| (k, sv(3), 1500)).collect())), St::S(0, Del("u", W::All)), St::C(0), St::A(Drop("u"))],
        _ => vec![St::A(Ins("t", vec![(50, sv(3), 9000)])), St::A(Len("u", W::Lt(34), 2500)), St::Vac, St::A(ins("t", 51, 4))],
    };
    crash_with(c, "evict", &pre, &steps, false, &|w| usable(w));
}
/// transactions that are open, rolled back, dropped or failed at the crash
fn c02_atomic(_: &[String]) {
    let mut pre = base();
    if ax::flag("flushed") { pre.push(St::Flush); }
    let steps = match ax::choose("script", 9) {
        0 => vec![St::B(0), St::S(0, ins("t", 3, 3)), St::S(0, Del("t", W::Id(1))), St::S(0, ins("u", 9, 4)), St::C(0)],
        1 => vec![St::B(0), St::S(0, ins("t", 3, 3)), St::S(0, Del("t", W::Id(1))), St::R(0), St::A(ins("u", 9, 4))],
        2 => vec![St::B(0), St::S(0, ins("t", 3, 3)), St::A(ins("t", 4, 4)), St::S(0, Del("t", W::Id(2))), St::A(ins("u", 4, 5))],
        3 => vec![St::A(Ins("t", vec![(3, sv(3), 4), (4, sv(4), 4), (1, sv(5), 4)])), St::A(ins("t", 5, 5))],
        4 => vec![St::Batch(vec![ins("t", 3, 3), Del("t", W::Id(1)), Bad("INSERT INTO nosuch VALUES (1)")]), St::A(ins("t", 6, 4))],
        5 => vec![St::B(0), St::S(0, Create("w")), St::S(0, ins("w", 1, 3)), St::D(0), St::A(ins("t", 7, 4))],
        6 => vec![St::B(0), St::S(0, ins("t", 3, 3)), St::B(1), St::S(1, ins("t", 4, 4)), St::C(1), St::A(Del("t", W::Id(4))), St::D(0)],
        7 => vec![St::Batch(vec![Create("w"), ins("w", 1, 3), ins("w", 2, 4)]), St::B(0), St::S(0, Del("w", W::All)), St::A(ins("t", 8, 5))],
        _ => vec![St::B(0), St::S(0, Ins("t", vec![(3, sv(3), 6000), (4, sv(4), 3000)])), St::S(0, Del("t", W::Lt(500))), St::C(0)],
    };
    crash_run("atomic", &pre, &steps, false, &noop);
}
/// free combinations of steps
fn c02_mix(a: &[String]) {
    let depth: usize = a.first().map(|s| s.parse().unwrap()).unwrap_or(3);
    let pre = base();
    let mut steps = vec![];
    let mut open = [false; 2];
    for k in 0..depth {
        let id = 20 + k as i64;
        let c = ax::choose(&format!("step{k}"), 9);
        let s = match c {
            0 => St::A(ins("t", id, k + 3)),
            1 => St::A(Del("t", W::Id(1))),
            2 => if open[0] { St::S(0, ins("t", id, k + 3)) } else { open[0] = true; St::B(0) },
            3 => if open[0] { St::S(0, Del("t", W::Id(2))) } else { St::A(Ins("t", vec![(id, sv(3), 4), (1, sv(4), 4), (id, sv(4), 4)])) },
            4 => { if !open[0] { ax::assume(false) } open[0] = false; St::C(0) }
            5 => { if !open[0] { ax::assume(false) } open[0] = false; St::R(0) }
            6 => if open[1] { St::S(1, ins("u", id, k + 3)) } else { open[1] = true; St::B(1) },
            7 => { if !open[1] { ax::assume(false) } open[1] = false; St::C(1) }
            _ => St::A(Set("u", W::Id(1), sv(k + 3))),
        };
        steps.push(s);
    }
    // two open transactions deleting the same row, or deleting one another's rows: left to C04
    let d0 = steps.iter().filter(|s| matches!(s, St::S(0, Del(..)))).count();
    if d0 > 1 || (d0 == 1 && false) { ax::assume(false); }
    crash_run("mix", &pre, &steps, false, &noop);
}
/// an UPDATE of an unfinished transaction is gone after the crash
fn c02_undone(_: &[String]) {
    let pre = base();
    let steps = match ax::choose("script", 2) {
        0 => vec![St::B(0), St::S(0, Set("t", W::Id(1), Some(2000))), St::R(0), St::A(ins("u", 9, 4))],
        _ => vec![St::B(0), St::S(0, Set("t", W::Id(1), Some(2000))), St::A(ins("u", 9, 4))],
    };
    crash_run("undone-update", &pre, &steps, false, &noop);
}
/// recovery dies at any point and is repeated
fn c08_recover(_: &[String]) {
    let mut pre = base();
    if ax::flag("flushed") { pre.push(St::Flush); }
    let steps = match ax::choose("script", 5) {
        0 => vec![St::A(ins("t", 3, 3)), St::A(Del("t", W::Id(1)))],
        1 => vec![St::B(0), St::S(0, ins("t", 3, 3)), St::A(ins("t", 4, 4)), St::S(0, Del("t", W::Id(2)))],
        2 => vec![St::A(Create("w")), St::A(ins("w", 1, 3)), St::A(Drop("u"))],
        3 => vec![St::A(Ins("t", vec![(3, sv(3), 6000)])), St::A(Len("t", W::Id(1), 3000))],
        _ => vec![St::A(CreateU("w")), St::A(ins("w", 1, 3)), St::B(0), St::S(0, ins("w", 2, 4)), St::R(0)],
    };
    crash_run("recover", &pre, &steps, true, &|w| { usable(w); again(w); });
}
/// death during a checkpoint
fn c08_flush(_: &[String]) {
    let pre = base();
    let steps = vec![St::A(ins("t", 3, 3)), St::Flush];
    crash_run("flush", &pre, &steps, false, &|w| usable(w));
}
fn c08_vacuum(_: &[String]) {
    let mut pre = base();
    pre.extend([St::A(Del("t", W::Id(1))), St::A(Set("t", W::Id(2), sv(5))), St::B(0), St::S(0, ins("t", 7, 3)), St::R(0)]);
    let steps = vec![St::Vac];
    crash_run("vacuum", &pre, &steps, false, &|w| usable(w));
}
/// opening a closed or recovered database changes nothing
fn c08_clean(_: &[String]) {
    let mut w = World::new("clean");
    w.run(&base());
    w.step(&St::A(ins("t", 3, 3)));
    if ax::flag("del") { w.step(&St::A(Del("t", W::Id(1)))); }
    if ax::flag("rolled") { w.run(&[St::B(0), St::S(0, ins("t", 4, 4)), St::S(0, Del("t", W::Id(2))), St::R(0)]); }
    for _ in 0..3 {
        w.step(&St::Reopen);
        w.read();
    }
    usable(&mut w);
    again(&mut w);
}
