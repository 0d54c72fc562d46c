mod exec; mod expr; mod ext; mod ir; mod mem; mod solver; mod vfs;
use exec::*;
use std::collections::HashMap;
use std::rc::Rc;

fn main() {
    // deep recursion in the evaluator / simplifier: run on a big stack
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut hargs: Vec<String> = vec!["h".into()];
    let mut o = Opts { max_steps: 400_000_000, max_depth: 3000, deadline: std::time::Instant::now() + std::time::Duration::from_secs(600), out: String::new(), workers: 1, trace: false, verbose: false, max_enum: 300, max_viol: 2, concrete: None, concrete_crash: vec![], concrete_sched: vec![] };
    let mut rl = 200_000_000u32;
    let mut list = false;
    let mut names = String::new();
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut nx = || { i += 1; args.get(i).cloned().unwrap_or_default() };
        match a {
            "--ll" => ll = nx(),
            "--out" => o.out = nx(),
            "--workers" => o.workers = nx().parse().unwrap(),
            "--time" => o.deadline = std::time::Instant::now() + std::time::Duration::from_secs(nx().parse().unwrap()),
            "--max-steps" => o.max_steps = nx().parse().unwrap(),
            "--max-depth" => o.max_depth = nx().parse().unwrap(),
            "--max-viol" => o.max_viol = nx().parse().unwrap(),
            "--rlimit" => rl = nx().parse().unwrap(),
            "--trace" => o.trace = true,
            "-v" => o.verbose = true,
            "--list" => list = true,
            "--names" => names = nx(),
            "--replay" => {
                let mut m = HashMap::new();
                for l in std::fs::read_to_string(nx()).unwrap().lines() {
                    if let Some((k, v)) = l.split_once('=') { if k == "#sched" { o.concrete_sched = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(); } else if k == "#crash" { o.concrete_crash = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(); } else { m.insert(k.to_string(), v.parse().unwrap_or(0)); } }
                }
                o.concrete = Some(m);
            }
            "--" => { i += 1; while i < args.len() { hargs.push(args[i].clone()); i += 1; } }
            _ => { eprintln!("axsym: unknown option {}", a); return 3; }
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let text = std::fs::read(&ll).expect("read .ll");
    let m = ir::load(&text, &ext::weak_ok);
    let numfmt: Vec<u8> = m.funcs.iter().map(|f| exec::numfmt(&f.name)).collect();
    drop(text);
    if o.verbose || list { eprintln!("axsym: loaded {} functions, {} externs, {} consts in {:?}; {}", m.funcs.len(), m.ext.len(), m.consts.len(), t0.elapsed(), solver::version()); }
    if !names.is_empty() { let v: Vec<&str> = m.funcs.iter().map(|f| &*f.name).collect(); std::fs::write(&names, v.join("\n")).expect("names"); }
    let exts: Vec<Option<ExtFn>> = m.ext.iter().map(|n| ext::table(n)).collect();
    if list {
        for (n, x) in m.ext.iter().zip(&exts) { if x.is_none() { println!("unmodelled extern: {}", n); } }
        let mut k = std::collections::BTreeMap::new();
        for f in &m.funcs { for c in &f.code { if let ir::I::Unsup(s) = c { *k.entry(s.to_string()).or_insert(0) += 1; } } }
        for (s, n) in k { println!("unsupported instruction: {} x{}", s, n); }
        return 0;
    }
    let mut mem = mem::Mem::new();
    for (a, b) in &m.init { mem.write_bytes(*a, b); }
    let mut ar = expr::Arena::new();
    let consts: Vec<Val> = m.consts.iter().map(|(v, wide, w)| if *w > 64 { Val { v: 0, e: ar.cst(*wide, *w as u32) } } else { Val::c(*v) }).collect();
    let nf = m.funcs.len();
    let st = State {
        mem: mem.fork(), th: vec![], cur: 0, pc: vec![], model: Rc::new(vec![]), mid: 1, eq: Default::default(), vfs: Default::default(), heap: mem::HEAP_BASE, clock: 1_000_000_000, steps: 0, depth: 0, out: vec![], notes: Rc::new(vec![]),
        phase: 0, rnd: 0x1234_5678_9abc_def1, crash: Crash { on: false, idx: 0, count: 0, var: 0, taken: vec![], max: 0 }, nvars: Default::default(), freelist: Default::default(), nextkey: 1, sched: Default::default(), viol_seen: 0, alloc_limit: 0, opaque: false, keydtors: Default::default(),
    };
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut i64 };
    unsafe { *shared = 1; }
    let mut e = Engine {
        m: Rc::new(m), ar, z: solver::Z3::new(rl), st, init_mem: mem, work: Default::default(), o, s: Default::default(), consts, exts, reached: Default::default(), viols: Default::default(), ids: Default::default(),
        numfmt, funcs_hit: vec![false; nf], shared, is_child: false, unsup_why: Default::default(), next_mid: std::process::id() as usize * 1_000_000 + 10, args: hargs, profile: vec![],
    };
    e.st.vfs.close_all();
    e.boot();
    e.explore();
    if e.o.verbose { eprintln!("axsym: done in {:?}: {} paths, {} steps, {} queries ({} cached) {} ms solver", t0.elapsed(), e.s.paths, e.s.steps, e.z.queries, e.z.cache_hits, e.z.time_us / 1000); }
    unsafe { std::sync::atomic::AtomicI64::from_ptr(shared).fetch_sub(1, std::sync::atomic::Ordering::SeqCst); }
    wait_all();
    if DIED.load(std::sync::atomic::Ordering::SeqCst) { e.emit("{\"t\":\"died\"}\n"); }
    0
}
