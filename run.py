#!/usr/bin/env python3
"""Driver of the checks: builds the engine and the harnesses from /repo's working tree, runs the symbolic
harnesses of one property, replays every counterexample against the native build, writes the evidence."""
import fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
sys.path.insert(0, V)
import props  # noqa: E402

T0 = time.time()


def say(*a):
    print(*a, flush=True)


def env(**kw):
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0"})
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(kw)
    return e


def build():
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    h = os.path.join(V, "harness")
    shutil.copyfile("/repo/Cargo.lock", os.path.join(h, "Cargo.lock"))
    ax = subprocess.Popen(["cargo", "build", "--release"], cwd=os.path.join(V, "axsym"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          env=env(RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=os.path.join(B, "ax"), RUSTFLAGS="-Awarnings"))
    # harnesses that reach into private code are left out, not everything, where that code has another shape
    feats = ["server", "view"]
    while True:
        fl = "--cfg axmos_verif -Awarnings" + (" --cfg axmos_view" if "view" in feats else "")
        hb = subprocess.Popen(["cargo", "rustc", "--release", "--bin", "axh"] + (["--features", ",".join(feats)] if feats else []) +
                              ["--", "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
                              cwd=h, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              env=env(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(B, "h"), RUSTFLAGS=fl))
        o2 = hb.communicate()[0].decode(errors="replace")
        if not hb.returncode or not feats:
            break
        at = "\n".join(re.findall(r"^error.*\n(?: +--> .*\n)?", o2, re.M))
        bad = [f for f, k in (("server", "server.rs"), ("view", "verif.rs"), ("server", "c20.rs"), ("view", "store.rs")) if f in feats and k in at]
        drop = bad[0] if bad else feats[0]
        say(f"note: building without '{drop}' harnesses: {at[:600]}")
        feats.remove(drop)
    o1 = ax.communicate()[0].decode(errors="replace")
    for p, o, n in ((ax, o1, "axsym"), (hb, o2, "harness")):
        if p.returncode:
            say(o[-6000:])
            say(f"ERROR: build of {n} failed")
            sys.exit(2)
    lls = glob.glob(os.path.join(B, "h/release/build/axh/*/out/axh.ll")) + glob.glob(os.path.join(B, "h/release/deps/axh*.ll"))
    ll = max(lls, key=os.path.getmtime)
    exe = next(x for x in (ll[:-3], os.path.join(B, "h/release/axh")) if os.path.exists(x))
    return os.path.join(B, "ax/release/axsym"), ll, exe


def demangle(n):
    # readable enough for the evidence: the path components of a legacy or v0 symbol
    parts, i = [], 0
    s = n
    m = re.match(r"^_ZN", s)
    if m:
        i = 3
        while i < len(s) and s[i].isdigit():
            j = i
            while s[j].isdigit():
                j += 1
            k = int(s[i:j])
            parts.append(s[j:j + k])
            i = j + k
        parts = [p for p in parts if not re.fullmatch(r"h[0-9a-f]{16}", p)]
        return "::".join(parts).replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("..", "::")
    if s.startswith("_R"):
        i = 2
        while i < len(s):
            m = re.match(r"s[0-9a-zA-Z]*_(?=\d)", s[i:])
            if m:
                i += m.end()
                continue
            m = re.match(r"([1-9]\d*)_?", s[i:])
            if m:
                k = int(m.group(1))
                w = s[i + m.end():i + m.end() + k]
                if len(w) == k and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", w):
                    parts.append(w)
                    i += m.end() + k
                    continue
            i += 1
        return "::".join(parts) or n
    return n


def exec_replay(ax, ll, args, v):
    """runs one assignment and schedule of threads through the executor, everything concrete"""
    d = tempfile.mkdtemp(prefix="axreplay-")
    try:
        rf, of = os.path.join(d, "replay"), os.path.join(d, "out")
        with open(rf, "w") as f:
            for k, x in v["vars"].items():
                f.write(f"{k}={x}\n")
            f.write("#crash=" + ",".join(map(str, v["crash"])) + "\n#sched=" + ",".join(map(str, v["sched"])) + "\n")
        p = subprocess.run([ax, "--ll", ll, "--workers", "1", "--time", "60", "--out", of, "--replay", rf, "--"] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90)
        got = []
        if os.path.exists(of):
            for l in open(of):
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                if r.get("t") == "viol":
                    got.append(r["id"])
        return got, "replayed on the compiled code in the executor under the recorded schedule\n" + "\n".join(v["notes"][-20:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Native:
    """replays one assignment on the native build inside a scratch directory"""

    def __init__(self, exe):
        self.exe = exe

    def run(self, args, vars_, crash, timeout=30, verbose=False):
        d = tempfile.mkdtemp(prefix="axreplay-")
        ids, log = [], ""
        try:
            rf = os.path.join(d, "replay")
            with open(rf, "w") as f:
                for k, v in vars_.items():
                    f.write(f"{k}={v}\n")
                f.write("#crash=" + ",".join(map(str, crash)) + "\n")
            w = os.path.join(d, "w")
            os.mkdir(w)
            phase = 0
            while True:
                e = dict(os.environ)
                e.update({"AXS_REPLAY": rf, "AXS_GHOST": os.path.join(d, "ghost"), "AXS_PHASE": str(phase), "RUST_BACKTRACE": "0"})
                if verbose:
                    e["AXS_VERBOSE"] = "1"
                try:
                    p = subprocess.run([self.exe] + args, cwd=w, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
                except subprocess.TimeoutExpired as x:
                    log += (x.stdout or b"").decode(errors="replace")
                    return ids + ["hang"], log
                o = p.stdout.decode(errors="replace")
                log += f"--- phase {phase}\n" + o
                ids += re.findall(r"^AXS-VIOLATION (\S+)", o, re.M)
                c = p.returncode
                if c == 75 and phase < 8:
                    phase += 1
                    continue
                if c in (0, 77):
                    pass
                elif c == 78:
                    ids.append("#infeasible")
                elif c == -6:
                    ids.append("abort")
                elif c in (-11, -7):
                    ids.append("memory-fault")
                else:
                    ids.append("uncaught-panic")
                return ids, log
        finally:
            shutil.rmtree(d, ignore_errors=True)


def known(prop):
    out = {}
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l:
                continue
            d = json.loads(l)
            if d.get("status") == "known" and d["property"] == prop:
                out[(d.get("harness"), d["id"])] = d
    return out


def main():
    prop = sys.argv[1]
    if prop == "--build":
        build()
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    verbose = "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[prop]
    if "--replay" in sys.argv:
        return replay(sys.argv[sys.argv.index("--replay") + 1])
    axsym, ll, exe = build()
    tb = time.time() - T0
    say(f"built in {tb:.0f}s")
    nat = Native(exe)
    have = subprocess.run([exe, "list"], stdout=subprocess.PIPE).stdout.decode().split()
    kn = known(prop)
    work = tempfile.mkdtemp(prefix="axrun-")
    rdir = os.path.join(V, "replays", prop)
    tot = {}
    funcs, jobs, samples, viols, errors, incomplete = set(), [], [], [], [], []
    seen_known, names = {}, []
    validated = 0
    try:
        for job in P["jobs"]:
            if job.get("tier", "quick") == "thorough" and tier == "quick":
                continue
            if only and not job["h"].startswith(only):
                continue
            args = [job["h"]] + [str(x) for x in (job.get("args_thorough") if tier == "thorough" and "args_thorough" in job else job.get("args", []))]
            if job["h"] not in have:
                incomplete.append(f"{args}: harness not built: the private code it reaches into has another shape")
                continue
            tl = job.get("time_" + tier, job.get("time", 100 if tier == "quick" else 1200))
            out = os.path.join(work, "o.json")
            if os.path.exists(out):
                os.remove(out)
            nm = os.path.join(work, "names")
            t = time.time()
            p = subprocess.run([axsym, "--ll", ll, "--out", out, "--names", nm, "--workers", str(os.cpu_count() or 8), "--time", str(tl),
                                "--max-steps", str(job.get("max_steps", 400_000_000))] + job.get("opts", []) + ["--"] + args,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tl + 200)
            dt = time.time() - t
            if p.returncode:
                errors.append(f"{args}: engine exit {p.returncode}: {p.stdout.decode(errors='replace')[-1500:]}")
                continue
            names = open(nm).read().split("\n")
            J = {"harness": " ".join(args), "bounds": job.get("bounds", ""), "wall_s": round(dt, 1)}
            vl, reached, ids, why, paths = [], {}, {}, {}, []
            for l in open(out):
                try:
                    d = json.loads(l)
                except ValueError:
                    errors.append(f"{args}: bad engine output line")
                    continue
                if d["t"] == "viol":
                    vl.append(d)
                elif d["t"] == "path":
                    paths.append(d)
                elif d["t"] == "died":
                    errors.append(f"{args}: a worker process died")
                else:
                    for k, v in d.items():
                        if k in ("maxdepth", "solver_max_us"):
                            J[k] = max(J.get(k, 0), v)
                        elif isinstance(v, int):
                            J[k] = J.get(k, 0) + v
                    for k, v in d["reached"].items():
                        reached[k] = reached.get(k, 0) + v
                    for k, v in d["ids"].items():
                        ids[k] = [a + b for a, b in zip(ids.get(k, [0, 0, 0]), v)]
                    for k, v in d["why"].items():
                        why[k] = why.get(k, 0) + v
                    funcs.update(d["funcs"])
            J["assertions"] = {k: {"evaluated": v[0], "solver_queries": v[1], "violations": v[2]} for k, v in sorted(ids.items())}
            J["reached"] = reached
            if why:
                J["cut"] = why
            for k in job.get("reach", []):
                if not reached.get(k):
                    errors.append(f"{args}: vacuous: never reached '{k}'")
            # anything the engine could not decide is not a pass
            for k, v in why.items():
                if "wall-clock" in k:
                    incomplete.append(f"{args}: {v} open branches when the time limit was reached")
                elif k in job.get("allow", []):
                    incomplete.append(f"{args}: {v} paths cut: {k}")
                else:
                    errors.append(f"{args}: {v} paths undecided: {k}")
            # replay
            byid = {}
            for v in vl:
                byid.setdefault(v["id"], []).append(v)
            for vid, vs in sorted(byid.items()):
                k = kn.get((job["h"], vid)) or kn.get((None, vid))
                if k and vid in seen_known:
                    continue
                ok = None
                for v in vs[:2 if vid == 'hang' else 6]:
                    if job.get("threads"):
                        got, log = exec_replay(axsym, ll, args, v)
                    else:
                        got, log = nat.run(args, v["vars"], v["crash"])
                    if vid in got:
                        ok = (v, got, log)
                        break
                    got = [g for g in got if g != "#infeasible" and not (kn.get((job["h"], g)) or kn.get((None, g)))]
                    if got and not ok:
                        ok = (v, got, log)
                if ok is None:
                    errors.append(f"{args}: counterexample for {vid} does not reproduce: vars={vs[0]['vars']} crash={vs[0]['crash']} native={got} notes={vs[0]['notes'][-3:]}")
                    continue
                validated += 1
                if k and vid in ok[1]:
                    seen_known[vid] = k
                    continue
                v = ok[0]
                os.makedirs(rdir, exist_ok=True)
                rp = os.path.join(rdir, re.sub(r"[^A-Za-z0-9_.-]", "_", f"{job['h']}-{vid}") + ".json")
                json.dump({"property": prop, "id": vid, "args": args, "vars": v["vars"], "crash": v["crash"], "sched": v.get("sched", []), "threads": bool(job.get("threads")), "notes": v["notes"], "native": ok[1], "log": ok[2][-4000:]}, open(rp, "w"), indent=1)
                viols.append((vid, rp, v))
            # agreement of the encoding with the native build on explored paths
            for v in paths[:job.get("validate", 6)]:
                got, log = nat.run(args, v["vars"], v["crash"])
                bad = [g for g in got if not (kn.get((job["h"], g)) or kn.get((None, g)))]
                if bad:
                    errors.append(f"{args}: native run of an explored path disagrees: {bad} vars={v['vars']} crash={v['crash']} {log[-600:]}")
                else:
                    validated += 1
                    if len(samples) < 8:
                        samples.append({"harness": " ".join(args), "assignment": v["vars"], "crash_points": v["crash"]})
            jobs.append(J)
            if verbose:
                say(json.dumps(J, indent=1))
            else:
                say(f"{' '.join(args)}: {J.get('paths', 0)} paths, {J.get('steps', 0)} steps, {J.get('checks', 0)} assertions, {J.get('queries', 0)} queries, solver {J.get('solver_us', 0) / 1e6:.1f}s, wall {dt:.1f}s")
    finally:
        shutil.rmtree(work, ignore_errors=True)

    def S(k):
        return sum(j.get(k, 0) for j in jobs)
    fn = sorted({demangle(names[i]) for i in funcs if i < len(names)})
    fn = [f for f in fn if "axmosdb" in f]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - T0, 1), "violations": len(viols),
        "coverage": {
            "states": S("paths"), "transitions": S("forks") + S("paths"), "traces_validated_against_impl": validated, "samples": samples or ["none"],
            "exhaustive": not incomplete and not errors,
            "explanation": "states = symbolic paths followed to their end, each standing for every input, crash point or order that satisfies its path condition; transitions = forks at branches on symbolic values plus path starts; traces validated = solver assignments replayed on the native build.",
            "instructions_executed": S("steps"), "assertions_evaluated": S("checks"), "assertion_solver_queries": S("check_queries"),
            "solver_queries": S("queries"), "solver_sat": S("sat"), "solver_unsat": S("unsat"), "solver_unknown": S("unknown"), "solver_cache_hits": S("cache_hits"),
            "solver_time_s": round(S("solver_us") / 1e6, 2), "functions_encoded": len(funcs), "engine_functions_encoded": fn,
            "jobs": [{k: v for k, v in j.items() if k not in ("funcs", "t")} for j in jobs], "incomplete": incomplete,
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": props.ASSUME + P.get("assume", []),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for k, d in sorted(seen_known.items()):
        say(f"KNOWN-FINDING: property={prop} {k}: {d['what']}")
    for i in incomplete:
        say("INCOMPLETE:", i)
    for vid, rp, v in viols:
        say(f"  {vid}: vars={v['vars']} crash={v['crash']} notes={v['notes'][-6:]}")
        say(f"VIOLATION property={prop} replay={rp}")
    for e in errors:
        say("ERROR:", e)
    if viols:
        sys.exit(1)
    if errors:
        sys.exit(2)
    say(f"OK property={prop} paths={S('paths')} queries={S('queries')} solver={S('solver_us') / 1e6:.1f}s wall={time.time() - T0:.0f}s")


def replay(path):
    ax, ll, exe = build()
    d = json.load(open(path))
    if d.get("threads"):
        got, log = exec_replay(ax, ll, d["args"], d)
    else:
        got, log = Native(exe).run(d["args"], d["vars"], d["crash"], verbose=True)
    print(log)
    print("native verdict:", got)


main()
