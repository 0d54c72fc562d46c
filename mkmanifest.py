#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props
NA = json.load(open(os.path.join(V, "not_applicable.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "symbolic execution of the engine's LLVM IR; Z3 decides each assertion over all inputs, crash points and choices within bounds; counterexamples replayed natively"
NOTE = "Bounded: every path of the listed harnesses within the bounds recorded in evidence is followed to its end and each assertion is put to Z3. Trusts the LLVM IR produced by rustc, the executor axsym with its models of libc and threads, and Z3."
m = {"version": 1, "setup_cmd": "python3 run.py --build",
     "hooks": {"guard": "axmos_verif", "enable": "RUSTFLAGS=\"--cfg axmos_verif\" (set by run.py when it builds /verif/harness)", "source_commits": props.HOOKS},
     "checks": [{"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"python3 run.py {p} --tier thorough", "technique": TECH, "level": "model_checking", "level_note": NOTE} for p in ids if p in props.PROPS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check yet")} for p in ids if p not in props.PROPS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
