#!/usr/bin/env python3
"""Writes MANIFEST.json from the specs and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib import specs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C13": "A pure function of the tabulated constants: no schedule, time, I/O, fault or other party can change the outcome, so there is nothing for a simulator to decide (C01 does compare every table with independently computed points and weights while it runs).",
 "C14": "A pure statement about constant tables, independent of any schedule, clock, I/O or fault; C01 compares the tables with an independent model as a side effect, but exploring schedules adds nothing to this statement.",
 "C15": "An algebraic identity of pure functions for every coordinate; no nondeterminism for a simulator to control. C01 checks the values themselves against a reference under concurrency.",
 "C16": "Agreement between the compiler's constant evaluator and run-time code across dialects is decided at compile time; nothing happens during a run that a simulator could schedule or fail. (C01 and C07 are explored in both dialects at run time.)",
 "C17": "A pure numerical function of nine numbers; no schedule, fault or history is involved. C02 exercises it under histories of cell updates and concurrency.",
 "C18": "Compile-time combinatorial constants; nothing varies between runs.",
 "C20": "Whether an installed copy compiles in another project is a packaging question settled by one build per configuration; there is no concurrency, time, I/O fault or history in it. (An umbrella header that named missing files was repaired all the same; see DESIGN.md.)",
}
T = "deterministic simulation with fault injection: seeded search over "
checks = []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": T + s["technique"],
            "level": "exploration",
            "level_note": s["note"],
        })
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check yet")} for p in props if p["id"] not in specs.SPECS],
       "notes": "Every check builds what it needs from /repo's working tree into /verif/build (ignored by git) and removes it again; setup_cmd only verifies that the tools are present."}
hooks = getattr(specs, "HOOKS", None)
if hooks:
    man["hooks"] = hooks
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
