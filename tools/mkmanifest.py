#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with an entry in h/checks.json is claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(here + "/h/checks.json"))
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
SCHED = "stateless model checking of the real code: exhaustive deviation-bounded exploration of schedules and faults under a controlled scheduler"
BFS = "explicit-state search: exhaustive breadth-first exploration of the real code's operation sequences against a reference model"
ENUM = "bounded exhaustive enumeration of inputs/configurations of the real code, every one compared with a reference model"
DIFF = "bounded exhaustive enumeration of layouts on the real solver, each compared with an independently computed exact optimum"
MAPS = "stateless model checking: exhaustive deviation-bounded exploration of map iteration orders, call sequences and goroutine overlap of the real solver"
tech = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06"): tech[p] = SCHED
for p in ("C07", "C08"): tech[p] = "explicit-state search over frame/style histories on the real renderer, its output executed by a terminal emulator model"
for p in ("C11", "C24", "C25", "C26", "C27", "C30", "C31", "C34"): tech[p] = BFS
tech["C16"] = DIFF
tech["C17"] = MAPS
tech["C33"] = "stateless model checking: all ordered pairs of operations, and exhaustive deviation-bounded exploration of their interleavings at synchronisation, shared variables and the statements around them"
note = {
 "sched": "Holds for every interleaving (at synchronisation and I/O points) of the stated driver programs up to the stated number of deviations from the default schedule. Interleaves at synchronisation and I/O points, not between plain memory accesses. Trusts the shims that stand for sync, channels, context, signals and the terminal.",
 "shared": "Holds for every pair of the stated operations and every interleaving of the stated programs up to the stated number of deviations; the statement is the unit, and executions are sequentially consistent. Trusts the shims that stand for sync.",
 "screen": "Holds for every history of the stated alphabet and depth. Trusts the terminal emulator model (background-colour erase, wide characters, SGR).",
 "enum": "Holds for every input of the stated alphabet and bound; says nothing about values outside it. Trusts the reference model.",
}
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
hooks = here + "/tools/hooks.json"
if os.path.exists(hooks): out["hooks"] = json.load(open(hooks))
for p in props:
    if p in checks:
        kind = "sched" if p in ("C01","C02","C03","C04","C05","C06") else "shared" if p == "C33" else "screen" if p in ("C07","C08") else "enum"
        out["checks"].append({"property": p, "quick_cmd": "./run.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p,
            "technique": tech.get(p, ENUM), "level": "model_checking", "level_note": note[kind]})
    else:
        out["not_applicable"].append({"property": p, "reason": "no check built yet (work in progress)"})
json.dump(out, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
