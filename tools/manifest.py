#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check binaries that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
CONC = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C24", "C26"}
checks = []
for p in props:
    i = p["id"]
    if not os.path.exists(f"{here}/mc/harness/src/bin/{i.lower()}.rs"): continue
    if i in CONC:
        tech = "stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler, plus all operation sequences up to a depth"
        note = "every interleaving (preemption bound per job in the evidence) of the listed small harnesses over the real crate, compiled against an instrumented stand-in for std::sync; sequentially consistent memory, so weakened orderings are outside it"
    else:
        tech = "exhaustive bounded exploration of the real code: every sequence of source events, environment answers and polls up to a depth, against a reference model"
        note = "every event and poll sequence within the bounds listed in the evidence, on the real code; one or two source participants, values drawn from a few classes"
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i.lower()} quick", "thorough_cmd": f"bash check.sh {i.lower()} thorough", "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
have = {c["property"] for c in checks}
m = {"version": 1, "setup_cmd": "bash mc/build.sh c01", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in have],
     "notes": "No hooks in /repo: the crate is compiled unchanged; mc/rustc-wrap.sh redirects its `std` paths to mc/mcstd."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
