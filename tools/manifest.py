#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks below (kept in step with properties.jsonl)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Seeded sampling: assurance grows with the number of runs, it is not a proof. Trusts the simulated disk, clock and "
        "scheduler, the reference models in src/, GCC 13 at -O1 and the installed protobuf, zlib and abseil. ")
CHECKS = json.load(open(os.path.join(V, "tools", "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "checks": [{
        "property": c,
        "quick_cmd": f"./check {c}",
        "thorough_cmd": f"./check {c} --tier thorough",
        "technique": "deterministic simulation with fault injection: " + CHECKS["checks"][c]["technique"],
        "level": "exploration",
        "level_note": NOTE + CHECKS["checks"][c]["note"],
    } for c in props if c in CHECKS["checks"]],
    "not_applicable": [{"property": p, "reason": CHECKS["not_applicable"].get(p, "Not built yet.")}
                       for p in props if p not in CHECKS["checks"]],
    "notes": "No hooks in /repo: every seam is outside (interposed system calls, allocator, clock, pthreads and compiler-inserted "
             "memory-access callbacks). ./check --replay FILE replays a violation.",
}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
