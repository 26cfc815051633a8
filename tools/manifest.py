#!/usr/bin/env python3
"""Regenerates MANIFEST.json: every property whose scenario file exists is claimed."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
V = build.V
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
have = set()
for g, (ps, _) in build.GROUPS.items():
    if os.path.exists(os.path.join(V, "props", g + ".cpp")): have |= set(ps)
for p in props:
    i = p["id"]
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if i not in have: na.append(dict(property=i, reason="check under construction")); continue
    checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="./check.sh " + i, evidence_file="evidence/%s.json" % i,
        technique="deterministic simulation with fault injection (seeded schedule and fault search over the real code)",
        level="exploration",
        level_note="Seeded random, conflict-biased, PCT and site-biased schedules at memory-access granularity plus injected faults over the real library code; every violation is re-run, replayed from its recorded schedule, minimised and replayed in a fresh process. Samples, does not enumerate; assumes sequentially consistent memory and the simulated libc/pthread surface."))
m = dict(version=1, setup_cmd="python3 tools/build.py",
    checks=checks, not_applicable=na,
    notes="No hooks in /repo: the library is compiled unmodified with thread-sanitizer instrumentation calls that the simulator implements, and its libc/pthread imports are renamed at link time. VERIF_TIER selects quick or thorough.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
