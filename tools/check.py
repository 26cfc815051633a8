#!/usr/bin/env python3
"""check.py <property> [extra driver args]   build from /repo and run one check
   check.py --replay <file>                  replay a recorded violation"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
V = build.V
def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        prop = next(l.split()[1] for l in open(a[1], errors="replace") if l.startswith("property "))
        exe = build.build(build.group_of(prop))
        return subprocess.call([exe, "replay", os.path.abspath(a[1])] + a[2:])
    prop = a[0]
    exe = build.build(build.group_of(prop))
    for d in ("evidence", "replays"): os.makedirs(os.path.join(V, d), exist_ok=True)
    return subprocess.call([exe, "check", prop, "--evidence", os.path.join(V, "evidence", prop + ".json"),
                            "--replays", os.path.join(V, "replays"), "--known", os.path.join(V, "known_findings.txt")] + a[1:], cwd=V)
sys.exit(main())
