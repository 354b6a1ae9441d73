#!/usr/bin/env python3
"""Rewrite the fixed: entries of known_findings.txt from /repo's fix: commits (development tool, not run by a check)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(V + "/tools/fix_map.json"))   # subject -> property
out = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "fc9116e..HEAD"], text=True)
lines = []
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = next((p for k, p in M if k in s), None)
    if p is None:
        print("unmapped:", l); p = "C01"
    lines.append("fixed: property=%s %s %s" % (p, h, s[5:]))
f = V + "/known_findings.txt"
old = [l.rstrip("\n") for l in open(f)] if os.path.exists(f) else []
keep = [l for l in old if l.startswith("finding:")]
open(f, "w").write("\n".join(["# known findings (finding:) and repaired defects (fixed:)"] + keep + lines) + "\n")
