#!/usr/bin/env python3
"""Regenerates the fixed: lines of known_findings.txt from /repo's fix commits (the property of each is listed here)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(x.split("=") for x in open(os.path.join(V, "tools/fixprops.txt")).read().split())
out = subprocess.run(["git", "-C", os.environ.get("SIM_REPO", "/repo"), "log", "--reverse", "--format=%h %s", "cc11703.."], capture_output=True, text=True).stdout
lines = ["# fixed: genuine defects repaired in /repo (they suppress nothing).  known: defects recorded, not repaired."]
f = os.path.join(V, "known_findings.txt")
old = [l for l in open(f).read().splitlines() if l.startswith("known:")] if os.path.exists(f) else []
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    if h not in PROP: print("no property for", l); continue
    lines.append(f"fixed: property={PROP[h]} {h} {s[5:]}")
open(f, "w").write("\n".join(lines + old) + "\n")
