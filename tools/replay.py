#!/usr/bin/env python3
"""replay.py FILE - executes a replay file against /repo's working tree; exit 1 if the recorded failure occurs."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib
txt = open(sys.argv[1]).read().splitlines()
m = re.search(r"flavour=(\S+) profile=(\S+) seed=(\d+) digest=(\S+)", txt[0])
fl = m.group(1)
if subprocess.run([sys.executable, os.path.join(simlib.VERIF, "tools/build.py"), fl]).returncode:
    sys.exit(2)
v, d = simlib.run_plan(fl, [l for l in txt if not l.startswith("#")])
for x in v:
    print(f"{x[1]} at line {x[0]} [{x[2]}]: {x[3][:600]}")
print("digest", d, "(recorded " + m.group(4) + ")")
sys.exit(1 if v else 0)
