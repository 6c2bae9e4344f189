#!/usr/bin/env python3
"""shrink.py FLAVOUR PROFILE SEED TAGPREFIX -> minimised plan on stdout (developer helper)"""
import sys, simlib
fl, prof, seed, tag = sys.argv[1:5]
lines = simlib.gen(fl, prof, seed)
v, d = simlib.run_plan(fl, lines)
c = [x for x in v if x[1].startswith(tag)]
if not c:
    print("no such violation; have", sorted({x[1] for x in v})); sys.exit(1)
m = simlib.minimise(fl, lines, simlib.key(c[0]))
open("/tmp/min.plan", "w").write("\n".join(m) + "\n")
print("\n".join(m))
for x in simlib.run_plan(fl, m)[0]:
    print("VIO", x[0], x[1], "[%s]" % x[2], x[3][:500])
