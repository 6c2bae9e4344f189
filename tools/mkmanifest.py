#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.txt's fixed section is kept by hand."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(V, "tools/claimed.txt")).read().split()
NOTE = {
}
GEN = ("Seeded deterministic simulation of the real library over a simulated disk, allocator and process life time; "
       "every result is compared with a reference model (long double series arithmetic) and between storage variants. "
       "Assurance is that of a search: it covers the seeds executed, not all inputs. Trusts the reference model and the compiler.")
NA = {
 "P18": "the tapeless types are pure functions of their operands: no I/O, schedule, fault point or call history reaches them, so there is nothing for a simulation to decide",
 "P19": "the schedule generator is a pure function of (steps, checkpoints); optimality is a combinatorial statement about its output, not about schedules or faults (its effect on results is decided under P08)",
 "P20": "accuracy of single operations over all double arguments is a pure input-output property without time, I/O, concurrency or history (their combination over histories is decided under P01, P02, P11)",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {i}",
                           evidence_file=f"evidence/{i}.json",
                           technique="deterministic simulation with fault injection: seeded histories, reference-model oracle, replayable minimised plans",
                           level="exploration", level_note=NOTE.get(i, GEN)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 tools/build.py asan && python3 tools/build.py plain", checks=checks, not_applicable=na,
         hooks=dict(guard="ADOLC_SIM", enable="tools/build.py compiles /repo's sources with -DADOLC_SIM=1", source_commits=["e4ba1f6efadf0818b5fa4687418ab62136c32143"]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
