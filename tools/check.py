#!/usr/bin/env python3
"""check.py PROPERTY [--seconds N] [--profile P] - decides one property by seeded simulation.

Builds the simulator from /repo's working tree, searches seeds on all cores, and puts every
finding through the gate: the seed is executed again, its plan is minimised, and the minimised
plan has to reproduce the same failure twice in fresh processes before it is reported.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict.
"""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, tempfile, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib
from simlib import VERIF

T0 = time.time()
# property -> list of (flavour, profile, share of the workers); the flavours explore different seeds at the same time:
# asan sees memory errors, plain is about six times faster
PLAN = {f"P{i:02d}": [("plain", f"P{i:02d}", 0.625), ("asan", f"P{i:02d}", 0.375)] for i in range(1, 18)}
PLAN["P04"] = [("sched", "P04", 1.0)]
QUICK, THOROUGH = 55, 900

RULE = ("one evaluation = one simulated run: a plan of recordings, evaluations, configuration and faults drawn from the seed, "
        "executed by the real library in forked processes over a simulated disk and allocator; counted as distinct and non-trivial "
        "if its history digest (outcome, results, I/O operations and faults of every step) is new in this run and at least one result of the library was compared with "
        "the reference model, with another storage variant, or with the file/variable ledger")

def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) tag=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out

def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    def opt(n, d):
        return args[args.index(n) + 1] if n in args else d
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    seconds = float(opt("--seconds", THOROUGH if tier == "thorough" else QUICK))
    parts = PLAN[prop]
    if "--profile" in args:
        parts = [(p[0], opt("--profile", ""), p[2]) for p in parts]
    if "--flavour" in args:
        parts = [(opt("--flavour", ""), parts[0][1], 1.0)]
    for fl in sorted({p[0] for p in parts}):
        r = subprocess.run([sys.executable, os.path.join(VERIF, "tools/build.py"), fl])
        if r.returncode:
            print(f"no verdict: the {fl} simulator could not be built from /repo")
            return 2
    t_build = time.time() - T0
    work = tempfile.mkdtemp(prefix="adsim-check.")
    ncpu = max(2, min(8, os.cpu_count() or 8))
    tot = dict(runs=0, steps=0, distinct=0, states=0, io_histories=0)
    cov, found, part_info, samples = {}, [], [], []
    allstates = set()
    sim_s = 0.0
    failed_workers = 0
    try:
        procs = []
        w = 0
        for fl, prof, share in parts:
            base, nw = seed * 1000003 + 500000 * (fl == "plain"), max(1, round(ncpu * share))
            for k in range(nw):
                out = os.path.join(work, f"{prof}.{w}.json")
                sc = os.path.join(work, f"s{w}")
                w += 1
                os.makedirs(sc, exist_ok=True)
                procs.append((fl, prof, out, subprocess.Popen(
                    [simlib.sim(fl), "batch", prof, str(base + k), str(nw), str(seconds), "100000000", out],
                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=simlib.env({"SIM_SCRATCH": sc}))))
            part_info.append(dict(flavour=fl, profile=prof, workers=nw, first_seed=base, seconds=seconds, runs=0))
        t1 = time.time()
        for fl, prof, out, p in procs:
            try:
                p.wait(timeout=max(1, t1 + seconds + 330 - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if p.returncode or not os.path.exists(out):
                failed_workers += 1
                continue
            j = json.load(open(out))
            for k in tot:
                tot[k] += j.get(k, 0)
            next(i for i in part_info if i["flavour"] == fl and i["profile"] == prof)["runs"] += j["runs"]
            sim_s += j["seconds"]
            allstates.update(j.get("statehashes", []))
            for k, v in j["cov"].items():
                cov[k] = cov.get(k, 0) + v
            for v in j["found"]:
                found.append((fl, prof, v))
        fl, prof, _ = parts[0]
        samples.append(dict(profile=prof, seed=seed * 1000003, plan=simlib.gen(fl, prof, seed * 1000003)[:60]))
        if failed_workers or not tot["runs"]:
            print(f"no verdict: {failed_workers} simulation workers failed, {tot['runs']} runs")
            return 2
        nondet = [v for _, _, v in found if v["tag"] == "nondeterminism"]
        # ---- the gate
        seen, reports, unrepro, knownhits = set(), [], [], []
        kn = [k for k in known() if k[0] == prop]
        found = [f for f in found if f[2]["tag"] != "nondeterminism"]
        found.sort(key=lambda f: (f[2]["tag"], f[2]["seed"]))
        budget = time.time() + (150 if tier != "thorough" else 600)
        for fl, prof, v in found:
            if len(reports) >= 3 or time.time() > budget:
                break
            k0 = simlib.key((v["idx"], v["tag"], v["where"], v["msg"]))
            if k0 in seen:
                continue
            kf = next((k for k in kn if k[1] == v["tag"] and re.search(k[2], v["msg"])), None)
            if kf:
                if kf not in knownhits:
                    knownhits.append(kf)
                continue
            lines = simlib.gen(fl, prof, v["seed"])
            again, _ = simlib.run_plan(fl, lines)
            if not any(simlib.key(x) == k0 for x in again):
                unrepro.append(v)
                continue
            seen.add(k0)
            small = simlib.minimise(fl, lines, k0, ncpu, max(5.0, min(45.0, budget - time.time())))
            r1, d1 = simlib.run_plan(fl, small)
            r2, d2 = simlib.run_plan(fl, small)
            hit = [x for x in r1 if simlib.key(x) == k0]
            if not hit or d1 != d2 or not any(simlib.key(x) == k0 for x in r2):
                small, (r1, d1) = lines, simlib.run_plan(fl, lines)
                hit = [x for x in r1 if simlib.key(x) == k0]
                if not hit:
                    unrepro.append(v)
                    continue
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            name = f"{prop}-{hashlib.sha1(repr((k0, small)).encode()).hexdigest()[:10]}.plan"
            path = os.path.join(VERIF, "replays", name)
            with open(path, "w") as f:
                f.write(f"# property={prop} flavour={fl} profile={prof} seed={v['seed']} digest={d1}\n")
                f.write(f"# {hit[0][1]} at line {hit[0][0]} [{hit[0][2]}]: {hit[0][3][:600]}\n")
                f.write(f"# replay: python3 /verif/tools/replay.py {path}\n")
                f.write("\n".join(small) + "\n")
            reports.append((hit[0], path))
        for k in kn:
            if k in knownhits or "always" in k[3].split()[:1]:
                print(f"KNOWN-FINDING: property={prop} {k[3]}")
        for x, path in reports:
            print(f"  {x[1]} [{x[2]}] {x[3][:400]}")
            print(f"VIOLATION property={prop} replay={path}")
        wall = time.time() - T0
        faults = {k[6:]: n for k, n in sorted(cov.items()) if k.startswith("fault:")}
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=tot["runs"], distinct_nontrivial=tot["distinct"], rule=RULE, samples=samples,
                                explanation="seeded search; see design in DESIGN.md",
                                library_calls=tot["steps"], seeds=tot["runs"],
                                runs_per_hour=int(tot["runs"] / max(sim_s / ncpu, 1e-9) * 3600),
                                simulated_time="the library has no clock; simulated time is counted in library calls (library_calls) and disk operations (counters io:*)",
                                faults_injected=faults,
                                distinct_states=dict(count=len(allstates), measure="hashes of the prefix of a history: outcome, number of disk operations and fired faults of each step"),
                                distinct_io_histories=tot["io_histories"],
                                real_components="all of libadolc built from /repo/ADOL-C/src (and ColPack's shared library)",
                                stubbed_components="disk (stdio streams over scratch files with injected faults), allocator (counting, failing on demand), process end/kill, user programs and callbacks, "
                                                   + ("thread scheduler (own __tsan runtime, one thread at a time, seeded switches)" if any(p[0] == "sched" for p in parts) else "no threads in this profile"),
                                parts=part_info, counters=cov, build_s=round(t_build, 1),
                                unreproduced_candidates=unrepro[:5], nondeterministic=nondet[:5]),
                  assumptions=["reference values come from /verif/sim (long double series arithmetic); comparisons are skipped where the function is ill-conditioned or closer than 1e-6 to a kink",
                               "g++ 13 and the C++ runtime are correct"],
                  wall_s=round(wall, 1), violations=len(reports))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{prop}: {tot['runs']} runs, {tot['steps']} library calls, {tot['distinct']} distinct, {len(reports)} violations, "
              f"{len(unrepro)} unreproduced, {len(nondet)} nondeterministic, {wall:.0f} s")
        return 1 if reports else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
