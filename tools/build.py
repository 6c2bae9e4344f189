#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree.

build.py FLAVOUR [--out DIR]   FLAVOUR: asan | sched
Sources of the library: those listed in the target_sources(adolc ...) of /repo's CMake files.
Everything is written below /verif/_build (or --out); /repo is only read.
"""
import os, re, subprocess, sys, glob

REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LIBDEFS = ("-DADOLC_ADOUBLE_STDCZERO=1 -DADOLC_BITWORD_BITS=32 -DADOLC_PATCHLEVEL=3 -DADOLC_SHARED "
           "-DADOLC_SPARSE=1 -DADOLC_SUBVERSION=7 -DADOLC_VERSION=2 -DADOLC_SIM=1")

def lib_sources():
    out = []
    src = os.path.join(REPO, "ADOL-C/src")
    for cm in sorted(glob.glob(src + "/CMakeLists.txt") + glob.glob(src + "/*/CMakeLists.txt")):
        txt = re.sub(r"#.*", "", open(cm).read())
        for m in re.finditer(r"target_sources\s*\(\s*adolc\s+PRIVATE([^)]*)\)", txt):
            for f in m.group(1).split():
                f = f.replace("${CMAKE_CURRENT_SOURCE_DIR}/", "").strip('"')
                p = os.path.join(os.path.dirname(cm), f)
                if p.endswith(".cpp") and os.path.exists(p) and p not in out:
                    out.append(p)
    return out

def settings(out):
    txt = open(os.path.join(REPO, "ADOL-C/include/adolc/internal/adolc_settings.h.in")).read()
    txt = txt.replace("@ADVBRANCH@", "").replace("@ADTL_REFCNT@", "")
    txt = txt.replace("@ADOLC_SPARSE@", "#define ADOLC_SPARSE 1").replace("@USE_BOOST_POOL@", "#define USE_BOOST_POOL 1")
    d = os.path.join(out, "include/adolc/internal")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "adolc_settings.h")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)

WRAP_IO = "fopen fopen64 remove unlink rename stat".split()
WRAP_MEM = "malloc calloc realloc _Znwm _Znam _ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t _ZnwmSt11align_val_t _ZnamSt11align_val_t".split()

def flavour(fl):
    if fl == "asan":
        return dict(cf="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address -fsanitize-address-use-after-scope",
                    hf="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address -DSIM_ASAN=1",
                    lf="-fsanitize=address", wrap=WRAP_IO + WRAP_MEM)
    if fl == "sched":
        return dict(cf="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
                    hf="-O1 -g1 -fno-omit-frame-pointer -DSIM_SCHED=1",
                    lf="", wrap=WRAP_IO + "__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_once".split())
    if fl == "plain":
        return dict(cf="-O1 -g1", hf="-O1 -g1", lf="", wrap=WRAP_IO + WRAP_MEM)
    raise SystemExit("unknown flavour " + fl)

def main():
    fl = sys.argv[1]
    out = os.path.join(os.environ.get("SIM_BUILD") or os.path.join(VERIF, "_build"), fl)
    if "--out" in sys.argv:
        out = sys.argv[sys.argv.index("--out") + 1]
    os.makedirs(out, exist_ok=True)
    settings(out)
    f = flavour(fl)
    inc = f"-I{REPO}/ADOL-C/include -I{out}/include -I{REPO}/ADOL-C/src -I{REPO}/ADOL-C/c_interface"
    n = ["ninja_required_version = 1.3", f"builddir = {out}",
         "rule lib", f"  command = g++ -std=c++20 {LIBDEFS} {f['cf']} {inc} -w -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule har", f"  command = g++ -std=c++20 {LIBDEFS} {f['hf']} {inc} -I{VERIF}/sim -Wall -Wno-unused-function -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = g++ -rdynamic {lf} $in {wr} -o $out /usr/lib/x86_64-linux-gnu/libColPack.so.0 -lpthread -ldl".format(
             lf=f["lf"], wr=" ".join("-Wl,--wrap=" + w for w in f["wrap"]))]
    objs = []
    for s in lib_sources():
        o = f"{out}/lib/" + os.path.relpath(s, os.path.join(REPO, "ADOL-C")).replace("/", "_") + ".o"
        n.append(f"build {o}: lib {s}")
        objs.append(o)
    for s in sorted(glob.glob(os.path.join(VERIF, "sim/*.cpp"))):
        base = os.path.basename(s)
        if fl == "sched" and base == "simmem.cpp": continue
        if fl != "sched" and base == "sched.cpp": continue
        o = f"{out}/har/{base}.o"
        n.append(f"build {o}: har {s}")
        objs.append(o)
    n.append(f"build {out}/sim: link " + " ".join(objs))
    n.append(f"default {out}/sim")
    nf = os.path.join(out, "build.ninja")
    txt = "\n".join(n) + "\n"
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    r = subprocess.run(["ninja", "-C", out, "-f", nf, "-j", os.environ.get("SIM_JOBS", "8")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
