"""Running plans, minimising them, and the gate every finding has to pass."""
import concurrent.futures, os, re, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASAN = ("detect_leaks=0:detect_stack_use_after_return=0:handle_abort=1:malloc_fill_byte=255:max_malloc_fill_size=1000000000:exitcode=99:"
        "abort_on_error=0:allocator_may_return_null=1:alloc_dealloc_mismatch=0:handle_segv=1:alloc_dealloc_mismatch=0")

def sim(fl):
    return os.path.join(os.environ.get("SIM_BUILD") or os.path.join(VERIF, "_build"), fl, "sim")

def env(extra=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN
    e.pop("ADOLC_DEBUG", None)
    if extra:
        e.update(extra)
    return e

VIO = re.compile(r"^VIO (-?\d+) (\S+) \[([^\]]*)\] (.*)$")

def run_plan(fl, lines, timeout=120):
    """-> (list of (idx, tag, where, msg), digest)"""
    with tempfile.NamedTemporaryFile("w", suffix=".plan", delete=False) as f:
        f.write("\n".join(lines) + "\n")
    try:
        p = subprocess.run([sim(fl), "run", f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(), timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        out = ""
    finally:
        os.unlink(f.name)
    vios, dig = [], None
    for l in out.splitlines():
        m = VIO.match(l)
        if m:
            vios.append((int(m.group(1)), m.group(2), m.group(3), m.group(4)))
        elif l.startswith("DIGEST "):
            dig = l.split()[1]
    return vios, dig

def gen(fl, prof, seed):
    return subprocess.run([sim(fl), "gen", prof, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env()).stdout.decode().splitlines()

def key(v):
    """what makes two violations 'the same failure' while minimising"""
    tag, msg = v[1], v[3]
    if tag.startswith("crash") or tag.startswith("hang"):
        m = re.findall(r"/(\w+\.(?:cpp|h|c)):(\d+)", msg)
        return (tag, tuple(f for f, _ in m[:2]))
    if tag.startswith("fail:"):
        m = re.search(r"\[Source\].*?(\w+\.cpp):(\w+)", msg)
        return (tag, m.groups() if m else None)
    return (tag, None)

def minimise(fl, lines, want, workers=8, budget=60.0):
    """delta debugging over the lines of a plan; candidates are evaluated in parallel.

    Whole steps go first, then variants, then instructions of the recorded programs."""
    t0 = time.time()
    def bad(c):
        v, _ = run_plan(fl, c)
        return any(key(x) == want for x in v)
    def over():
        return time.time() - t0 > budget
    cur = list(lines)
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        def sweep(pred):
            nonlocal cur
            idx = [i for i, l in enumerate(cur) if pred(l)]
            size = max(1, len(idx) // 2)
            while idx and not over():
                chunks = [idx[i:i + size] for i in range(0, len(idx), size)][::-1]
                removed = set()
                for k in range(0, len(chunks), workers):
                    batch = chunks[k:k + workers]
                    cands = [[l for i, l in enumerate(cur) if i not in removed and i not in set(c)] for c in batch]
                    hits = [c for c, r in zip(batch, ex.map(bad, cands)) if r]
                    if len(hits) > 1:
                        allh = removed.union(*hits)
                        if bad([l for i, l in enumerate(cur) if i not in allh]):
                            removed = allh
                            continue
                    if hits:
                        removed |= set(hits[0])
                        for h in hits[1:]:
                            t = removed | set(h)
                            if not over() and bad([l for i, l in enumerate(cur) if i not in t]):
                                removed = t
                    if over():
                        break
                if removed:
                    cur = [l for i, l in enumerate(cur) if i not in removed]
                    idx = [i for i, l in enumerate(cur) if pred(l)]
                if size == 1:
                    if not removed:
                        break
                else:
                    size = max(1, size // 2)
        sweep(lambda l: l.startswith("variant"))
        sweep(lambda l: not l.startswith(("variant", "cfg", "prog", "ins")))
        sweep(lambda l: l.startswith("ins"))
        sweep(lambda l: True)
    return cur
