#!/usr/bin/env python3
"""corrupt.py [REPO] [SEED] [COUNT]: does the specification constrain what the traces contain?
Records scenarios of every suite, changes one field of one event in each of them (a status, a handle, an array
element, a statistic, a counter ...), and has TLC judge the altered traces with all obligations enforced.
Prints, per event and field, how many alterations were rejected; the fields that are never rejected are what the
specification leaves open (or a hole in it)."""
import sys, os, json, random, threading, collections, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lib")
import run, suites, post, subprocess
from concurrent.futures import ThreadPoolExecutor
repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"; seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
count = int(sys.argv[3]) if len(sys.argv) > 3 else 40
SKIP = {"ev", "sc", "sq", "ln", "armed", "pn", "exp", "cfg", "in", "args", "op", "d", "o", "a", "b", "s", "l", "u", "r", "p", "what", "var", "n", "nm", "txt", "icd", "cd", "prec", "opt", "variant", "rows", "Ap", "Ai", "A", "corrupt", "fired", "so"}
OUTSKIP = {"type"}
rng = random.Random(seed)
work = tempfile.mkdtemp(prefix="cor-", dir=V + "/.build" if os.path.isdir(V + "/.build") else None)
env = run.Env(repo, work); env.build()
def alter(v):
    if isinstance(v, bool): return not v
    if isinstance(v, int): return v + rng.choice([1, -1])
    if isinstance(v, str):
        if v.lstrip("-").isdigit(): return str(int(v) + rng.choice([1, -1]))
        if "/" in v and v.split("/")[0].lstrip("-").isdigit(): a, b = v.split("/"); return "%d/%s" % (int(a) + int(b), b)
        return None
    return None
def leaves(e, path=()):
    if isinstance(e, dict):
        for k, v in e.items():
            if not path and k in SKIP: continue
            yield from leaves(v, path + (k,))
    elif isinstance(e, list):
        for k, v in enumerate(e): yield from leaves(v, path + (k,))
    elif alter(e) is not None: yield path
def name(ev, path): return ev + "." + ".".join("#" if isinstance(x, int) else x for x in path)
tot, rej = collections.Counter(), collections.Counter(); ex = {}
def one(p):
    ctx = suites.Ctx(env, "quick", random.Random("%s%d" % (p, seed)), seed)
    ctx.n = lambda q, t: max(2, q // 4)
    scs = list(suites.PROPS[p]["suite"](ctx))
    random.Random(seed).shuffle(scs); groups = {}
    for s in scs: groups.setdefault(run.group(s[0]), []).append(s)
    scs = [s for g in list(groups)[:count * 3] for s in groups[g]][:count * 4]
    base = "%s/%s" % (work, p)
    run.write_script(base + ".txt", scs)
    subprocess.run([work + "/drv/driver", base + ".txt", base + ".raw", "30"], capture_output=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1"))
    with open(base + ".raw", errors="replace") as f, open(base + ".nd", "w") as g: post.convert(f, g)
    evs = [json.loads(l) for l in open(base + ".nd")]
    by = collections.defaultdict(list)
    for k, e in enumerate(evs): by[run.group(e["sc"])].append(k)
    done = {}
    r = random.Random("%s.%d" % (p, seed))
    for g, ks in by.items():
        kinds = collections.defaultdict(list)
        for k in ks: kinds[evs[k]["ev"]].append(k)
        kinds = [x for x in kinds if x not in ("Mat", "GSet", "OptSet", "End", "Start", "Crash")] or list(kinds)
        ev = r.choice(sorted(kinds)); k = r.choice([k for k in ks if evs[k]["ev"] == ev])
        ps = list(leaves(evs[k]))
        if not ps: continue
        top = r.choice(sorted({name(ev, q) for q in ps})); q = r.choice([q for q in ps if name(ev, q) == top])
        x = evs[k]
        for y in q[:-1]: x = x[y]
        old = x[q[-1]]; x[q[-1]] = alter(old); done[g] = (top, old, x[q[-1]], evs[k]["ln"])
    lines = [json.dumps(e) for e in evs]; bad = set()
    for _ in range(60):
        with open(base + ".nd", "w") as f: f.write("\n".join(lines) + "\n")
        fails, _, _, _ = run.judge(env, "ALL", base + ".nd", len(lines))
        stop = None
        for f in fails:
            if f["sc"] is None: stop = run.group(json.loads(lines[max(0, min(f["line"], len(lines)) - 1)])["sc"]); bad.add(stop)
            else: bad.add(run.group(f["sc"]))
        if stop is None: break
        lines = [l for l in lines if run.group(json.loads(l)["sc"]) not in bad]
        if not lines: break
    for g, (t, a, b, ln) in done.items():
        tot[t] += 1
        if g in bad: rej[t] += 1
        else: ex.setdefault(t, []).append("%s/%s line %s: %s -> %s" % (p, g, ln, a, b))
try:
    with ThreadPoolExecutor(4) as x: list(x.map(one, sorted(suites.PROPS)))
    for t in sorted(tot, key=lambda t: (rej[t] / tot[t], t)): print("%4d of %4d  %s   %s" % (rej[t], tot[t], t, "; ".join(ex.get(t, [])[:2])))
    print("rejected %d of %d alterations" % (sum(rej.values()), sum(tot.values())))
finally: shutil.rmtree(work, ignore_errors=True)
