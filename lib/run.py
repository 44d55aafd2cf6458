#!/usr/bin/env python3
"""run.py Cxx [--tier quick|thorough]: decides one property.

1. model-checks the specification modules the property rests on (TLC, exhaustive configurations);
2. generates scenarios (some of them by TLC from the specification's own state graph), runs them through the
   real code (driver/driver.c compiled with the sources of the repository's working tree) and has TLC judge
   every recorded trace against spec/SlipTrace.tla, enforcing the obligations of this property;
3. re-runs what was rejected and reports it only if it is rejected again.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Anything else: the check itself failed."""
import sys, os, re, json, time, random, shutil, subprocess, tempfile, threading, argparse, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import post, suites

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:"
NCPU = min(8, os.cpu_count() or 8)

class CheckError(Exception): pass

def log(*a): print("[%6.1f]" % (time.time() - T0), *a, flush=True)

class Env:
    def __init__(self, repo, work):
        self.repo, self.work = repo, work
        self.java = os.path.join(work, "java"); self.drv = os.path.join(work, "drv")
    def build(self):
        os.makedirs(self.java, exist_ok=True)
        a = subprocess.run(["javac", "-d", self.java, "-cp", "/opt/veriftools/tla/tla2tools.jar", os.path.join(V, "java/BigRat.java")], capture_output=True, text=True)
        if a.returncode: raise CheckError("javac: " + a.stderr)
        a = subprocess.run([os.path.join(V, "lib/build.sh"), self.drv, self.repo], capture_output=True, text=True)
        if a.returncode: raise CheckError("driver build: " + (a.stdout + a.stderr)[-3000:])
    def tlc(self, module, cfg, env=None, workers=1, mem="2g", timeout=800, extra=()):
        meta = tempfile.mkdtemp(dir=self.work)
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", CP + self.java, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
        e = dict(os.environ); e.pop("JAVA_TOOL_OPTIONS", None); e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=os.path.join(V, "spec"), env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
            return r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired as x:
            return -1, "TIMEOUT " + str(x.stdout or "")[-2000:]
        finally: shutil.rmtree(meta, ignore_errors=True)

def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)

def model(env, name, cfg, workers, timeout):
    rc, out = env.tlc(name, cfg, workers=workers, mem="6g", timeout=timeout)
    if rc != 0 or "Model checking completed. No error" not in out:
        raise CheckError("model %s/%s: rc=%s\n%s" % (name, cfg, rc, "\n".join(l for l in out.split("\n") if not l.startswith("Loading"))[-3000:]))
    return stats(out)

def write_script(path, scs):
    with open(path, "w") as f:
        for sid, L in scs: f.write("SC %s\n%s\nEND\n" % (sid, "\n".join(L)))

class Result:
    def __init__(self):
        self.fails, self.counts, self.events, self.states, self.trans, self.ok = [], {}, 0, 0, 0, 0
        self.hist = {}

def judge(env, pid, nd, nev):
    """TLC's verdict on one trace file: (fails, counts, states, transitions)"""
    rc, out = env.tlc("SlipTrace", "SlipTrace.cfg", env={"TRACE": nd, "PROP": pid}, mem="3g", extra=())
    fails = []
    for m in re.finditer(r'^"FAIL (\d+) (\S+) (-?\d+) (\S+) (.*)"$', out, re.M):
        fails.append(dict(line=int(m[1]), sc=m[2], ln=int(m[3]), ev=m[4], label=m[5]))
    cm = re.search(r'^"COUNTS (.*)"$', out, re.M)
    counts = json.loads(cm[1].replace('\\"', '"')) if cm else {}
    em = re.search(r'^"CONSUMED (\d+) OF (\d+) FAILURES (\d+)"$', out, re.M)
    st, tr = stats(out)
    if em is None or int(em[1]) != nev:
        if rc == -1 or "Parsing or semantic" in out or "TLC encountered the following error while loading" in out or "OutOfMemory" in out or "StackOverflow" in out or "java.lang.VirtualMachineError" in out:
            raise CheckError("TLC gave no verdict: " + out[-1500:])
        ls = re.findall(r"^/\\ l = (\d+)$", out, re.M)
        ln = int(ls[-1]) if ls else 0
        if em is not None: ln = int(em[1]) + 1
        txt = "\n".join(l for l in out.split("\n") if not l.startswith(("Loading", "Parsing", "Semantic", "Linting")))
        e = re.search(r"^Error: .*?(?=^Error: The behavior|^State 1|\Z)", txt, re.M | re.S)
        fails.append(dict(line=ln, sc=None, ln=0, ev="?", label="the event is no step of the specification", detail=(e[0] if e else txt)[:600]))
    return fails, counts, st, tr

def shard(env, pid, scs, name, res, lock, maxsec=30):
    base = os.path.join(env.work, name)
    write_script(base + ".txt", scs)
    r = subprocess.run([os.path.join(env.drv, "driver"), base + ".txt", base + ".raw", str(maxsec)], capture_output=True, text=True,
                       env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0"))
    if r.returncode not in (0,): raise CheckError("driver: rc=%d %s" % (r.returncode, r.stderr[-800:]))
    with open(base + ".raw", errors="replace") as f, open(base + ".nd", "w") as g: nev, ns = post.convert(f, g)
    if ns < len(scs): pass
    todo_fails = []
    nd = base + ".nd"
    hist = {}
    for e in open(nd):
        k = re.match(r'\{"ev":\s*"([^"]*)"', e); k2 = re.search(r'"st":\s*(-?\d+)', e)
        if k:
            k = "%s %s" % (k[1], k2[1] if k2 else "?")
            if '"fired":0' not in e.replace(" ", ""): k += " (memory refused)"
            hist[k] = hist.get(k, 0) + 1
    fails, counts, st, tr = judge(env, pid, nd, nev)
    # an event that is no step stops TLC: set its group aside and go on with the others
    rounds = 0
    lines = None
    while any(f["sc"] is None for f in fails):
        if lines is None: lines = open(nd).read().split("\n")[:-1]
        bad = [f for f in fails if f["sc"] is None][0]
        i = max(0, min(bad["line"], len(lines)) - 1)
        sc = json.loads(lines[i])["sc"]; g = sc.split("~")[0]
        bad["sc"] = sc
        todo_fails += fails
        lines = [l for l in lines if json.loads(l)["sc"].split("~")[0] != g]
        rounds += 1
        if not lines or rounds > 12: fails = []; break
        with open(nd, "w") as f: f.write("\n".join(lines) + "\n")
        fails, counts, st, tr = judge(env, pid, nd, len(lines))
    todo_fails += fails
    with lock:
        res.fails += todo_fails
        for k, v in counts.items(): res.counts[k] = res.counts.get(k, 0) + v
        for k, v in hist.items(): res.hist[k] = res.hist.get(k, 0) + v
        res.events += nev; res.states += st; res.trans += tr
        res.ok += len(scs) - len({f["sc"] for f in todo_fails})
    for x in (".txt", ".raw", ".nd"):
        try: os.unlink(base + x)
        except OSError: pass

def group(sid): return sid.split("~")[0]

def cost(L): return 20 + sum(len(x) for x in L)

def split(scs, n):
    groups = {}
    for sid, L in scs: groups.setdefault(group(sid), []).append((sid, L))
    sh = [[0, []] for _ in range(n)]
    for g in sorted(groups.values(), key=lambda g: -sum(cost(L) for _, L in g)):
        m = min(sh, key=lambda x: x[0]); m[0] += sum(cost(L) for _, L in g); m[1] += g
    return [s[1] for s in sh if s[1]]

def known():
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) label=(.*?) :: (.*)$", l.strip())
            if m: out.append(dict(pid=m[1], sc=m[2], label=m[3], text=m[4]))
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))); ap.add_argument("--repo", default="/repo")
    ap.add_argument("--replay", help="judge one saved script only"); ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", help="only scenarios whose id contains this")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    os.makedirs(os.path.join(V, ".build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=os.path.join(V, ".build"))
    try: return run(a, pid, tier, work)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)

def run(a, pid, tier, work):
    env = Env(a.repo, work)
    env.build(); log("built")
    spec = suites.PROPS[pid]
    rng = random.Random("%s/%s/%d" % (pid, tier, a.seed))
    lock = threading.Lock(); res = Result(); mstates = mtrans = 0; mdone = []
    if a.replay:
        scs, cur = [], None
        for l in open(a.replay):
            l = l.rstrip("\n")
            if l.startswith("SC "): cur = (l[3:].strip(), [])
            elif l == "END": scs.append(cur)
            elif cur: cur[1].append(l)
        models = []
    else:
        models = spec["models"](tier)
        ctx = suites.Ctx(env, tier, rng, a.seed)
        scs = list(spec["suite"](ctx))
        mstates += ctx.states; mtrans += ctx.trans
        if a.only: scs = [s for s in scs if a.only in s[0]]; models = []
    ids = [s[0] for s in scs]
    if len(set(ids)) != len(ids): raise CheckError("scenario ids repeat: %s" % [i for i in ids if ids.count(i) > 1][:3])
    log("%d scenarios, %d models" % (len(scs), len(models)))
    # shards of bounded size: TLC slows down on very long traces
    tot = sum(cost(L) for _, L in scs)
    nsh = max(1, min(len(scs), max(NCPU if tot > 20000 else 2, tot // 1500000 + 1)))
    sh = split(scs, nsh)
    with ThreadPoolExecutor(NCPU) as ex:
        fm = [ex.submit(model, env, m, c, 2 if tier == "quick" else 4, 800 if tier == "quick" else 7200) for m, c in models]
        fs = [ex.submit(shard, env, pid, s, "s%d" % i, res, lock, 30 if tier == "quick" else 200) for i, s in enumerate(sh)]
        for f in fs: f.result()
        for (m, c), f in zip(models, fm):
            s, t = f.result(); mstates += s; mtrans += t; mdone.append("%s/%s: %d states" % (m, c, s))
    log("judged: %d events, %d rejections" % (res.events, len(res.fails)))
    summ = {}
    for f in res.fails: summ.setdefault((f["ev"], f["label"]), []).append(f["sc"])
    for k, v in sorted(summ.items(), key=lambda x: -len(x[1]))[:12]: log("   %4d x %s: %s, e.g. %s" % (len(v), k[0], k[1], ", ".join(sorted(set(v))[:3])))
    # ---------------- confirm, report
    byid = {s[0]: s for s in scs}
    groups = {}
    for f in res.fails: groups.setdefault(group(f["sc"]), []).append(f)
    kn = [k for k in known() if k["pid"] == pid]
    viol, kfound, unconf = [], {}, []
    rdir = os.path.join(V, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    pend = []
    for g in groups:
        left = []
        for f in groups[g]:
            k = [k for k in kn if re.fullmatch(k["sc"], f["sc"]) and k["label"] == f["label"]]
            if k: kfound[k[0]["text"]] = 1
            else: left.append(f)
        if left: pend.append((g, left))
    for g, left in pend[:6 if tier == "quick" else 20]:
        mine = [s for s in scs if group(s[0]) == g]
        again = set()
        for attempt in range(3):
            r2 = Result()
            shard(env, pid, mine, "confirm", r2, lock, 30 if tier == "quick" else 200)
            again |= {f["label"] for f in r2.fails}
            if {f["label"] for f in left} & again: break
        conf = [f for f in left if f["label"] in again]
        if conf:
            path = os.path.join(rdir, "%s-%s.txt" % (pid, re.sub(r"[^\w.]", "_", g)[:60]))
            write_script(path, mine)
            viol.append((path, conf))
        else: unconf.append((g, left))
        if len(viol) >= 4 and tier == "quick": break
    if pend and not viol and len(pend) > 6: raise CheckError("rejections did not repeat: %s" % unconf[:3])
    wall = time.time() - T0
    samples = []
    pick = random.Random(7)
    for s in pick.sample(scs, min(3, len(scs))): samples.append({"scenario": s[0], "script": [x[:300] for x in s[1][:12]]})
    ev = dict(property=pid, tier=tier, seed=a.seed, level="model_checking",
              coverage=dict(states=mstates + res.states, transitions=mtrans + res.trans, traces_validated_against_impl=len(scs) - len({f["sc"] for f in res.fails}),
                            samples=samples, scenarios=len(scs), api_events=res.events, models=mdone + ([] if a.replay else ctx.models),
                            calls_by_status=dict(sorted(res.hist.items())), obligations_checked=dict(sorted(res.counts.items())), rejected=[f for f in res.fails][:20]),
              assumptions=spec.get("assumptions", suites.ASSUME), wall_s=round(wall, 1), violations=len(viol))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not a.only and not a.replay:
        with open(os.path.join(V, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for t in kfound: print("KNOWN-FINDING: property=%s %s" % (pid, t))
    for g, l in unconf: log("not repeated (not reported):", g, l[0]["label"])
    for path, conf in viol:
        for f in conf[:3]:
            log("rejected: scenario %s line %s %s: %s %s" % (f["sc"], f["ln"], f["ev"], f["label"], f.get("detail", "")))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    log("done in %.1f s: %d states, %d events, %d scenarios" % (wall, mstates + res.states, res.events, len(scs)))
    return 1 if viol else 0

T0 = time.time()
if __name__ == "__main__":
    try: sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR:", e, flush=True); sys.exit(3)
