"""Walks the transition graphs that TLC prints for SlipSession.tla and SlipLife.tla through the real library:
every selected transition (state, call with its arguments) is executed from its state, every walk ends in the
clean state (nothing owned, library finalised).  The abstract arguments are given concrete data here."""
import json, random, re, collections
from gen import *
from gen2 import gmat

class Graph:
    def __init__(self, out):
        self.adj = collections.defaultdict(list); self.n = 0
        seen = set()
        for m in re.finditer(r'^"EDGE (.*)"$', out, re.M):
            t = m[1]
            if t in seen: continue
            seen.add(t)
            s, c, st, d = json.loads(t.replace('\\"', '"'))
            self.adj[s].append((tuple(c), st, d)); self.n += 1
        self.init = self.home = None
    def path(self, a, goal, avoid=lambda c: False):
        """shortest command sequence from a to a state satisfying goal"""
        prev = {a: None}; q = collections.deque([a])
        while q:
            s = q.popleft()
            if goal(s):
                out = []
                while prev[s]: p, e = prev[s]; out.append(e); s = p
                return out[::-1]
            for e in self.adj[s]:
                if e[2] not in prev and not avoid(e[0]): prev[e[2]] = (s, e); q.append(e[2])
        return None

def select(g, rng, limit):
    """transitions to execute: every distinct call at least twice (if it occurs twice), then at random"""
    all_ = [(s, i) for s in g.adj for i in range(len(g.adj[s]))]
    if limit is None or limit >= len(all_): return set(all_)
    by = collections.defaultdict(list)
    for s, i in all_: by[g.adj[s][i][0]].append((s, i))
    sel = set()
    for c in by: sel.update(rng.sample(by[c], min(2, len(by[c]))))
    rest = [x for x in all_ if x not in sel]
    if len(sel) < limit: sel.update(rng.sample(rest, limit - len(sel)))
    return sel

def walks(g, rng, sel, maxlen):
    """walks from the initial state back to it that execute every selected transition"""
    left = collections.defaultdict(set)
    for s, i in sel: left[s].add(i)
    for s in left: pass
    home = g.init
    while any(left.values()):
        s, w = home, []
        while len(w) < maxlen:
            if left.get(s):
                i = rng.choice(sorted(left[s])); left[s].discard(i)
                e = g.adj[s][i]; w.append(e); s = e[2]; continue
            p = g.path(s, lambda t: bool(left.get(t)))
            if p is None: break
            for e in p: w.append(e)
            s = p[-1][2] if p else s
        back = g.path(s, lambda t: t == home)
        if back is None: raise Exception("no way back from " + s)
        yield w + back

# first use of GMP in a session, or after lack of memory in GMP: the library sets up its list of GMP blocks, kept until the session ends
WARM = ["g mpz_init2 z9 64", "g mpz_clear z9"]
IN = dict(good=10, sing=11, wide=12, tall=13, tri=14, dns=15, i64=16, mpq=17, bgood=20, brow=21, btyp=22, bknd=23)
OUT = dict(L=1, U=2, R=3, X=4)
def nons(rng, n=3):
    from gen2 import det
    while True:
        d = rng.choice([f_sparse, f_dense, f_cancel, f_ties, f_big])(rng, n)
        if det(d, n) != 0: return d
def sing(rng, n=3):
    from gen2 import det
    while True:
        d = f_rankdef(rng, n)
        if det(d, n) == 0: return d
class SessionData:
    """concrete matrices for one walk of SlipSession"""
    def __init__(s, rng, opts=None):
        s.r = rng; E = lambda d: [(i, j, v) for (i, j), v in d.items()]
        sc = lambda: scale(rng)
        good = nons(rng)
        s.load = [mat(10, CSC, MPZ, 3, 3, shuf(rng, E(good)), scale=sc()), mat(11, CSC, MPZ, 3, 3, shuf(rng, E(sing(rng))), scale=sc()),
            mat(12, CSC, MPZ, 3, 4, [(0, 0, 1), (1, 1, 2), (2, 3, 4), (2, 2, 1)]), mat(13, CSC, MPZ, 4, 3, [(0, 0, 1), (1, 1, 2), (3, 2, 4)]),
            mat(14, TRIPLET, MPZ, 3, 3, shuf(rng, E(nons(rng)))), mat(15, DENSE, MPZ, 3, 3, E(nons(rng))),
            mat(16, CSC, INT64, 3, 3, [(0, 0, 3), (1, 1, -2), (2, 2, 7), (0, 2, 1)]), mat(17, CSC, MPQ, 3, 3, [(0, 0, "1/3"), (2, 1, "-2"), (1, 2, "7/5")]),
            mat(20, DENSE, MPZ, 3, 2, rhs(rng, 3, 2), scale=sc()), mat(21, DENSE, MPZ, 4, 1, rhs(rng, 4, 1)),
            mat(22, DENSE, MPQ, 3, 1, [(0, 0, "1/2"), (1, 0, "3")]), mat(23, CSC, MPZ, 3, 1, [(0, 0, 1), (2, 0, 5)])]
    def m(s, a): return "-" if a == "-" else "M%d" % (IN[a] if a in IN else OUT[a])
    def call(s, c):
        w = lambda a: "-" if a == "-" else "S0" if a == "S" else "P0"
        o = s.o()
        if c[0] == "analyze": return "analyze %s %s %s" % (w(c[1]), s.m(c[2]), o)
        if c[0] == "factor": return "factor %s %s %s %s %s %s %s" % (s.m(c[1]), s.m(c[2]), s.m(c[3]), w(c[4]), s.m(c[5]), w(c[6]), o)
        if c[0] == "solve": return "solve %s %s %s %s %s %s %s %s %s" % (*(s.m(x) for x in c[1:7]), w(c[7]), w(c[8]), o)
        if c[0] == "bsl": return "bsl %s %s %s %s %s" % (s.m(c[1]), c[2], s.m(c[3]), s.m(c[4]), o)
    def o(s): return s.r.choice(["O0", "O0", "O1", "-"])
    def lines(s, c, st):
        r = s.r
        if c[0] in ("init", "initx", "initbad", "fin"): return ["exp %d" % st, c[0]] + (WARM if st == 0 and c[0] != "fin" else [])
        if c[0] == "load": return list(s.load)
        if c[0] == "unload": return ["free M%d -" % k for k in sorted(IN.values())]
        if c[0] == "free":
            d = c[1]
            return ["exp %d" % st, "afree S0 %s" % s.o() if d == "S" else "free M%d %s" % (OUT[d], s.o())] if d != "P" else ["pfree P0"]
        if c[0] in ("nnz", "check"): return ["exp %d" % st, "%s %s %s" % (c[0], s.m(c[1]), s.o())]
        if c[0] == "f":
            k = r.choice([r.randrange(1, 6), r.randrange(1, 40), r.randrange(1, 250)])
            end = dict(analyze=["afree S0 -"], factor=["free M%d -" % q for q in (1, 2, 3)] + ["pfree P0"], solve=["free M4 -"], bsl=["free M4 -"])[c[1]]
            return ["fail %d %d" % (r.choice([1, 1, 2]), k), s.call(c[1:])] + end + WARM
        pre = [optline(0, r.randrange(6), r.choice(OK_ORDERS), r.choice(TOLS), prec=r.choice([53, 128]), rnd_=r.randrange(5), chk=r.choice([0, 1]), prt=r.choice([0, 0, 0, 1, 2]))] if r.random() < .3 else []
        return pre + ["exp %d" % st, s.call(c)]

def session(c, limit, tag="ses", maxlen=70, cfg="SlipSession.cfg"):
    rc, out = c.env.tlc("SlipSession", cfg, mem="2g")
    if "No error has been found" not in out: raise Exception("SlipSession: " + out[-2000:])
    g = Graph(out); g.init = "FALSEFALSE000000"
    c.count(out, g)
    for k, w in enumerate(walks(g, c.rng, select(g, c.rng, limit), maxlen)):
        d = SessionData(c.rng); L = ["optset O0 3 1 1 0 128 0 0", "optset O1 %d %d 0.5 0 100 1 1" % (c.rng.randrange(6), c.rng.randrange(3))]
        for e in w: L += d.lines(e[0], e[1])
        yield ("%s%d" % (tag, k), L + ["optfree O0", "optfree O1"])

class LifeData:
    def __init__(s, rng): s.r = rng; s.up = False; s.blk = None
    def lines(s, c, st):
        r = s.r; ex = [] if st is None else ["exp %d" % st]; o = r.choice(["-", "-", "O1"])
        if c[0] in ("init", "initx", "initbad", "fin"): s.up = c[0] != "fin"; return ex + [c[0]] + (WARM if st == 0 and s.up else [])
        if c[0] == "optnew": return ["optnew O0"]
        if c[0] == "optfree": return ["optfree O0"]
        if c[0] in ("smalloc", "scalloc"):
            k = r.choice([0, 1, 3, 24])
            if s.up: s.blk = 8 * k
            return ["smalloc B0 %d" % (8 * k) if c[0] == "smalloc" else "scalloc B0 %d 8" % k]
        if c[0] == "srealloc":
            old, new = s.blk or 0, r.choice([0, 8, 24, 80, 2000])
            if s.up: s.blk = new
            return ["srealloc B0 %d %d 1" % (new, old)]
        if c[0] == "sfree":
            if s.up: s.blk = None
            return ["sfree B0"]
        if c[0] == "f":
            k = r.choice([r.randrange(1, 5), r.randrange(1, 30)])
            return ["fail %d %d" % (r.choice([1, 2]), k)] + s.lines(c[1:], None) + ["free %s -" % ("M0" if c[1] == "alloc" else "M1")] + WARM
        if c[0] == "alloc":
            d, k, ty, dim, sh, ini = c[1:]
            k, ty = int(k), int(ty)
            if k == 3: k = r.choice([3, 7, 100])
            if k == -1: k = r.choice([-1, -2, -100])
            if ty == 5: ty = r.choice([5, 6, 99])
            z = r.choice([(0, 0), (0, 3), (2, 0)]) if k == 2 or dim != "0" else (0, 0)
            if dim == "0": mn = r.choice([(0, 0), (0, 4), (3, 0)]) if k == DENSE else (r.choice([0, 3]), 0)
            elif dim == "2": mn = (r.choice([1, 2, 3]), r.choice([1, 2, 4]))
            elif dim == "neg": mn = (r.choice([-1, -2, -2 ** 62]), r.choice([0, 2]))
            elif dim == "neg2": mn = (r.choice([0, 2]), r.choice([-1, -2, -2 ** 62]))
            else: mn = r.choice([(2 ** 31, 2 ** 31), (2 ** 40, 2 ** 33), (2 ** 62, 2 ** 62), (2 ** 32, 2 ** 32)]) if k == DENSE else r.choice([(2, 2 ** 60), (2 ** 60, 2 ** 61), (3, 2 ** 62)] if k == CSC else [(2 ** 61, 2 ** 61)])
            nz = r.choice([0, 0, 1, 5, -3])
            if dim == "huge": nz = r.choice([2 ** 60, 2 ** 61, 2 ** 62]) if k == TRIPLET else r.choice([0, 4])
            return ex + ["alloc %s %d %d %d %d %d %s %s %s" % ("M0" if d == "M" else "-", k, ty, mn[0], mn[1], nz, sh, ini, o)]
        n = dict(M="M0", C="M1")
        if c[0] == "free": return ex + ["free %s %s" % (n.get(c[1], "-"), o)]
        if c[0] in ("nnz", "check"): return ex + ["%s %s %s" % (c[0], n.get(c[1], "-"), o)]
        if c[0] == "copy":
            k, ty = int(c[2]), int(c[3])
            if k == 3: k = r.choice([3, 8])
            if ty == 5: ty = r.choice([5, 77])
            return ex + ["copy %s %d %d %s %s" % (n.get(c[1], "-"), k, ty, n.get(c[4], "-"), o)]
        if c[0] == "analyze": return ex + ["analyze %s %s %s" % (r.choice(["S0", "-"]), r.choice(["M0", "M1", "-"]), o)]
        if c[0] == "factor": return ex + ["factor %s M3 M4 %s %s %s %s" % (r.choice(["M2", "-"]), r.choice(["P0", "-"]), r.choice(["M0", "-"]), "-", o)]
        if c[0] == "solve": return ex + ["solve %s %s M0 M1 - M0 - - %s" % (r.choice(["M2", "-"]), r.choice(["M0", "-"]), o)]
        if c[0] == "bsl": return ex + ["bsl %s %d %s %s %s" % (r.choice(["M2", "-"]), r.randrange(-1, 6), r.choice(["M0", "-"]), r.choice(["M1", "-"]), o)]
        if c[0] == "afree": return ex + ["afree %s %s" % (r.choice(["S0", "-"]), o)]
        raise Exception(c)

def life(c, limit, tag="life", maxlen=120, cfg="SlipLife.cfg"):
    rc, out = c.env.tlc("SlipLife", cfg, mem="2g")
    if "No error has been found" not in out: raise Exception("SlipLife: " + out[-2000:])
    g = Graph(out); g.init = "FALSE0-1-100000"
    c.count(out, g)
    for k, w in enumerate(walks(g, c.rng, select(g, c.rng, limit), maxlen)):
        d = LifeData(c.rng); L = ["optset O1 3 1 1 %d 128 0 0" % c.rng.choice([0, 0, 1])]
        for e in w: L += d.lines(e[0], e[1])
        yield ("%s%d" % (tag, k), L + ["optfree O1"])

def enum(c, limit, tag="enum", cfg="MC_Matrix.cfg"):
    """every object of MC_Matrix (or a sample), valid or not, built and checked; the valid ones are counted and copied"""
    rc, out = c.env.tlc("MC_Matrix", cfg, workers=2, mem="4g")
    if "No error has been found" not in out: raise Exception("MC_Matrix: " + out[-2000:])
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)[-1]
    c.states += int(m[1]); c.trans += int(m[0]); c.models.append("MC_Matrix: %s states" % m[1])
    cases = sorted(json.loads(t.replace('\\"', '"')) for t in set(re.findall(r'^"CASE (.*)"$', out, re.M)))
    good = [x for x in cases if x[9]]; bad = [x for x in cases if not x[9]]
    if limit is not None and limit < len(cases):
        good = c.rng.sample(good, min(len(good), limit // 2)); bad = c.rng.sample(bad, min(len(bad), limit - len(good)))
    todo = good + bad; c.rng.shuffle(todo)
    j = lambda a: " ".join(map(str, a))
    for s in range(0, len(todo), 40):
        L = ["init", optline(0), optline(1, prt=3)]
        for kind, m, n, nzmax, nz, p, i, jj, x, ok in todo[s:s + 40]:
            t = c.rng.choice([MPZ, MPQ, MPFR, INT64, FP64])
            L.append("mat M0 %d %d %d %d %d %d 64 1  %s  %s  %s  %s" % (kind, t, m, n, nzmax, nzmax if kind != DENSE else 0, j(p), j(i), j(jj), j(x)))
            cor = []
            if kind != DENSE and nzmax == 0: cor.append("nzmax 0")
            if kind == TRIPLET and nz != nzmax: cor.append("nz %d" % nz)
            L += ["corrupt M0 " + y for y in cor]
            L += ["exp %d" % (0 if ok else -3), "check M0 %s" % c.rng.choice(["O0", "O0", "O0", "O1", "-"])]
            if ok:
                L.append("nnz M0 -")
                for k in c.rng.sample([CSC, TRIPLET, DENSE], 2): L += ["copy M1 %d %d M0 O0" % (k, c.rng.choice([MPZ, MPQ, MPFR, INT64, FP64])), "check M1 O0", "free M1 -"]
            if cor: L.append("restore M0")
            L.append("free M0 -")
        yield ("%s%d" % (tag, s // 40), L + ["optfree O0", "optfree O1", "fin"])

def hist(c, per, tag="hist", cfg="MC_HistR.cfg"):
    """witnesses for every case of the lazy elimination (RefHist): systems whose run in the model meets the case, in the model's own column order and pivots, and once in another"""
    rc, out = c.env.tlc("MC_HistR", cfg, workers=1, mem="3g", extra=("-seed", str(c.seed)))
    if "No error has been found" not in out: raise Exception("MC_HistR: " + out[-2000:])
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)[-1]
    c.states += int(m[1]); c.trans += int(m[0]); c.models.append("MC_HistR: %s states" % m[1])
    runs = []
    for t in sorted(set(re.findall(r'^"HIST (.*)"$', out, re.M))):
        v = json.loads(t.replace('\\"', '"').replace("<<", "[").replace(">>", "]").replace("{", "[").replace("}", "]"))
        runs.append(v)
    cases = sorted({x for r in runs for x in r[2]}); c.rng.shuffle(runs); used, pick = set(), []
    for x in cases:
        w = [k for k, r in enumerate(runs) if x in r[2]][:per]
        pick += [k for k in w if k not in used]; used.update(w)
    c.models.append("cases of the lazy elimination replayed: %d" % len(cases))
    for s, k in enumerate(pick):
        A, b, seen = runs[k]; n = len(A); big = c.rng.choice([1, 1, 10 ** 25 + 13])
        ent = [(i, j, 0 if v == 99 else v * (big if i == 0 else 1)) for i, row in enumerate(A) for j, v in enumerate(row) if v]
        c.rng.shuffle(ent)
        L = ["init", mat(0, CSC, MPZ, n, n, ent), mat(1, DENSE, MPZ, n, 2, [(i, 0, v) for i, v in enumerate(b)] + [(i, 1, c.rng.choice([0, 0, 1, -7])) for i in range(n)])]
        for pv, od, tol in [(2, 0, "1")] + variants(c.rng, 1):
            L += [optline(0, pv, od, tol, chk=c.rng.choice([0, 1])), "analyze S0 M0 O0", "factor M2 M3 M4 P0 M0 S0 O0", "solve M5 M1 M0 M2 M3 M4 S0 P0 O0"]
            L += ["free M%d O0" % q for q in (2, 3, 4)] + ["pfree P0", "afree S0 O0", "free M5 -"]
        yield ("%s%d" % (tag, s), L + ["free M0 -", "free M1 -", "optfree O0", "fin"])
