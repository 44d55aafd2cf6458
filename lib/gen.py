"""Scenario generators for the conformance driver.  Every generator yields (scenario id, [script lines]);
scenarios whose ids agree before '~' belong to one group (results are compared across the group).
All randomness comes from the given random.Random."""
import random
from fractions import Fraction
from math import gcd

CSC, TRIPLET, DENSE = 0, 1, 2
MPZ, MPQ, MPFR, INT64, FP64 = 0, 1, 2, 3, 4
NONE, COLAMD, AMD = 0, 1, 2
OK_ORDERS = (NONE, COLAMD, AMD)

# ---------------------------------------------------------------- matrices
def mat(slot, kind, typ, m, n, ent, nzmax=None, prec=128, scale="1", cmd="mat"):
    """ent: list of (i, j, value text) (any order within a column); dense: every position"""
    if kind == DENSE:
        d = {(i, j): v for i, j, v in ent}
        vals = [str(d.get((i, j), "0")) for j in range(n) for i in range(m)]
        return "%s M%d 2 %d %d %d %d 0 %d %s  %s" % (cmd, slot, typ, m, n, m * n, prec, scale, " ".join(vals))
    nz = len(ent)
    nzmax = max(nz, 0) if nzmax is None else nzmax
    if kind == TRIPLET:
        return "%s M%d 1 %d %d %d %d %d %d %s  %s  %s  %s" % (cmd, slot, typ, m, n, nzmax, nz, prec, scale,
            " ".join(str(e[0]) for e in ent), " ".join(str(e[1]) for e in ent), " ".join(str(e[2]) for e in ent))
    cols = [[e for e in ent if e[1] == j] for j in range(n)]
    p = [0]
    for c in cols: p.append(p[-1] + len(c))
    fl = [e for c in cols for e in c]
    return "%s M%d 0 %d %d %d %d %d %d %s  %s  %s  %s" % (cmd, slot, typ, m, n, nzmax, nz, prec, scale,
        " ".join(map(str, p)), " ".join(str(e[0]) for e in fl), " ".join(str(e[2]) for e in fl))

def shuf(rng, ent, sort=False):
    e = list(ent)
    if sort: e.sort(key=lambda t: (t[1], t[0]))
    else: rng.shuffle(e)
    return e

def rnd(rng, bits):
    k = rng.randrange(1, bits + 1)
    v = rng.getrandbits(k) or 1
    return v if rng.random() < .5 else -v

def perm(rng, n):
    p = list(range(n)); rng.shuffle(p); return p

def applyperm(rng, d, n):
    r, c = perm(rng, n), perm(rng, n)
    return {(r[i], c[j]): v for (i, j), v in d.items()}

# families of square integer matrices: dict (i,j) -> int (explicit zeros allowed)
def f_random(rng, n, dens, vals):
    return {(i, j): rng.choice(vals) for i in range(n) for j in range(n) if rng.random() < dens}
def f_sparse(rng, n):
    d = f_random(rng, n, rng.choice([.15, .25, .4, .6]), [-3, -2, -1, 1, 2, 3, 4, 5])
    q = perm(rng, n)
    for i in range(n):
        if rng.random() < .93: d.setdefault((i, q[i]), rng.choice([-5, -2, -1, 1, 2, 7]))
    return d
def f_cancel(rng, n):
    """product of sparse unimodular-ish factors: zeros appear during the elimination"""
    L = [[(1 if i == j else (rng.choice([0, 0, 0, 1, -1, 2]) if j < i else 0)) for j in range(n)] for i in range(n)]
    U = [[(rng.choice([1, -1, 2, 3, 1]) if i == j else (rng.choice([0, 0, 0, 1, -1, -2]) if j > i else 0)) for j in range(n)] for i in range(n)]
    if rng.random() < .25: k = rng.randrange(n); U[k][k] = 0
    d = {}
    for i in range(n):
        for j in range(n):
            v = sum(L[i][k] * U[k][j] for k in range(n))
            if v or rng.random() < .06: d[i, j] = v
    return applyperm(rng, d, n) if rng.random() < .6 else d
def f_arrow(rng, n):
    d = {(i, i): rng.choice([-3, 2, 5, 1]) for i in range(n)}
    k = rng.choice([0, n - 1])
    for i in range(n):
        if rng.random() < .8: d[i, k] = rng.choice([-2, -1, 1, 3])
        if rng.random() < .8: d[k, i] = rng.choice([-2, -1, 1, 4])
    return applyperm(rng, d, n) if rng.random() < .5 else d
def f_band(rng, n):
    w = rng.choice([1, 2])
    return {(i, j): rng.choice([-4, -1, 1, 2, 6]) for i in range(n) for j in range(n) if abs(i - j) <= w and rng.random() < .85}
def f_block(rng, n):
    d = {}; i = 0
    while i < n:
        k = min(rng.choice([1, 2, 3]), n - i)
        for a in range(k):
            for b in range(k):
                if rng.random() < .8: d[i + a, i + b] = rng.choice([-3, -1, 2, 1, 4])
        i += k
    # a few couplings far apart: gaps in the history of a row
    for _ in range(rng.randrange(0, n)):
        d.setdefault((rng.randrange(n), rng.randrange(n)), rng.choice([-2, 1, 3]))
    return applyperm(rng, d, n) if rng.random() < .5 else d
def f_gap(rng, n):
    """triangular part with long gaps, last rows and columns full"""
    d = {(i, i): rng.choice([2, 3, -2, 5]) for i in range(n)}
    for i in range(n): 
        if rng.random() < .7: d[n - 1, i] = rng.choice([1, -1, 2])
        if rng.random() < .5: d[i, n - 1] = rng.choice([1, 2, -3])
    for i in range(2, n, 2):
        if rng.random() < .7: d[i, rng.randrange(i)] = rng.choice([1, -1, 3])
    if rng.random() < .4: d = {(n - 1 - i, n - 1 - j): v for (i, j), v in d.items()}
    return d
def f_zero_diag(rng, n):
    d = f_random(rng, n, .5, [-2, -1, 1, 2, 3])
    for i in range(n): d.pop((i, i), None)
    return d
def f_big(rng, n):
    b = rng.choice([40, 64, 65, 130, 300])
    d = {k: rnd(rng, b) for k in f_sparse(rng, n)}
    return d
def f_dense(rng, n): return {(i, j): rng.choice([-3, -2, -1, 1, 2, 3, 5, 9]) for i in range(n) for j in range(n)}
def f_rankdef(rng, n):
    d = f_sparse(rng, n)
    r = rng.random()
    a, b = (rng.sample(range(n), 2) if n > 1 else (0, 0))
    if r < .3:
        for i in range(n): d.pop((i, a), None)
    elif r < .5:
        for i in range(n): d.pop((a, i), None)
    elif r < .7:
        for i in range(n): d[i, a] = 0
    else:
        c = rng.choice([1, -1, 2])
        for j in range(n):
            v = d.get((b, j))
            d.pop((a, j), None)
            if v is not None and a != b: d[a, j] = c * v
    return d
def f_ties(rng, n):
    v = rng.choice([1, 2, 6])
    return f_random(rng, n, .8, [v, -v, 2 * v, -2 * v])
def f_scaledpiv(rng, n):
    """ratios around the tolerances"""
    base = rng.choice([1, 10, 3, 10 ** 20, 2 ** 70])
    return {(i, j): rng.choice([1, -1]) * (base * rng.choice([1, 2, 4, 10]) + rng.choice([0, 0, 0, 1, -1])) for i in range(n) for j in range(n) if rng.random() < .7}
FAMS = [f_sparse, f_cancel, f_arrow, f_band, f_block, f_gap, f_zero_diag, f_big, f_dense, f_rankdef, f_ties, f_scaledpiv]

def withzeros(rng, d, n):
    d = dict(d)
    for _ in range(rng.randrange(0, 3)): d.setdefault((rng.randrange(n), rng.randrange(n)), 0)
    return d

def entries(rng, d, n, sort=None):
    e = [(i, j, v) for (i, j), v in d.items()]
    return shuf(rng, e, sort if sort is not None else rng.random() < .5)

def rhs(rng, m, nrhs, bits=6):
    z = rng.random()
    out = []
    for j in range(nrhs):
        for i in range(m):
            v = 0 if (z < .15 or rng.random() < .2) else rnd(rng, bits)
            out.append((i, j, v))
    return out

TOLS = ["1", "0.5", "0.25", "0.1", "0.75", "0.001", "2", "0"]
def optline(o, pivot=3, order=1, tol="1", prt=0, prec=128, rnd_=0, chk=0):
    return "optset O%d %d %d %s %d %d %d %d" % (o, pivot, order, tol, prt, prec, rnd_, chk)
def scale(rng):
    return rng.choice(["1"] * 5 + ["2", "1/3", "-1", "-7/5", "1000000007", "100000000000000000", "1/1000", "22/7"])

def lu_block(rng, d, n, variants, nrhs=1, want="full", o0=0, prt=0):
    """script lines: one matrix, one right-hand side, several option variants"""
    L = ["init", mat(0, CSC, MPZ, n, n, entries(rng, withzeros(rng, d, n) if rng.random() < .4 and n else d, n), scale=scale(rng)),
         mat(1, DENSE, MPZ, n, nrhs, rhs(rng, n, nrhs, rng.choice([3, 6, 70])), scale=scale(rng))]
    for (pv, od, tol) in variants:
        L.append(optline(0, pv, od, tol, prt=prt, chk=rng.choice([0, 0, 1])))
        L.append("analyze S0 M0 O0")
        L.append("factor M2 M3 M4 P0 M0 S0 O0")
        if want in ("full", "solve"):
            L.append("solve M5 M1 M0 M2 M3 M4 S0 P0 O0")
            if rng.random() < .3:      # a second right-hand side with the same factors
                L.append(mat(6, DENSE, MPZ, n, 2, rhs(rng, n, 2), scale=scale(rng)))
                L.append("solve M7 M6 M0 M2 M3 M4 S0 P0 O0")
                L += ["free M6 -", "free M7 -"]
        if want in ("full", "bsl") and rng.random() < (.6 if want == "full" else 1):
            L += ["bsl M8 %d M0 M1 O0" % rng.choice([MPQ, MPQ, FP64, MPFR]), "free M8 -"]
        L += ["free M%d O0" % k for k in (2, 3, 4)] + ["pfree P0", "afree S0 O0", "free M5 -"]
    L += ["free M0 -", "free M1 -", "optfree O0", "fin"]
    return L

def variants(rng, k):
    out = []
    for _ in range(k):
        pv = rng.randrange(6)
        out.append((pv, rng.choice(OK_ORDERS), rng.choice(TOLS) if pv in (3, 4) else "1"))
    return out
ALLPIV = [(p, o, t) for p in range(6) for o in OK_ORDERS for t in (["1", "0.5"] if p in (3, 4) else ["1"])]

def gen_lu(rng, count, nmin=2, nmax=7, nvar=4, want="full", fams=FAMS, tag="lu", nrhs=None):
    for s in range(count):
        f = fams[s % len(fams)]
        n = rng.randint(nmin, nmax)
        d = f(rng, n)
        yield ("%s%d.%s.n%d" % (tag, s, f.__name__[2:], n),
               lu_block(rng, d, n, variants(rng, nvar), nrhs or rng.choice([1, 1, 2, 3, 0]), want))

def gen_lu_small(rng, count, vals=(-2, -1, 0, 1, 2, 3), tag="two"):
    """2 x 2 matrices over a small range, all pivot schemes; zeros stored or not"""
    import itertools
    allm = list(itertools.product(vals, repeat=4)); rng.shuffle(allm)
    for s, t in enumerate(allm[:count]):
        d = {(k // 2, k % 2): v for k, v in enumerate(t) if v or rng.random() < .3}
        vs = variants(rng, 3)
        yield ("%s%d" % (tag, s), lu_block(rng, d, 2, vs, 1, "full"))

def gen_lu_three(rng, count, vals=(-1, 0, 1), tag="three"):
    """3 x 3 matrices over a small range (all of them when count reaches their number)"""
    import itertools
    allm = list(itertools.product(vals, repeat=9)); rng.shuffle(allm)
    for s, t in enumerate(allm[:count]):
        d = {(k // 3, k % 3): v for k, v in enumerate(t) if v or rng.random() < .1}
        yield ("%s%d" % (tag, s), lu_block(rng, d, 3, variants(rng, 2), 1, "full"))

def gen_lu_edge(rng, tag="edge"):
    # 1x1, empty, zero, single column
    for s, d in enumerate([{}, {(0, 0): 0}, {(0, 0): 5}, {(0, 0): -7}, {(0, 0): -10 ** 30}]):
        yield ("%s1x1.%d" % (tag, s), lu_block(rng, d, 1, variants(rng, 4), 2))
    yield (tag + "0x0", ["init", mat(0, CSC, MPZ, 0, 0, []), mat(1, DENSE, MPZ, 0, 1, []), optline(0), "check M0 O0",
           "analyze S0 M0 O0", "factor M2 M3 M4 P0 M0 S0 O0", "free M0 -", "free M1 -", "free M2 -", "free M3 -", "free M4 -", "pfree P0", "afree S0 -", "optfree O0", "fin"])

def gen_lu_large(rng, count, nlo, nhi, tag="big", want="bsl"):
    for s in range(count):
        n = rng.randint(nlo, nhi)
        f = rng.choice([f_band, f_block, f_arrow, f_sparse, f_gap])
        if f is f_sparse:
            d = {(i, rng.randrange(n)): rng.choice([-3, -1, 2, 5]) for i in range(n) for _ in range(2)}
            q = perm(rng, n)
            for i in range(n): d.setdefault((i, q[i]), rng.choice([1, -4, 9]))
        else: d = f(rng, n)
        yield ("%s%d.%s.n%d" % (tag, s, f.__name__[2:], n), lu_block(rng, d, n, variants(rng, 1), 1, want))

def gen_lu_growth(rng, count, tag="grow"):
    """dense matrices whose analysis underestimates: L and U must be enlarged"""
    for s in range(count):
        n = rng.randint(3, 9)
        d = f_dense(rng, n)
        L = ["init", mat(0, CSC, MPZ, n, n, entries(rng, d, n)), mat(1, DENSE, MPZ, n, 1, rhs(rng, n, 1)), optline(0, rng.randrange(6), rng.choice(OK_ORDERS)),
             "analyze S0 M0 O0"]
        for lnz in (n, n + 1, 2 * n):
            q = perm(rng, n)
            L += ["sset S0 %d %d %d %s" % (n, lnz, rng.choice([n, n + 1, n * n]), " ".join(map(str, q))), "factor M2 M3 M4 P0 M0 S0 O0", "solve M5 M1 M0 M2 M3 M4 S0 P0 O0"]
            L += ["free M%d -" % k for k in (2, 3, 4, 5)] + ["pfree P0"]
        L += ["afree S0 -", "free M0 -", "free M1 -", "optfree O0", "fin"]
        yield ("%s%d.n%d" % (tag, s, n), L)
