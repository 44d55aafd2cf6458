"""Scenario generators: allocation, failing memory, history, default options, printing."""
from gen import *
from gen2 import *

ALLK, ALLT = range(3), range(5)
# ------------------------------------------------------------------ allocation and queries
def gen_alloc(rng, count, tag="alc"):
    """every kind, type, ownership and initialisation with all sorts of shapes and spaces"""
    combos = [(k, t, s, i) for k in ALLK for t in ALLT for s in (0, 1) for i in (0, 1)]
    DIM = [0, 1, 2, 3, 7, 19]
    for r in range(count):
        rng.shuffle(combos)
        L = ["init", "junk %d" % rng.choice([0, 255, 170, rng.randrange(256)]), "optnew O1"]
        for k, t, s, i in combos[:20]:
            m, n = rng.choice(DIM), rng.choice(DIM)
            nz = rng.choice([0, 0, 1, 2, 5, 17, -1, -7, m * n])
            if s and rng.random() < .2: m, n, nz = 2 ** 15, 2 ** 14, rng.choice([0, 2 ** 30])       # nothing is allocated
            o = rng.choice(["-", "O0", "O0", "O1"])
            L += [optline(0, prec=rng.choice(PRECS + [4096]), rnd_=rng.randrange(5))]
            L += ["alloc M0 %d %d %d %d %d %d %d %s" % (k, t, m, n, nz, s, i, o), "nnz M0 %s" % o]
            if i: L.append("check M0 %s" % o)
            if i and not s and m * n < 500 and rng.random() < .5: L += ["copy M1 %d %d M0 %s" % (rng.randrange(3), rng.randrange(5), o), "nnz M1 -", "free M1 -"]
            L += ["free M0 %s" % o]
            if rng.random() < .3: L += ["free M0 -", "free - -", "nnz - -"]
        L += ["optfree O0", "optfree O1", "fin"]
        yield ("%s%d" % (tag, r), L)
def gen_nnz(rng, count, tag="nnz"):
    """entry counts of all kinds of matrices, also of defective ones; shallow ones are freed without their arrays"""
    for r in range(count):
        k, t = r % 3, (r // 3) % 5
        m, n = rng.choice(SHAPES + [(30, 20)])
        L = ["init", gmat(rng, 0, k, t, m, n, small=True, slack=rng.choice([0, 1, 9])), "nnz M0 -", "nnz - -"]
        if t in (INT64, FP64): L += [gmat(rng, 1, k, t, m, n, small=True, cmd="shal"), "nnz M1 -", "check M1 -", "free M1 -", "free M1 -"]
        for f in ["n -1", "m -1", "kind 5", "kind -1", "nzmax -1", "nz -1", "nz 3"] + (["pnull 1", "p %d 77" % n, "p %d -3" % n, "n 0"] if k == CSC else ["n 0", "m 0"]):
            if f.startswith("nz ") and k == DENSE: continue
            L += ["corrupt M0 " + f, "nnz M0 -", "restore M0"]
        L += ["nnz M0 -", "afree S0 -", "free M0 -", "fin"]
        yield ("%s%d.k%dt%d" % (tag, r, k, t), L)

# ------------------------------------------------------------------ failing memory
def sweep(mode, mx, stride, cmd, *clean, k0=1): return "sweep %d %d %d %d :: %s%s" % (mode, mx, stride, k0, cmd, "".join(" :: " + x for x in clean))
def both(cmd, *clean, mx=300, stride=1): return [sweep(1, mx, stride, cmd, *clean), sweep(2, mx, stride, cmd, *clean), cmd]
def anyopt(rng, o=0, prt=None):
    pv = rng.randrange(6)
    return optline(o, pv, rng.choice(OK_ORDERS), rng.choice(TOLS) if pv in (3, 4) else "1", prec=rng.choice([53, 64, 128]), rnd_=rng.randrange(5), chk=rng.choice([0, 1]), prt=rng.choice([0, 0, 1, 2, 3]) if prt is None else prt)
def gen_oom_alloc(rng, tag="oalc"):
    for t in ALLT:
        L = ["init", anyopt(rng)]
        for k in ALLK:
            for i in (0, 1):
                m, n, nz = rng.choice([(2, 3, 4), (1, 1, 1), (3, 2, 6), (0, 2, 0)])
                L += both("alloc M0 %d %d %d %d %d 0 %d O0" % (k, t, m, n, nz, i), "free M0 -") + ["free M0 -"]
            L += both("alloc M0 %d %d 3 3 4 1 %d -" % (k, t, rng.randrange(2)), "free M0 -") + ["free M0 -"]
        yield ("%s.t%d" % (tag, t), L + both("optnew O1", "optfree O1") + ["optfree O1", "optfree O0", "fin"] + [sweep(1, 3, 1, "init", "fin"), sweep(2, 3, 1, "initx", "fin"), "init", "fin"])
def gen_oom_copy(rng, count, tag="ocpy"):
    prs = [(k1, t1, k2, t2) for k1 in ALLK for t1 in ALLT for k2 in ALLK for t2 in ALLT]
    rng.shuffle(prs)
    for r in range(count):
        L = ["init", anyopt(rng, prt=0)]
        part = [prs[(r * 5 + q) % len(prs)] for q in range(5)]
        for k1, t1, k2, t2 in part:
            m, n = rng.choice([(1, 2), (2, 2), (3, 2), (0, 2), (2, 3)])
            L += [gmat(rng, 0, k1, t1, m, n, small=rng.random() < .6, special=False, dens=.7)] + both("copy M1 %d %d M0 O0" % (k2, t2), "free M1 -", mx=120) + ["free M1 -", "free M0 -"]
        yield ("%s%d" % (tag, r), L + ["optfree O0", "fin"])
def gen_oom_check(rng, count, tag="ochk"):
    for r in range(count):
        k, t = r % 3, (r // 3) % 5
        L = ["init", gmat(rng, 0, k, t, 3, 3, small=True, dens=.8)]
        for prt in (0, 1, 2, 3):
            L += [optline(0, prt=prt)] + both("check M0 O0", mx=80)
        if k != DENSE: L += ["corrupt M0 m 1"] + both("check M0 O0", mx=40) + ["restore M0"]
        yield ("%s%d.k%dt%d" % (tag, r, k, t), L + ["free M0 -", "optfree O0", "fin"])
def gen_oom_lu(rng, count, nlo=1, nhi=4, mx=250, tag="olu", fams=None, stride=None):
    """analysis, factorisation, solving and one-call solving with every allocation failing in turn"""
    for r in range(count):
        n = rng.randint(nlo, nhi); f = (fams or [f_sparse, f_dense, f_cancel, f_zero_diag, f_big, f_rankdef, f_scaledpiv, f_ties])[r % len(fams or range(8))]
        d = f(rng, n); st = stride or rng.choice([1, 1, 2, 3])
        pos_ = rng.randrange(1, st + 1)
        L = ["init", mat(0, CSC, MPZ, n, n, entries(rng, d, n), scale=scale(rng)), mat(1, DENSE, MPZ, n, rng.choice([1, 2]), rhs(rng, n, 2), scale=scale(rng)), anyopt(rng, prt=rng.choice([0, 0, 1, 2]))]
        if L[2].split()[5] == "1": pass
        fr = ["free M2 -", "free M3 -", "free M4 -", "pfree P0"]
        W = lambda cmd, clean: [sweep(1, mx, st, cmd, *clean, k0=pos_), sweep(2, mx, st, cmd, *clean, k0=pos_), cmd]
        L += both("analyze S0 M0 O0", "afree S0 -", mx=60)
        if r % 3 != 2:
            L += W("factor M2 M3 M4 P0 M0 S0 O0", fr)
            if r % 3 == 0 or det(d, n) != 0: L += W("solve M5 M1 M0 M2 M3 M4 S0 P0 O0", ["free M5 -"])
        if r % 3 != 1: L += W("bsl M6 %d M0 M1 O0" % rng.choice([MPQ, MPFR, FP64]), ["free M6 -"])
        L += fr + ["free M5 -", "free M6 -", "afree S0 -", "free M0 -", "free M1 -", "optfree O0", "fin"]
        yield ("%s%d.%s.n%d" % (tag, r, f.__name__[2:], n), L)
def gen_oom_grow(rng, count, tag="ogrow"):
    """factors that must be enlarged while memory fails"""
    for r in range(count):
        n = rng.randint(3, 5); d = f_dense(rng, n)
        fr = ["free M2 -", "free M3 -", "free M4 -", "pfree P0"]
        L = ["init", mat(0, CSC, MPZ, n, n, entries(rng, d, n)), anyopt(rng, prt=0), "analyze S0 M0 O0", "sset S0 %d %d %d %s" % (n, n, n, " ".join(map(str, perm(rng, n))))]
        st = rng.choice([1, 2, 3])
        L += [sweep(m_, 200, st, "factor M2 M3 M4 P0 M0 S0 O0", *fr, k0=rng.randint(1, st)) for m_ in (1, 2)] + ["factor M2 M3 M4 P0 M0 S0 O0"]
        yield ("%s%d.n%d" % (tag, r, n), L + fr + ["afree S0 -", "free M0 -", "optfree O0", "fin"])
def gen_oom_cap(rng, count, tag="ocap"):
    """memory runs out for good at some total, then comes back: whole sequences under one limit"""
    for r in range(count):
        n = rng.randint(2, 5); d = f_sparse(rng, n)
        L = ["init", mat(0, CSC, MPZ, n, n, entries(rng, d, n)), mat(1, DENSE, MPZ, n, 1, rhs(rng, n, 1)), anyopt(rng, prt=0)]
        seq = ["analyze S0 M0 O0", "factor M2 M3 M4 P0 M0 S0 O0", "solve M5 M1 M0 M2 M3 M4 S0 P0 O0", "bsl M6 %d M0 M1 O0" % rng.choice([MPQ, MPFR, FP64]), "copy M7 2 0 M0 O0", "copy M8 1 2 M0 O0", "check M0 O0"]
        fr = ["free M%d -" % k for k in (2, 3, 4, 5, 6, 7, 8)] + ["pfree P0", "afree S0 -"]
        for _ in range(12):
            for x in seq:
                if rng.random() < .6: L.append("fail %d %d" % (rng.choice([1, 2]), rng.choice([1, 2, 3, rng.randrange(1, 30), rng.randrange(1, 120)])))
                L.append(x)
            L += fr
        yield ("%s%d.n%d" % (tag, r, n), L + seq + fr + ["free M0 -", "free M1 -", "optfree O0", "fin"])

# ------------------------------------------------------------------ history
def noise(rng):
    """an unrelated piece of work, everything released again"""
    z = rng.randrange(6)
    n = rng.randint(1, 5)
    if z == 0: return [gmat(rng, 30, CSC, MPZ, n, n), anyopt(rng, 5, 0), "analyze S5 M30 O5", "afree S5 -", "free M30 -"]
    if z == 1:
        d = f_sparse(rng, n)
        return [mat(30, CSC, MPZ, n, n, entries(rng, d, n)), mat(31, DENSE, MPZ, n, 1, rhs(rng, n, 1)), anyopt(rng, 5, 0), "bsl M32 %d M30 M31 O5" % rng.choice([MPQ, MPFR, FP64]), "free M32 -", "free M30 -", "free M31 -"]
    if z == 2: return [gmat(rng, 30, rng.randrange(3), rng.randrange(5), n, n, small=True), anyopt(rng, 5, 0), "copy M31 %d %d M30 O5" % (rng.randrange(3), rng.randrange(5)), "check M31 O5", "free M31 -", "free M30 -"]
    if z == 3: return ["g mpz_init2 z9 200", "gset z9 %s" % rnd(rng, 90), "g mpz_mul z9 z9 z9", "g mpz_clear z9", "g mpfr_init2 f9 77", "gset f9 1.8", "g mpfr_log2 f9 f9 2", "g mpfr_clear f9"]
    if z == 4: return [gmat(rng, 30, CSC, INT64, n, n + 1), anyopt(rng, 5, 0), "fail %d %d" % (rng.choice([1, 2]), rng.randrange(1, 9)), "copy M31 1 1 M30 O5", "free M31 -", "free M30 -"]
    return ["alloc M30 %d %d 3 3 4 0 1 -" % (rng.randrange(3), rng.randrange(5)), "check M30 -", "free M30 -", "junk %d" % rng.randrange(256)]
def gen_history(rng, count, tag="his"):
    """the same calls alone, after other work, repeated, in other orders, in later sessions, with other contents of fresh memory"""
    for r in range(count):
        n = rng.choice([2, 3, 3, 4, 5, 7]); f = FAMS[r % len(FAMS)]; d = f(rng, n)
        t2, k2 = rng.randrange(5), rng.randrange(3)
        data = [mat(0, CSC, MPZ, n, n, entries(rng, d, n), scale=scale(rng)), mat(1, DENSE, MPZ, n, rng.choice([1, 2]), rhs(rng, n, 2), scale=scale(rng)), gmat(rng, 10, k2, t2, rng.randint(1, 4), rng.randint(1, 4), special=False), anyopt(rng, 0, 0), anyopt(rng, 1, 0)]
        bt = rng.choice([MPQ, MPFR, FP64]); cps = [(rng.randrange(3), rng.randrange(5)) for _ in range(3)]
        fr = ["free M2 -", "free M3 -", "free M4 -", "pfree P0"]
        lu = lambda o: ["analyze S0 M0 O%d" % o, "factor M2 M3 M4 P0 M0 S0 O%d" % o, "solve M5 M1 M0 M2 M3 M4 S0 P0 O%d" % o]
        work = [lu(0) + fr + ["afree S0 -", "copy M6 1 2 M5 O0", "check M5 O0", "free M5 -", "free M6 -"], lu(1) + ["free M5 -"] + fr + ["afree S0 -"],
                ["bsl M6 %d M0 M1 O0" % bt, "free M6 -"], ["bsl M6 %d M0 M1 O1" % bt, "free M6 -"]] + [["copy M7 %d %d M10 O%d" % (a, b, rng.randrange(2)), "check M7 -", "free M7 -"] for a, b in cps] + [["check M10 O0", "check M0 O1"]]
        end = ["free M0 -", "free M1 -", "free M10 -", "optfree O0", "optfree O1"]
        flat = lambda w: [x for y in w for x in y]
        sh = lambda w: rng.sample(w, len(w))
        V = [["init", "junk 0"] + data + flat(work) + end + ["fin"],
             ["init", "junk 255"] + data + flat(work) + flat(sh(work)) + end + ["fin"],
             ["initx", "junk %d" % rng.randrange(1, 255)] + [x for w in [noise(rng) for _ in range(4)] for x in w] + data + [x for w in sh(work) for x in w + noise(rng)] + end + ["optfree O5", "fin"],
             ["init"] + data + flat(work) + end + ["fin", "init", "junk 170"] + data + flat(sh(work)) + end + ["fin", "initx"] + noise(rng) + data + flat(work) + end + ["optfree O5", "fin"]]
        # the solution outlives everything it came from
        V.append(["init"] + data + lu(0) + fr + ["afree S0 -", "free M0 -", "free M1 -", "free M10 -"] + noise(rng) + ["copy M6 2 2 M5 O0", "copy M7 0 1 M5 O0", "check M5 O1", "nnz M5 -", "free M6 -", "free M7 -", "free M5 -", "optfree O0", "optfree O1", "optfree O5", "fin"])
        for v, L in enumerate(V): yield ("%s%d.%s.n%d~%d" % (tag, r, f.__name__[2:], n, v), L)

# ------------------------------------------------------------------ default options
def gen_defaults(rng, count, tag="dft"):
    """no options, fresh options, the documented values, and the same with checking and printing"""
    for r in range(count):
        n = rng.choice([1, 2, 3, 4, 6]); f = FAMS[r % len(FAMS)]; d = f(rng, n)
        k2, t2 = rng.randrange(3), rng.randrange(5)
        data = [mat(0, CSC, MPZ, n, n, entries(rng, d, n), scale=scale(rng)), mat(1, DENSE, MPZ, n, 1, rhs(rng, n, 1), scale=scale(rng)), gmat(rng, 10, k2, t2, rng.randint(1, 4), rng.randint(1, 4), special=False)]
        cps = [(rng.randrange(3), rng.randrange(5)) for _ in range(6)]
        def work(o): return (["analyze S0 M0 " + o, "factor M2 M3 M4 P0 M0 S0 " + o, "solve M5 M1 M0 M2 M3 M4 S0 P0 " + o, "bsl M6 1 M0 M1 " + o, "bsl M7 2 M0 M1 " + o, "bsl M8 4 M0 M1 " + o]
            + ["free M%d %s" % (k, o) for k in range(2, 9)] + ["pfree P0", "afree S0 " + o] + [x for a, b in cps for x in ("copy M9 %d %d M10 %s" % (a, b, o), "check M9 " + o, "free M9 " + o)]
            + [x for t in range(5) for x in ("alloc M9 %d %d 2 3 4 0 1 %s" % (t % 3, t, o), "free M9 " + o)])
        end = ["free M0 -", "free M1 -", "free M10 -"]
        dfl = lambda prt, chk: optline(0, 3, 1, "1", prt, 128, 0, chk)
        V = [["init"] + data + work("-") + end + ["fin"], ["init", "optnew O0"] + data + work("O0") + end + ["optfree O0", "fin"], ["init", dfl(0, 0)] + data + work("O0") + end + ["optfree O0", "fin"]]
        for prt, chk in ((0, 1), (1, 1), (2, 0), (2, 1), (3, 1)): V.append(["init", dfl(prt, chk)] + (["noprintf 1"] if rng.random() < .25 else []) + data + work("O0") + end + ["noprintf 0", "optfree O0", "fin"])
        for v, L in enumerate(V): yield ("%s%d.%s.n%d~%d" % (tag, r, f.__name__[2:], n, v), L)

def gen_verify(rng, count, tag="ver"):
    """solving with the factors of one matrix and another matrix: the checker decides whether A*x = b"""
    for r in range(count):
        n = rng.choice([1, 2, 2, 3, 4, 5]); nr = rng.choice([1, 1, 2, 3])
        f = rng.choice(FAMS); d = {k: v for k, v in f(rng, n).items() if v}
        for i in range(n): d.setdefault((i, i), rng.choice([7, 11, -13]))
        # columns of the solution with many zeros, integers; b = A*x
        X = [[rng.choice([0, 0, 1, -1, 2]) for _ in range(n)] for _ in range(nr)]
        B = [(i, c, sum(d.get((i, j), 0) * X[c][j] for j in range(n))) for c in range(nr) for i in range(n)]
        if rng.random() < .3: B = [(i, c, v + rng.choice([0, 0, 1])) for i, c, v in B]
        sa, sb = scale(rng), scale(rng)
        L = ["init", mat(0, CSC, MPZ, n, n, entries(rng, d, n), scale=sa), mat(1, DENSE, MPZ, n, nr, B, scale=sb), optline(0), "analyze S0 M0 O0", "factor M2 M3 M4 P0 M0 S0 O0", "solve M5 M1 M0 M2 M3 M4 S0 P0 O0", "free M5 -"]
        for v in range(7):
            e = dict(d); s2 = sa
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                k = (rng.randrange(n), rng.randrange(n)); z = rng.random()
                if z < .5: e[k] = e.get(k, 0) + rng.choice([1, -1, 10 ** 20])
                elif z < .75: e.pop(k, None)
                else: e[k] = -e.get(k, 0)
            if rng.random() < .3: s2 = scale(rng)
            if v == 6 and B:      # the same matrix exactly, stored in another order
                e, s2 = d, sa
            for chk in ((1, 0) if v % 3 == 0 else (1,)):
                o = optline(0, prt=rng.choice([0, 0, 1, 1, 2]), chk=chk)
                L += [mat(6, CSC, MPZ, n, n, entries(rng, e, n), scale=s2), o, "solve M7 M1 M6 M2 M3 M4 S0 P0 O0", "free M6 -", "free M7 -"]
        L += ["free M%d -" % k for k in (0, 1, 2, 3, 4)] + ["pfree P0", "afree S0 -", "optfree O0", "fin"]
        yield ("%s%d.%s.n%d" % (tag, r, f.__name__[2:], n), L)

# ------------------------------------------------------------------ arguments
def gen_badargs(rng, tag="arg"):
    """every call with every single argument defective: missing, of every other kind and type, of every other shape"""
    def wrong(n, want, dense_ok=None):
        """scripts that make M10 something else than want = (kind, type, m, n)"""
        W = ["-"]
        for k in range(3):
            for t in range(5):
                for m, q in ({(n, n), (n, 1)} if k == DENSE else {(n, n)}):
                    if (k, t) != want[:2]: W.append(gmat(rng, 10, k, t, m, q, special=False, small=True))
        for m, q in [(n + 1, n), (n, n + 1), (n + 1, n + 1), (max(n - 1, 0), n), (0, 0), (n, 0), (0, n), (1, n), (n, 1), (n + 1, 1)]:
            if (m != want[2]) or (want[0] == CSC and q != want[3]): W.append(gmat(rng, 10, want[0], want[1], m, q, special=False, small=True))
        return W
    for n in (1, 2, 3):
        d = {(i, j): rng.choice([1, 2, -3, 5]) for i in range(n) for j in range(n)}
        for i in range(n): d[(i, i)] = rng.choice([17, 23, -29])
        o = optline(0, chk=0, prt=rng.choice([0, 0, 1, 2]), order=rng.randrange(3), pivot=rng.randrange(6))
        base = ["init", mat(0, CSC, MPZ, n, n, [(i, j, v) for (i, j), v in d.items()]), mat(1, DENSE, MPZ, n, 2, rhs(rng, n, 2)), o, "analyze S0 M0 O0", "factor M2 M3 M4 P0 M0 S0 O0"]
        good = ["solve M5 M1 M0 M2 M3 M4 S0 P0 O0", "free M5 -", "bsl M5 %d M0 M1 O0" % rng.choice([1, 2, 4]), "free M5 -"]
        end = ["free M%d -" % k for k in range(5)] + ["pfree P0", "afree S0 -", "optfree O0", "fin"]
        calls = {
          "analyze": (["S9", "M0", "O0"], {1: (CSC, MPZ, n, n)}, ["afree S9 -"]),
          "factor": (["M6", "M7", "M8", "P9", "M0", "S0", "O0"], {4: (CSC, MPZ, n, n)}, ["free M6 -", "free M7 -", "free M8 -", "pfree P9"]),
          "solve": (["M6", "M1", "M0", "M2", "M3", "M4", "S0", "P0", "O0"], {1: (DENSE, MPZ, n, 2), 2: (CSC, MPZ, n, n), 3: (CSC, MPZ, n, n), 4: (CSC, MPZ, n, n), 5: (DENSE, MPZ, n, 1)}, ["free M6 -"]),
          "bsl": (["M6", "1", "M0", "M1", "O0"], {2: (CSC, MPZ, n, n), 3: (DENSE, MPZ, n, 2)}, ["free M6 -"]),
        }
        for c, (args, mats, clean) in calls.items():
            for a in range(len(args)):
                L = list(base)
                def call(v): return " ".join([c] + args[:a] + [v] + args[a + 1:])
                if a in mats:
                    for w in wrong(n, mats[a]):
                        if w == "-": L += [call("-")] + clean
                        # the analysis does not say for which size it is: the caller's duty
                        elif c == "factor" and w.split()[4] == w.split()[5] != str(n): continue
                        elif c == "analyze" and w.split()[2] == "0" and w.split()[4] == w.split()[5]: continue      # any type will do
                        else: L += [w, call("M10")] + clean + ["free M10 -"]
                elif c == "bsl" and a == 1:
                    for t in (0, 3, 5, -1, 77, 1, 2, 4): L += [call(str(t))] + clean
                else: L += [call("-")] + clean
                yield ("%s%d.%s.%d" % (tag, n, c, a), L + good + end)
        # several sizes that do not fit together (but do in part)
        L = list(base)
        for it in range(60):
            am, an, lm, ln, um, un, bm, rm = [rng.choice([n, n, n + 1]) for _ in range(8)]
            if it < 9: am, an = (am, an) if it < 6 else (n, n); lm = bm = rm = am; un = an; ln = um = [n, n + 1, max(n - 1, 0)][it % 3]
            elif rng.random() < .4: lm = bm = rm = am; un = an; ln = um = rng.choice([am, an])
            if len({am, an, lm, ln, um, un, bm, rm}) == 1: continue
            L += [gmat(rng, 10, CSC, MPZ, am, an, special=False, small=True), gmat(rng, 11, DENSE, MPZ, bm, 1, special=False, small=True), gmat(rng, 12, CSC, MPZ, lm, ln, special=False, small=True),
                  gmat(rng, 13, CSC, MPZ, um, un, special=False, small=True), gmat(rng, 14, DENSE, MPZ, rm, 1, special=False, small=True), "solve M6 M11 M10 M12 M13 M14 S0 P0 O0", "bsl M6 1 M10 M11 O0" if am != an or am != bm else "nnz M10 O0"]
            L += ["free M%d -" % k for k in (6, 10, 11, 12, 13, 14)]
        yield ("%s%d.sizes" % (tag, n), L + good + end)
        L = ["init", optline(0)]
        for k in range(3):
            for t in range(5):
                L += [gmat(rng, 0, k, t, n, n + 1, special=False, small=True)]
                for D, K, T in (("-", 0, 0), ("M1", 3, 0), ("M1", -1, 1), ("M1", 0, 5), ("M1", 2, -1), ("M1", 99, 99)): L += ["copy %s %d %d M0 O0" % (D, K, T), "free M1 -"]
                for f in ("kind 3", "kind -1", "type 5", "type -2", "kind 77"):
                    L += ["corrupt M0 " + f, "copy M1 %d %d M0 O0" % (rng.randrange(3), rng.randrange(5)), "free M1 -", "nnz M0 O0", "check M0 O0"]
                    if c: L += ["analyze S0 M0 O0", "factor M2 M3 M4 P0 M0 S0 O0", "bsl M5 1 M0 M0 O0", "afree S0 -"]
                    L += ["restore M0"]
                L += ["copy M1 0 0 M0 O0", "free M1 -", "free M0 -"]
        L += ["copy M1 0 0 - O0", "check - O0", "nnz - O0", "free - O0", "afree - O0"]
        for k, t, m, q in ((3, 0, 1, 1), (-1, 0, 1, 1), (0, 5, 1, 1), (1, -1, 1, 1), (0, 0, -1, 1), (2, 4, 1, -1), (1, 2, -3, -3)): L += ["alloc M1 %d %d %d %d 1 0 1 O0" % (k, t, m, q), "free M1 -"]
        yield ("%s%d.mat" % (tag, n), L + ["optfree O0", "fin"])

# ------------------------------------------------------------------ printing
def gen_print(rng, count, tag="pr"):
    """every call at every print level, succeeding and failing, with and without a print function"""
    for r in range(count):
        n = rng.choice([1, 2, 3, 4]); d = rng.choice(FAMS)(rng, n)
        pv = rng.randrange(6); od = rng.randrange(3); np_ = rng.random() < .25
        L = ["init"] + (["noprintf 1"] if np_ else []) + [mat(0, CSC, MPZ, n, n, entries(rng, d, n)), mat(1, DENSE, MPZ, n, 1, rhs(rng, n, 1)), gmat(rng, 10, r % 3, r % 5, 3, 2, special=False), mat(11, DENSE, MPZ, n + 1, 1, [])]
        for prt in (0, 1, 2, 3):
            for chk in (0, 1):
                o = "O0"
                L += [optline(0, pv, od, "1", prt, rng.choice([53, 128]), rng.randrange(5), chk), "analyze S0 M0 O0", "factor M2 M3 M4 P0 M0 S0 O0", "solve M5 M1 M0 M2 M3 M4 S0 P0 O0", "bsl M6 %d M0 M1 O0" % rng.choice([1, 2, 4]),
                      "check M2 O0", "check M5 O0", "check M6 O0", "copy M7 %d %d M10 O0" % (rng.randrange(3), rng.randrange(5)), "check M7 O0"]
                L += rng.sample(["analyze - M0 O0", "analyze S1 M10 O0", "factor - M12 M13 P1 M0 S0 O0", "solve M14 M11 M0 M2 M3 M4 S0 P0 O0", "bsl M14 0 M0 M1 O0", "bsl M14 1 M0 M11 O0", "copy M14 5 0 M0 O0", "alloc M14 7 0 2 2 2 0 1 O0", "check - O0",
                                 "fail 2 1\x00factor M12 M13 M14 P1 M0 S0 O0", "fail 1 2\x00analyze S1 M0 O0", "fail 1 1\x00alloc M14 0 0 2 2 2 0 1 O0"], 6)
                L += ["alloc M14 %d %d 2 2 3 0 1 O0" % (rng.randrange(3), rng.randrange(5)), "check M14 O0", "nnz M14 O0", "free M14 O0"]
                L += ["corrupt M0 m %d" % -1, "check M0 O0", "restore M0"]
                L += ["free M%d O0" % k for k in (2, 3, 4, 5, 6, 7, 12, 13, 14)] + ["pfree P0", "pfree P1", "afree S0 O0", "afree S1 O0"]
        L = [y for x in L for y in x.split("\x00")]
        yield ("%s%d.n%d" % (tag, r, n), L + ["noprintf 0", "free M0 -", "free M1 -", "free M10 -", "free M11 -", "optfree O0", "fin"])
def gen_report(rng, count, tag="rep"):
    """the reports of AMD and COLAMD, with every status"""
    for s in range(count):
        L = ["init"] if rng.random() < .3 else []
        for _ in range(14):
            w = rng.choice(["amd_control", "amd_info", "amd_info", "colamd_report", "symamd_report"]); var = rng.randrange(2)
            big = 2 ** 45 if w == "amd_info" else 2 ** 50 if var else 2 ** 30
            v = [rng.choice([rng.randrange(30), rng.randrange(100000), rng.randrange(big)]) for _ in range(20)]
            if w == "amd_control": v = [rng.choice(["10", "-1", "0", "2.5", "7.25", "1000"]), rng.randrange(2)]
            elif w == "amd_info":
                v[0] = rng.choice([0, -1, -2, 1, 7]); v[3] = rng.random()
                for k in range(1, 14):
                    if rng.random() < .1: v[k] = -1
            else: v[3] = rng.choice([0, 0, 1, 1, -1, -2, -3, -4, -5, -6, -7, -8, -9, -10]); v[5] = rng.choice([v[5], -v[5]])
            np_ = rng.random() < .15
            L += (["noprintf 1"] if np_ else []) + ["report %s %d %s" % (w, var, "-1" if rng.random() < .1 else "20 " + " ".join(map(str, v + [0] * (20 - len(v)))))] + (["noprintf 0"] if np_ else [])
        if L[0] == "init": L.append("fin")
        yield ("%s%d" % (tag, s), L)
def gen_ignored_release(rng, tag="igr"):
    """releases outside a session are ignored and can be made good in the next one"""
    L = []
    for up in (0, 1, 0):
        L += ["init", optline(0), "mat M0 0 0 2 2 2 2 128 1  0 1 2  0 1  2 3", "analyze S0 M0 O0", "factor M2 M3 M4 P0 M0 S0 O0"]
        if not up: L += ["fin", "pfree P0", "init"]
        L += ["pfree P0", "pfree P0", "free M0 -", "free M2 -", "free M3 -", "free M4 -", "afree S0 -", "optfree O0", "fin"]
    yield (tag, L)
