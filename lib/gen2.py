"""Scenario generators: conversions, validity, backslash, analysis, orderings, GMP layer, memory layer."""
from gen import *
import math

EXACT = {MPZ, MPQ, INT64}
# ------------------------------------------------------------------ values by type
ZP = ["0", "1", "-1", "2", "-3", "7", "10", "123456789", "-987654321", "4294967296", "9007199254740992", "9007199254740993", "-9007199254740993",
      "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "18446744073709551616",
      str(10 ** 17), str(10 ** 40 + 1), str(-(3 ** 120)), str(2 ** 1023), str(2 ** 1024 - 2 ** 970 + 1), str(2 ** 130 + 1)]
QP = ["0", "1", "-1", "1/2", "-1/3", "22/7", "7/2", "-7/2", "3/2", "5/2", "-5/2", "1/1000000007", "-123456789/1000", "9223372036854775807/2", "9223372036854775808", "-9223372036854775809",
      "9223372036854775807", "18446744073709551615/2", "-18446744073709551617/2", "%d/%d" % (10 ** 40 + 1, 3 ** 50), "%d" % (3 ** 100), "1/%d" % (2 ** 1074), "1/%d" % (3 ** 700), "9007199254740993", "9007199254740991/4", "1/10"]
DP = ["0", "1", "-1", "0.5", "-0.5", "0.1", "-0.3", "2.5", "3.5", "-2.5", "1e17", "123456.789", "-1e-17", "5e-18", "1.5e-17", "2.5e-17", "-2.5e-17", "1e-20", "9007199254740993", "9.2233720368547748e18", "9.2233720368547758e18", "-9.2233720368547758e18", "-9.2233720368547778e18", "1e300", "-1e25",
      "4.9e-324", "2.2250738585072014e-308", "0x1.fffffffffffffp1023", "3.9999999999999996", "-0.9999999999999999", "1e18"]
DS = ["inf", "-inf", "nan"]
IP = ["0", "1", "-1", "2", "-3", "1000", "9007199254740993", "-9007199254740995", "9007199254740992", "9223372036854775807", "-9223372036854775808", "9223372036854775295", "4611686018427387905", "-7"]
FP_ = ["0", "1", "-1", "0.8", "-0.8", "1.8", "2.8", "-2.8", "1.00000000000008", "1.000000000000001", "3.243f6a8885a308d313198a2e03707344", "-3.243f6a88", "7.fffffffffffff", "7fffffffffffffff", "7fffffffffffffff.8", "8000000000000000", "-8000000000000000", "-8000000000000000.8", "-8000000000000001", "1@20", "-1@25", "1@-20", "1.8@-30", "1@-275", "1@260", "0.000000000000000000000000000000018", "f.fffffffffffffffffffffffffffffff8"]
FS = ["@inf@", "-@inf@", "@nan@"]

def val(rng, typ, special=True, small=False):
    if typ == MPZ: return rng.choice(ZP[:8] if small else ZP) if rng.random() < .8 else str(rnd(rng, rng.choice([8, 60, 200])))
    if typ == MPQ: return rng.choice(QP[:10] if small else QP) if rng.random() < .8 else "%d/%d" % fracpair(rng)
    if typ == INT64: return rng.choice(IP[:6] if small else IP) if rng.random() < .8 else str(rng.randrange(-2 ** 63, 2 ** 63))
    if typ == FP64:
        if special and not small and rng.random() < .06: return rng.choice(DS)
        return rng.choice(DP[:10] if small else DP) if rng.random() < .7 else float(rnd(rng, 53) * 2.0 ** rng.randrange(-80, 40)).hex()
    if special and not small and rng.random() < .06: return rng.choice(FS)
    return rng.choice(FP_[:8] if small else FP_) if rng.random() < .7 else "%s%x.%x@%d" % (rng.choice(["", "-"]), rng.getrandbits(rng.randrange(1, 120)), rng.getrandbits(rng.randrange(1, 100)), rng.randrange(-12, 12))
def fracpair(rng):
    a, b = rnd(rng, rng.choice([8, 64, 150])), abs(rnd(rng, rng.choice([4, 64, 150])))
    g = gcd(a, b); return a // g, b // g

def pos(rng, m, n, dens): return [(i, j) for j in range(n) for i in range(m) if rng.random() < dens]
def gmat(rng, slot, kind, typ, m, n, vals=None, dens=None, cmd="mat", slack=None, prec=None, sc=None, special=True, small=False):
    dens = rng.choice([0, .3, .6, 1]) if dens is None else dens
    P = pos(rng, m, n, 1 if kind == DENSE else dens)
    zero = rng.random() < .12                      # everything zero
    f = vals or (lambda: "0" if zero or rng.random() < .15 else val(rng, typ, special, small))
    if kind == DENSE and not zero and rng.random() < .4:
        z = rng.random()
        g = f; f = lambda: "0" if rng.random() < z else g()
    ent = shuf(rng, [(i, j, f()) for i, j in P], rng.random() < .4)
    sc = sc if sc is not None else (rng.choice(["1", "1", "2", "-3", "7/5", "-1/4", "1/1000000007", "%d" % 10 ** 17]) if typ == MPZ else "1")
    prec = prec or rng.choice([2, 24, 53, 64, 113, 128, 200])
    nz = None if kind == DENSE else len(ent) + (slack if slack is not None else rng.choice([0, 0, 1, 3]))
    return mat(slot, kind, typ, m, n, ent, nz, prec, sc, cmd)

PRECS = [2, 3, 24, 53, 54, 64, 100, 128, 200]
def convopt(rng, o=0): return optline(o, prec=rng.choice(PRECS + [128] * 3), rnd_=rng.randrange(5), prt=0)

SHAPES = [(0, 0), (0, 3), (3, 0), (1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (3, 3), (5, 4)]
def gen_conv(rng, count, pairs, tag="conv", small=False):
    """pairs(k1,t1,k2,t2): which conversions"""
    srcs = [(k, t) for k in range(3) for t in range(5)]
    for s in range(count):
        k1, t1 = srcs[s % 15]
        m, n = rng.choice(SHAPES)
        shal = t1 in (INT64, FP64) and rng.random() < .25
        L = ["init", gmat(rng, 0, k1, t1, m, n, cmd="mat", small=small)]
        if shal: L[1] = L[1].replace("mat M0", "shal M0", 1)
        tg = [(k2, t2) for k2 in range(3) for t2 in range(5) if pairs(k1, t1, k2, t2)]
        rng.shuffle(tg)
        if not tg: continue
        L.append(convopt(rng))
        for k2, t2 in tg[:9]:
            if rng.random() < .5: L.append(convopt(rng))
            L += ["copy M1 %d %d M0 %s" % (k2, t2, "-" if rng.random() < .15 else "O0"), "check M1 -" if rng.random() < .2 else "nnz M1 -"]
            if rng.random() < .25: L += ["copy M2 %d %d M1 O0" % (rng.randrange(3), t2), "free M2 -"]     # and on to another kind
            L.append("free M1 -")
        L += ["free M0 -", "optfree O0", "fin"]
        yield ("%s%d.k%dt%d.%dx%d" % (tag, s, k1, t1, m, n), L)
def gen_conv_special(rng, tag="cspec"):
    """one entry each: every value of the pools against every type and rounding"""
    pools = {MPZ: ZP, MPQ: QP, INT64: IP, FP64: DP + DS, MPFR: FP_ + FS}
    for t in range(5):
        vs = pools[t]
        for c in range(0, len(vs), 6):
            part = vs[c:c + 6]
            L = ["init"]
            fin = [v for v in part if v not in DS + FS]
            for grp, lab in ((fin, 0), ([v for v in part if v not in fin], 1)):
                if not grp: continue
                L.append(mat(0, CSC, t, len(grp), 1, [(i, 0, v) for i, v in enumerate(grp)], prec=160, scale="1"))
                for r in range(5):
                    L.append(optline(0, prec=rng.choice([2, 53, 64, 128, 200]), rnd_=r))
                    for t2 in range(5):
                        if t2 == t and t != MPFR: continue
                        L += ["copy M1 %d %d M0 O0" % (rng.randrange(3), t2), "free M1 -"]
                L += ["free M0 -"]
            L += ["optfree O0", "fin"]
            yield ("%s.t%d.%d" % (tag, t, c), L)
def gen_conv_scale(rng, tag="cscale"):
    for s, sc in enumerate(["1", "2", "-1", "1/3", "-7/5", str(10 ** 17), "%d/%d" % (10 ** 30, 7 ** 20), "1/1000", "-%d" % 2 ** 70]):
        for k in range(3):
            L = ["init", mat(0, k, MPZ, 3, 2, [(0, 0, "6"), (2, 0, "-7"), (1, 1, str(10 ** 25)), (2, 1, "21")], scale=sc)]
            for r in (0, 1, 2, 3, 4):
                L.append(optline(0, prec=rng.choice([2, 24, 53, 100, 128]), rnd_=r))
                for k2 in range(3):
                    for t2 in (MPZ, MPQ, MPFR, INT64, FP64) if r == 0 else (MPFR, FP64, INT64):
                        L += ["copy M1 %d %d M0 O0" % (k2, t2), "free M1 -"]
            L += ["free M0 -", "optfree O0", "fin"]
            yield ("%s%d.k%d" % (tag, s, k), L)

# ------------------------------------------------------------------ backslash
def gen_bsl(rng, count, tag="bsl"):
    for s in range(count):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7]); nr = rng.choice([0, 1, 1, 2, 3])
        f = rng.choice([f_dense, f_sparse, f_band, f_block, f_big, f_zero_diag])
        d = f(rng, n)
        for _ in range(20):
            if det(d, n) != 0: break
            d = f_sparse(rng, n)
        sa, sb = scale(rng), scale(rng)
        e = rng.random()
        if e < .12: sb = str(10 ** rng.choice([300, 310, 320, 330, 400]))       # subnormal and vanishing solutions
        elif e < .24: sa = str(10 ** rng.choice([300, 307, 308, 309, 400]))     # huge ones
        L = ["init", mat(0, CSC, MPZ, n, n, entries(rng, d, n), scale=sa), mat(1, DENSE, MPZ, n, nr, rhs(rng, n, nr, rng.choice([3, 8, 60, 120])), scale=sb)]
        for _ in range(3):
            pv = rng.randrange(6)
            for r in rng.sample(range(5), 2):
                L.append(optline(0, pv, rng.choice(OK_ORDERS), rng.choice(TOLS) if pv in (3, 4) else "1", prec=rng.choice(PRECS + [300]), rnd_=r, chk=rng.choice([0, 0, 1])))
                for t in (MPQ, MPFR, FP64):
                    L += ["bsl M8 %d M0 M1 O0" % t, "free M8 -"]
        L += ["free M0 -", "free M1 -", "optfree O0", "fin"]
        yield ("%s%d.n%d" % (tag, s, n), L)
def det(d, n):
    M = [[Fraction(d.get((i, j), 0)) for j in range(n)] for i in range(n)]
    r = Fraction(1)
    for k in range(n):
        p = next((i for i in range(k, n) if M[i][k]), None)
        if p is None: return 0
        M[k], M[p] = M[p], M[k]; r *= M[k][k]
        for i in range(k + 1, n):
            if M[i][k]:
                f = M[i][k] / M[k][k]
                for j in range(k, n): M[i][j] -= f * M[k][j]
    return r
def gen_bsl_tie(rng, count, tag="tie"):
    """1 x 1 and diagonal systems whose solutions sit on and next to rounding boundaries"""
    for s in range(count):
        prec = rng.choice([2, 3, 24, 53, 64])
        vals = []
        for _ in range(4):
            q = rng.choice([prec, 53]); m_ = rng.getrandbits(q) | (1 << (q - 1))
            num = (m_ * 4 + rng.choice([0, 1, 2, 2, 2, 3])); e = rng.choice([0, 1, 5, 60, 1074, 1080, 1030])
            vals.append((num * rng.choice([1, -1]), 2 ** e if e < 100 or rng.random() < .6 else 2 ** e * 3))
        n = len(vals); den = [v[1] for v in vals]
        L = ["init", mat(0, CSC, MPZ, n, n, [(i, i, den[i]) for i in range(n)]), mat(1, DENSE, MPZ, n, 1, [(i, 0, vals[i][0]) for i in range(n)])]
        for r in range(5):
            L += [optline(0, rng.randrange(6), rng.choice(OK_ORDERS), prec=prec, rnd_=r), "bsl M8 %d M0 M1 O0" % MPFR, "free M8 -", "bsl M8 %d M0 M1 O0" % FP64, "free M8 -"]
        L += ["free M0 -", "free M1 -", "optfree O0", "fin"]
        yield ("%s%d.p%d" % (tag, s, prec), L)

# ------------------------------------------------------------------ analysis
def gen_analyze(rng, count, tag="ana"):
    for s in range(count):
        typ = s % 5
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 12, 20, 40]); dens = rng.choice([0, .1, .2, .4, .7, 1])
        if n >= 20: dens = rng.choice([.02, .05, .1])
        L = ["init", gmat(rng, 0, CSC, typ, n, n, dens=dens, small=True, slack=rng.choice([0, 2]))]
        for od in rng.sample([0, 1, 2], 3):
            L += [optline(0, order=od, prt=rng.choice([0, 0, 0, 1])), "analyze S0 M0 %s" % ("O0" if rng.random() < .85 else "-"), "afree S0 -"]
        L += ["free M0 -", "optfree O0", "fin"]
        yield ("%s%d.n%d.t%d" % (tag, s, n, typ), L)
def gen_analyze_struct(rng, count, tag="anas"):
    """patterns with empty and dense rows and columns, all zero diagonals, stars, and long thin ones"""
    for s in range(count):
        n = rng.choice([3, 6, 10, 25, 45, 70])
        d = set()
        for _ in range(rng.randrange(0, 3 * n)): d.add((rng.randrange(n), rng.randrange(n)))
        for _ in range(rng.randrange(0, 3)):
            r = rng.randrange(n); d |= {(r, j) for j in range(n)}
        for _ in range(rng.randrange(0, 3)):
            c = rng.randrange(n); d |= {(i, c) for i in range(n)}
        for _ in range(rng.randrange(0, 3)):
            c = rng.randrange(n); d = {(i, j) for i, j in d if j != c}
        for _ in range(rng.randrange(0, 3)):
            c = rng.randrange(n); d = {(i, j) for i, j in d if i != c}
        L = ["init", mat(0, CSC, rng.choice([MPZ, INT64]), n, n, shuf(rng, [(i, j, 1) for i, j in sorted(d)]))]
        for od in (0, 1, 2):
            L += [optline(0, order=od, prt=rng.choice([0, 0, 0, 1])), "analyze S0 M0 O0", "afree S0 -"]
        L += ["free M0 -", "optfree O0", "fin"]
        yield ("%s%d.n%d" % (tag, s, n), L)
def gen_analyze_bad(rng, tag="anabad"):
    def base(n=3): return ["init", mat(0, CSC, MPZ, n, n, [(0, 0, 1), (1, 0, 2), (1, 1, 3), (2, 2, 4), (0, 2, 5)])]
    cor = [("i 1 7", ), ("i 1 -1",), ("i 4 3",), ("i 0 -2147483648",), ("p 0 1",), ("p 0 -1",), ("p 1 4", "p 2 1"), ("p 1 -2",), ("p 2 1", "p 1 2"), ("i 1 0",), ("i 3 9", "i 0 5"), ("p 3 -1",)]
    for s, c in enumerate(cor):
        L = base()
        for x in c: L.append("corrupt M0 " + x)
        for od in (0, 1, 2):
            L += [optline(0, order=od), "analyze S0 M0 O0", "afree S0 -"]
        L += ["restore M0", "analyze S0 M0 O0", "afree S0 -", "free M0 -", "optfree O0", "fin"]
        yield ("%s%d" % (tag, s), L)
    for m, n in ((2, 3), (3, 2), (0, 2), (2, 0)):
        yield ("%s.%dx%d" % (tag, m, n), ["init", mat(0, CSC, INT64, m, n, []), "analyze S0 M0 -", "afree S0 -", "free M0 -", "fin"])
    for k in (TRIPLET, DENSE):
        yield ("%s.kind%d" % (tag, k), ["init", mat(0, k, MPZ, 2, 2, [(0, 0, 1), (1, 1, 1)]), "analyze S0 M0 -", "free M0 -", "fin"])

# ------------------------------------------------------------------ validity
def gen_check_random(rng, count, tag="chk"):
    F = ["m", "n", "nzmax", "nz", "kind", "type", "p", "i", "j", "pnull", "inull", "jnull", "xnull"]
    for s in range(count):
        k, t = s % 3, (s // 3) % 5
        m, n = rng.choice(SHAPES)
        prt = rng.choice([0, 0, 1, 2, 3])
        m0 = gmat(rng, 0, k, t, m, n, small=True, slack=rng.choice([0, 1]))
        nz = 0
        toks = m0.split()
        nzmax, nnz = (m * n, m * n) if k == DENSE else (int(toks[6]), int(toks[7]))
        L = ["init", m0, optline(0, prt=prt), "check M0 O0", "check M0 -"]
        for _ in range(10):
            nc = rng.choice([1, 1, 1, 2])
            cs = []
            for _ in range(nc):
                f = rng.choice(F)
                if f == "p" and k == CSC: cs.append("p %d %d" % (rng.randrange(n + 1), rng.choice([-2, -1, 0, 1, 2, nnz, nnz + 1, nzmax, nzmax + 1, nzmax + 5, 10 ** 9])))
                elif f == "i" and k != DENSE and nzmax > 0 and nnz > 0: cs.append("i %d %d" % (rng.randrange(nnz), rng.choice([-1, 0, 0, 1, m - 1, m, m + 1, 10 ** 9])))
                elif f == "j" and k == TRIPLET and nnz > 0: cs.append("j %d %d" % (rng.randrange(nnz), rng.choice([-1, 0, 0, 1, n - 1, n, n + 1])))
                elif f == "nzmax": cs.append("nzmax %d" % rng.choice([-1, 0, max(0, nnz - 1), max(nzmax, 0)]))
                elif f == "nz" and k == TRIPLET: cs.append("nz %d" % rng.choice([-1, 0, max(0, nnz - 1), nnz, nzmax, nzmax + 1]))
                elif f == "m": cs.append("m %d" % rng.choice([-1, 0, max(0, m - 1), m] + ([m + 1] if k != DENSE else [])))
                elif f == "n": cs.append("n %d" % rng.choice([-1, 0, max(0, n - 1), n]))
                elif f == "kind" and rng.random() < .5: cs.append("kind %d" % rng.choice([-1, 3, 7]))
                elif f == "type" and rng.random() < .5: cs.append("type %d" % rng.choice([-1, 5, 9]))
                elif f == "pnull" and k == CSC: cs.append("pnull 1")
                elif f == "inull" and k != DENSE: cs.append("inull 1")
                elif f == "jnull" and k == TRIPLET: cs.append("jnull 1")
                elif f == "xnull": cs.append("xnull 1")
            if not cs: continue
            L += ["corrupt M0 " + c for c in cs] + ["check M0 O0"]
            if rng.random() < .2: L += ["nnz M0 -"]
            L += ["restore M0"]
        L += ["check M0 O0", "free M0 -", "optfree O0", "fin"]
        yield ("%s%d.k%dt%d.%dx%d" % (tag, s, k, t, m, n), L)
HUGE = [2 ** k + d for k in (31, 32, 33, 34, 40, 52, 62) for d in (0, 1, 2)]
def gen_check_huge(rng, count, tag="chg"):
    """triplets with enormous dimensions: indices that agree in their low bits, repeated or not"""
    for s in range(count):
        L = ["init", optline(0)]
        for q in range(6):
            base = rng.choice([0, 1, 2]); pool = [base] + [v for v in HUGE if (v & 3) == base] if rng.random() < .7 else [0, 1, 2] + HUGE
            m, n = rng.choice([2 ** 63 - 1, 2 ** 62 + 2, 2 ** 40, 2 ** 33 + 1, 8]), rng.choice([2 ** 63 - 1, 2 ** 62, 2 ** 34, 4])
            nz = rng.randrange(2, 9)
            e = [(rng.choice(pool), rng.choice(pool if n > 4 else [0, 0, 3])) for _ in range(nz)]
            if rng.random() < .7: e = [(i, j) for i, j in e if i < m and j < n]
            if m == 8: e = [(i % 8, j) for i, j in e]
            if rng.random() < .6: e = list(dict.fromkeys(e))
            elif e: e.append(e[0])
            rng.shuffle(e)
            L += [mat(0, TRIPLET, rng.choice([INT64, FP64]), m, n, [(i, j, str(k + 1)) for k, (i, j) in enumerate(e)]), "check M0 O0", "nnz M0 -", "free M0 -"]
        yield ("%s%d" % (tag, s), L + ["optfree O0", "fin"])
def gen_lend(rng, count, tag="lend"):
    """matrices that own some of their parts and borrow the others"""
    for s in range(count):
        L = ["init"]
        for _ in range(6):
            k, t = rng.randrange(3), rng.choice([INT64, FP64, FP64, INT64, MPZ, MPQ, MPFR]); m, n = rng.choice(SHAPES)
            L += [gmat(rng, 0, k, t, m, n), "lend M0 %d" % rng.randrange(16), "check M0 -", "nnz M0 -"]
            if rng.random() < .4: L += ["fail 2 %d" % rng.randrange(1, 12)]
            if rng.random() < .7: L += ["copy M1 %d %d M0 -" % (rng.randrange(3), rng.randrange(5))]
            L += ["free M0 -", "free M1 -"]
        yield ("%s%d" % (tag, s), L + ["fin"])
def gen_check_print(rng, count, tag="prt"):
    for s in range(count):
        k, t = s % 3, (s // 3) % 5
        m, n = rng.choice(SHAPES + [(12, 9), (40, 1), (1, 40)])
        L = ["init", gmat(rng, 0, k, t, m, n, dens=rng.choice([.2, .6, 1]), prec=rng.choice([24, 64, 128]), small=rng.random() < .5)]
        for prt in (0, 1, 2, 3):
            L += [optline(0, prt=prt, prec=rng.choice([53, 128])), "check M0 O0"]
        L += ["noprintf 1", optline(0, prt=3), "check M0 O0", "noprintf 0", "free M0 -", "optfree O0", "fin"]
        yield ("%s%d.k%dt%d.%dx%d" % (tag, s, k, t, m, n), L)

# ------------------------------------------------------------------ memory layer
SZ = ["0", "1", "2", "7", "16", "100", "4096"]
BIGS = ["18446744073709551615", "9223372036854775808", "4294967296", "4294967295", "4611686018427387904", "6148914691236517206"]
def gen_mem(rng, count, tag="mem"):
    for s in range(count):
        up = rng.random() < .85
        L = (["init"] if up else []) + ["junk %d" % rng.randrange(256)]
        live = {}
        for _ in range(rng.randrange(8, 30)):
            b = rng.randrange(4)
            op = rng.choice(["smalloc", "scalloc", "ssmalloc", "sscalloc", "srealloc", "ssrealloc", "srealloc", "ssrealloc", "sfree", "ssfree"])
            f = rng.random()
            if f < .2: L.append("fail %d 1" % rng.choice([1, 2]))
            big = rng.random() < .2
            sz = lambda: rng.choice(BIGS) if big else rng.choice(SZ)
            if op in ("smalloc", "scalloc", "ssmalloc", "sscalloc"):
                if b in live: L.append("ssfree B%d" % b); live.pop(b)
                if op == "smalloc": 
                    a = rng.choice(SZ)
                    L.append("smalloc B%d %s" % (b, a)); live[b] = (a, "1")
                else:
                    n_, z = (sz(), sz())
                    if big and n_ in BIGS and z not in BIGS and int(z) <= 1: z = rng.choice(BIGS)
                    if int(n_ or 1) * int(z) < 2 ** 64 and (n_ in BIGS or z in BIGS): n_, z = "4294967296", "4294967296"
                    L.append("%s B%d %s %s" % (op, b, n_, z))
                    if n_ not in BIGS and z not in BIGS: live[b] = (n_, z)
            elif op in ("srealloc", "ssrealloc"):
                item = live[b][1] if b in live else rng.choice(SZ)
                old = live[b][0] if b in live else "0"
                if max(1, int(item)) == 1 and rng.random() < .5 and b in live: pass
                new = rng.choice(SZ + ["1", "3", "200"] + [old])
                if big and int(item) > 1: new = rng.choice(["18446744073709551615", "9223372036854775808"])
                if int(item) * int(new) >= 2 ** 40 and int(item) * int(new) < 2 ** 64: new = "5"
                L.append("%s B%d %s %s %s" % (op, b, new, old, item))
                live[b] = ("?", item)
                L.append("ssfree B%d" % b); live.pop(b)   # its size is now unknown to this generator
            else:
                L.append("%s B%d" % (op, b))
                if op == "ssfree" or up: live.pop(b, None)
        for b in range(4): L.append("ssfree B%d" % b)
        if up: L.append("fin")
        yield ("%s%d" % (tag, s), L)
def gen_mem_chain(rng, count, tag="memc"):
    """one block grown and shrunk many times"""
    for s in range(count):
        item = rng.choice(["1", "2", "8", "16", "0"]); cur = rng.choice([0, 1, 3, 10])
        slip = rng.random() < .5
        L = ["init", "%s B0 %d %s" % (rng.choice(["scalloc", "sscalloc", "ssmalloc"]), cur, item)]
        for _ in range(12):
            new = rng.choice([0, 1, 2, 5, 17, 64, 300, cur, cur + 1, max(0, cur - 1)])
            fail = rng.random() < .3
            if fail: L.append("fail %d 1" % rng.choice([1, 2]))
            L.append("%s B0 %d %d %s" % ("srealloc" if slip else "ssrealloc", new, cur, item))
            if not fail or max(1, new) == max(1, cur): cur = new
        L += ["sfree B0" if slip else "ssfree B0", "sfree B0", "ssfree B0", "fin"]
        yield ("%s%d" % (tag, s), L)

# ------------------------------------------------------------------ GMP layer
def gz(rng): return val(rng, MPZ)
def gq(rng):
    return rng.choice(QP) if rng.random() < .6 else "%d/%d" % fracpair(rng)
def gf(rng): return val(rng, MPFR, special=False)
DIMM = ["0", "1", "-1", "0.5", "3.25", "-7.125", "0.1", "1e17", "1e300", "-1e-300", "4.9e-324", "123456.789", "-0.3333333333333333"]
UIM = ["0", "1", "2", "3", "10", "255", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615"]
SIM = ["0", "1", "-1", "2", "-3", "10", "9223372036854775807", "-9223372036854775808", "-4294967297"]
GOPS = ["mpz_set", "mpz_set_ui", "mpz_set_si", "mpz_get_d", "mpz_get_si", "mpz_set_q", "mpz_mul", "mpz_mul", "mpz_submul", "mpz_submul", "mpz_divexact", "mpz_divexact", "mpz_gcd", "mpz_lcm", "mpz_abs", "mpz_cmp", "mpz_cmpabs", "mpz_cmp_ui",
        "mpz_sgn", "mpz_sizeinbase", "mpq_set", "mpq_set_z", "mpq_set_d", "mpq_set_ui", "mpq_set_si", "mpq_set_num", "mpq_set_den", "mpq_get_den", "mpq_get_d", "mpq_abs", "mpq_add", "mpq_mul", "mpq_div", "mpq_cmp", "mpq_cmp_ui", "mpq_sgn", "mpq_equal",
        "mpfr_set", "mpfr_set_d", "mpfr_set_si", "mpfr_set_q", "mpfr_set_z", "mpfr_get_z", "mpfr_get_q", "mpfr_get_d", "mpfr_get_si", "mpfr_mul", "mpfr_mul_d", "mpfr_div_d", "mpfr_ui_pow_ui", "mpfr_sgn", "asprintf_z", "asprintf_q", "fscanf_z"]
class GmpState:
    """z0..3 q0..3 f0..3 with generator-side values, so that operands meet the operations' preconditions"""
    def __init__(s, rng, big=False):
        s.r = rng; s.L = []; s.prec = {}; s.big = big
        for i in range(4):
            s.L += ["g mpz_init z%d" % i if rng.random() < .7 else "g mpz_init2 z%d %d" % (i, rng.choice([1, 64, 200])), "g mpq_init q%d" % i]
            s.prec[i] = rng.choice([2, 3, 24, 53, 64, 65, 128, 200]); s.L.append("g mpfr_init2 f%d %d" % (i, s.prec[i]))
            for t in "zqf": s.L.append("gset %s%d %s" % (t, i, s.fresh(t)))
    def fresh(s, t):
        if s.big and t in "zq":
            r = s.r; a = rnd(r, r.choice([130, 300, 700]))
            if t == "z": return str(a)
            b = abs(rnd(r, r.choice([130, 300, 700]))); g = gcd(a, b); return "%d/%d" % (a // g, b // g)
        return gz(s.r) if t == "z" else gq(s.r) if t == "q" else gf(s.r)
    def reset(s, v):
        t, i = v[0], int(v[1])
        return ["g mpz_clear " + v, "g mpz_init " + v] if t == "z" else ["g mpq_clear " + v, "g mpq_init " + v] if t == "q" else ["g mpfr_clear " + v, "g mpfr_init2 %s %d" % (v, s.prec[i])]
    def op(s, op):
        """(preparation, command, dest or None)"""
        r = s.r; v = lambda t: "%s%d" % (t, r.randrange(4)); rn = lambda: r.randrange(5)
        pre = []
        if op in ("mpz_set", "mpz_abs"): a = [v("z"), v("z")]
        elif op in ("mpz_mul", "mpz_submul", "mpz_gcd", "mpz_lcm"): a = [v("z"), v("z"), v("z")]
        elif op == "mpz_set_ui": a = [v("z"), r.choice(UIM)]
        elif op == "mpz_set_si": a = [v("z"), r.choice(SIM)]
        elif op in ("mpz_get_d", "mpz_get_si", "mpz_sgn", "asprintf_z"): a = [v("z")]
        elif op == "mpz_sizeinbase": a = [v("z"), r.choice(["2", "3", "10", "16", "62"])]
        elif op == "mpz_set_q": a = [v("z"), v("q")]
        elif op == "mpz_divexact":
            a = [v("z"), v("z"), v("z")]
            y = rnd(r, r.choice([4, 64, 130])); x = y * rnd(r, r.choice([4, 64, 130])) * r.choice([0, 1, 1, 1])
            pre = ["gset %s %d" % (a[2], y)] + (["gset %s %d" % (a[1], x)] if a[1] != a[2] else [])
        elif op in ("mpz_cmp", "mpz_cmpabs"): a = [v("z"), v("z")]
        elif op == "mpz_cmp_ui": a = [v("z"), r.choice(UIM)]
        elif op == "mpq_set" or op == "mpq_abs": a = [v("q"), v("q")]
        elif op == "mpq_set_z": a = [v("q"), v("z")]
        elif op == "mpq_set_d": a = [v("q"), r.choice(DIMM)]
        elif op == "mpq_set_ui": a = [v("q"), r.choice(UIM), r.choice(UIM[1:])]
        elif op == "mpq_set_si": a = [v("q"), r.choice(SIM), r.choice(UIM[1:])]
        elif op == "mpq_set_num": a = [v("q"), v("z")]
        elif op == "mpq_set_den":
            a = [v("q"), v("z")]; pre = ["gset %s %d" % (a[1], abs(rnd(r, 70)))]
        elif op == "mpq_get_den": a = [v("z"), v("q")]
        elif op in ("mpq_get_d", "mpq_sgn", "asprintf_q"): a = [v("q")]
        elif op in ("mpq_add", "mpq_mul"): a = [v("q"), v("q"), v("q")]
        elif op == "mpq_div":
            a = [v("q"), v("q"), v("q")]; pre = ["gset %s %s" % (a[2], r.choice([x for x in QP if x != "0"]))]
        elif op in ("mpq_cmp", "mpq_equal"): a = [v("q"), v("q")]
        elif op == "mpq_cmp_ui": a = [v("q"), r.choice(UIM), r.choice(UIM[1:])]
        elif op == "mpfr_set": a = [v("f"), v("f"), rn()]
        elif op == "mpfr_set_d": a = [v("f"), r.choice(DIMM + ["inf", "-inf", "nan"]), rn()]
        elif op == "mpfr_set_si": a = [v("f"), r.choice(SIM), rn()]
        elif op == "mpfr_set_q": a = [v("f"), v("q"), rn()]
        elif op == "mpfr_set_z": a = [v("f"), v("z"), rn()]
        elif op in ("mpfr_get_z",): a = [v("z"), v("f"), rn()]; 
        elif op == "mpfr_get_q": a = [v("q"), v("f"), 0]
        elif op in ("mpfr_get_d", "mpfr_get_si"): a = [v("f"), rn()]
        elif op == "mpfr_sgn": a = [v("f")]
        elif op == "mpfr_mul": a = [v("f"), v("f"), v("f"), rn()]
        elif op in ("mpfr_mul_d", "mpfr_div_d"): a = [v("f"), v("f"), r.choice(DIMM[1:]), rn()]
        elif op == "mpfr_ui_pow_ui": a = [v("f"), r.choice(["0", "1", "2", "3", "10"]), r.choice(["0", "1", "2", "17", "64", "300"]), rn()]
        elif op == "fscanf_z": a = [v("z"), r.choice(["0", "7", "-12", str(10 ** 30), "-" + str(3 ** 90)])]
        else: raise ValueError(op)
        qry = op in ("mpz_get_d", "mpz_get_si", "mpz_cmp", "mpz_cmpabs", "mpz_cmp_ui", "mpz_sgn", "mpz_sizeinbase", "mpq_get_d", "mpq_cmp", "mpq_cmp_ui", "mpq_sgn", "mpq_equal", "mpfr_get_d", "mpfr_get_si", "mpfr_sgn", "asprintf_z", "asprintf_q")
        # operands get plain values now and then, and always after something special or unreduced
        cmd = "g %s %s" % (op, " ".join(map(str, a)))
        post = []
        if op in ("mpq_set_ui", "mpq_set_si", "mpq_set_num", "mpq_set_den") or (op in ("mpfr_set_d", "mpfr_mul", "mpfr_mul_d", "mpfr_div_d", "mpfr_ui_pow_ui")):
            if r.random() < .5: post = ["g %s %s" % ({"q": "mpq_get_den z3", "f": "mpfr_sgn"}[a[0][0]], a[0])]
            post += ["gset %s %s" % (a[0], s.fresh(a[0][0]))]
        elif r.random() < .3: post = ["gset %s %s" % (a[0], s.fresh(a[0][0]))]
        return pre, cmd, (None if qry else a[0]), post
    def close(s):
        for i in range(4): s.L += ["g mpz_clear z%d" % i, "g mpq_clear q%d" % i, "g mpfr_clear f%d" % i]
def gen_gmp(rng, count, nops=60, tag="gmp"):
    for k in range(count):
        s = GmpState(rng); ops = list(GOPS); rng.shuffle(ops)
        for o in (ops + ops)[:nops]:
            pre, cmd, d, post = s.op(o)
            s.L += pre + [cmd] + post
        s.close()
        yield ("%s%d" % (tag, k), ["init"] + s.L + ["fin"])
def gen_gmp_fail(rng, count, tag="gmpf"):
    for k in range(count):
        s = GmpState(rng, k % 2 == 1); ops = list(GOPS); rng.shuffle(ops)
        for o in ops[:28]:
            pre, cmd, d, post = s.op(o)
            # the destination is one of the operands, holds a value, or is new and has to grow
            clean = (s.reset(d) + (["gset %s %s" % (d, s.fresh(d[0]))] if d in cmd.split()[3:] or rng.random() < .4 else [])) if d else []
            if rng.random() < .7: s.L += clean
            s.L += pre + ["sweep %d 14 1 :: %s%s" % (rng.choice([1, 2]), cmd, "".join(" :: " + x for x in clean + pre))] + [cmd] + post
        s.L += ["sweep 1 4 1 :: g mpz_init z5 :: g mpz_clear z5", "sweep 2 4 1 :: g mpz_init2 z5 300 :: g mpz_clear z5", "sweep 1 4 1 :: g mpq_init q5 :: g mpq_clear q5", "sweep 1 4 1 :: g mpfr_init2 f5 120 :: g mpfr_clear f5"]
        s.close()
        yield ("%s%d" % (tag, k), ["init"] + s.L + ["fin"])
def gen_gmp_down(rng, tag="gmpdown"):
    """every wrapper between two sessions, on the variables of the first one; a destination that ran out of
    memory (it can only be cleared) gets a new value in the next session"""
    s = GmpState(rng); ops = [o for o in GOPS if o not in ("fscanf_z", "asprintf_z", "asprintf_q")]; rng.shuffle(ops)
    L = ["init"] + s.L
    for o in ops:
        pre, cmd, d, post = s.op(o)
        L += pre + ["fin", cmd, "init"]
        if d: L += s.reset(d) + ["gset %s %s" % (d, s.fresh(d[0]))]
    s.L = []; s.close()
    yield (tag, L + s.L + ["fin"])

# ------------------------------------------------------------------ orderings
def csc(n, cols): 
    p = [0]; i = []
    for c in cols: i += c; p.append(len(i))
    return p, i
def amdline(what, var, n, p, i, nm=0, ctl=0, dense="10", aggr="1"):
    return "amd %s %d %d %d %d %d %d %s %s  %s  %s" % (what, var, n, len(p), len(i), nm, ctl, dense, aggr, " ".join(map(str, p)), " ".join(map(str, i)))
def sym(S): return S | {(j, i) for i, j in S}
def cols_of(S, n, m=None, rng=None, jumble=False):
    c = [sorted(i for i, j in S if j == q) for q in range(n)]
    if jumble:
        for q in c:
            if q and rng.random() < .4: q.append(rng.choice(q))
            rng.shuffle(q)
    return c
def graphs(rng, n):
    """pattern families; returns a set of (i, j)"""
    t = rng.randrange(12)
    if t == 0: return {(i, j) for i in range(n) for j in range(n) if rng.random() < .15}
    if t == 1: return {(i, j) for i in range(n) for j in range(n) if rng.random() < .5}
    if t == 2: return sym({(i, rng.randrange(i)) for i in range(1, n)})                       # tree
    if t == 3: return sym({(i, i - 1) for i in range(1, n)} | ({(n - 1, 0)} if n > 2 else set()))  # cycle
    if t == 4: return {(i, 0) for i in range(n)} | {(0, i) for i in range(n)}                # star
    if t == 5:                                                                               # cliques
        S = set(); a = 0
        while a < n:
            b = min(n, a + rng.randint(1, 5)); S |= {(i, j) for i in range(a, b) for j in range(a, b)}; a = b
        q = perm(rng, n); return {(q[i], q[j]) for i, j in S}
    if t == 6:                                                                               # grid
        w = max(1, int(n ** .5)); return sym({(i, i + 1) for i in range(n - 1) if (i + 1) % w} | {(i, i + w) for i in range(n - w)})
    if t == 7: return {(i, i) for i in range(n)}
    if t == 8: return set()
    if t == 9: return {(i, j) for i in range(n) for j in range(i + 1) if rng.random() < .3}  # lower only
    if t == 10: return sym({(i, rng.randrange(i)) for i in range(1, n) if rng.random() < .6})  # forest
    S = {(i, j) for i in range(n) for j in range(n) if rng.random() < 1.5 / max(1, n)}
    for _ in range(rng.randint(1, 3)):
        d = rng.randrange(n); S |= {(d, j) for j in range(n) if rng.random() < .95} | {(j, d) for j in range(n) if rng.random() < .5}
    return S
AMDCTL = [(0, "10", "1"), (1, "10", "0"), (1, "-1", "1"), (1, "0", "1"), (1, "1", "1"), (1, "0.5", "0"), (1, "3.5", "1"), (1, "100", "0")]
def gen_amd(rng, count, nmax=30, tag="amd"):
    for s in range(count):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 14, 20, nmax]) if s % 3 else rng.randint(17, nmax)
        L = ["init"] if rng.random() < .5 else []
        S = {e for e in graphs(rng, max(n, 1)) if n > 0}
        if rng.random() < .4: S |= {(i, i) for i in range(n) if rng.random() < .7}
        jum = rng.random() < .3
        p, i = csc(n, cols_of(S, n, rng=rng, jumble=jum))
        for ctl, de, ag in rng.sample(AMDCTL, 3):
            for var in (0, 1): L.append(amdline("o", var, n, p, i, rng.choice([0, 0, 0, 8, 16]), ctl, de, ag))
        L.append(amdline("v", rng.randrange(2), n, p, i, rng.choice([0, 4])))
        if L[0] == "init": L.append("fin")
        yield ("%s%d.n%d" % (tag, s, n), L)
def gen_amd_all(rng, n, tag="amda", every=1):
    """every pattern of order n (every-th one), a diagonal included or not"""
    import itertools
    P = [(i, j) for i in range(n) for j in range(n)]
    L, k, c = [], 0, 0
    for bits in range(rng.randrange(every), 2 ** len(P), every):
        S = {P[b] for b in range(len(P)) if bits >> b & 1}
        p, i = csc(n, cols_of(S, n))
        L.append(amdline("o", c % 2, n, p, i)); c += 1
        if len(L) == 64: yield ("%s%d.%d" % (tag, n, k), L); L, k = [], k + 1
    if L: yield ("%s%d.%d" % (tag, n, k), L)
def badptr(rng, n, p, i):
    """one defect of a column structure"""
    p, i = list(p), list(i); t = rng.randrange(8); m = max(p + [len(i), 1])
    if t == 0: p[0] = rng.choice([1, -1, 5])
    elif t == 1 and n > 1: k = rng.randrange(1, n); p[k] = rng.choice([p[k + 1] + 1, p[k - 1] - 1, -3])
    elif t == 2: p[n] = rng.choice([-1, -7])
    elif t == 3 and i: i[rng.randrange(len(i))] = rng.choice([n, n + 3, -1, 1000000])
    elif t == 4 and i: i[rng.randrange(len(i))] = -2
    elif t == 5 and n > 0: p[n] = max(0, p[n] - 1 - rng.randrange(2)) 
    elif t == 6 and len(i) > 1: i[0], i[-1] = i[-1], i[0]
    elif t == 7 and len(i) > 1: i[0] = i[1]
    while len(i) < max(p + [0]): i.append(0)
    return p, i
def gen_amd_bad(rng, count, tag="amdb"):
    for s in range(count):
        L = []
        for _ in range(12):
            n = rng.choice([1, 2, 3, 4, 6])
            p, i = csc(n, cols_of(graphs(rng, n), n))
            for _ in range(rng.choice([1, 1, 2])): p, i = badptr(rng, n, p, i)
            z = rng.random(); nm = 0; nn = n
            if z < .2: nm = rng.choice([1, 2, 4, 3])
            elif z < .3: nn = rng.choice([-1, 0, -5])
            w = rng.choice("oov")
            if w == "v": nm &= 3
            L.append(amdline(w, rng.randrange(2), nn, p, i, nm | rng.choice([0, 16, 8]) if w == "o" else nm))
        yield ("%s%d" % (tag, s), L)
def amd2line(rng, var, n, S, nm=0, ctl=0, dense="10", aggr="1", extra=0, lay=0):
    rows = [[] for _ in range(n)]
    for i, j in S:
        if i != j: rows[i].append(j)
    for r in rows: rng.shuffle(r)
    return "amd2 %d %d %d %d %d %d %s %s  %s" % (var, n, extra, lay, nm, ctl, dense, aggr, " ".join(" ".join(map(str, [len(r)] + r)) for r in rows))
def gen_amd2(rng, count, nmax=30, tag="amx."):
    """the ordering routine itself, mostly with the least elbow room, so that it compresses its graph"""
    for s in range(count):
        n = rng.choice([1, 2, 3, 4, 6, 8, 12, 20, nmax]) if s % 3 else rng.randint(17, nmax)
        S = {e for e in sym(graphs(rng, n)) if e[0] != e[1]}
        if s % 4 == 1: S = {e for e in sym({(i, rng.randrange(n)) for i in range(n) for _ in range(rng.choice([1, 2, 3]))}) if e[0] != e[1]}
        L = []
        for ctl, de, ag in rng.sample(AMDCTL, 3):
            for var in (0, 1):
                L.append(amd2line(rng, var, n, S, rng.choice([0, 0, 0, 8, 16]), ctl, de, ag, rng.choice([0, 0, 0, 1, len(S) // 5]), rng.randrange(2)))
        yield ("%s%d.n%d" % (tag, s, n), L)
def amdrows(rng, n, S):
    rows = [[] for _ in range(n)]
    for i, j in S:
        if i != j: rows[i].append(j)
    for r in rows: rng.shuffle(r)
    return "  ".join(" ".join(map(str, [len(r)] + r)) for r in rows)
def degree_graph(rng, n):
    """graphs on which the choice of the pivots matters: meshes, rings, few long-range edges, planted cliques"""
    t = rng.randrange(6); S = set()
    if t == 0:
        a = max(1, int(n ** .5))
        for v in range(n):
            if (v + 1) % a and v + 1 < n: S.add((v, v + 1))
            if v + a < n: S.add((v, v + a))
            if t == 0 and rng.random() < .3 and v + a + 1 < n: S.add((v, v + a + 1))
    elif t == 1:
        for v in range(n):
            for _ in range(rng.choice([1, 1, 2])): S.add((v, rng.randrange(n)))
    elif t == 2:
        k = rng.choice([1, 2, 3])
        for v in range(n):
            for q in range(1, k + 1): S.add((v, (v + q) % n))
    elif t == 3:
        for _ in range(max(1, n // 3)):
            C = rng.sample(range(n), min(n, rng.choice([2, 3, 4, 5])))
            S |= {(x, y) for x in C for y in C}
    elif t == 4:
        d = rng.choice([.05, .1, .15, .25, .4]); S = {(i, j) for i in range(n) for j in range(n) if rng.random() < d}
    else:       # indistinguishable rows: every vertex of a small graph is blown up
        m = max(1, n // 3); H = {(rng.randrange(m), rng.randrange(m)) for _ in range(2 * m)}
        S = {(i, j) for i in range(n) for j in range(n) if (i % m, j % m) in H or i % m == j % m}
    q = list(range(n)); rng.shuffle(q)
    return {e for e in sym({(q[i], q[j]) for i, j in S}) if e[0] != e[1]}
def gen_amd_alg(rng, count, nmax=24, tag="alg."):
    """the three implementations of the algorithm on the same graph, with more and less space"""
    for s in range(count):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 20, nmax])
        S = degree_graph(rng, n) if s % 5 else {e for e in sym(graphs(rng, n)) if e[0] != e[1]}
        R = amdrows(rng, n, S); L = []
        for which in (0, 1):
            for room in {0, rng.choice([1, 2, 3, n // 2]), rng.choice([n, n + len(S) // 5, 4 * n * n])}: L.append("amdf %d %d %d %d  %s" % (which, n, room, rng.randrange(2), R))
        for ag in ("1", "0"):
            for var in (0, 1): L.append("amd2 %d %d %d %d 0 1 %s %s  %s" % (var, n, rng.choice([0, 1, len(S)]), rng.randrange(2), rng.choice(["10", "10", "10", "1", "-1"]), ag, R))
        yield ("%s%d.n%d" % (tag, s, n), L)
def amd_tight(n, rows, usemin=True):
    """the algorithm with the tie breaks of the code, only to choose graphs: how often the former bound on the degree
    is the smaller one, and the pivots"""
    seq = []; tight = 0; clock = 0; stamp = {}
    live = [i for i in range(n) if rows[i]]
    for i in live: clock += 1; stamp[i] = clock
    live = set(live); nel = n - len(live)
    A = {i: list(rows[i]) for i in live}; E = {i: [] for i in live}; nv = {i: 1 for i in live}; d = {i: len(rows[i]) for i in live}; L = {}
    while live:
        me = min(live, key=lambda i: (d[i], -stamp[i])); seq.append(me)
        ab = E[me]; lst = []
        for part in [L[e] for e in ab] + [A[me]]:
            for x in part:
                if x in live and x != me and x not in lst: lst.append(x)
        Lme = set(lst); ext = {e: sum(nv[x] for x in L[e] if x in live and x not in Lme) for e in L if e not in ab}; deg = {}
        gone = {e for e in ext if ext[e] == 0}
        for i in lst:
            E[i] = [e for e in E[i] if e in ext and e not in gone]; A[i] = [j for j in A[i] if j in live and j not in Lme and j != me]
            deg[i] = sum(ext[e] for e in E[i]) + sum(nv[j] for j in A[i])
        mass = [i for i in lst if not E[i] and not A[i]]; R = [i for i in lst if i not in mass]
        nel += nv[me] + sum(nv[i] for i in mass); left = n - nel; w = sum(nv[i] for i in R); cl = {}
        for i in reversed(R): cl.setdefault((frozenset(E[i]), frozenset(A[i])), []).append(i)
        dead = set(mass) | {me}
        for c in cl.values(): nv[c[0]] = sum(nv[i] for i in c); dead |= set(c[1:])
        live -= dead; P = [i for i in R if i in live]
        for p in P:
            full = min(deg[p] + w - nv[p], left - nv[p]); b = min(min(d[p], deg[p]) + w - nv[p], left - nv[p])
            tight += b < full; d[p] = b if usemin else full
            clock += 1; stamp[p] = clock
            E[p] = [me] + E[p][1:] + E[p][:1]; A[p] = A[p][1:] + A[p][:1]
        for e in list(L):
            if e in ab or e in gone: del L[e]
        if P: L[me] = P
    return tight, seq
def gen_amd_tight(rng, count, tag="algtight."):
    """sparse graphs on which the former degree bound decides about a pivot"""
    for s in range(count):
        while True:
            n = rng.randint(90, 110); rows = [[] for _ in range(n)]
            for i, j in sym({tuple(rng.sample(range(n), 2)) for _ in range(int(n * rng.choice([3.5, 4, 4.5, 5]) / 2))}): rows[i].append(j)
            for x in rows: rng.shuffle(x)
            t, q = amd_tight(n, rows)
            if t and amd_tight(n, rows, False)[1] != q: break
        R = "  ".join(" ".join(map(str, [len(x)] + x)) for x in rows); L = ["amdf %d %d %d 0  %s" % (which, n, n, R) for which in (0, 1)]
        for ag in ("1", "0"): L.append("amd2 %d %d 0 0 0 1 10 %s  %s" % (s % 2, n, ag, R))
        yield ("%s%d.n%d" % (tag, s, n), L)
def gen_amd_graphs(rng, n, every=1, tag="algall."):
    """every graph with n rows"""
    P = [(i, j) for i in range(n) for j in range(i)]
    for c in range(1 << len(P)):
        if every > 1 and rng.randrange(every): continue
        S = {(i, j) for k, (i, j) in enumerate(P) if c >> k & 1}; R = amdrows(rng, n, S | {(j, i) for i, j in S}); L = []
        for which in (0, 1): L.append("amdf %d %d %d 0  %s" % (which, n, rng.choice([0, n, 2]), R))
        for ag in ("1", "0"): L.append("amd2 %d %d 0 0 0 1 10 %s  %s" % (c % 2, n, ag, R))
        yield ("%s%d.%d" % (tag, n, c), L)
def gen_amd_fail(rng, count, tag="amdf"):
    for s in range(count):
        n = rng.choice([0, 1, 3, 6]); L = ["init"]
        p, i = csc(n, cols_of({e for e in graphs(rng, max(n, 1)) if n}, n, rng=rng, jumble=rng.random() < .5))
        for var in (0, 1):
            for mode in (1, 2): L.append("sweep %d 12 1 :: %s" % (mode, amdline("o", var, n, p, i)))
        yield ("%s%d" % (tag, s), L + ["fin"])

def colline(var, nr, nc, p, A, alen=0, nm=0, kn=0, k=("10", "10", "1"), cmd="colamd"):
    if cmd == "symamd": return "symamd %d %d %d %d %d %d %s %s %s  %s  %s" % (var, nc, len(p), len(A), nm, kn, *k, " ".join(map(str, p)), " ".join(map(str, A)))
    return "colamd %d %d %d %d %d %d %d %d %s %s %s  %s  %s" % (var, nr, nc, alen, len(p), len(A), nm, kn, *k, " ".join(map(str, p)), " ".join(map(str, A)))
KN = [("10", "10", "1"), ("-1", "-1", "0"), ("0", "0", "1"), ("1", "0.5", "0"), ("0.5", "10", "1"), ("10", "0", "0"), ("3", "1", "1"), ("-1", "0", "1")]
def rect(rng, nr, nc):
    t = rng.randrange(6); d = rng.choice([.1, .3, .6, 1])
    S = {(i, j) for i in range(nr) for j in range(nc) if rng.random() < d}
    if t == 1 and nr and nc: r = rng.randrange(nr); S |= {(r, j) for j in range(nc)}
    if t == 2 and nr and nc: c = rng.randrange(nc); S |= {(i, c) for i in range(nr)}
    if t == 3 and nc: c = rng.randrange(nc); S = {e for e in S if e[1] != c}
    if t == 4: S = {(i, j) for i in range(nr) for j in range(nc) if rng.random() < 2 / max(nr, nc, 1)} | ({(rng.randrange(nr), j) for j in range(nc)} if nr else set())
    return S
def gen_colamd(rng, count, tag="col"):
    for s in range(count):
        L = ["init"] if rng.random() < .5 else []
        for _ in range(3):
            nr, nc = rng.choice([(0, 0), (0, 3), (3, 0), (1, 1), (2, 5), (5, 2), (4, 4), (7, 9), (12, 8), (20, 20), (25, 4), (4, 25), (30, 18), (18, 30), (40, 20), (22, 60)])
            p, A = csc(nc, cols_of(rect(rng, nr, nc), nc, rng=rng, jumble=rng.random() < .3))
            for k in rng.sample(KN, 3):
                L.append(colline(rng.randrange(2), nr, nc, p, A, rng.choice([0, 0, 5]), 8, rng.choice([0, 1, 1, 2]) if k[0] == "10" == k[1] else 1, k))
        if L[0] == "init": L.append("fin")
        yield ("%s%d.%dx%d" % (tag, s, nr, nc), L)
def gen_colamd_dense(rng, count, tag="cold"):
    """very wide and very tall patterns: the limits for dense rows and columns come from different dimensions"""
    for s in range(count):
        nr, nc = rng.choice([(17, 280), (20, 300), (24, 200), (280, 17), (300, 20), (200, 24), (18, 90), (90, 18)])
        S = {(rng.randrange(nr), j) for j in range(nc)} | {(i, rng.randrange(nc)) for i in range(nr)}
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < .7: j = rng.randrange(nc); S |= {(i, j) for i in rng.sample(range(nr), min(nr, rng.choice([15, 16, 17, 18, 19, 20])))}
            else: i = rng.randrange(nr); S |= {(i, j) for j in rng.sample(range(nc), min(nc, rng.choice([15, 16, 17, 18, 19, 20, 40])))}
        L = []
        p, A = csc(nc, cols_of(S, nc, rng=rng, jumble=rng.random() < .3))
        for k in (("1", "1", "1"), rng.choice([("2", "1", "0"), ("1", "2", "0"), ("0.5", "4", "1"), ("4", "1", "1")])): L.append(colline(rng.randrange(2), nr, nc, p, A, 0, 8, 1, k))
        yield ("%s%d.%dx%d" % (tag, s, nr, nc), L)
def gen_colamd_all(rng, nr, nc, tag="cola", every=1):
    P = [(i, j) for i in range(nr) for j in range(nc)]; L, k, c = [], 0, 0
    for bits in range(rng.randrange(every), 2 ** len(P), every):
        p, A = csc(nc, cols_of({P[b] for b in range(len(P)) if bits >> b & 1}, nc))
        L.append(colline(c % 2, nr, nc, p, A, nm=8)); c += 1
        if len(L) == 64: yield ("%s%dx%d.%d" % (tag, nr, nc, k), L); L, k = [], k + 1
    if L: yield ("%s%dx%d.%d" % (tag, nr, nc, k), L)
def gen_colamd_bad(rng, count, tag="colb"):
    for s in range(count):
        L = []
        for _ in range(12):
            nr, nc = rng.choice([(1, 1), (2, 3), (3, 2), (4, 4), (6, 3)])
            p, A = csc(nc, cols_of(rect(rng, nr, nc), nc))
            for _ in range(rng.choice([1, 1, 2])): p, A = badptr(rng, nc, p, A)
            z = rng.random(); nm = 0; al = 0; r_, c_ = nr, nc
            if z < .15: nm = rng.choice([1, 2, 4, 3, 5])
            elif z < .25: r_ = rng.choice([-1, -4])
            elif z < .35: c_ = rng.choice([-1, -2])
            elif z < .5: al = rng.choice([-1, -3, -10 ** 6])
            elif z < .6: al = -(p[-1] // 5) - rng.choice([0, 0, 1]) if p[-1] > 0 else 0
            L.append(colline(rng.randrange(2), r_, c_, p, A, al, nm | 8, 0))
        yield ("%s%d" % (tag, s), L)
def col_pattern(rng, nr, nc):
    """patterns with columns that become alike, rows inside others, and fronts that swallow each other"""
    t = rng.randrange(7)
    if not nr or not nc: return set()
    if t == 0: S = {(i, j) for i in range(nr) for j in range(nc) if rng.random() < rng.choice([.1, .2, .35])}
    elif t == 1:                                     # few different columns
        k = rng.randint(1, max(1, nc // 2)); B = [rng.sample(range(nr), rng.randint(1, min(nr, 4))) for _ in range(k)]
        S = {(i, j) for j in range(nc) for i in B[rng.randrange(k)]}
    elif t == 2: S = {(i, (i * nc // nr + d) % nc) for i in range(nr) for d in rng.sample(range(min(nc, 5)), min(nc, 3))}
    elif t == 3:                                     # nested rows
        S = set(); o = perm(rng, nc)
        for i in range(nr): a = rng.randrange(nc); b = min(nc, a + rng.randint(1, 6)); S |= {(i, o[j]) for j in range(a, b)}
    elif t == 4:                                     # edges of a graph
        S = set()
        for i in range(nr): S |= {(i, j) for j in rng.sample(range(nc), min(nc, 2))}
    elif t == 5: S = rect(rng, nr, nc)
    else: S = {(i, j) for i in range(nr) for j in range(nc) if i == j or j == nc - 1 or i == nr - 1}
    for _ in range(rng.choice([0, 0, 1, 3])):
        a, b = rng.randrange(nc), rng.randrange(nc); S = {e for e in S if e[1] != a} | {(i, a) for i, j in S if j == b}
    return S
def gen_col_alg(rng, count, nmax=30, tag="cal"):
    for s in range(count):
        nr, nc = (rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 22, nmax]) for _ in "rc"); L = []
        p, A = csc(nc, cols_of(col_pattern(rng, nr, nc), nc, rng=rng, jumble=rng.random() < .3))
        for k in (("10", "10", "1"), ("10", "10", "0"), rng.choice(KN)):
            for al in {0, -(p[-1] // 5), rng.choice([1, 5, nc])}: L.append(colline(rng.randrange(2), nr, nc, p, A, al, 8, 1, k))
        yield ("%s%d.%dx%d" % (tag, s, nr, nc), L)
def gen_sym_alg(rng, count, nmax=24, tag="cas"):
    for s in range(count):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 17, nmax]); L = []
        S = degree_graph(rng, n) if s % 3 else {e for e in sym(graphs(rng, n)) if e[0] != e[1]}
        p, A = csc(n, cols_of(S, n, rng=rng, jumble=rng.random() < .3))
        for k in (("10", "10", "1"), ("10", "10", "0"), rng.choice(KN)): L.append(colline(rng.randrange(2), n, n, p, A, 0, 0, 1, k, "symamd"))
        yield ("%s%d.n%d" % (tag, s, n), L)
def gen_rec(rng, tag="rec"):
    V = ["0", "1", "5", "-1", "100", "2147483647", "1073741823", "-2147483648"]
    W = V + ["4294967296", "4611686018427387904", "9223372036854775807", "3074457345618258602", "1152921504606846976", "-9223372036854775808", "2000000000000000000", "9000000000000000000"]
    L = []
    for a in V:
        for b in V:
            for c in V: L.append("rec 0 %s %s %s" % (a, b, c))
    for _ in range(300): L.append("rec 1 %s %s %s" % (rng.choice(W), rng.choice(W), rng.choice(W)))
    for k in range(0, len(L), 100): yield ("%s%d" % (tag, k), L[k:k + 100])
def gen_symamd(rng, count, tag="symm"):
    for s in range(count):
        n = rng.choice([0, 1, 2, 3, 4, 6, 9, 13, 20, 25, 30, 45]); L = ["init"] if rng.random() < .5 else []
        for _ in range(2):
            S = sym({e for e in graphs(rng, max(n, 1)) if n})
            if rng.random() < .5: S |= {(i, i) for i in range(n)}
            low = {e for e in S if e[0] >= e[1]} if rng.random() < .7 else {e for e in S if e[0] > e[1]}
            up = low | {(i, j) for i, j in S if i < j and rng.random() < .5}
            jum = rng.random() < .3
            for k in rng.sample(KN, 2):
                for T_ in (S, low, up):
                    p, A = csc(n, cols_of(T_, n, rng=rng, jumble=jum))
                    L.append(colline(rng.randrange(2), n, n, p, A, 0, 0, 0 if k[0] == "10" == k[1] else 1, k, "symamd"))
        if L and L[0] == "init": L.append("fin")
        yield ("%s%d.n%d" % (tag, s, n), L)
def gen_symamd_all(rng, n, tag="syma", every=1):
    P = [(i, j) for i in range(n) for j in range(i + 1)]; L, k, c = [], 0, 0
    for bits in range(rng.randrange(every), 2 ** len(P), every):
        p, A = csc(n, cols_of({P[b] for b in range(len(P)) if bits >> b & 1}, n))
        L.append(colline(c % 2, n, n, p, A, cmd="symamd")); c += 1
        if len(L) == 64: yield ("%s%d.%d" % (tag, n, k), L); L, k = [], k + 1
    if L: yield ("%s%d.%d" % (tag, n, k), L)
def gen_symamd_bad(rng, count, tag="symb"):
    for s in range(count):
        L = []
        for _ in range(12):
            n = rng.choice([1, 2, 3, 4, 6])
            p, A = csc(n, cols_of(sym(graphs(rng, n)), n))
            for _ in range(rng.choice([1, 1, 2])): p, A = badptr(rng, n, p, A)
            z = rng.random(); nm = 0; nn = n
            if z < .15: nm = rng.choice([1, 2, 4, 3, 5])
            elif z < .25: nn = rng.choice([-1, -4])
            L.append(colline(rng.randrange(2), nn, nn, p, A, 0, nm, 0, cmd="symamd"))
        yield ("%s%d" % (tag, s), L)
def gen_symamd_fail(rng, count, tag="symf"):
    for s in range(count):
        n = rng.choice([0, 1, 3, 6]); L = ["init"]
        p, A = csc(n, cols_of(sym({e for e in graphs(rng, max(n, 1)) if n}), n))
        for var in (0, 1):
            for mode in (1, 2): L.append("sweep %d 8 1 :: %s" % (mode, colline(var, n, n, p, A, cmd="symamd")))
        yield ("%s%d" % (tag, s), L + ["fin"])

# ------------------------------------------------------------------ shared utilities
HYP = ["0", "1", "-1", "3", "4", "-5", "12", "0.1", "1e300", "-1e300", "1.7976931348623157e308", "1.2711610061536462e308", "1.2711610061536464e308", "1e308", "1e-300", "-1e-300", "4.9e-324", "-9.9e-324", "2.2250738585072014e-308", "1e-160", "1e160", "inf", "-inf", "nan", "9007199254740992", "9007199254740993", "67108864", "67108865"]
def dbl(rng, lo, hi): return "%s%r" % (rng.choice(["", "-"]), rng.uniform(1, 2) * 2.0 ** rng.randint(lo, hi))
def gen_util(rng, count, tag="util"):
    yield (tag + "v", ["util version 0", "util version 1", "util tic 0", "util tic 1500", "util tic 20000"])
    yield (tag + "vi", ["init", "util version 0", "util tic 300", "util hypot 1 3 4", "util div 1 0 4 2 1 -1", "util start 0", "util start 1", "fin", "util start 0", "util start 1", "init", "fin"])
    yield (tag + "st", ["util start 0", "util start 1", "init", "util start 1", "mat M0 2 0 2 2 4 0 128 1/1 1 2 3 4", "check M0 -", "free M0 -", "fin"])
    L = ["util hypot %d %s %s" % (k % 2, a, b) for k, (a, b) in enumerate((a, b) for a in HYP for b in HYP)]
    for k in range(0, len(L), 100): yield ("%sh%d" % (tag, k), L[k:k + 100])
    for s in range(count):
        L = []
        for _ in range(40):
            e = rng.choice([0, 0, 500, -500, 1000, -1000]); w = rng.choice([1, 4, 30, 53, 60, 200])
            a, b = (dbl(rng, max(-1074, e - w), min(1022, e + w)) for _ in "ab")
            L.append("util hypot %d %s %s" % (rng.randrange(2), a, b))
            # numerators and denominators that are both huge or both tiny have plain quotients
            w = rng.choice([1, 8, 60, 150]); e = rng.choice([0, 0, 800, -800, 860])
            v = [dbl(rng, e - w, e + w) for _ in range(4)]
            z = rng.random()
            if z < .3: v[rng.randrange(4)] = "0"
            elif z < .4: v[2] = v[3] = rng.choice(["0", "-0.0"])
            elif z < .5: v[0] = v[1] = "0"
            elif z < .6: v[2] = rng.choice(["", "-"]) + v[3].lstrip("-")
            elif z < .7: v = [str(rng.randint(-9, 9)) for _ in range(4)]
            L.append("util div %d %d %s" % (rng.randrange(2), rng.randrange(3), " ".join(v)))
        yield ("%s%d" % (tag, s), L)
