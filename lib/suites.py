"""What is explored for each property: models, scenario suites, budgets."""
import itertools, re
from gen import *
from gen2 import *
from gen3 import *
from walk import session, life, enum, hist

ASSUME = ["TLC and the Java override of BigRat (cross-checked by MC_BigRat.tla) evaluate the specification correctly",
          "the driver reports what the public calls returned and the objects contain",
          "AddressSanitizer and the tracking allocator see every access outside blocks and every misuse of the memory functions"]

class Ctx:
    def __init__(self, env, tier, rng, seed):
        self.env, self.tier, self.rng, self.seed = env, tier, rng, seed
        self.states = self.trans = 0
        self.q = tier == "quick"
        self.models = []
    def count(self, out, g):
        """states and transitions of a model whose graph is being walked"""
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)[-1]
        self.states += int(m[1]); self.trans += int(m[0]); self.models.append("%s states, %d transitions" % (m[1], g.n))
    def every(self, quick, thorough): return quick if self.q else thorough
    def n(self, quick, thorough):
        """how many: the quick tier does ten times the first number, the thorough tier ten times the second"""
        return None if thorough is None and not self.q else 10 * (quick if self.q else thorough)

chain = itertools.chain
def m_mat(tier): return m_rat(tier) + ([("MC_Matrix", "MC_Matrix2.cfg")] if tier == "thorough" else [])
def m_amd(tier): return [("MC_Amd", "MC_Amd.cfg")] + ([] if tier == "quick" else [("MC_Amd", "MC_Amd2.cfg"), ("MC_Amd", "MC_Amd2n.cfg"), ("MC_Amd", "MC_Amd3.cfg")])
def m_col(tier): return [("MC_Col", "MC_Col.cfg")] + ([] if tier == "quick" else [("MC_Col", "MC_Col%s.cfg" % k) for k in "2345"])
def m_lu(tier): return [("MC_BigRat", "MC_BigRat.cfg"), ("MC_RefLU", "MC_RefLU2.cfg")] + ([] if tier == "quick" else [("MC_RefLU", "MC_RefLU3.cfg"), ("MC_RefLU", "MC_RefLU3b.cfg"), ("MC_Hist", "MC_Hist.cfg"), ("MC_Hist", "MC_Hist2.cfg"), ("MC_Hist", "MC_Hist3.cfg")])

def s_c01(c):
    r = c.rng
    return chain(hist(c, c.every(4, 150), cfg=c.every("MC_HistR.cfg", "MC_HistR2.cfg")), gen_lu(r, c.n(140, 1500), 2, 9, 3, "full"), gen_lu_small(r, c.n(60, 700)), gen_lu_edge(r), gen_lu_growth(r, c.n(10, 60)),
                 gen_lu_large(r, c.n(10, 60), 20, 60), gen_lu_large(r, c.n(2, 20), 100, 160, "huge"))
def s_c02(c):
    r = c.rng
    sing = [f_rankdef, f_rankdef, f_cancel, f_random3, f_sparse, f_zero_diag, f_gap]
    return chain(gen_lu(r, c.n(140, 1500), 2, 8, 3, "full", sing, "sing", 1), gen_lu(r, c.n(60, 600), 2, 9, 2, "bsl", tag="lub", nrhs=1), gen_lu_small(r, c.n(120, 1296), (-1, 0, 1, 2)), gen_lu_three(r, c.n(40, 1969)),
                 gen_lu_edge(r), gen_lu_large(r, c.n(6, 40), 12, 30))
def f_random3(rng, n): return f_random(rng, n, .7, [-1, 0, 1, 1])
def s_c03(c):
    r = c.rng
    return chain(hist(c, c.every(10, 150), cfg=c.every("MC_HistR.cfg", "MC_HistR2.cfg")), gen_lu(r, c.n(200, 2500), 2, 9, 4, "factor"), gen_lu_small(r, c.n(60, 700)), gen_lu_three(r, c.n(20, 1000)), gen_lu_edge(r), gen_lu_growth(r, c.n(20, 120)), gen_lu_large(r, c.n(6, 60), 12, 40, want="factor"))
def s_c04(c):
    r = c.rng
    fams = [f_ties, f_scaledpiv, f_sparse, f_dense, f_zero_diag, f_cancel, f_big, f_block]
    return chain(gen_lu(r, c.n(150, 1500), 2, 7, 10, "factor", fams, "piv"), gen_lu_small(r, c.n(80, 1296)), gen_lu_large(r, c.n(4, 40), 12, 30, want="factor"))

def m_rat(tier): return [("MC_BigRat", "MC_BigRat.cfg")]
def s_c05(c):
    r = c.rng
    return chain(gen_analyze(r, c.n(150, 1500)), gen_analyze_struct(r, c.n(60, 600)), gen_analyze_bad(r))
def s_c06(c): return chain(gen_bsl(c.rng, c.n(120, 1500)), gen_bsl_tie(c.rng, c.n(60, 600)))
def exact(k1, t1, k2, t2): return t1 == t2 or t2 == MPQ or (t2 == MPZ and t1 in (INT64, MPQ))
def s_c07(c):
    r = c.rng
    return chain(enum(c, c.n(80, None)), gen_conv(r, c.n(300, 3000), exact), gen_conv_scale(r), gen_lend(r, c.n(20, 200)))
def s_c08(c):
    r = c.rng
    return chain(gen_conv(r, c.n(400, 4000), lambda k1, t1, k2, t2: t2 == MPZ), gen_conv_special(r), gen_conv_scale(r))
def s_c09(c):
    r = c.rng
    return chain(gen_conv(r, c.n(300, 3000), lambda k1, t1, k2, t2: not exact(k1, t1, k2, t2) or t2 == MPFR), gen_conv_special(r), gen_conv_scale(r))
def s_c10(c): return chain(enum(c, c.n(150, None), cfg="MC_Matrix.cfg"), gen_check_random(c.rng, c.n(400, 4000)), gen_check_print(c.rng, c.n(60, 500)), gen_check_huge(c.rng, c.n(40, 400)))
def s_c18(c): return chain(gen_gmp(c.rng, c.n(150, 1500)), gen_gmp_fail(c.rng, c.n(40, 400)))
def s_c19(c):
    r = c.rng
    return chain(gen_amd(r, c.n(160, 1600)), gen_amd_all(r, 1), gen_amd_all(r, 2), gen_amd_all(r, 3), gen_amd_all(r, 4, every=c.every(97, 3)), gen_amd_bad(r, c.n(60, 600)), gen_amd_fail(r, c.n(10, 60)), gen_amd(r, c.n(10, 100), 60, "amdbig"), gen_amd2(r, c.n(60, 600)), gen_amd2(r, c.n(8, 80), 55, "amxbig"))
def s_c20(c):
    r = c.rng
    return chain(gen_colamd(r, c.n(160, 1600)), gen_colamd_dense(r, c.n(20, 200)), gen_colamd_all(r, 2, 2), gen_colamd_all(r, 3, 3), gen_colamd_all(r, 3, 4, every=c.every(7, 1)), gen_colamd_bad(r, c.n(100, 800)), gen_rec(r))
def s_c21(c):
    r = c.rng
    return chain(gen_symamd(r, c.n(120, 1200)), gen_symamd_all(r, 2), gen_symamd_all(r, 3), gen_symamd_all(r, 4), gen_symamd_all(r, 5, every=c.every(41, 2)), gen_symamd_bad(r, c.n(80, 600)), gen_symamd_fail(r, c.n(10, 50)))
def s_c22(c): return chain(gen_mem(c.rng, c.n(300, 3000)), gen_mem_chain(c.rng, c.n(120, 1200)), gen_ignored_release(c.rng))

def s_c12(c): return chain(life(c, c.n(3000, None), cfg="SlipLife.cfg" if c.q else "SlipLife2.cfg"), session(c, c.n(1500, None)), chain(*(gen_gmp_down(c.rng, "gmpdown%d" % k) for k in range(c.n(1, 10)))), gen_ignored_release(c.rng))
def s_c13(c): return chain(session(c, c.n(4000, None), cfg="SlipSession.cfg" if c.q else "SlipSession2.cfg"), life(c, c.n(2000, None)), gen_analyze_bad(c.rng), gen_badargs(c.rng))
def s_c11(c):
    r = c.rng
    return chain(gen_alloc(r, c.n(40, 500)), gen_nnz(r, c.n(45, 450)), gen_lend(r, c.n(25, 250)), life(c, c.n(2500, None), cfg="SlipLife.cfg" if c.q else "SlipLife2.cfg"))
def s_c14(c):
    r = c.rng
    return chain(gen_oom_alloc(r), gen_oom_copy(r, c.n(45, 450)), gen_oom_check(r, c.n(15, 150)), gen_oom_lu(r, c.n(24, 300)), gen_oom_lu(r, c.n(2, 30), 5, 8, 160, "olubig"), gen_oom_grow(r, c.n(4, 40)), gen_oom_cap(r, c.n(30, 400)), gen_gmp_fail(r, c.n(6, 60)))
def s_c15(c):
    r = c.rng
    return chain(life(c, c.n(2500, None), cfg="SlipLife.cfg" if c.q else "SlipLife2.cfg"), session(c, c.n(2500, None)), gen_oom_copy(r, c.n(30, 300)), gen_lend(r, c.n(40, 400)), gen_check_print(r, c.n(45, 300)), gen_oom_check(r, c.n(15, 60)), gen_oom_lu(r, c.n(12, 120)), gen_oom_grow(r, c.n(3, 30)), gen_oom_cap(r, c.n(15, 150)),
                 gen_lu(r, c.n(20, 200)), gen_lu_growth(r, c.n(6, 60)), gen_conv(r, c.n(45, 450), lambda *a: True), gen_gmp(r, c.n(15, 150)), gen_gmp_fail(r, c.n(5, 50)), gen_amd_fail(r, c.n(5, 50)), gen_symamd_fail(r, c.n(5, 50)), gen_mem(r, c.n(20, 200)))
def s_c16(c): return chain(gen_history(c.rng, c.n(48, 600)), gen_oom_cap(c.rng, c.n(5, 50)))
def s_c17(c): return gen_defaults(c.rng, c.n(36, 500))
def s_c23(c): return chain(gen_print(c.rng, c.n(45, 600)), gen_check_print(c.rng, c.n(75, 600)), gen_report(c.rng, c.n(40, 400)))
def s_c24(c): return gen_util(c.rng, c.n(60, 800))
def s_c25(c): return chain(gen_verify(c.rng, c.n(120, 1500)), gen_lu(c.rng, c.n(30, 300), 2, 7, 3, "full"))
def s_c26(c):
    r = c.rng
    return chain(gen_amd_alg(r, c.n(20, 250)), gen_amd_alg(r, c.n(2, 30), 45, "algbig."), gen_amd_tight(r, 10 if c.q else 160), gen_amd_graphs(r, 1), gen_amd_graphs(r, 2), gen_amd_graphs(r, 3), gen_amd_graphs(r, 4), gen_amd_graphs(r, 5, every=c.every(7, 1)), gen_amd_graphs(r, 6, every=c.every(500, 8)), gen_amd2(r, c.n(20, 200)), gen_amd(r, c.n(12, 120)), gen_analyze(r, c.n(8, 80)), gen_analyze_struct(r, c.n(4, 40)))
def s_c27(c):
    r = c.rng
    return chain(gen_col_alg(r, c.n(24, 300)), gen_col_alg(r, c.n(2, 40), 60, "calbig."), gen_sym_alg(r, c.n(14, 200)), gen_sym_alg(r, c.n(1, 20), 45, "casbig."), gen_colamd(r, c.n(12, 150)), gen_symamd(r, c.n(6, 80)),
                 gen_colamd_all(r, 2, 2), gen_colamd_all(r, 3, 3), gen_colamd_all(r, 3, 4, every=c.every(11, 1)), gen_colamd_all(r, 4, 4, "colb", every=c.every(499, 7)), gen_symamd_all(r, 4, every=c.every(3, 1)), gen_symamd_all(r, 5, every=c.every(97, 2)),
                 gen_analyze(r, c.n(10, 100)), gen_analyze_struct(r, c.n(6, 60)))
PROPS = {
 "C27": dict(models=m_col, suite=s_c27),
 "C26": dict(models=m_amd, suite=s_c26),
 "C25": dict(models=m_lu, suite=s_c25),
 "C24": dict(models=m_rat, suite=s_c24),
 "C11": dict(models=m_rat, suite=s_c11), "C14": dict(models=m_rat, suite=s_c14), "C15": dict(models=m_rat, suite=s_c15), "C16": dict(models=m_rat, suite=s_c16), "C17": dict(models=m_rat, suite=s_c17), "C23": dict(models=m_rat, suite=s_c23),
 "C12": dict(models=m_rat, suite=s_c12), "C13": dict(models=m_rat, suite=s_c13),
 "C05": dict(models=m_rat, suite=s_c05), "C06": dict(models=m_lu, suite=s_c06), "C07": dict(models=m_mat, suite=s_c07), "C08": dict(models=m_rat, suite=s_c08), "C09": dict(models=m_rat, suite=s_c09),
 "C10": dict(models=m_mat, suite=s_c10), "C18": dict(models=m_rat, suite=s_c18), "C19": dict(models=m_rat, suite=s_c19), "C20": dict(models=m_rat, suite=s_c20), "C21": dict(models=m_rat, suite=s_c21), "C22": dict(models=m_rat, suite=s_c22),
 "C01": dict(models=m_lu, suite=s_c01), "C02": dict(models=m_lu, suite=s_c02), "C03": dict(models=m_lu, suite=s_c03), "C04": dict(models=m_lu, suite=s_c04),
}
