------------------------------ MODULE GmpSpec ------------------------------
(***************************************************************************)
(* The safe GMP/MPFR layer: what each call computes.                       *)
(* gv: variable name -> [v |-> value, prec |-> precision (0 for z and q)]  *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigRat, Fp

VOf(gv, a) == gv[a].v
Special(v) == v \in {"nan", "inf", "-inf"}
InitOps  == {"mpz_init", "mpz_init2", "mpq_init", "mpfr_init2"}
ClearOps == {"mpz_clear", "mpq_clear", "mpfr_clear"}
QueryOps == {"mpz_get_d", "mpz_get_si", "mpz_cmp", "mpz_cmpabs", "mpz_cmp_ui", "mpz_sgn", "mpz_sizeinbase",
             "mpq_get_d", "mpq_cmp", "mpq_cmp_ui", "mpq_sgn", "mpq_equal", "mpfr_get_d", "mpfr_get_si",
             "mpfr_sgn", "asprintf_z", "asprintf_q"}
RawOps   == {"mpq_set_num", "mpq_set_den", "mpq_set_ui", "mpq_set_si"}   \* do not reduce the fraction

Mode(s) == RToInt(s)
\* two's complement low 63 bits with the sign, as mpz_get_si
GetSi(v) == IF FitsInt64(v) THEN v
            ELSE LET m == RPow2(63)
                     lo == RSub(RAbs(v), RMul(m, RFloor(RDiv(RAbs(v), m))))
                 IN IF RSgn(v) > 0 THEN lo
                    ELSE RSub(RNeg(RSub(RAbs(v), RAdd("1", RMul(m, RFloor(RDiv(RSub(RAbs(v), "1"), m)))))), "1")

RF(x, prec, rnd) == IF Special(x) \/ x = "any" THEN x ELSE RoundPrec(x, prec, rnd)
\* products and quotients with special values
Mul(a, b) == IF a = "nan" \/ b = "nan" THEN "nan"
             ELSE IF Special(a) \/ Special(b) THEN "any" ELSE RMul(a, b)
SiOf(v, rnd) == CASE v = "nan" -> "0" [] v = "inf" -> Int64Max [] v = "-inf" -> Int64Min
                  [] OTHER -> Saturate(RoundInt(v, rnd))
\* magnitude beyond the doubles: infinity or the largest double
DblZ(x) == RoundDouble(x, RNDZ)

\* the value stored into the first argument; a: the arguments, dbl: the double immediate
NewVal(op, a, gv, dbl) ==
  LET A(k) == VOf(gv, a[k])
      pr == gv[a[1]].prec
  IN
  CASE op \in {"mpz_set", "mpq_set", "mpq_set_z", "mpfr_get_q"} -> A(2)
    [] op = "mpz_set_ui" \/ op = "mpz_set_si" -> a[2]
    [] op = "mpz_set_q" -> RoundInt(A(2), RNDZ)
    [] op = "mpz_mul" \/ op = "mpq_mul" -> RMul(A(2), A(3))
    [] op = "mpz_submul" -> RSub(A(1), RMul(A(2), A(3)))
    [] op = "mpz_divexact" \/ op = "mpq_div" -> RDiv(A(2), A(3))
    [] op = "mpz_gcd" -> RGcd(A(2), A(3))
    [] op = "mpz_lcm" -> RLcm(A(2), A(3))
    [] op = "mpz_abs" \/ op = "mpq_abs" -> RAbs(A(2))
    [] op = "mpq_add" -> RAdd(A(2), A(3))
    [] op = "mpq_set_d" -> dbl
    [] op = "mpq_set_ui" \/ op = "mpq_set_si" -> RDiv(a[2], a[3])
    [] op = "mpq_set_num" -> RDiv(A(2), RDen(A(1)))
    [] op = "mpq_set_den" -> RDiv(RNum(A(1)), A(2))
    [] op = "mpq_get_den" -> gv[a[2]].den
    [] op = "mpfr_set" \/ op = "mpfr_set_q" \/ op = "mpfr_set_z" -> RF(A(2), pr, Mode(a[3]))
    [] op = "mpfr_set_d" -> RF(dbl, pr, Mode(a[3]))
    [] op = "mpfr_set_si" -> RF(a[2], pr, Mode(a[3]))
    [] op = "mpfr_get_z" -> RoundInt(A(2), Mode(a[3]))
    [] op = "mpfr_mul" -> RF(Mul(A(2), A(3)), pr, Mode(a[4]))
    [] op = "mpfr_mul_d" -> RF(Mul(A(2), dbl), pr, Mode(a[4]))
    [] op = "mpfr_div_d" -> RF(IF Special(A(2)) THEN A(2) ELSE RDiv(A(2), dbl), pr, Mode(a[4]))
    [] op = "mpfr_ui_pow_ui" -> RoundPrec(RPow(a[2], RToInt(a[3])), pr, Mode(a[4]))
    [] op = "fscanf_z" -> a[2]
    [] OTHER -> "?"

\* the stored denominator of the first argument after the call (raw operations do not reduce fractions)
NewDen(op, a, gv, val) ==
  CASE op \in {"mpq_set_ui", "mpq_set_si"} -> IF a[2] = "0" THEN "1" ELSE a[3]
    [] op = "mpq_set_den" -> VOf(gv, a[2])
    [] op = "mpq_set_num" -> gv[a[1]].den
    [] op \in {"mpq_set", "mpq_abs"} -> gv[a[2]].den
    [] OTHER -> IF RIsNum(val) THEN RDen(val) ELSE "1"

Num3(k) == IF k > 0 THEN "1" ELSE IF k < 0 THEN "-1" ELSE "0"
\* the answer of a query
Answer(op, a, gv) ==
  LET A(k) == VOf(gv, a[k]) IN
  CASE op = "mpz_get_d" \/ op = "mpq_get_d" -> DblZ(A(1))
    [] op = "mpfr_get_d" -> IF Special(A(1)) THEN A(1) ELSE RoundDouble(A(1), Mode(a[2]))
    [] op = "mpz_get_si" -> GetSi(A(1))
    [] op = "mpfr_get_si" -> SiOf(A(1), Mode(a[2]))
    [] op = "mpz_cmp" \/ op = "mpq_cmp" -> Num3(RCmp(A(1), A(2)))
    [] op = "mpz_cmpabs" -> Num3(RCmpAbs(A(1), A(2)))
    [] op = "mpz_cmp_ui" -> Num3(RCmp(A(1), a[2]))
    [] op = "mpq_cmp_ui" -> Num3(RCmp(A(1), RDiv(a[2], a[3])))
    [] op = "mpz_sgn" \/ op = "mpq_sgn" -> Num3(RSgn(A(1)))
    [] op = "mpfr_sgn" -> CASE A(1) = "inf" -> "1" [] A(1) = "-inf" -> "-1" [] A(1) = "nan" -> "0" [] OTHER -> Num3(RSgn(A(1)))
    [] op = "mpz_sizeinbase" -> ROfInt(RDigits(A(1), RToInt(a[2])))
    [] op = "mpq_equal" -> IF A(1) = A(2) THEN "1" ELSE "0"
    [] op = "asprintf_z" \/ op = "asprintf_q" -> A(1)
    [] OTHER -> "?"
\* sizeinbase is exact for powers of two and may be one too big otherwise
AnswerOK(op, a, gv, ret) ==
  IF op = "mpz_sizeinbase"
  THEN LET d == Answer(op, a, gv) IN ret = d \/ (a[2] \notin {"2", "4", "8", "16", "32"} /\ ret = RAdd(d, "1"))
  ELSE IF op \in {"mpz_get_d", "mpq_get_d"} /\ RCmpAbs(VOf(gv, a[1]), MaxDouble) > 0
  THEN LET p == RSgn(VOf(gv, a[1])) > 0 IN ret \in (IF p THEN {"inf", MaxDouble} ELSE {"-inf", RNeg(MaxDouble)})
  ELSE ret = Answer(op, a, gv)
=============================================================================
