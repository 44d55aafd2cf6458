------------------------------ MODULE UtilSpec ------------------------------
(***************************************************************************)
(* The numeric utilities every package of the tree shares: the length of   *)
(* a complex number and the quotient of two, in doubles, accurate and      *)
(* without overflow or underflow in between; the clock; the version.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigRat, Fp

Sqr(x) == RMul(x, x)
IsNan(x) == x = "nan"
IsInf(x) == x = "inf" \/ x = "-inf"

\* s is the root of t >= 0 up to a few units in the last place (and the smallest subnormal)
IsRoot(s, t) ==
  LET e == RAdd(RMul(s, RPow2(-50)), RPow2(-1074))
      lo == RSub(s, e) hi == RAdd(s, e)
  IN /\ RSgn(s) >= 0
     /\ (RSgn(lo) <= 0 \/ RCmp(Sqr(lo), t) <= 0)
     /\ RCmp(t, Sqr(hi)) <= 0
HypotOK(x, y, s) ==
  IF IsInf(x) \/ IsInf(y) THEN IsNan(x) \/ IsNan(y) \/ s = "inf"
  ELSE IF IsNan(x) \/ IsNan(y) THEN IsNan(s)
  ELSE LET t == RAdd(Sqr(x), Sqr(y)) IN
       IF s = "inf" THEN RCmp(t, Sqr(RMul(MaxDouble, RSub("1", RPow2(-50))))) > 0
       ELSE RIsNum(s) /\ IsRoot(s, t)

\* the quotient (ar + i ai) / (br + i bi), accurate relative to its length; status 1 iff the denominator is zero
DivOK(ar, ai, br, bi, cr, ci, ret) ==
  IF \E v \in {ar, ai, br, bi} : ~RIsNum(v) THEN TRUE
  ELSE LET d == RAdd(Sqr(br), Sqr(bi)) IN
       IF d = "0" THEN ret = 1
       ELSE LET xr == RDiv(RAdd(RMul(ar, br), RMul(ai, bi)), d)
                xi == RDiv(RSub(RMul(ai, br), RMul(ar, bi)), d)
                n2 == RAdd(Sqr(xr), Sqr(xi))
            IN /\ ret = 0
               /\ RIsNum(cr) /\ RIsNum(ci)
               /\ RCmp(RAdd(Sqr(RSub(cr, xr)), Sqr(RSub(ci, xi))), RMul(n2, RPow2(-96))) <= 0

\* time between tic and toc: at least the time spent inside, at most the time around both
TocOK(inside, around, e) == LET slack == RPow2(-12) IN
  RCmp(e, RSub(inside, slack)) >= 0 /\ RCmp(e, RAdd(around, slack)) <= 0

\* the configuration: malloc, calloc, realloc, free, printf and the two numeric functions above are the standard ones
Standard == <<"1", "1", "1", "1", "1", "1", "1">>
=============================================================================
