--------------------------------- MODULE Fp ---------------------------------
(***************************************************************************)
(* Rounding of exact rationals: to integers, to multiples of a quantum, to *)
(* prec-bit significands (MPFR: unbounded exponent) and to IEEE doubles.   *)
(* Rounding modes are numbered as mpfr_rnd_t: 0 nearest-even, 1 toward     *)
(* zero, 2 up, 3 down, 4 away from zero.                                   *)
(***************************************************************************)
EXTENDS Integers, BigRat

RNDN == 0  RNDZ == 1  RNDU == 2  RNDD == 3  RNDA == 4

IsEven(z) == RIsInt(RDiv(z, "2"))

\* the integer nearest to x in the given direction
RoundInt(x, mode) ==
  LET f == RFloor(x)
      d == RSub(x, f)                     \* 0 <= d < 1
      up == RAdd(f, "1")
      c == RCmp(d, "1/2")
  IN IF d = "0" THEN f
     ELSE CASE mode = RNDN -> IF c < 0 THEN f ELSE IF c > 0 THEN up ELSE IF IsEven(f) THEN f ELSE up
            [] mode = RNDZ -> IF RSgn(x) > 0 THEN f ELSE up
            [] mode = RNDU -> up
            [] mode = RNDD -> f
            [] OTHER       -> IF RSgn(x) > 0 THEN up ELSE f

\* the multiple of q (> 0) nearest to x in the given direction
RoundTo(x, q, mode) == RMul(q, RoundInt(RDiv(x, q), mode))

\* x rounded to a prec-bit significand
RoundPrec(x, prec, mode) ==
  IF x = "0" THEN "0" ELSE RoundTo(x, RPow2(RLog2(x) - prec + 1), mode)

Max2(a, b) == IF a > b THEN a ELSE b
MaxDouble == RSub(RPow2(1024), RPow2(971))

\* x rounded to a double (subnormals included).  Overflow follows IEEE.
RoundDouble(x, mode) ==
  IF x = "0" THEN "0"
  ELSE LET y == RoundTo(x, RPow2(Max2(RLog2(x) - 52, -1074)), mode) IN
       IF RCmpAbs(y, MaxDouble) <= 0 THEN y
       ELSE LET pos == RSgn(x) > 0 IN
            IF mode = RNDZ \/ (mode = RNDU /\ ~pos) \/ (mode = RNDD /\ pos)
            THEN IF pos THEN MaxDouble ELSE RNeg(MaxDouble)
            ELSE IF pos THEN "inf" ELSE "-inf"

IsDouble(x) == x = "0" \/ RoundDouble(x, RNDZ) = x

Int64Max == "9223372036854775807"
Int64Min == "-9223372036854775808"
Saturate(z) == IF RCmp(z, Int64Max) > 0 THEN Int64Max ELSE IF RCmp(z, Int64Min) < 0 THEN Int64Min ELSE z
FitsInt64(z) == RCmp(z, Int64Max) <= 0 /\ RCmp(z, Int64Min) >= 0
=============================================================================
