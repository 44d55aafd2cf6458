------------------------------- MODULE BigRat -------------------------------
(***************************************************************************)
(* Exact rational numbers of any size.  A number is a canonical decimal    *)
(* string: "n" for an integer, "n/d" (lowest terms, d > 1) otherwise.      *)
(*                                                                         *)
(* TLC evaluates these operators with java/BigRat.java (TLC integers have  *)
(* 32 bits).  The definitions below only give the signatures and the       *)
(* meaning; MC_BigRat.tla compares the Java operators with plain TLA+      *)
(* definitions on a range of small rationals.                              *)
(***************************************************************************)
LOCAL Undef == CHOOSE x : x \notin STRING

RAdd(a, b)    == Undef   \* a + b
RSub(a, b)    == Undef   \* a - b
RMul(a, b)    == Undef   \* a * b
RDiv(a, b)    == Undef   \* a / b, b # 0
RNeg(a)       == Undef   \* -a
RAbs(a)       == Undef   \* |a|
RSgn(a)       == Undef   \* -1, 0, 1
RCmp(a, b)    == Undef   \* sign of a - b
RCmpAbs(a, b) == Undef   \* sign of |a| - |b|
REq(a, b)     == Undef   \* a = b as numbers
RIsInt(a)     == Undef   \* is a an integer
RNum(a)       == Undef   \* numerator
RDen(a)       == Undef   \* denominator (> 0)
RFloor(a)     == Undef   \* greatest integer <= a
RGcd(a, b)    == Undef   \* gcd of integers, >= 0
RLcm(a, b)    == Undef   \* lcm of integers, >= 0
RPow2(k)      == Undef   \* 2^k, k a TLA+ integer of either sign
RPow10(k)     == Undef   \* 10^k
RPow(a, k)    == Undef   \* a^k, k >= 0
RLog2(a)      == Undef   \* floor(log2 |a|), a # 0, as a TLA+ integer
RBits(a)      == Undef   \* bit length of the integer |a|
RDigits(a, b) == Undef   \* number of base-b digits of the integer |a|
ROfInt(k)     == Undef   \* TLA+ integer to number
RToInt(a)     == Undef   \* small integer number to TLA+ integer
RBareiss(a, b, c, d, p) == Undef  \* (a*b - c*d) / p, or "inexact"
RDot(s, t)    == Undef   \* sum of s[k] * t[k]
RIsNum(v)     == Undef   \* is v a number at all
RCanon(v)     == Undef   \* is v a number in canonical form
RDecimal(v)   == Undef   \* decimal notation to number, or "bad"
=============================================================================
