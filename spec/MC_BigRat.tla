----------------------------- MODULE MC_BigRat -----------------------------
(* Cross-check of the Java operators of BigRat against plain TLA+.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat

Lim == 5
Rats == {<<n, d>> \in (-Lim..Lim) \X (1..3) : TRUE}
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Divides(k, x) == Abs(x) % Abs(k) = 0
RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
Gcd(a, b) == GcdN(Abs(a), Abs(b))
Red(q) == LET g == Gcd(q[1], q[2]) IN <<q[1] \div g, q[2] \div g>>
Str(q) == LET r == IF q[1] < 0 THEN <<-(Red(<<-q[1], q[2]>>)[1]), Red(<<-q[1], q[2]>>)[2]>> ELSE Red(q)
          IN IF r[2] = 1 THEN ToString(r[1]) ELSE ToString(r[1]) \o "/" \o ToString(r[2])
Pos(q) == IF q[2] < 0 THEN <<-q[1], -q[2]>> ELSE q
Add(a, b) == <<a[1]*b[2] + b[1]*a[2], a[2]*b[2]>>
Mul(a, b) == <<a[1]*b[1], a[2]*b[2]>>
Floor(q) == CHOOSE k \in -Lim-1..Lim+1 : k * q[2] <= q[1] /\ q[1] < (k+1) * q[2]
Pow2(k) == IF k >= 0 THEN <<2^k, 1>> ELSE <<1, 2^(-k)>>

ASSUME \A a \in Rats :
         /\ RCanon(Str(a)) /\ RIsNum(Str(a))
         /\ RNeg(Str(a)) = Str(<<-a[1], a[2]>>)
         /\ RAbs(Str(a)) = Str(<<Abs(a[1]), a[2]>>)
         /\ RSgn(Str(a)) = Sgn(a[1])
         /\ RFloor(Str(a)) = ToString(Floor(a))
         /\ RIsInt(Str(a)) = Divides(a[2], a[1])
         /\ a[1] # 0 => LET e == RLog2(Str(a)) IN
               /\ Pow2(e)[1] * a[2] <= Abs(a[1]) * Pow2(e)[2]
               /\ Abs(a[1]) * Pow2(e+1)[2] < Pow2(e+1)[1] * a[2]
ASSUME \A a, b \in Rats :
         /\ RAdd(Str(a), Str(b)) = Str(Add(a, b))
         /\ RSub(Str(a), Str(b)) = Str(Add(a, <<-b[1], b[2]>>))
         /\ RMul(Str(a), Str(b)) = Str(Mul(a, b))
         /\ b[1] # 0 => RDiv(Str(a), Str(b)) = Str(Pos(<<a[1]*b[2], a[2]*b[1]>>))
         /\ RCmp(Str(a), Str(b)) = Sgn(a[1]*b[2] - b[1]*a[2])
         /\ RCmpAbs(Str(a), Str(b)) = Sgn(Abs(a[1])*b[2] - Abs(b[1])*a[2])
         /\ REq(Str(a), Str(b)) = (a[1]*b[2] = b[1]*a[2])
ASSUME \A a, b \in -12..12 :
         /\ RGcd(ToString(a), ToString(b)) = ToString(Gcd(a, b))
         /\ RLcm(ToString(a), ToString(b)) = ToString(IF a = 0 \/ b = 0 THEN 0 ELSE Abs(a*b) \div Gcd(a, b))
ASSUME \A a, b, c, d \in -2..2 : \A p \in {-2, -1, 1, 2, 3} :
         RBareiss(ToString(a), ToString(b), ToString(c), ToString(d), ToString(p))
           = LET v == a*b - c*d IN IF Divides(p, v) THEN ToString(CHOOSE y \in -8..8 : p*y = v) ELSE "inexact"
ASSUME \A k \in -10..20 : RPow2(k) = Str(Pow2(k))
ASSUME \A k \in 0..6 : RPow10(k) = ToString(10^k) /\ RPow("-3", k) = ToString((-3)^k) /\ RPow("2/3", k) = Str(<<2^k, 3^k>>)
ASSUME \A k \in -300..300 : ROfInt(k) = ToString(k) /\ RToInt(ToString(k)) = k
                            /\ RBits(ToString(k)) = (IF k = 0 THEN 0 ELSE RLog2(ToString(k)) + 1)
ASSUME RDot(<<"1", "2/3", "-5">>, <<"4", "3", "1/5">>) = "5"
ASSUME RDecimal("12.50") = "25/2" /\ RDecimal("-0.125") = "-1/8" /\ RDecimal("3") = "3" /\ RDecimal("x") = "bad" /\ RDecimal("6/4") = "3/2"
ASSUME ~RCanon("2/4") /\ ~RCanon("nan") /\ ~RIsNum("inf") /\ RIsNum("2/4") /\ ~RCanon("3/1") /\ ~RCanon("-0")
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
