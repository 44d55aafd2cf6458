----------------------------- MODULE SlipMatrix -----------------------------
(***************************************************************************)
(* The SLIP_matrix object: 3 storage kinds x 5 value types, what makes one *)
(* valid, how many entries it has, the rational matrix it stands for and   *)
(* the result of converting it to another kind and type.                   *)
(*                                                                         *)
(* A matrix is a record with the fields of the C struct: kind type m n     *)
(* nzmax nz scale, the arrays p i j x as sequences (indices 0-based as in  *)
(* C, so entry k is at position k+1), hp hi hj hx (is the array present),  *)
(* sp si sj sx (shallow), cp ci cj cx (allocated lengths), xp (precision). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat, Fp

CSC == 0   TRIPLET == 1   DENSE == 2
MPZ == 0   MPQ == 1   MPFR == 2   INT64 == 3   FP64 == 4
Kinds == 0..2
Types == 0..4
MaxInt == 2147483647          \* logged integers are clamped to this

IsSpecial(v) == v \in {"nan", "inf", "-inf"}

(* ---------------- entry count ---------------- *)
\* SLIP_matrix_nnz of a present matrix; CSC reads p[n]
Nnz(A) ==
  CASE A.kind = CSC -> IF A.hp = 0 \/ A.n < 0 THEN -1 ELSE A.p[A.n + 1]
    [] A.kind = TRIPLET -> A.nz
    [] A.kind = DENSE -> IF A.m < 0 \/ A.n < 0 THEN -1 ELSE A.m * A.n
    [] OTHER -> -1

Max1(x) == IF x > 1 THEN x ELSE 1

(* ---------------- validity ---------------- *)
ValidHeader(A) == /\ A.kind \in Kinds /\ A.type \in Types
                  /\ A.m >= 0 /\ A.n >= 0 /\ A.nzmax >= 0
ValidCsc(A) ==
  /\ A.hp = 1
  /\ Len(A.p) = A.n + 1
  /\ A.p[1] = 0
  /\ \A j \in 1..A.n : A.p[j] <= A.p[j+1]
  /\ A.p[A.n + 1] <= A.nzmax
  /\ (A.nzmax > 0 => A.hi = 1 /\ A.hx = 1)
  /\ LET nz == A.p[A.n + 1] IN
     /\ Len(A.i) >= nz
     /\ \A k \in 1..nz : A.i[k] >= 0 /\ A.i[k] < A.m
     /\ \A j \in 1..A.n : Cardinality({A.i[k] : k \in (A.p[j] + 1)..A.p[j+1]}) = A.p[j+1] - A.p[j]
ValidTriplet(A) ==
  /\ A.nz >= 0 /\ A.nz <= A.nzmax
  /\ (A.nzmax > 0 => A.hi = 1 /\ A.hj = 1 /\ A.hx = 1)
  /\ Len(A.i) >= A.nz /\ Len(A.j) >= A.nz
  /\ \A k \in 1..A.nz : A.i[k] >= 0 /\ A.i[k] < A.m /\ A.j[k] >= 0 /\ A.j[k] < A.n
  /\ Cardinality({<<A.i[k], A.j[k]>> : k \in 1..A.nz}) = A.nz
ValidDense(A) == (A.nzmax > 0 => A.hx = 1) /\ A.m * A.n <= A.nzmax
Valid(A) ==
  /\ ValidHeader(A)
  /\ CASE A.kind = CSC -> ValidCsc(A) [] A.kind = TRIPLET -> ValidTriplet(A) [] OTHER -> ValidDense(A)

\* well-formed result of the library: valid, fully owned, and only the arrays of its kind
WellFormed(A) ==
  /\ Valid(A)
  /\ (A.type # MPZ => A.scale = "1")
  /\ A.sp = 0 /\ A.si = 0 /\ A.sj = 0 /\ A.sx = 0
  /\ A.hp = (IF A.kind = CSC THEN 1 ELSE 0)
  /\ A.hi = (IF A.kind = DENSE THEN 0 ELSE 1)
  /\ A.hj = (IF A.kind = TRIPLET THEN 1 ELSE 0)
  /\ A.cx >= A.nzmax
  /\ (A.kind = CSC => A.cp >= A.n + 1)
  /\ (A.kind # DENSE => A.ci >= A.nzmax)
  /\ (A.kind = TRIPLET => A.cj >= A.nzmax)
AllNumbers(A) == (\A k \in 1..Len(A.x) : RIsNum(A.x[k]) \/ IsSpecial(A.x[k])) /\ RIsNum(A.scale)
Canonical(A) == (\A k \in 1..Len(A.x) : RCanon(A.x[k]) \/ IsSpecial(A.x[k])) /\ RCanon(A.scale)

(* ---------------- contents of a valid matrix ---------------- *)
\* the stored entries <<row, column, value>>, rows and columns from 0
Stored(A) ==
  CASE A.kind = CSC -> UNION {{<<A.i[k], j, A.x[k]>> : k \in (A.p[j+1] + 1)..A.p[j+2]} : j \in 0..(A.n - 1)}
    [] A.kind = TRIPLET -> {<<A.i[k], A.j[k], A.x[k]>> : k \in 1..A.nz}
    [] OTHER -> {<<(k-1) % A.m, (k-1) \div A.m, A.x[k]>> : k \in 1..(A.m * A.n)}
Pattern(A) == {<<e[1], e[2]>> : e \in Stored(A)}
\* entries of the rational matrix it represents: nonzeros divided by the scale
Value(A, v) == IF A.type = MPZ THEN RDiv(v, A.scale) ELSE v
Entries(A) == {<<e[1], e[2], Value(A, e[3])>> : e \in {f \in Stored(A) : f[3] # "0"}}
\* as a function: row -> column -> stored value (1-based), zeros filled in
FullRows(A) ==
  IF A.kind = DENSE THEN TLCEval([r \in 1..A.m |-> TLCEval([c \in 1..A.n |-> A.x[(c-1) * A.m + r]])])
  ELSE LET cols == TLCEval([c \in 1..A.n |-> IF A.kind = CSC
                      THEN TLCEval([r \in {A.i[k] + 1 : k \in (A.p[c] + 1)..A.p[c+1]} |->
                              A.x[CHOOSE k \in (A.p[c] + 1)..A.p[c+1] : A.i[k] + 1 = r]])
                      ELSE LET K == {k \in 1..A.nz : A.j[k] + 1 = c} IN
                           TLCEval([r \in {A.i[k] + 1 : k \in K} |-> A.x[CHOOSE k \in K : A.i[k] + 1 = r]])])
       IN TLCEval([r \in 1..A.m |-> TLCEval([c \in 1..A.n |-> IF r \in DOMAIN cols[c] THEN cols[c][r] ELSE "0"])])

(* ---------------- conversion of one value ---------------- *)
P17 == RPow10(17)
\* how a value v of the source is represented after conversion, as a number
\* (for integer targets: the integer divided by the new scale)
ConvToMpz(A, v, prec, rnd) ==
  CASE A.type = MPZ -> RDiv(v, A.scale)
    [] A.type \in {MPQ, INT64} -> v
    [] A.type = FP64 -> RDiv(RoundInt(RoundPrec(RMul(RoundPrec(v, prec, rnd), P17), prec, rnd), rnd), P17)
    [] OTHER -> LET s == RPow2(prec) IN RDiv(RoundInt(RoundPrec(RMul(v, s), prec, rnd), rnd), s)
SatTrunc(v) == CASE v = "nan" -> "0" [] v = "inf" -> Int64Max [] v = "-inf" -> Int64Min
                 [] OTHER -> Saturate(RoundInt(v, RNDZ))
ToDouble(v, rnd) == IF IsSpecial(v) THEN v ELSE RoundDouble(v, rnd)
ConvTo(A, type, v0, prec, rnd) ==
  LET v == IF A.type = MPZ THEN RDiv(v0, A.scale) ELSE v0 IN
  CASE type = MPZ -> ConvToMpz(A, v0, prec, rnd)
    [] type = MPQ -> v
    [] type = MPFR -> IF IsSpecial(v) THEN v ELSE RoundPrec(v, prec, rnd)
    [] type = INT64 ->
         (CASE A.type = INT64 -> v
            [] A.type = FP64 -> SatTrunc(v)
            [] A.type = MPFR -> IF IsSpecial(v) THEN SatTrunc(v) ELSE Saturate(RoundInt(v, rnd))
            \* scaled integers and rationals go through a double
            [] A.type = MPZ /\ A.scale = "1" -> v
            [] OTHER -> SatTrunc(RoundDouble(v, RNDZ)))
    [] OTHER (* FP64 *) ->
         (CASE A.type = FP64 -> v
            [] A.type \in {MPZ, MPQ} -> RoundDouble(v, RNDZ)
            [] A.type = INT64 -> RoundDouble(v, RNDN)
            [] OTHER -> ToDouble(v, rnd))

(* Conversions that lose nothing whatever the values. *)
ExactPair(from, to) == \/ from = to \/ to = MPQ
                       \/ to = MPZ /\ from \in {INT64, MPQ}
\* values that a conversion to MPQ or MPZ can take at all
Finite(A) == \A k \in 1..Len(A.x) : ~IsSpecial(A.x[k])

(* ---------------- conversion of a matrix ---------------- *)
\* the entries <<row, column, value>> of the result
ConvEntries(A, kind, type, prec, rnd) ==
  LET S == {<<e[1], e[2], ConvTo(A, type, e[3], prec, rnd)>> : e \in Stored(A)} IN
  IF kind = DENSE \/ A.kind = DENSE THEN {e \in S : e[3] # "0"} ELSE S
\* the entries of the logged result, brought to the same form
OutEntries(A, C) ==
  LET S == {<<e[1], e[2], IF C.type = MPZ THEN RDiv(e[3], C.scale) ELSE e[3]>> : e \in Stored(C)} IN
  IF C.kind = DENSE THEN {e \in S : e[3] # "0"} ELSE S

ConvShape(A, kind, type, C) ==
  /\ C.kind = kind /\ C.type = type /\ C.m = A.m /\ C.n = A.n
  /\ (C.kind = TRIPLET => Nnz(C) = Len(C.x))
=============================================================================
