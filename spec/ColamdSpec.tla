----------------------------- MODULE ColamdSpec -----------------------------
(***************************************************************************)
(* COLAMD and SYMAMD: the first defect of an input, in the documented      *)
(* order, with its position; the meaning of the statistics; workspace.     *)
(*                                                                         *)
(* A call is a record: nr nc, Alen, hasA hasp hasstats, p and A (sequences *)
(* of the given arrays), knobs k0 k1 as numbers.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat

C_OK == 0   C_JUMBLED == 1   C_NO_A == -1   C_NO_P == -2   C_NROW == -3   C_NCOL == -4   C_NNZ == -5
C_P0 == -6  C_SMALL == -7    C_COLLEN == -8 C_ROWIDX == -9 C_MEMORY == -10

Need(nnz, nr, nc) == 2 * nnz + nc + 6 * (nc + 1) + 4 * (nr + 1)

\* positions k (1-based in A) that break the order or repeat a row of their column
ColOf(p, k) == CHOOSE j \in 1..(Len(p) - 1) : p[j] < k /\ k <= p[j+1]
Jumbles(c, j) ==   \* j from 1: the offending positions of column j, as last_row / mark define them
  {k \in (c.p[j] + 1)..c.p[j+1] :
      \/ k > c.p[j] + 1 /\ c.A[k] <= c.A[k-1]
      \/ \E m \in (c.p[j] + 1)..(k-1) : c.A[m] = c.A[k]}
AllJumbles(c, nc) == UNION {Jumbles(c, j) : j \in 1..nc}
FirstBadLen(c, nc) == {j \in 1..nc : c.p[j+1] < c.p[j]}
BadRows(c, j, nr) == {k \in (c.p[j] + 1)..c.p[j+1] : c.A[k] < 0 \/ c.A[k] >= nr}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

AnyInt == -99999
\* [st |-> status, i1, i2, i3 |-> positions]; AnyInt where nothing is promised
Diag(st, a, b, c) == [st |-> st, i1 |-> a, i2 |-> b, i3 |-> c]
Jumbled(c, nc) ==
  LET J == AllJumbles(c, nc) IN
  IF J = {} THEN Diag(C_OK, AnyInt, AnyInt, AnyInt)
  ELSE LET k == MaxOf(J) IN Diag(C_JUMBLED, ColOf(c.p, k) - 1, c.A[k], Cardinality(J))

ColamdDiag(c) ==
  IF ~c.hasA THEN Diag(C_NO_A, AnyInt, AnyInt, AnyInt)
  ELSE IF ~c.hasp THEN Diag(C_NO_P, AnyInt, AnyInt, AnyInt)
  ELSE IF c.nr < 0 THEN Diag(C_NROW, c.nr, AnyInt, AnyInt)
  ELSE IF c.nc < 0 THEN Diag(C_NCOL, c.nc, AnyInt, AnyInt)
  ELSE IF c.p[c.nc + 1] < 0 THEN Diag(C_NNZ, c.p[c.nc + 1], AnyInt, AnyInt)
  ELSE IF c.p[1] # 0 THEN Diag(C_P0, c.p[1], AnyInt, AnyInt)
  ELSE IF c.Alen < Need(c.p[c.nc + 1], c.nr, c.nc) THEN Diag(C_SMALL, Need(c.p[c.nc + 1], c.nr, c.nc), c.Alen, AnyInt)
  ELSE LET L == FirstBadLen(c, c.nc) IN
       IF L # {} THEN LET j == MinOf(L) IN Diag(C_COLLEN, j - 1, c.p[j+1] - c.p[j], AnyInt)
       ELSE LET B == {j \in 1..c.nc : BadRows(c, j, c.nr) # {}} IN
            IF B # {} THEN LET j == MinOf(B) k == MinOf(BadRows(c, j, c.nr)) IN Diag(C_ROWIDX, j - 1, c.A[k], c.nr)
            ELSE Jumbled(c, c.nc)

\* SYMAMD looks at one column after the other (length, then its rows)
RECURSIVE FirstBad(_, _)
FirstBad(c, j) == IF j > c.nc THEN 0 ELSE IF c.p[j+1] < c.p[j] THEN j
                  ELSE IF BadRows(c, j, c.nc) # {} THEN j ELSE FirstBad(c, j + 1)
SymamdDiag(c) ==
  IF ~c.hasA THEN Diag(C_NO_A, AnyInt, AnyInt, AnyInt)
  ELSE IF ~c.hasp THEN Diag(C_NO_P, AnyInt, AnyInt, AnyInt)
  ELSE IF c.nc < 0 THEN Diag(C_NCOL, c.nc, AnyInt, AnyInt)
  ELSE IF c.p[c.nc + 1] < 0 THEN Diag(C_NNZ, c.p[c.nc + 1], AnyInt, AnyInt)
  ELSE IF c.p[1] # 0 THEN Diag(C_P0, c.p[1], AnyInt, AnyInt)
  ELSE LET bad == FirstBad(c, 1) IN
       IF bad > 0 THEN
         LET j == bad IN
         IF c.p[j+1] < c.p[j] THEN Diag(C_COLLEN, j - 1, c.p[j+1] - c.p[j], AnyInt)
         ELSE LET k == MinOf(BadRows(c, j, c.nc)) IN Diag(C_ROWIDX, j - 1, c.A[k], c.nc)
       ELSE Jumbled(c, c.nc)

DiagOK(d, st, stats) == /\ stats[4] = d.st
                        /\ (d.i1 = AnyInt \/ stats[5] = d.i1)
                        /\ (d.i2 = AnyInt \/ stats[6] = d.i2)
                        /\ (d.i3 = AnyInt \/ stats[7] = d.i3)
                        /\ (st = 1) <=> (d.st >= 0)

IsPermOf(P, n) == Len(P) >= n /\ {P[k] : k \in 1..n} = 0..(n-1)

\* the first columns of the ordering are these
OrderedFirst(P, n, live) == {P[k] : k \in 1..Cardinality(live)} = live

(* ---------------- dense and empty rows and columns ---------------- *)
FloorSqrt(alpha, n) ==   \* floor(alpha * sqrt(n)), alpha >= 0
  LET t == RMul(RMul(alpha, alpha), ROfInt(n)) IN
  CHOOSE k \in 0..20000 : RCmp(ROfInt(k * k), t) <= 0 /\ RCmp(ROfInt((k+1) * (k+1)), t) > 0
DenseDeg(alpha, n, full) ==
  IF RSgn(alpha) < 0 THEN full - 1
  ELSE LET d == FloorSqrt(alpha, n) IN IF d > 16 THEN d ELSE 16
Mn(a, b) == IF a < b THEN a ELSE b

\* the pattern as a set of <<row, col>>
Cells(c, nc) == UNION {{<<c.A[k], j - 1>> : k \in (c.p[j] + 1)..c.p[j+1]} : j \in 1..nc}
RowDeg(S, r) == Cardinality({e \in S : e[1] = r})
ColDeg(S, q) == Cardinality({e \in S : e[2] = q})
\* [rows |-> number of ignored rows, cols |-> number of ignored columns, live |-> surviving columns]
Ignored(S, nr, nc, k0, k1) ==
  LET dr == DenseDeg(k0, nc, nc)
      dc == DenseDeg(k1, Mn(nr, nc), nr)
      R == 0..(nr - 1)
      Q == 0..(nc - 1)
      cd == [q \in Q |-> ColDeg(S, q)]
      empty == {q \in Q : cd[q] = 0}
      dense == {q \in Q : cd[q] > dc}
      S1 == {e \in S : e[2] \notin dense}
      rd == [r \in R |-> RowDeg(S1, r)]
      deadr == {r \in R : rd[r] > dr \/ rd[r] = 0}
      S2 == {e \in S1 : e[1] \notin deadr}
      null == {q \in Q : q \notin empty \cup dense /\ ColDeg(S2, q) = 0}
  IN [rows |-> Cardinality(deadr), cols |-> Cardinality(empty \cup dense \cup null),
      live |-> Q \ (empty \cup dense \cup null)]

(* SYMAMD orders the columns of M, one row of M per entry below the        *)
(* diagonal (duplicates removed), with the two columns i and j of it.      *)
Lower(S) == {e \in S : e[1] > e[2]}
SymIgnored(S, n, k0) ==
  LET E == Lower(S)
      m == Cardinality(E)
      dc == DenseDeg(k0, Mn(m, n), m)
      Q == 0..(n - 1)
      deg == [q \in Q |-> Cardinality({e \in E : e[1] = q \/ e[2] = q})]
      empty == {q \in Q : deg[q] = 0}
      dense == {q \in Q : deg[q] > dc}
      \* a row of M survives unless all its columns are dense
      deadr(e) == e[1] \in dense /\ e[2] \in dense
      dr == n - 1                          \* knob -1 for rows of M: only completely dense rows
      deadrow(e) == LET d == Cardinality({e[1], e[2]} \ dense) IN d = 0 \/ d > dr
      live == {e \in E : ~deadrow(e)}
      null == {q \in Q : q \notin empty \cup dense /\ ~\E e \in live : e[1] = q \/ e[2] = q}
  IN empty \cup dense \cup null
=============================================================================
