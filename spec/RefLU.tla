------------------------------- MODULE RefLU -------------------------------
(***************************************************************************)
(* The integer-preserving LU factorization as a state machine.             *)
(*                                                                         *)
(* A state lu is a record                                                  *)
(*   n    dimension            q     column order (sequence of 1..n)       *)
(*   k    columns done         W     the matrix after k elimination steps  *)
(*   rho  the last pivot       rows  the pivot rows chosen so far          *)
(*   L    sequence: column t of L, a function row -> value                 *)
(*   U    sequence: row t of U, a function column -> value                 *)
(*   rhos the pivots                                                       *)
(* One step (LuStep) takes a nonzero candidate of column q[k+1] as pivot   *)
(* and eliminates.  SLIP_LU_factorize computes the same L, U column by     *)
(* column (left-looking); the values are determined by (A, q, pivot rows). *)
(* Rows and columns are numbered 1..n here, as in the unpermuted matrix.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, BigRat

SLIP_SMALLEST == 0      SLIP_DIAGONAL == 1       SLIP_FIRST_NONZERO == 2
SLIP_TOL_SMALLEST == 3  SLIP_TOL_LARGEST == 4    SLIP_LARGEST == 5

LuInit(n, W, q) == [n |-> n, q |-> q, k |-> 0, W |-> W, rho |-> "1",
                    rows |-> <<>>, L |-> <<>>, U |-> <<>>, rhos |-> <<>>]

Rows(lu) == 1..lu.n
Used(lu) == {lu.rows[t] : t \in 1..Len(lu.rows)}
FreeRows(lu) == Rows(lu) \ Used(lu)
LuDone(lu) == lu.k = lu.n
PivCol(lu) == lu.q[lu.k + 1]
\* the candidates: rows not yet pivotal with a nonzero in the current column
Cands(lu) == LET c == PivCol(lu) IN {r \in FreeRows(lu) : lu.W[r][c] # "0"}
LuStuck(lu) == ~LuDone(lu) /\ Cands(lu) = {}

(* The pivot rule of the requested scheme: may row r of the candidates C   *)
(* (values w) be the pivot of column c?                                    *)
IsMin(w, C, r) == \A s \in C : RCmpAbs(w[r], w[s]) <= 0
IsMax(w, C, r) == \A s \in C : RCmpAbs(w[r], w[s]) >= 0
MinOf(w, C) == CHOOSE r \in C : IsMin(w, C, r)
MaxOf(w, C) == CHOOSE r \in C : IsMax(w, C, r)
PivotOK(scheme, tol, w, C, c, r) ==
  /\ r \in C
  /\ CASE scheme = SLIP_SMALLEST      -> IsMin(w, C, r)
       [] scheme = SLIP_LARGEST       -> IsMax(w, C, r)
       [] scheme = SLIP_FIRST_NONZERO -> TRUE
       [] scheme = SLIP_DIAGONAL      -> IF c \in C THEN r = c ELSE IsMin(w, C, r)
       [] scheme = SLIP_TOL_LARGEST   ->
            IF c \in C /\ RCmp(RAbs(RDiv(w[c], w[MaxOf(w, C)])), tol) >= 0 THEN r = c ELSE IsMax(w, C, r)
       [] OTHER (* TOL_SMALLEST *)    ->
            IF c \in C /\ RCmp(RAbs(RDiv(w[MinOf(w, C)], w[c])), tol) >= 0 THEN r = c ELSE IsMin(w, C, r)

ColOf(lu) == LET c == PivCol(lu) IN [r \in Rows(lu) |-> lu.W[r][c]]
Allowed(lu, scheme, tol) ==
  LET C == Cands(lu) w == ColOf(lu) c == PivCol(lu) IN {r \in C : PivotOK(scheme, tol, w, C, c, r)}

Elim(p, wij, wic, wrj, rho) ==
  IF wij = "0" /\ (wic = "0" \/ wrj = "0") THEN "0" ELSE RBareiss(p, wij, wic, wrj, rho)

LuStep(lu, r) ==
  LET c    == PivCol(lu)
      piv  == lu.W[r][c]
      fr   == FreeRows(lu)
      rest == fr \ {r}
      cl   == {lu.q[t] : t \in (lu.k + 2)..lu.n}
      Wr   == lu.W[r]
  IN [lu EXCEPT
        !.k = @ + 1,
        !.rho = piv,
        !.rows = Append(@, r),
        !.rhos = Append(@, piv),
        !.L = Append(@, TLCEval([i \in fr |-> lu.W[i][c]])),
        !.U = Append(@, TLCEval([j \in cl \cup {c} |-> Wr[j]])),
        !.W = TLCEval([i \in Rows(lu) |->
                 IF i \in rest THEN LET Wi == lu.W[i] IN
                      [j \in 1..lu.n |-> IF j \in cl THEN Elim(piv, Wi[j], Wi[c], Wr[j], lu.rho) ELSE "0"]
                 ELSE lu.W[i]])]

(* Solving with the finished factors, as SLIP_LU_solve does: forward       *)
(* substitution keeps integers (the right-hand side is one more column of  *)
(* the elimination), the result is multiplied by the determinant, back     *)
(* substitution divides exactly, and the determinant is divided out.       *)
Steps(n) == [t \in 1..n |-> t]
Fwd(lu, b) ==         \* b: row -> value
  FoldLeft(LAMBDA y, t :
    LET r == lu.rows[t]
        rho0 == IF t = 1 THEN "1" ELSE lu.rhos[t-1]
        lt == lu.L[t]
    IN TLCEval([i \in DOMAIN y |->
              IF i \in DOMAIN lt /\ i # r THEN RBareiss(lu.rhos[t], y[i], lt[i], y[r], rho0) ELSE y[i]]),
    b, Steps(lu.n))
Back(lu, z) ==        \* z: column -> value
  FoldLeft(LAMBDA x, k :
    LET t == lu.n + 1 - k
        c == lu.q[t]
        ut == lu.U[t]
        s == RDot(TLCEval([m \in 1..(lu.n - t) |-> ut[lu.q[t + m]]]), TLCEval([m \in 1..(lu.n - t) |-> x[lu.q[t + m]]]))
    IN TLCEval([x EXCEPT ![c] = RDiv(RSub(@, s), lu.rhos[t])]),
    z, Steps(lu.n))
LuSolve(lu, b) ==
  LET det == lu.rhos[lu.n]
      y == TLCEval(Fwd(lu, b))
      z == TLCEval([j \in 1..lu.n |-> RMul(det, y[lu.rows[CHOOSE t \in 1..lu.n : lu.q[t] = j]])])
      x == TLCEval(Back(lu, z))
  IN [j \in 1..lu.n |-> RDiv(x[j], det)]
\* the numerators, before the final division: integers by Cramer's rule
LuSolveNum(lu, b) ==
  LET det == lu.rhos[lu.n]
      y == TLCEval(Fwd(lu, b))
      z == TLCEval([j \in 1..lu.n |-> RMul(det, y[lu.rows[CHOOSE t \in 1..lu.n : lu.q[t] = j]])])
  IN TLCEval(Back(lu, z))
=============================================================================
