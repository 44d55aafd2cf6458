------------------------------ MODULE MC_RefLU ------------------------------
(***************************************************************************)
(* Exhaustive check of the elimination machine on all small matrices, all  *)
(* column orders and all pivot choices each scheme permits.                *)
(***************************************************************************)
EXTENDS RefLU

CONSTANTS N, Vals, Tols, Schemes

VARIABLES A, b, scheme, tol, lu
vars == <<A, b, scheme, tol, lu>>

Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
SeqFrom(f) == [t \in 1..N |-> f[t]]

\* determinant of the submatrix with the given row and column sequences (cofactor expansion)
RECURSIVE Det(_, _, _)
Drop(s, t) == SubSeq(s, 1, t - 1) \o SubSeq(s, t + 1, Len(s))
RECURSIVE DetSum(_, _, _, _)
DetSum(M, rs, cs, t) ==
  IF t = 0 THEN "0"
  ELSE LET term == RMul(M[rs[1]][cs[t]], Det(M, Tail(rs), Drop(cs, t)))
       IN RAdd(DetSum(M, rs, cs, t - 1), IF t % 2 = 1 THEN term ELSE RNeg(term))
Det(M, rs, cs) == IF Len(rs) = 0 THEN "1" ELSE DetSum(M, rs, cs, Len(cs))

Init == /\ A \in [1..N -> [1..N -> Vals]]
        /\ b \in [1..N -> {"1", "-2"}]
        /\ scheme \in Schemes
        /\ tol \in (IF scheme \in {3, 4} THEN Tols ELSE {"1"})
        /\ \E f \in Perms(N) : lu = LuInit(N, A, SeqFrom(f))

Pivot(r) == /\ ~LuDone(lu)
            /\ r \in Allowed(lu, scheme, tol)
            /\ lu' = LuStep(lu, r)
            /\ UNCHANGED <<A, b, scheme, tol>>
Next == \E r \in 1..N : Pivot(r)
Spec == Init /\ [][Next]_vars

DetA == Det(A, [t \in 1..N |-> t], [t \in 1..N |-> t])
DetPAQ == Det(A, lu.rows, lu.q)

\* exact division never fails: every working entry is an integer
Integral == \A i, j \in 1..N : lu.W[i][j] # "inexact"
\* every working entry is the bordered minor of PAQ
Minors == \A i \in FreeRows(lu) : \A t \in (lu.k + 1)..N :
            lu.W[i][lu.q[t]] = Det(A, Append(lu.rows, i), Append(SubSeq(lu.q, 1, lu.k), lu.q[t]))
\* the k-th pivot is the leading k-by-k minor
PivotMinor == \A t \in 1..lu.k : lu.rhos[t] = Det(A, SubSeq(lu.rows, 1, t), SubSeq(lu.q, 1, t)) /\ lu.rhos[t] # "0"
\* stuck exactly for singular matrices, whatever was chosen
SingularIff == /\ LuStuck(lu) => DetA = "0"
               /\ LuDone(lu) => DetA # "0"
\* a scheme always permits some candidate
SomePivot == ~LuDone(lu) /\ Cands(lu) # {} => Allowed(lu, scheme, tol) # {}
\* P A Q = L D^-1 U: (PAQ)[s][t] = sum_m L[s][m] U[m][t] / (rho_{m-1} rho_m)
Prod == LuDone(lu) =>
   \A s, t \in 1..N :
     LET mm == {m \in 1..N : m <= s /\ m <= t}
         term(m) == IF m \in mm THEN RDiv(RMul(lu.L[m][lu.rows[s]], lu.U[m][lu.q[t]]),
                                        RMul(IF m = 1 THEN "1" ELSE lu.rhos[m-1], lu.rhos[m])) ELSE "0"
     IN RDot([m \in 1..N |-> term(m)], [m \in 1..N |-> "1"]) = A[lu.rows[s]][lu.q[t]]
LastIsDet == LuDone(lu) => lu.rhos[N] = DetPAQ
SolveExact == LuDone(lu) =>
   /\ LET x == LuSolve(lu, b) IN \A i \in 1..N : RDot([j \in 1..N |-> A[i][j]], [j \in 1..N |-> x[j]]) = b[i]
   /\ LET z == LuSolveNum(lu, b) IN \A j \in 1..N : RIsInt(z[j])
=============================================================================
