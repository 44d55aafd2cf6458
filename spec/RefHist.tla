------------------------------ MODULE RefHist ------------------------------
(***************************************************************************)
(* How SLIP_LU computes a column without touching every entry at every     *)
(* step: the sparse integer-preserving triangular solve with histories     *)
(* (slip_ref_triangular_solve), and the substitutions with the finished    *)
(* factors (slip_forward_sub, slip_back_sub).                              *)
(*                                                                         *)
(* An entry x[i] has a history h[i]: the number of elimination steps it    *)
(* has been brought through.  A step t whose multiplier or whose pivot-row *)
(* entry is zero is skipped, and made up for later, all skipped steps at   *)
(* once, by x[i]*rho[t]/rho[h[i]].  The machine works on one column after  *)
(* the other (a column of A: phase "L", then the right-hand side: phases   *)
(* "b" and "back"); its steps are Start, Visit (one entry of the pattern   *)
(* that belongs to U), Finish (entries of L, next pivot), Sub.             *)
(*                                                                         *)
(* Numbers are plain integers here (the models are small); the column      *)
(* order is the natural one and the pivot of a column is its first         *)
(* candidate, since all matrices are explored anyway.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Vals, Zero, Rhs     \* Zero: a stored entry whose value is zero (a model value), or a value not in Vals

VARIABLES A, b,      \* the system
          k,         \* the column being computed, N+1: the right-hand side
          rows, L, U, rhos,
          phase, x, h, todo,
          exact,     \* did every division leave no remainder?
          seen       \* which cases of the algorithm have been met
vars == <<A, b, k, rows, L, U, rhos, phase, x, h, todo, exact, seen>>

Val(v) == IF v = Zero THEN 0 ELSE v
M(i, j) == IF j = N + 1 THEN b[i] ELSE Val(A[i][j])
Pivotal == {rows[t] : t \in 1..Len(rows)}
Pos(r) == CHOOSE t \in 1..Len(rows) : rows[t] = r
Rho(t) == IF t = 0 THEN 1 ELSE rhos[t]
Divides(d, v) == d # 0 /\ v % (IF d < 0 THEN -d ELSE d) = 0
Quo(v, d) == IF d < 0 THEN (-v) \div (-d) ELSE v \div d

(* the pattern of a column: everything reachable through the stored        *)
(* columns of L, whatever the values                                       *)
RECURSIVE Reach(_)
Reach(R) == LET more == UNION {DOMAIN L[Pos(r)] : r \in R \cap Pivotal} IN
            IF more \subseteq R THEN R ELSE Reach(R \cup more)
Pattern == IF k = N + 1 THEN 1..N ELSE Reach({i \in 1..N : A[i][k] # 0})

Start == /\ phase = "next"
         /\ k <= N + 1
         /\ phase' = "L"
         /\ LET R == Pattern IN
              /\ x' = [i \in R |-> M(i, k)]
              /\ h' = [i \in R |-> 0]
              /\ todo' = {Pos(r) : r \in R \cap Pivotal}
         /\ UNCHANGED <<A, b, k, rows, L, U, rhos, exact, seen>>

Min(S) == CHOOSE v \in S : \A w \in S : v <= w
\* bring the value v of history g to level t
Up(v, g, t) == IF g < t THEN Quo(v * Rho(t), Rho(g)) ELSE v
UpOK(v, g, t) == g < t => Divides(Rho(g), v * Rho(t))
Visit ==
  /\ phase = "L" /\ todo # {}
  /\ LET t == Min(todo) r == rows[t] IN
       /\ todo' = todo \ {t}
       /\ IF x[r] = 0 THEN UNCHANGED <<x, h, exact>> /\ seen' = seen \cup {"zero"}
          ELSE
          LET xr == Up(x[r], h[r], t - 1)
              later == {i \in DOMAIN L[t] : i \notin {rows[s] : s \in 1..t} /\ L[t][i] # 0}
              raw(i) == IF x[i] = 0 THEN -(L[t][i] * xr)
                        ELSE Up(x[i], h[i], t - 1) * Rho(t) - L[t][i] * xr
          IN /\ x' = [i \in DOMAIN x |-> IF i = r THEN xr ELSE IF i \in later THEN Quo(raw(i), Rho(t - 1)) ELSE x[i]]
             /\ h' = [i \in DOMAIN h |-> IF i \in later THEN t ELSE IF i = r THEN (IF h[r] < t - 1 THEN t - 1 ELSE h[r]) ELSE h[i]]
             /\ exact' = (/\ exact /\ UpOK(x[r], h[r], t - 1)
                          /\ \A i \in later : /\ (x[i] # 0 => UpOK(x[i], h[i], t - 1))
                                              /\ Divides(Rho(t - 1), raw(i)))
             /\ seen' = seen \cup (IF h[r] < t - 1 THEN {IF h[r] = 0 THEN "pivot-late-0" ELSE "pivot-late"} ELSE {})
                             \cup {IF x[i] = 0 THEN (IF t = 1 THEN "fill-first" ELSE IF h[i] > 0 THEN "fill-again" ELSE "fill")
                                   ELSE IF t = 1 THEN "first" ELSE IF h[i] = t - 1 THEN "current"
                                   ELSE IF h[i] = 0 THEN "late-0" ELSE "late" : i \in later}
                             \cup (IF \E i \in DOMAIN L[t] : L[t][i] = 0 THEN {"zero-multiplier"} ELSE {})
  /\ UNCHANGED <<A, b, k, rows, L, U, rhos, phase>>

Finish ==
  /\ phase = "L" /\ todo = {} /\ k <= N
  /\ LET rest == DOMAIN x \ Pivotal
         late == {i \in rest : x[i] # 0}
         z == [i \in rest |-> IF i \in late THEN Up(x[i], h[i], k - 1) ELSE 0]
         C == {i \in rest : z[i] # 0}
     IN /\ exact' = (exact /\ \A i \in late : UpOK(x[i], h[i], k - 1))
        /\ seen' = seen \cup {IF h[i] = 0 THEN "entry-late-0" ELSE "entry-late" : i \in {j \in late : h[j] < k - 1}}
        /\ IF C = {} THEN /\ phase' = "singular" /\ UNCHANGED <<k, rows, L, U, rhos>>
           ELSE LET p == Min(C) IN
             /\ phase' = "next" /\ k' = k + 1
             /\ rows' = Append(rows, p) /\ rhos' = Append(rhos, z[p]) /\ L' = Append(L, z)
             /\ U' = Append(U, [t \in {Pos(r) : r \in DOMAIN x \cap Pivotal} \cup {k} |-> IF t = k THEN z[p] ELSE x[rows[t]]])
        /\ x' = <<>> /\ h' = <<>>
  /\ UNCHANGED <<A, b, todo>>

(* the right-hand side: times the determinant, then back substitution      *)
Scale == /\ phase = "L" /\ todo = {} /\ k = N + 1
         /\ phase' = "back" /\ todo' = 1..N
         /\ x' = [t \in 1..N |-> x[rows[t]] * rhos[N]] /\ h' = <<>>
         /\ UNCHANGED <<A, b, k, rows, L, U, rhos, exact, seen>>
Max(S) == CHOOSE v \in S : \A w \in S : v >= w
Sub == /\ phase = "back" /\ todo # {}
       /\ LET t == Max(todo) v == Quo(x[t], rhos[t]) IN
            /\ todo' = todo \ {t}
            /\ exact' = (exact /\ (x[t] # 0 => Divides(rhos[t], x[t])))
            /\ x' = [s \in 1..N |-> IF s = t THEN v ELSE IF s < t /\ s \in DOMAIN U[t] THEN x[s] - U[t][s] * v ELSE x[s]]
       /\ UNCHANGED <<A, b, k, rows, L, U, rhos, phase, h, seen>>
Done == phase = "singular" \/ (phase = "back" /\ todo = {})

Init == /\ A \in [1..N -> [1..N -> Vals]] /\ b \in Rhs
        /\ k = 1 /\ rows = <<>> /\ L = <<>> /\ U = <<>> /\ rhos = <<>>
        /\ phase = "next" /\ x = <<>> /\ h = <<>> /\ todo = {} /\ exact = TRUE /\ seen = {}
Next == Start \/ Visit \/ Finish \/ Scale \/ Sub
Spec == Init /\ [][Next]_vars
=============================================================================
