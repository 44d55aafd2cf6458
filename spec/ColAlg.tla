------------------------------ MODULE ColAlg ------------------------------
(***************************************************************************)
(* COLAMD (Davis, Gilbert, Larimore, Ng 2004) as a transition system: the  *)
(* columns of A are eliminated in an order that keeps the factors of PA    *)
(* sparse for every row permutation P.  Eliminating a column replaces the  *)
(* rows it occurs in by their union.  A state holds the classes of columns *)
(* that are left (a class stands for columns with the same rows), the rows *)
(* that are left and the approximate external degree (score) of every      *)
(* class.  Everything is determined but the choice among the classes of    *)
(* least score and the order within a class, which the permutation tells.  *)
(*                                                                         *)
(* cells: the pattern as a set of <<row, column>>, rows being numbers >= 0 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Weight(_, _)
Weight(nv, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN nv[x] + Weight(nv, S \ {x})
Min2(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* columns 0..n-1; dr, dc: rows and columns with more entries are ignored.
\* tail: the ignored columns in the order in which they come last
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET x == MinOf(S) IN <<x>> \o Ascending(S \ {x})
Start(cells, n, dr, dc) ==
  LET Q == 0..(n - 1)
      all == TLCEval([q \in Q |-> {e[1] : e \in {f \in cells : f[2] = q}}])
      empty == {q \in Q : all[q] = {}}
      dense == {q \in Q \ empty : Cardinality(all[q]) > dc}
      T == {e[1] : e \in cells}
      cols == TLCEval([r \in T |-> {e[2] : e \in {f \in cells : f[1] = r}} \ dense])
      rows == {r \in T : cols[r] # {} /\ Cardinality(cols[r]) <= dr}
      C0 == TLCEval([q \in Q \ (empty \cup dense) |-> all[q] \cap rows])
      null == {q \in DOMAIN C0 : C0[q] = {}}
      live == DOMAIN C0 \ null
      R == TLCEval([r \in rows |-> cols[r] \cap live])
      deg == [r \in rows |-> Cardinality(R[r])]
  IN [n |-> n, k |-> 0, live |-> live,
      R |-> R, deg |-> deg,
      C |-> [q \in live |-> C0[q]],
      nv |-> [q \in live |-> 1],
      mem |-> [q \in live |-> {q}],
      sc |-> [q \in live |-> Min2(Weight([r \in rows |-> deg[r] - 1], C0[q]), n)],
      tail |-> Ascending(null) \o Ascending(dense) \o Ascending(empty)]

Least(s, c) == \A q \in s.live : s.sc[c] <= s.sc[q]
Step(s, c, aggr) ==
  LET rows == s.C[c]
      P == TLCEval(UNION {s.R[r] : r \in rows} \ {c})         \* the new row
      ext == TLCEval([r \in UNION {s.C[q] : q \in P} \ rows |-> s.deg[r] - Weight(s.nv, s.R[r] \cap P)])
      gone == rows \cup (IF aggr THEN {r \in DOMAIN ext : ext[r] = 0} ELSE {})
      C2 == TLCEval([q \in P |-> s.C[q] \ gone])
      mass == {q \in P : C2[q] = {}}
      k == s.k + s.nv[c] + Weight(s.nv, mass)
      Q == P \ mass
      d == Weight(s.nv, Q)
      cls(q) == {p \in Q : C2[p] = C2[q]}
      N == {MinOf(cls(q)) : q \in Q}
      nvN == TLCEval([q \in N |-> Weight(s.nv, cls(q))])
      live == (s.live \ (P \cup {c})) \cup N
      new == -1 - c                                           \* the name of the new row
      dead == (Q \ N) \cup mass
      R2 == TLCEval([r \in ((DOMAIN s.R) \ gone) \cup (IF N = {} THEN {} ELSE {new}) |-> IF r = new THEN N ELSE s.R[r] \ dead])
  IN [st |-> [n |-> s.n, k |-> k, live |-> live, R |-> R2,
              deg |-> [r \in DOMAIN R2 |-> IF r = new THEN d ELSE s.deg[r]],
              C |-> TLCEval([q \in live |-> IF q \in N THEN C2[q] \cup {new} ELSE s.C[q]]),
              nv |-> [q \in live |-> IF q \in N THEN nvN[q] ELSE s.nv[q]],
              mem |-> TLCEval([q \in live |-> IF q \in N THEN UNION {s.mem[p] : p \in cls(q)} ELSE s.mem[q]]),
              sc |-> TLCEval([q \in live |-> IF q \in N
                        THEN Min2(Min2(Weight(ext, C2[q]), s.n) + d - nvN[q], s.n - k - nvN[q])
                        ELSE s.sc[q]]),
              tail |-> s.tail],
      front |-> s.mem[c],                                     \* the columns eliminated, in this order:
      along |-> {s.mem[q] : q \in mass},                      \* the class chosen, then these
      below |-> d]

(* Conformance of a permutation: P[k+1..] goes on with what the machine eliminates *)
ClassOf(s, q) == CHOOSE c \in s.live : q \in s.mem[c]
RECURSIVE Groups(_, _, _)
Groups(P, k, M) ==           \* the sets in M, one after the other, from position k on
  M = {} \/ (/\ \E S \in M : P[k] \in S
             /\ LET S == CHOOSE T \in M : P[k] \in T IN
                {P[i] : i \in k..(k + Cardinality(S) - 1)} = S /\ Groups(P, k + Cardinality(S), M \ {S}))
RECURSIVE Follow(_, _, _)
Follow(s, P, aggr) ==
  IF s.live = {} THEN SubSeq(P, s.k + 1, s.n) = s.tail
  ELSE /\ \E c \in s.live : P[s.k + 1] \in s.mem[c]
       /\ LET c == ClassOf(s, P[s.k + 1]) IN
          /\ Least(s, c)
          /\ LET r == TLCEval(Step(s, c, aggr)) IN
             /\ Groups(P, s.k + 1, {r.front})
             /\ Groups(P, s.k + 1 + Cardinality(r.front), r.along)
             /\ Follow(r.st, P, aggr)
=============================================================================
