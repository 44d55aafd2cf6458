------------------------------ MODULE MC_Amd ------------------------------
(***************************************************************************)
(* The approximate minimum degree algorithm on every graph with N rows:    *)
(* whichever ties are broken in whichever way,                             *)
(*  - the approximate degree is at least the degree in the graph that      *)
(*    elimination really leaves, and is that degree when the variable is   *)
(*    in at most one element besides the last one,                         *)
(*  - the elements and variables describe exactly that graph,              *)
(*  - merged rows are indistinguishable in it,                             *)
(*  - the front sizes account for the entries of the factor,               *)
(*  - forests and unions of cliques get no fill.                           *)
(***************************************************************************)
EXTENDS AmdAlg
CONSTANTS N, Aggr, AllNames
AMD == INSTANCE AmdSpec
ASSUME N \in Nat /\ Aggr \in BOOLEAN /\ AllNames \in BOOLEAN
V == 0..(N - 1)
Pairs == {e \in V \X V : e[1] < e[2]}
\* both ways to count the entries of the factor agree
Orders == {q \in [1..N -> V] : \A i, j \in 1..N : i # j => q[i] # q[j]}
ASSUME \A S \in SUBSET Pairs : LET h == [i \in V |-> {j \in V : <<i, j>> \in S \/ <<j, i>> \in S}] IN
         N <= 5 => \A q \in Orders : AMD!ColCounts(h, q) = AMD!Counts(h, q, 1)
VARIABLES g0, s, g, fill, exact
vars == <<g0, s, g, fill, exact>>
Graph(S) == [i \in V |-> {j \in V : <<i, j>> \in S \/ <<j, i>> \in S}]
RECURSIVE ElimAll(_, _)
ElimAll(h, S) == IF S = {} THEN h ELSE LET x == MinOf(S) IN ElimAll(TLCEval(AMD!Eliminate(h, x)), S \ {x})
\* entries of the columns of L when the rows in S are eliminated one after the other
RECURSIVE Cols(_, _)
Cols(h, S) == IF S = {} THEN 0 ELSE LET x == MinOf(S) IN Cardinality(h[x]) + Cols(TLCEval(AMD!Eliminate(h, x)), S \ {x})
Init == \E S \in SUBSET Pairs :
  /\ g0 = Graph(S) /\ s = Start(g0, {})
  /\ g = ElimAll(g0, {i \in V : g0[i] = {}})
  /\ fill = 0 /\ exact = 0
\* AllNames: every choice of names, any one of each class; otherwise the bounds of a class are kept together
Next == \E me \in Candidates(s) : \E names \in (IF AllNames THEN SUBSET (s.live \ {me}) ELSE {{}}) :
  LET r == Step(s, me, Aggr, 0, names) IN
  /\ ~r.clash
  /\ s' = r.st
  /\ g' = ElimAll(g, r.group)
  /\ LET p == Cardinality(r.group) IN fill' = fill + p * r.below + (p * (p - 1)) \div 2
  /\ exact' = exact + Cols(g, r.group)
  /\ UNCHANGED g0
Spec == Init /\ [][Next]_vars

Reach(i) == (UNION {s.mem[j] : j \in s.A[i] \cup UNION {s.L[e] : e \in s.E[i]}}) \ s.mem[i]
Covers == UNION {s.mem[i] : i \in s.live} = DOMAIN g
Structure == \A i \in s.live : \A r \in s.mem[i] : g[r] \cup {r} = Reach(i) \cup s.mem[i]
DegreeBound == \A i \in s.live : \A x \in s.d[i] : x >= Cardinality(Reach(i))
\* with at most two elements and no other variable counted twice the bound is the degree
DegreeExact == \A i \in s.live : Cardinality(s.E[i]) <= 1 => \A x \in s.d[i] : x = Cardinality(Reach(i))
Disjoint == \A i, j \in s.live : i # j => s.mem[i] \cap s.mem[j] = {}
Sizes == \A i \in s.live : s.nv[i] = Cardinality(s.mem[i])
Elements == \A e \in DOMAIN s.L : s.L[e] # {} /\ s.L[e] \subseteq s.live /\ \A i \in s.live : (i \in s.L[e] <=> e \in s.E[i])
Fill == fill >= exact
NoFill == s.live = {} /\ (AMD!IsForest(g0) \/ AMD!IsCliques(g0)) => 2 * fill = AMD!SumCard(g0, V)
Progress == s.live # {} => Candidates(s) # {}
=============================================================================
