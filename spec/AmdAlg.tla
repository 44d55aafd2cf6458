------------------------------ MODULE AmdAlg ------------------------------
(***************************************************************************)
(* Approximate minimum degree (Amestoy, Davis, Duff 1996) on the quotient  *)
(* graph, as a transition system.  A state holds the variables that are    *)
(* left (each stands for a set of indistinguishable rows), the elements    *)
(* created so far and the approximate degree of every variable.  Which of  *)
(* the variables of least approximate degree is eliminated next, and which *)
(* of the indistinguishable variables gives its name to all of them, is    *)
(* not determined: everything else is.                                     *)
(*                                                                         *)
(* d[i] is a set: when variables with different bounds are merged and the  *)
(* name that survives is not known, any of their bounds may be kept.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Weight(_, _)
Weight(nv, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN nv[x] + Weight(nv, S \ {x})
Min2(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* adj: the graph; dense rows take no part, rows without entries are eliminated at once
Start(adj, dense) ==
  LET n == Cardinality(DOMAIN adj)
      live == {i \in DOMAIN adj : adj[i] # {} /\ i \notin dense}
  IN [n |-> n, live |-> live,
      A |-> [i \in live |-> adj[i] \cap live],
      E |-> [i \in live |-> {}],
      nv |-> [i \in live |-> 1],
      mem |-> [i \in live |-> {i}],
      d |-> [i \in live |-> {Cardinality(adj[i])}],
      L |-> <<>>,                       \* element -> its variables
      nel |-> n - Cardinality(live)]

\* me has least approximate degree, for some choice of the open bounds
Bound(s) == MinOf({MaxOf(s.d[j]) : j \in s.live})
Least(s, me) == MinOf(s.d[me]) <= Bound(s)
Candidates(s) == LET b == Bound(s) IN {me \in s.live : MinOf(s.d[me]) <= b}

\* Eliminate me.  aggr: absorb elements inside the new one; low: least degree given (1 in AMDBAR, 0 otherwise)
\* names: variables known to survive as names.  The result: the new state and what happened
Step(s, me, aggr, low, names) ==
  LET ab == s.E[me]
      Lme == (s.A[me] \cup UNION {s.L[e] : e \in ab}) \ {me}
      ext == TLCEval([e \in (DOMAIN s.L) \ ab |-> Weight(s.nv, s.L[e] \ Lme)])      \* |Le \ Lme|
      gone == IF aggr THEN {e \in DOMAIN ext : ext[e] = 0} ELSE {}
      E2 == TLCEval([i \in Lme |-> (s.E[i] \ ab) \ gone])
      A2 == TLCEval([i \in Lme |-> s.A[i] \ (Lme \cup {me})])
      deg == [i \in Lme |-> Weight(ext, E2[i]) + Weight(s.nv, A2[i])]
      mass == {i \in Lme : E2[i] = {} /\ A2[i] = {}}
      R == Lme \ mass
      cls(i) == {j \in R : E2[j] = E2[i] /\ A2[j] = A2[i]}
      name(C) == IF C \cap names # {} THEN MinOf(C \cap names) ELSE MinOf(C)
      classes == {cls(i) : i \in R}
      P == {name(C) : C \in classes}
      nvP == TLCEval([p \in P |-> Weight(s.nv, cls(p))])
      dead == R \ P
      w == Weight(s.nv, R)
      left == s.n - s.nel - s.nv[me] - Weight(s.nv, mass)
      bounds(p) == LET C == IF p \in names THEN {p} ELSE cls(p) IN
                   {LET x == Min2(Min2(v, deg[p]) + w - nvP[p], left - nvP[p]) IN IF x < low THEN low ELSE x : v \in UNION {s.d[j] : j \in C}}
      live == s.live \ ({me} \cup mass \cup dead)
      keep == (DOMAIN s.L \ (ab \cup gone))
  IN [st |-> [n |-> s.n, live |-> live,
              A |-> TLCEval([i \in live |-> IF i \in P THEN A2[i] ELSE s.A[i] \ dead]),
              E |-> TLCEval([i \in live |-> IF i \in P THEN E2[i] \cup {me} ELSE s.E[i]]),
              nv |-> [i \in live |-> IF i \in P THEN nvP[i] ELSE s.nv[i]],
              mem |-> TLCEval([i \in live |-> IF i \in P THEN UNION {s.mem[j] : j \in cls(i)} ELSE s.mem[i]]),
              d |-> TLCEval([i \in live |-> IF i \in P THEN bounds(i) ELSE s.d[i]]),
              L |-> TLCEval([e \in keep \cup (IF R = {} THEN {} ELSE {me}) |-> IF e = me THEN P ELSE s.L[e] \ dead]),
              nel |-> s.n - left],
      group |-> s.mem[me] \cup UNION {s.mem[i] : i \in mass},        \* the rows eliminated here
      front |-> s.nv[me] + Weight(s.nv, Lme),                        \* rows of the front
      below |-> w,                                                   \* of these not eliminated here
      sons |-> ab \cup gone,                                         \* elements absorbed here
      clash |-> \E C \in classes : Cardinality(C \cap names) > 1]

(* Conformance of a finished ordering.  f gives, for the node me of the assembly forest, its rows,   *)
(* the size of its front and the nodes absorbed by it.                                                *)
Agrees(r, f, me) == ~r.clash /\ r.group = f.group[me] /\ r.front = f.front[me] /\ r.sons = f.sons[me]

\* the order of elimination is known: seq
RECURSIVE Follow(_, _, _, _, _, _)
Follow(s, seq, k, aggr, low, f) ==
  IF k > Len(seq) THEN s.live = {}
  ELSE LET me == seq[k] IN
       /\ me \in s.live /\ Least(s, me)
       /\ LET r == TLCEval(Step(s, me, aggr, low, f.nodes)) IN
          Agrees(r, f, me) /\ Follow(r.st, seq, k + 1, aggr, low, f)
\* only the permutation and the order of elimination are known: the permutation (pos: row -> place) is a
\* postorder of the elimination.  T: element -> the rows of it and of all elements it absorbed
Top(pos, group, sub) == LET lo == MinOf({pos[i] : i \in sub}) IN
  /\ {pos[i] : i \in sub} = lo..(lo + Cardinality(sub) - 1)
  /\ \A i \in group, j \in sub \ group : pos[j] < pos[i]
RECURSIVE FollowQ(_, _, _, _, _, _)
FollowQ(s, seq, k, aggr, pos, T) ==
  IF k > Len(seq) THEN s.live = {}
  ELSE LET me == seq[k] IN
       /\ me \in s.live /\ Least(s, me)
       /\ LET r == TLCEval(Step(s, me, aggr, 0, {seq[i] : i \in 1..Len(seq)}))
              sub == r.group \cup UNION {T[e] : e \in r.sons} IN
          /\ ~r.clash /\ Top(pos, r.group, sub)
          /\ FollowQ(r.st, seq, k + 1, aggr, pos, (me :> TLCEval(sub)) @@ T)
\* the order of elimination is not known: is there one?  At most fuel steps are tried
\* (the search then gives up and answers yes)
RECURSIVE Search(_, _, _, _, _, _), Try(_, _, _, _, _, _, _)
Search(s, done, aggr, low, f, fuel) ==       \* -1: no; otherwise the fuel that is left
  IF s.live = {} \/ fuel = 0 THEN fuel
  ELSE Try(s, {me \in Candidates(s) : me \in f.nodes /\ f.sons[me] \subseteq done}, done, aggr, low, f, fuel)
Try(s, cand, done, aggr, low, f, fuel) ==
  IF cand = {} THEN -1 - fuel                \* failed, with this much fuel left
  ELSE IF fuel = 0 THEN 0
  ELSE LET me == MinOf(cand)
           r == TLCEval(Step(s, me, aggr, low, f.nodes))
           a == IF Agrees(r, f, me) THEN Search(r.st, done \cup {me}, aggr, low, f, fuel - 1) ELSE -1 - (fuel - 1)
       IN IF a >= 0 THEN a ELSE Try(s, cand \ {me}, done, aggr, low, f, -1 - a)
=============================================================================
