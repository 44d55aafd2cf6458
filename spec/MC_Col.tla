------------------------------ MODULE MC_Col ------------------------------
(***************************************************************************)
(* COLAMD on every pattern with NR rows and NC columns, ties broken in     *)
(* every way:                                                              *)
(*  - the rows that are left describe exactly the graph of A'A after the   *)
(*    elimination of the columns ordered so far,                           *)
(*  - the score of a class is at least its external degree there,          *)
(*    exactly that when it is in one row besides the last one, and never   *)
(*    more than the number of columns,                                    *)
(*  - the columns of a class are indistinguishable in that graph,          *)
(*  - every column is ordered exactly once.                                *)
(***************************************************************************)
EXTENDS ColAlg
CONSTANTS NR, NC, DR, DC, Aggr
AMD == INSTANCE AmdSpec
ASSUME NR \in Nat /\ NC \in Nat /\ Aggr \in BOOLEAN
VARIABLES s, g, out, tall
vars == <<s, g, out, tall>>
Q == 0..(NC - 1)
RECURSIVE ElimAll(_, _)
ElimAll(h, S) == IF S = {} THEN h ELSE LET x == MinOf(S) IN ElimAll(TLCEval(AMD!Eliminate(h, x)), S \ {x})
\* A'A of the rows and columns that take part
Normal(t) == [q \in t.live |-> UNION {t.R[r] : r \in t.C[q]} \ {q}]

\* the order of the rows plays no part: they ascend
Code(S) == Weight([q \in Q |-> 2^q], S)
RECURSIVE Pats(_)
Pats(k) == IF k = 0 THEN {<<>>} ELSE UNION {{Append(p, S) : S \in {T \in SUBSET Q : k = 1 \/ Code(p[k - 1]) <= Code(T)}} : p \in Pats(k - 1)}
Init == \E pat \in Pats(NR) :
  /\ s = Start({e \in (1..NR) \X Q : e[2] \in pat[e[1]]}, NC, DR, DC)
  /\ g = Normal(s) /\ out = {} /\ tall = {}
Next == \E c \in s.live : Least(s, c) /\
  LET r == Step(s, c, Aggr)
      ord == r.front \cup UNION r.along IN
  /\ s' = r.st /\ g' = ElimAll(g, ord) /\ out' = out \cup ord
  /\ tall' = tall \cup (out \cap ord)
Spec == Init /\ [][Next]_vars

Reach(q) == UNION {s.mem[p] : p \in UNION {s.R[r] : r \in s.C[q]}} \ s.mem[q]
Structure == /\ DOMAIN g = UNION {s.mem[q] : q \in s.live}
             /\ \A q \in s.live : \A x \in s.mem[q] : g[x] \cup {x} = Reach(q) \cup s.mem[q]
ScoreBound == \A q \in s.live : s.sc[q] >= Cardinality(Reach(q)) /\ s.sc[q] <= NC
ScoreExact == \A q \in s.live : Cardinality(s.C[q]) <= 1 => s.sc[q] = Cardinality(Reach(q))
RowsOK == \A r \in DOMAIN s.R : /\ s.R[r] # {} /\ s.R[r] \subseteq s.live /\ s.deg[r] = Weight(s.nv, s.R[r])
                                /\ \A q \in s.live : q \in s.R[r] <=> r \in s.C[q]
Classes == /\ \A p, q \in s.live : p # q => s.mem[p] \cap s.mem[q] = {}
           /\ \A q \in s.live : s.C[q] # {} /\ s.nv[q] = Cardinality(s.mem[q])
Once == tall = {} /\ s.k = Cardinality(out) /\ Len(s.tail) + s.k + Weight(s.nv, s.live) = NC
TailOK == {s.tail[i] : i \in 1..Len(s.tail)} \cap (out \cup UNION {s.mem[q] : q \in s.live}) = {}
=============================================================================
