------------------------------ MODULE AmdSpec ------------------------------
(***************************************************************************)
(* AMD: which inputs are valid, what each statistic means, and the         *)
(* elimination game that gives the true fill of an ordering.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat

AMD_OK == 0   AMD_OUT_OF_MEMORY == -1   AMD_INVALID == -2   AMD_JUMBLED == 1

\* Ap, Ai sequences; entry k of the C array is at k+1
ColRows(Ap, Ai, j) == {Ai[k] : k \in (Ap[j] + 1)..Ap[j+1]}       \* j from 1
\* rows, columns: 0-based; nrow x ncol pattern.  The answer of amd_valid
ValidStatus(nrow, ncol, hasAp, hasAi, Ap, Ai) ==
  IF nrow < 0 \/ ncol < 0 \/ ~hasAp \/ ~hasAi THEN AMD_INVALID
  ELSE IF Ap[1] # 0 \/ Ap[ncol + 1] < 0 THEN AMD_INVALID
  ELSE IF \E j \in 1..ncol : Ap[j] > Ap[j+1] THEN AMD_INVALID
  ELSE IF \E k \in 1..Ap[ncol + 1] : Ai[k] < 0 \/ Ai[k] >= nrow THEN AMD_INVALID
  ELSE IF \E j \in 1..ncol : \E k \in (Ap[j] + 1)..(Ap[j+1] - 1) : Ai[k] >= Ai[k+1] THEN AMD_JUMBLED
  ELSE AMD_OK
OrderStatus(n, hasAp, hasAi, hasP, Ap, Ai) ==
  IF ~hasAp \/ ~hasAi \/ ~hasP \/ n < 0 THEN AMD_INVALID
  ELSE IF n = 0 THEN AMD_OK ELSE ValidStatus(n, n, TRUE, TRUE, Ap, Ai)

IsPerm(P, n) == Len(P) = n /\ {P[k] : k \in 1..n} = 0..(n-1)

\* the positions of the pattern, duplicates removed
Pos(n, Ap, Ai) == UNION {{<<i, j - 1>> : i \in ColRows(Ap, Ai, j)} : j \in 1..n}
NzDiag(S) == Cardinality({e \in S : e[1] = e[2]})
OffDiag(S) == {e \in S : e[1] # e[2]}
Matched(S) == {e \in OffDiag(S) : <<e[2], e[1]>> \in S}
Symm(S) == LET B == OffDiag(S) IN IF B = {} THEN "1"
           ELSE RDiv(ROfInt(Cardinality(Matched(S))), ROfInt(Cardinality(B)))
\* the undirected graph of A + A'
Edges(S) == {{e[1], e[2]} : e \in OffDiag(S)}
Adj(n, S) == LET B == OffDiag(S) IN
  [v \in 0..(n-1) |-> {e[2] : e \in {f \in B : f[1] = v}} \cup {e[1] : e \in {f \in B : f[2] = v}}]
RECURSIVE SumCard(_, _)
SumCard(adj, V) == IF V = {} THEN 0 ELSE LET v == CHOOSE x \in V : TRUE IN Cardinality(adj[v]) + SumCard(adj, V \ {v})

\* one step of the elimination game: the neighbours of v become a clique, v disappears
Eliminate(adj, v) ==
  LET N == adj[v] IN [u \in DOMAIN adj \ {v} |-> IF u \in N THEN (adj[u] \cup N) \ {u, v} ELSE adj[u] \ {v}]
RECURSIVE Counts(_, _, _)
Counts(adj, P, k) ==     \* entries below the diagonal of each column of L, eliminating P[k], P[k+1], ...
  IF k > Len(P) THEN <<>> ELSE <<Cardinality(adj[P[k]])>> \o Counts(TLCEval(Eliminate(adj, P[k])), P, k + 1)
\* the same numbers by way of the elimination tree (equal for all small graphs: MC_Amd): column k of L is
\* the later neighbours of P[k] and the columns of its sons, a column being the son of its first row
RECURSIVE Columns(_, _, _, _, _)
Columns(adj, P, pos, k, cols) ==
  IF k > Len(P) THEN cols
  ELSE LET v == P[k]
           c == TLCEval({u \in adj[v] : pos[u] > k} \cup UNION {cols[j] \ {v} : j \in {i \in 1..(k - 1) : v \in cols[i] /\ \A u \in cols[i] : pos[u] >= k}})
       IN Columns(adj, P, pos, k + 1, Append(cols, c))
\* (a value bound by "x \in {value}" is computed once; a definition is computed wherever it is used)
Bind(v) == {TLCEval(v)}
ColCounts(adj, P) ==
  CHOOSE c \in UNION {{TLCEval([k \in 1..Len(P) |-> Cardinality(cols[k])]) : cols \in Bind(Columns(adj, P, pos, 1, <<>>))}
                     : pos \in Bind([v \in DOMAIN adj |-> CHOOSE k \in 1..Len(P) : P[k] = v])} : TRUE
RECURSIVE SumF(_, _, _)
SumF(F(_), c, k) == IF k > Len(c) THEN 0 ELSE F(c[k]) + SumF(F, c, k + 1)
Id(x) == x
Sq(x) == x * x
Sum(c) == SumF(Id, c, 1)             \* entries of L, which is also the number of divisions
SumSq(c) == SumF(Sq, c, 1)           \* multiplications and subtractions of LU
MaxFront(c) == IF c = <<>> THEN 0 ELSE 1 + (CHOOSE x \in {c[k] : k \in DOMAIN c} : \A k \in DOMAIN c : c[k] <= x)

\* forests and unions of cliques, where minimum degree gives no fill at all
RECURSIVE Peel(_)
Peel(adj) == \* repeatedly remove vertices of degree <= 1
  LET R == {v \in DOMAIN adj : Cardinality(adj[v]) <= 1} IN
  IF R = {} THEN DOMAIN adj
  ELSE LET v == CHOOSE x \in R : TRUE IN Peel(TLCEval([u \in DOMAIN adj \ {v} |-> adj[u] \ {v}]))
IsForest(adj) == Peel(adj) = {}
IsCliques(adj) == \A v \in DOMAIN adj : \A u \in adj[v] : adj[u] \cup {u} = adj[v] \cup {v}

\* the degree above which a row is dense: max(16, floor(alpha sqrt n)), at most n
FloorSqrtTimes(alpha, n) == \* floor(alpha * sqrt(n)) for a number alpha >= 0
  LET t == RMul(RMul(alpha, alpha), ROfInt(n)) IN
  CHOOSE k \in 0..(n * 1000) : RCmp(ROfInt(k * k), t) <= 0 /\ RCmp(ROfInt((k+1) * (k+1)), t) > 0
DenseLimit(alpha, n) ==
  LET d == IF RSgn(alpha) < 0 THEN n - 2
           ELSE IF RCmp(RMul(alpha, alpha), ROfInt(n)) >= 0 THEN n
           ELSE FloorSqrtTimes(alpha, n)
      e == IF d > 16 THEN d ELSE 16
  IN IF e < n THEN e ELSE n
Dense(adj, alpha) == LET L == DenseLimit(alpha, Cardinality(DOMAIN adj)) IN
  {v \in DOMAIN adj : Cardinality(adj[v]) > L}

(* The assembly forest returned by amd_2: Nv[i] > 0 is a node with Nv[i] pivots and parent Pe[i];    *)
(* Nv[i] = 0 is a variable merged into the node found along Pe, or dense when it has no Pe.           *)
RECURSIVE RepOf(_, _, _, _)
RepOf(Pe, Nv, i, fuel) == IF i < 0 \/ fuel = 0 THEN -1 ELSE IF Nv[i + 1] > 0 THEN i ELSE RepOf(Pe, Nv, Pe[i + 1], fuel - 1)
Nodes(Nv) == {e \in 0..(Len(Nv) - 1) : Nv[e + 1] > 0}
Interval(S) == S = {} \/ LET m == CHOOSE x \in S : \A y \in S : x <= y IN S = m..(m + Cardinality(S) - 1)
RECURSIVE Under(_, _, _, _)
Under(rep, Pe, N, e) == \* the variables of e and of all its descendants (parents are ordered later, see ForestOK)
  {i \in DOMAIN rep : rep[i] = e} \cup UNION {Under(rep, Pe, N, f) : f \in {g \in N : Pe[g + 1] = e}}
InRange(n, Pe, Nv) == \A i \in 1..n : Pe[i] \in -1..(n - 1) /\ Nv[i] \in 0..n
\* pos: variable -> place in the order
ForestOK(n, Pe, Nv, pos, dense) ==
  \E N \in Bind(Nodes(Nv)), rep \in Bind([i \in 0..(n - 1) |-> RepOf(Pe, Nv, i, n)]) :
  /\ \A i \in 0..(n - 1) : rep[i] = -1 <=> i \in dense
  /\ \A e \in N : Cardinality({i \in 0..(n - 1) : rep[i] = e}) = Nv[e + 1]
  /\ \A e \in N : Pe[e + 1] >= 0 => Pe[e + 1] \in N /\ pos[e] < pos[Pe[e + 1]]
PostorderOK(n, Pe, Nv, pos) ==
  \E N \in Bind(Nodes(Nv)), rep \in Bind([i \in 0..(n - 1) |-> RepOf(Pe, Nv, i, n)]) :
     \A e \in N : /\ Interval({pos[i] : i \in {j \in 0..(n - 1) : rep[j] = e}})
                  /\ Interval({pos[i] : i \in Under(rep, Pe, N, e)})
\* entries of L when every node is a dense trapezoid with the dense rows below it; a row without
\* any entry is no node of that kind
RECURSIVE FrontSum(_, _, _, _, _)
FrontSum(adj, N, Nv, Elen, d) ==
  IF N = {} THEN (d * (d - 1)) \div 2
  ELSE LET e == CHOOSE x \in N : TRUE f == Nv[e + 1] r == IF adj[e] = {} THEN 0 ELSE Elen[e + 1] - Nv[e + 1] + d
       IN f * r + (f * (f - 1)) \div 2 + FrontSum(adj, N \ {e}, Nv, Elen, d)
Last(P, k) == {P[i] : i \in (Len(P) - k + 1)..Len(P)}
=============================================================================
