------------------------------ MODULE MC_Hist ------------------------------
(***************************************************************************)
(* The histories are right: whatever was skipped, every entry is the minor *)
(* its history says, and every division is exact.                          *)
(***************************************************************************)
EXTENDS RefHist, Functions

Ones == {[i \in 1..N |-> IF i = 1 THEN 1 ELSE 0], [i \in 1..N |-> i - 2]}
Last == {[i \in 1..N |-> 1]}
NoZero == 99            \* no stored zeros

Drop(s, t) == SubSeq(s, 1, t - 1) \o SubSeq(s, t + 1, Len(s))
RECURSIVE Det(_, _)
RECURSIVE DetSum(_, _, _)
DetSum(rs, cs, t) == IF t = 0 THEN 0
  ELSE LET a == M(rs[1], cs[t]) IN
       DetSum(rs, cs, t - 1) + (IF a = 0 THEN 0 ELSE (IF t % 2 = 1 THEN a ELSE -a) * Det(Tail(rs), Drop(cs, t)))
Det(rs, cs) == IF Len(rs) = 0 THEN 1 ELSE DetSum(rs, cs, Len(cs))
Cols(s) == [t \in 1..s |-> t]
\* entry (i, k) after s elimination steps
Level(i, s) == Det(Append(SubSeq(rows, 1, s), i), Append(Cols(s), k))

Exact == exact
\* an entry is the minor its history names
Histories == phase = "L" => \A i \in DOMAIN x : i \notin {rows[t] : t \in 1..h[i]} => x[i] = Level(i, h[i])
\* and what was skipped since was nothing but scaling
Skipped == phase = "L" =>
   LET done == IF todo = {} THEN Len(rows) ELSE Min(todo) - 1 IN
   \A i \in DOMAIN x \ {rows[t] : t \in 1..done} :
      h[i] <= done /\ (x[i] = 0 \/ x[i] * Rho(done) = Level(i, done) * Rho(h[i])) /\ (x[i] = 0 => Level(i, done) = 0)
\* nothing outside the pattern is ever needed
Outside == phase = "L" => \A i \in 1..N \ DOMAIN x : i \notin Pivotal => Level(i, Len(rows)) = 0
Factors == /\ \A t \in 1..Len(rows) : rhos[t] = Det(SubSeq(rows, 1, t), Cols(t)) /\ rhos[t] # 0
           /\ \A t \in 1..Len(rows) : \A i \in DOMAIN L[t] :
                 L[t][i] = Det(Append(SubSeq(rows, 1, t - 1), i), Cols(t))
           /\ \A t \in 1..Len(rows) : \A s \in DOMAIN U[t] :
                 U[t][s] = Det(SubSeq(rows, 1, s), Append(Cols(s - 1), t))
Singular == phase = "singular" => Det([i \in 1..N |-> i], Cols(N)) = 0
Solved == Done /\ phase = "back" =>
   \A i \in 1..N : LET S[j \in 0..N] == IF j = 0 THEN 0 ELSE S[j - 1] + M(i, j) * x[j] IN S[N] = b[i] * rhos[N]
\* the cases met (a witness for every case is replayed in the real code)
Show == Done => PrintT("HIST " \o ToString(<<[i \in 1..N |-> [j \in 1..N |-> IF A[i][j] = Zero THEN 99 ELSE A[i][j]]], b, seen>>))
=============================================================================
