------------------------------ MODULE MC_HistR -----------------------------
(***************************************************************************)
(* The machine of RefHist on random sparse systems (TLC's -seed decides    *)
(* which): invariants as in MC_Hist, and each finished run shows the cases *)
(* it met, from which lib/gen.py picks witnesses for the real code.        *)
(***************************************************************************)
EXTENDS MC_Hist, Randomization

CONSTANT Count

Entry(v) == CASE v < 3 -> v + 1 - (IF v = 2 THEN 4 ELSE 0) [] v = 3 -> Zero [] OTHER -> 0
RandInit == /\ \E s \in 1..Count :
                 /\ A = TLCEval([i \in 1..N |-> [j \in 1..N |-> LET v == RandomElement(0..(IF i = j THEN 5 ELSE 8)) IN Entry(v)]])
                 /\ b = TLCEval([i \in 1..N |-> RandomElement({0, 0, 1, 2, s % 5})])
            /\ k = 1 /\ rows = <<>> /\ L = <<>> /\ U = <<>> /\ rhos = <<>>
            /\ phase = "next" /\ x = <<>> /\ h = <<>> /\ todo = {} /\ exact = TRUE /\ seen = {}
RandSpec == RandInit /\ [][Next]_vars
=============================================================================
