---------------------------- MODULE SlipSession ----------------------------
(***************************************************************************)
(* A session of a user with the factorisation part of the library: which   *)
(* objects exist, is the library initialised, and how every call ends, for *)
(* every combination of present, missing and wrong arguments (the argument *)
(* rules are those of SlipApi).  The matrices are abstract: a class says   *)
(* what a call can notice about them.                                      *)
(*                                                                         *)
(* TLC enumerates the reachable states and prints every transition with    *)
(* the call that makes it and the status it must return; lib/walk.py walks *)
(* this graph through the real library with concrete matrices.             *)
(*                                                                         *)
(*   up   is the library initialised                                       *)
(*   ld   do the input matrices exist                                      *)
(*   own  which result slots hold an object: S L U R P X                   *)
(*   cmd  the call made last, with its arguments;  st  its status          *)
(***************************************************************************)
EXTENDS SlipApi, Json
CONSTANTS MaxDev        \* how many arguments of one call may deviate from a good call

N == 3
Slots == {"S", "L", "U", "R", "P", "X"}
Factors == {"L", "U", "R", "P"}

VARIABLES up, ld, own, cmd, st
vars == <<up, ld, own, cmd, st>>
View == <<up, ld, own>>

Mk(kind, type, m, n) == [kind |-> kind, type |-> type, m |-> m, n |-> n, hp |-> IF kind = CSC THEN 1 ELSE 0, nz |-> 1,
                         p |-> IF kind = CSC THEN [k \in 1..(n+1) |-> k - 1] ELSE <<>>]
\* the classes of input matrices
Input == [good |-> Mk(CSC, MPZ, N, N), sing |-> Mk(CSC, MPZ, N, N), wide |-> Mk(CSC, MPZ, N, N + 1), tall |-> Mk(CSC, MPZ, N + 1, N),
          tri  |-> Mk(TRIPLET, MPZ, N, N), dns |-> Mk(DENSE, MPZ, N, N), i64 |-> Mk(CSC, INT64, N, N), mpq |-> Mk(CSC, MPQ, N, N),
          bgood |-> Mk(DENSE, MPZ, N, 2), brow |-> Mk(DENSE, MPZ, N + 1, 1), btyp |-> Mk(DENSE, MPQ, N, 1), bknd |-> Mk(CSC, MPZ, N, 1)]
As == {"good", "sing", "wide", "tall", "tri", "dns", "i64", "mpq"}
Bs == {"bgood", "brow", "btyp", "bknd"}
Made == [L |-> Mk(CSC, MPZ, N, N), U |-> Mk(CSC, MPZ, N, N), R |-> Mk(DENSE, MPZ, N, 1), S |-> [s |-> 1], P |-> [p |-> 1]]
\* what an argument name stands for
Arg(a) == IF a = "-" THEN NULL
          ELSE IF a \in DOMAIN Input THEN (IF ld THEN Input[a] ELSE NULL)
          ELSE IF own[a] = 1 THEN Made[a] ELSE NULL
H(d) == IF d = "-" THEN NULL ELSE [h |-> 1]
Dev(tuple, good) == Cardinality({k \in DOMAIN tuple : tuple[k] # good[k]})
Few(tuple, good) == Dev(tuple, good) <= MaxDev

Res(argsok, good) == IF ~up THEN PANIC ELSE IF ~argsok THEN INCORRECT_INPUT ELSE good

Call(c, s, u, o) == cmd' = c /\ st' = s /\ up' = u /\ own' = o
Same(c, s) == Call(c, s, up, own)
Gain(c, s, got) == Call(c, s, up, [k \in Slots |-> IF s = OK /\ k \in got THEN 1 ELSE own[k]])

InitC == \E how \in {"init", "initx", "initbad"} :
  /\ (how = "initbad" => up)                   \* would install other functions
  /\ Call(<<how>>, IF up THEN PANIC ELSE OK, TRUE, own) /\ UNCHANGED ld
FinC == Call(<<"fin">>, IF up THEN OK ELSE PANIC, FALSE, own) /\ UNCHANGED ld
Load == up /\ ~ld /\ ld' = TRUE /\ Same(<<"load">>, OK)
Unload == up /\ ld /\ ld' = FALSE /\ Same(<<"unload">>, OK)

AnalyzeC == \E d \in {"S", "-"}, a \in As \cup {"-"} :
  /\ (d = "S" => own["S"] = 0) /\ (a # "-" => ld) /\ Few(<<d, a>>, <<"S", "good">>)
  /\ Gain(<<"analyze", d, a>>, Res(AnalyzeArgs(H(d), Arg(a)), OK), {"S"}) /\ UNCHANGED ld
\* the argument tuples that deviate little from a good call (constant sets: TLC computes them once)
FactorTuples == {t \in {"L", "-"} \X {"U", "-"} \X {"R", "-"} \X {"P", "-"} \X (As \cup {"-"}) \X {"S", "-"} :
                   Few(t, <<"L", "U", "R", "P", "good", "S">>)}
FactorC == \E t \in FactorTuples :
  /\ \A k \in 1..4 : t[k] # "-" => own[t[k]] = 0
  /\ (t[5] # "-" => ld)
  /\ Gain(<<"factor">> \o t, Res(FactorArgs(H(t[1]), H(t[2]), H(t[3]), H(t[4]), Arg(t[5]), Arg(t[6])), IF t[5] = "sing" THEN SINGULAR ELSE OK), Factors)
  /\ UNCHANGED ld
FactorIn == {"wide", "tall", "dns", "i64"}
SolveTuples == {t \in {"X", "-"} \X (Bs \cup {"-"}) \X ((As \ {"sing"}) \cup {"-"}) \X ({"L", "-"} \cup FactorIn) \X ({"U", "-"} \cup FactorIn)
                        \X {"R", "-", "good", "brow", "btyp"} \X {"S", "-"} \X {"P", "-"} :
                   Few(t, <<"X", "bgood", "good", "L", "U", "R", "S", "P">>)}
SolveC == \E t \in SolveTuples :
  /\ (t[1] = "X" => own["X"] = 0)
  /\ (\A k \in 2..6 : t[k] \in DOMAIN Input => ld)
  /\ Gain(<<"solve">> \o t, Res(SolveArgs(H(t[1]), Arg(t[2]), Arg(t[3]), Arg(t[4]), Arg(t[5]), Arg(t[6]), Arg(t[7]), Arg(t[8])), OK), {"X"})
  /\ UNCHANGED ld
BackC == \E x \in {"X", "-"}, t \in {-1, 0, 1, 2, 3, 4, 5}, a \in As \cup {"-"}, b \in Bs \cup {"-"} :
  /\ Few(<<x, IF t \in {1, 2, 4} THEN 1 ELSE 0, a, b>>, <<"X", 1, "good", "bgood">>)
  /\ (x = "X" => own["X"] = 0) /\ (a # "-" => ld) /\ (b # "-" => ld)
  /\ Gain(<<"bsl", x, ToString(t), a, b>>, Res(BackslashArgs(H(x), t, Arg(a), Arg(b)), IF a = "sing" THEN SINGULAR ELSE OK), {"X"})
  /\ UNCHANGED ld
\* the same calls while some allocation fails: no result, or the result is thrown away
Failing == \/ /\ up /\ ld /\ own["S"] = 0 /\ Same(<<"f", "analyze", "S", "good">>, OK)
           \/ /\ up /\ ld /\ own["S"] = 1 /\ (\A k \in Factors : own[k] = 0) /\ \E a \in {"good", "sing"} : Same(<<"f", "factor", "L", "U", "R", "P", a, "S">>, OK)
           \/ /\ up /\ ld /\ own["S"] = 1 /\ (\A k \in Factors : own[k] = 1) /\ own["X"] = 0
              /\ Same(<<"f", "solve", "X", "bgood", "good", "L", "U", "R", "S", "P">>, OK)
           \/ /\ up /\ ld /\ own["X"] = 0 /\ \E t \in {1, 2, 4}, a \in {"good", "sing"} : Same(<<"f", "bsl", "X", ToString(t), a, "bgood">>, OK)
FailC == Failing /\ UNCHANGED ld
\* the parts of the life cycle that apply to every object, and releasing
FreeC == \E d \in Slots :
  /\ (d = "P" => up)        \* a plain block: its release would be ignored and the pointer lost
  /\ Call(<<"free", d>>, IF up THEN OK ELSE PANIC, up, IF up THEN [own EXCEPT ![d] = 0] ELSE own) /\ UNCHANGED ld
QueryC == \E q \in {"nnz", "check"}, a \in {"L", "U", "R", "X", "good", "tri", "bgood", "-"} :
  /\ (a \in DOMAIN Input => ld)
  /\ (a \in Slots => own[a] = 1)
  /\ Same(<<q, a>>, IF q = "nnz" THEN OK ELSE IF ~up THEN PANIC ELSE IF a = "-" THEN INCORRECT_INPUT ELSE OK) /\ UNCHANGED ld

Init == up = FALSE /\ ld = FALSE /\ own = [k \in Slots |-> 0] /\ cmd = <<"start">> /\ st = OK
Next == InitC \/ FinC \/ Load \/ Unload \/ AnalyzeC \/ FactorC \/ SolveC \/ BackC \/ FailC \/ FreeC \/ QueryC
Spec == Init /\ [][Next]_vars

(* ---------------- what the model itself promises ---------------- *)
TypeOK == up \in BOOLEAN /\ ld \in BOOLEAN /\ own \in [Slots -> 0..1] /\ st \in {OK, SINGULAR, INCORRECT_INPUT, PANIC}
\* outside a session nothing but initialisation succeeds, and nothing changes
DownRefuses == [][~up => /\ (st' = OK => cmd'[1] \in {"init", "initx", "nnz"})
                         /\ own' = own /\ ld' = ld]_vars
\* a call that does not succeed leaves every object as it was
FailureKeeps == [][st' # OK => own' = own /\ up' = up /\ ld' = ld]_vars
\* factors and solutions come only from complete good arguments
NoFactorsWithoutAnalysis == [][own["L"] = 0 /\ own'["L"] = 1 => own["S"] = 1 /\ ld]_vars
NoSolutionWithout == [][own["X"] = 0 /\ own'["X"] = 1 => ld /\ (cmd'[1] = "solve" => \A k \in Factors \cup {"S"} : own[k] = 1)]_vars

St(u, d, o) == ToString(u) \o ToString(d) \o ToString(o["S"]) \o ToString(o["L"]) \o ToString(o["U"]) \o ToString(o["R"]) \o ToString(o["P"]) \o ToString(o["X"])
Emit == PrintT("EDGE " \o ToJson(<<St(up, ld, own), cmd', st', St(up', ld', own')>>))
=============================================================================
