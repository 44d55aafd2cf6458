------------------------------ MODULE SlipApi ------------------------------
(***************************************************************************)
(* The argument rules of the public SLIP_LU functions: for every call, is  *)
(* it acceptable, and with which status does it end.  Objects are records  *)
(* (matrices as in SlipMatrix); a missing object is NULL.        *)
(***************************************************************************)
EXTENDS SlipMatrix

OK == 0   OUT_OF_MEMORY == -1   SINGULAR == -2   INCORRECT_INPUT == -3   INCORRECT == -4   PANIC == -5
NULL == [none |-> 1]

Is(A, kind, type) == A # NULL /\ A.kind = kind /\ A.type = type
NnzOf(A) == IF A = NULL THEN -1 ELSE Nnz(A)

\* d is the handle: NULL or not
AllocArgs(d, kind, type, m, n) == d # NULL /\ kind \in Kinds /\ type \in Types /\ m >= 0 /\ n >= 0
CopyArgs(d, kind, type, A) == /\ d # NULL /\ NnzOf(A) >= 0 /\ A.type \in Types
                              /\ kind \in Kinds /\ type \in Types
AnalyzeArgs(d, A) == d # NULL /\ A # NULL /\ A.kind = CSC /\ NnzOf(A) >= 0 /\ A.n = A.m
FactorArgs(l, u, r, p, A, S) ==
  /\ Is(A, CSC, MPZ) /\ NnzOf(A) >= 0 /\ A.m = A.n
  /\ l # NULL /\ u # NULL /\ r # NULL /\ p # NULL /\ S # NULL
SolveArgs(d, b, A, L, U, R, S, P) ==
  /\ Is(b, DENSE, MPZ) /\ Is(A, CSC, MPZ) /\ Is(L, CSC, MPZ) /\ Is(U, CSC, MPZ) /\ Is(R, DENSE, MPZ)
  /\ d # NULL /\ S # NULL /\ P # NULL
  /\ L.m = A.m /\ L.n = A.n /\ R.m = A.m /\ L.n = U.m /\ U.n = A.n /\ A.n = A.m /\ A.m = b.m
BackslashArgs(d, type, A, b) ==
  /\ d # NULL /\ type \in {MPQ, MPFR, FP64}
  /\ Is(A, CSC, MPZ) /\ Is(b, DENSE, MPZ) /\ A.m = A.n /\ A.m = b.m

(* The statuses a call may end with.  fired: was memory refused to it.     *)
\* good: its status when nothing goes wrong
Statuses(up, argsok, fired, good) ==
  IF ~up THEN {PANIC}
  ELSE IF ~argsok THEN {INCORRECT_INPUT}
  ELSE IF fired THEN {OUT_OF_MEMORY, good} ELSE {good}
=============================================================================
