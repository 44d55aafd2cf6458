----------------------------- MODULE SlipTrace -----------------------------
(***************************************************************************)
(* Trace specification.  A recorded execution of the real library (one     *)
(* JSON event per public call, written by driver/driver.c and brought to   *)
(* canonical numbers by lib/post.py) is a behaviour of this module: every  *)
(* event is consumed by the action of its call, which computes from the    *)
(* abstract state what the call had to do.                                 *)
(*                                                                         *)
(*   up     is the library initialised                                     *)
(*   heap   the live objects: name -> contents (matrix, analysis, ...)     *)
(*   gv     variables of the GMP layer                                     *)
(*   memo   results seen for (call, arguments, options) in this group      *)
(*   sing   determinant = 0 ?, by matrix;  sol  exact solutions, by (A,b)  *)
(*   ph lu guide   the elimination machine of RefLU, stepped silently      *)
(*          while a factorisation (or one-call solve) is being judged      *)
(*                                                                         *)
(* An obligation belongs to a set of properties; those of the property in  *)
(* the environment variable PROP are enforced.  A failed obligation is     *)
(* printed and counted, and the rest of the trace is still examined; the   *)
(* trace is accepted if all lines were consumed and no obligation failed.  *)
(***************************************************************************)
EXTENDS SlipApi, TLC, Json, IOUtils

LU  == INSTANCE RefLU
AMD == INSTANCE AmdSpec
ALG == INSTANCE AmdAlg
COL == INSTANCE ColamdSpec
CAL == INSTANCE ColAlg
GMP == INSTANCE GmpSpec
MEM == INSTANCE MemSpec
UTL == INSTANCE UtilSpec

Trace == ndJsonDeserialize(IOEnv.TRACE)
Enforce == IF IOEnv.PROP = "ALL" THEN {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21","C22","C23","C24","C25","C26","C27"} ELSE {IOEnv.PROP}
MaxLU == 80

VARIABLES l, up, heap, gv, memo, sing, sol, ph, lu, guide, prevlive
vars == <<l, up, heap, gv, memo, sing, sol, ph, lu, guide, prevlive>>

E == Trace[l]
NoLu == [k |-> 0]

(* ---------------- obligations ---------------- *)
\* register 1: failures, 2: label -> times checked, 3: highest line
Ob(P, label, cond) ==
  IF P \cap Enforce = {} THEN TRUE
  ELSE /\ LET c == TLCGet(2) IN TLCSet(2, IF label \in DOMAIN c THEN [c EXCEPT ![label] = @ + 1] ELSE (label :> 1) @@ c)
       /\ IF cond THEN TRUE
          ELSE /\ TLCSet(1, TLCGet(1) + 1)
               /\ PrintT("FAIL " \o ToString(l) \o " " \o E.sc \o " " \o ToString(E.ln) \o " " \o E.ev \o " " \o label)
On(P) == P \cap Enforce # {}
AllC == {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17",
         "C18","C19","C20","C21","C22","C23","C24","C25","C26","C27"}

\* (a value bound by "x \in {value}" is computed once; a definition is computed wherever it is used)
Bind(v) == {TLCEval(v)}

(* ---------------- the orderings, step by step ---------------- *)
ColStart(cells, nr, nc, k0, k1) == CAL!Start(cells, nc, COL!DenseDeg(k0, nc, nc), COL!DenseDeg(k1, COL!Mn(nr, nc), nr))
ColStepsOK(cells, nr, nc, k0, k1, k2, P) ==
  \E s \in Bind(ColStart(cells, nr, nc, k0, k1)) : CAL!Follow(s, SubSeq(P, 1, nc), RSgn(k2) # 0)
\* the rows of M: one number for each entry below the diagonal
SymCells(S, n) == UNION {{<<e[1] * n + e[2], e[1]>>, <<e[1] * n + e[2], e[2]>>} : e \in COL!Lower(S)}
SymStepsOK(S, n, k0, k2, P) ==
  \E m \in Bind(Cardinality(COL!Lower(S))) :
  \E s \in Bind(CAL!Start(SymCells(S, n), n, n - 1, COL!DenseDeg(k0, COL!Mn(m, n), m))) : CAL!Follow(s, SubSeq(P, 1, n), RSgn(k2) # 0)
\* AMD: piv is what amd_2 tells about the order of elimination
AmdStepsOK(adj, dense, piv, aggr, P) ==
  \E s \in Bind(ALG!Start(adj, dense)), pos \in Bind([v \in DOMAIN adj |-> CHOOSE k \in 1..Len(P) : P[k] = v]) :
     (piv = <<>>) \/ ALG!FollowQ(s, piv, 1, aggr, pos, <<>>)

(* ---------------- objects ---------------- *)
None == NULL
Obj(nm) == IF nm \in DOMAIN heap THEN heap[nm] ELSE None
Handle(nm) == IF nm = "-" THEN None ELSE [handle |-> 1]
Drop(h, nms) == [k \in DOMAIN h \ nms |-> h[k]]
Put(h, nm, v) == (nm :> v) @@ h
Fired == E.fired > 0
Live == prevlive

(* ---------------- what every call owes ---------------- *)
HarnessEvents == {"Reset", "End", "Mat", "OptSet", "GSet", "PSet", "SSet", "Crash"}
NoEffect == E.na = 0 /\ E.nf = 0 /\ E.chg = <<>> /\ E.new = <<>> /\ E.gone = <<>>
LayerProp == CASE E.ev = "G" -> {"C18"} [] E.ev = "Mem" -> {"C22"} [] E.ev \in {"Amd", "Amd2"} -> {"C19"} [] E.ev = "Symamd" -> {"C21"} [] E.ev = "Util" -> {"C24"} [] E.ev = "AmdF" -> {"C26"} [] OTHER -> {}
Common(mayChange, mayPrint) ==
  /\ Ob({"C15", "C14"} \cup LayerProp, "blocks are released once and through the user's functions", E.bad = 0)
  /\ Ob({"C15", "C22"}, "memory comes from the user's functions", E.ev = "Check" \/ E.dm = 0)
  /\ Ob({"C12", "C15"}, "the installed functions stay installed", E.cfg = 1)
  /\ Ob({"C12", "C13"}, "the status is the one the session model predicts", E.exp \in {99, E.st})
  /\ Ob({"C23"}, "nothing is written to standard output", E.so = 0)
  /\ Ob({"C16"} \cup (IF E.ev = "Copy" THEN {"C07"} ELSE IF E.ev = "Check" THEN {"C10"}
                      ELSE IF E.ev = "G" THEN {"C18"} ELSE IF E.ev \in {"Solve", "Backslash"} THEN {"C01"} ELSE {}),
        "no input is modified", \A k \in 1..Len(E.chg) : E.chg[k] \in mayChange)
  /\ Ob({"C23"}, "printing is allowed at this level", mayPrint \/ E.pc = 0)

Lvl == E.opt.print
\* when a call with options may print
MayPrint ==
  CASE Lvl <= 0 -> FALSE
    [] Lvl = 1 -> \/ E.st # OK
                  \/ E.ev \in {"Analyze", "Backslash"}
                  \/ E.ev = "Solve" /\ E.opt.check = 1
    [] OTHER -> TRUE

(* A refused call (library not initialised).                               *)
Refused(h) ==
  /\ Ob({"C12"}, "refused with the panic status", E.st = PANIC)
  /\ Ob({"C12"}, "a refused call has no effect", NoEffect /\ E.pc = 0)
  /\ Ob({"C12"}, "a refused call leaves the handle alone", h)

\* a call with options that returns objects; argsok, good: expected status without faults, hs: handle codes
Status(argsok, good, hs) ==
  LET S == Statuses(TRUE, argsok, Fired, good) IN
  /\ (~argsok => /\ Ob({"C13"}, "invalid arguments give incorrect input", E.st = INCORRECT_INPUT)
                 /\ Ob({"C13"}, "no object is returned for invalid arguments", \A k \in 1..Len(hs) : hs[k] = 0)
                 /\ Ob({"C13"}, "a rejected call leaks nothing", E.live = Live)
                 /\ Ob({"C13"}, "a rejected call leaves its inputs unchanged", E.chg = <<>> /\ E.gone = <<>> /\ E.new = <<>>))
  /\ (argsok /\ Fired => /\ Ob({"C14"}, "a failed allocation gives out of memory or a correct result", E.st \in {OUT_OF_MEMORY, good})
                         /\ Ob({"C14"}, "no object is returned when memory lacks", E.st = OUT_OF_MEMORY => \A k \in 1..Len(hs) : hs[k] = 0)
                         /\ Ob({"C14"}, "inputs survive a failed allocation", E.chg = <<>> /\ E.gone = <<>>))
  /\ (argsok /\ ~Fired => Ob(AllC \ {"C18","C19","C20","C21","C22","C24","C26","C27"}, "the call ends with the expected status", E.st = good))
  /\ (argsok => Ob(AllC \ {"C18","C19","C20","C21","C22","C24","C26","C27"}, "success returns the objects", E.st = OK => \A k \in 1..Len(hs) : hs[k] = 1))
  /\ (argsok => Ob({"C02", "C14", "C13"}, "failure returns no objects", E.st # OK => \A k \in 1..Len(hs) : hs[k] = 0))

(* Same call, same arguments, same options: same result.                   *)
OptKey == ToString(E.opt.pivot) \o "," \o ToString(E.opt.order) \o "," \o E.opt.tol \o ","
          \o ToString(E.opt.prec) \o "," \o ToString(E.opt.round)
Cd(nm) == IF nm \in DOMAIN heap THEN heap[nm].cd ELSE nm
Memo(key, val) ==
  /\ Ob({"C16", "C17", "C14"}, "same inputs and options give the same result", key \in DOMAIN memo => memo[key] = val)
  /\ memo' = IF key \in DOMAIN memo THEN memo ELSE Put(memo, key, val)
MemoIf(c, key, val) == IF c /\ On({"C14", "C16", "C17"}) THEN Memo(key, val) ELSE UNCHANGED memo

SameIf(c, label, key, val) ==           \* the same for a property of its own
  IF c /\ On({"C26", "C27"}) THEN /\ Ob({"C26", "C27"}, label, key \in DOMAIN memo => memo[key] = val)
                           /\ memo' = IF key \in DOMAIN memo THEN memo ELSE Put(memo, key, val)
  ELSE UNCHANGED memo

Keep == UNCHANGED <<gv, sing, sol>>
Done == /\ l' = l + 1 /\ ph' = "ev" /\ lu' = NoLu /\ guide' = <<>> /\ prevlive' = E.live
        /\ TLCSet(3, l)

(* ---------------- session ---------------- *)
DoReset ==
  /\ up' = FALSE /\ heap' = <<>> /\ gv' = <<>>
  /\ IF E.newgrp = 1 THEN memo' = <<>> /\ sing' = <<>> /\ sol' = <<>> ELSE UNCHANGED <<memo, sing, sol>>
  /\ Done
DoEnd ==
  /\ Ob({"C15", "C14"}, "no memory is outstanding after finalization",
        (~up /\ heap = <<>> /\ gv = <<>>) => E.live = 0)
  /\ UNCHANGED <<up, heap, memo>> /\ Keep /\ Done
DoCrash ==
  /\ Ob(AllC, "the call returns (no crash, no hang, no access outside blocks)", FALSE)
  /\ UNCHANGED <<up, heap, memo>> /\ Keep /\ Done
DoInit ==
  /\ Common({}, FALSE)
  /\ Ob({"C12"}, "initialization is refused when already done, and only then", E.st = (IF up THEN PANIC ELSE OK))
  /\ Ob({"C12"}, "initialization changes nothing", E.chg = <<>> /\ (up => E.na = 0 /\ E.nf = 0))
  /\ up' = TRUE /\ UNCHANGED <<heap, memo>> /\ Keep /\ Done
DoFinalize ==
  /\ Common({}, FALSE)
  /\ Ob({"C12"}, "finalization is refused before initialization, and only then", E.st = (IF up THEN OK ELSE PANIC))
  /\ Ob({"C12"}, "finalization changes no object", E.chg = <<>> /\ (~up => E.na = 0 /\ E.nf = 0))
  /\ up' = FALSE /\ UNCHANGED <<heap, memo>> /\ Keep /\ Done

(* ---------------- harness actions: objects made by the user ---------------- *)
DoMat ==
  /\ (up /\ ~Fired => Ob({"C11"}, "allocating a matrix succeeds", E.st = OK))
  /\ heap' = IF E.st = OK /\ "kind" \in DOMAIN E.out THEN Put(heap, E.d, E.out @@ [cd |-> E.cd]) ELSE Drop(heap, {E.d})
  /\ UNCHANGED <<up, memo>> /\ Keep /\ Done
DoPSet == heap' = Put(heap, E.d, [perm |-> E.v, cd |-> E.cd, fid |-> "user"]) /\ UNCHANGED <<up, memo>> /\ Keep /\ Done
DoSSet == heap' = Put(heap, E.d, E.out @@ [cd |-> E.cd]) /\ UNCHANGED <<up, memo>> /\ Keep /\ Done
DoOptSet == heap' = Put(heap, E.d, [cd |-> "opt"]) /\ UNCHANGED <<up, memo>> /\ Keep /\ Done

(* ---------------- options ---------------- *)
Defaults == [pivot |-> 3, order |-> 1, tol |-> "1", print |-> 0, prec |-> 128, round |-> 0, check |-> 0]
DoOptNew ==
  /\ Common({}, FALSE)
  /\ IF ~up THEN /\ Ob({"C12"}, "no default options outside a session", E.h = 0)
                 /\ Ob({"C12"}, "a refused call has no effect", NoEffect)
     ELSE /\ Ob({"C14", "C17"}, "default options are returned unless memory lacks", E.h = 1 \/ Fired)
          /\ (E.h = 1 => Ob({"C17"}, "the defaults are the documented ones", E.opt = Defaults))
  /\ heap' = IF E.h = 1 THEN Put(heap, E.d, [cd |-> "opt"]) ELSE Drop(heap, {E.d})
  /\ UNCHANGED <<up, memo>> /\ Keep /\ Done
DoOptFree ==
  /\ Common({}, FALSE)
  /\ heap' = Drop(heap, {E.d}) /\ UNCHANGED <<up, memo>> /\ Keep /\ Done

(* ---------------- matrices ---------------- *)
Big(x) == ROfInt(x)
WantNzmax == LET z == IF E.kind = DENSE THEN E.m * E.n ELSE E.nzmax IN IF z > 1 THEN z ELSE 1
AllocGood(M) ==
  /\ M.kind = E.kind /\ M.type = E.type /\ M.m = E.m /\ M.n = E.n
  /\ M.nzmax = WantNzmax /\ M.scale = "1" /\ M.nz = 0
  /\ IF E.shal # 0 THEN /\ M.hp = 0 /\ M.hi = 0 /\ M.hj = 0 /\ M.hx = 0
                        /\ M.sp = 1 /\ M.si = 1 /\ M.sj = 1 /\ M.sx = 1
     ELSE /\ M.sp = 0 /\ M.si = 0 /\ M.sj = 0 /\ M.sx = 0
          /\ M.hp = (IF E.kind = CSC THEN 1 ELSE 0) /\ M.hi = (IF E.kind = DENSE THEN 0 ELSE 1)
          /\ M.hj = (IF E.kind = TRIPLET THEN 1 ELSE 0) /\ M.hx = 1
          /\ (E.kind = CSC => M.cp >= E.n + 1) /\ (E.kind # DENSE => M.ci >= M.nzmax)
          /\ (E.kind = TRIPLET => M.cj >= M.nzmax) /\ M.cx >= M.nzmax
          /\ M.izero = 1
          /\ (E.init # 0 \/ E.type \in {INT64, FP64} => M.xinit = 1 /\ M.xzero = 1)
          /\ (E.init # 0 /\ E.type = MPFR => M.xprec = E.opt.prec)
          /\ (E.init # 0 => Valid(M))
DoAlloc ==
  /\ Common({}, MayPrint)
  /\ IF ~up THEN Refused(E.h = 2 \/ E.d = "-")
     ELSE LET ok == AllocArgs(Handle(E.d), E.kind, E.type, E.m, E.n)
              huge == E.huge = 1            \* more than can be had
          IN /\ Status(ok, IF huge THEN OUT_OF_MEMORY ELSE OK, <<E.h>>)
             /\ (E.st = OK /\ E.h = 1 /\ ~huge =>
                   /\ Ob({"C11"}, "the new matrix is as requested and empty", AllocGood(E.out))
                   /\ Ob({"C11", "C16"}, "the new matrix shares no memory", E.out_share = 0))
  /\ MemoIf(up /\ ~Fired /\ E.h = 1, "Alloc" \o ToString(<<E.kind, E.type, E.m, E.n, E.nzmax, E.shal, E.init>>) \o ToString(E.opt.prec), E.cd)
  /\ heap' = IF E.d = "-" THEN heap ELSE IF E.h = 1 THEN Put(heap, E.d, E.out @@ [cd |-> E.cd]) ELSE Drop(heap, {E.d})
  /\ UNCHANGED up /\ Keep /\ Done
DoMFree ==
  /\ Common({}, FALSE)
  /\ IF ~up THEN Refused(E.h = E.had)
     ELSE /\ Ob({"C11"}, "freeing succeeds and clears the handle", E.st = OK /\ E.h = 0)
          /\ Ob({"C11", "C15"}, "freeing releases the owned parts and no others", E.leftown = 0 /\ E.lostsh = 0)
          /\ (E.had = 0 => Ob({"C11"}, "freeing nothing does nothing", NoEffect))
  /\ heap' = IF E.h = 0 THEN Drop(heap, {E.d}) ELSE heap
  /\ UNCHANGED <<up, memo>> /\ Keep /\ Done
DoNnz ==
  /\ Common({}, FALSE)
  /\ (~up => Ob({"C12"}, "no count outside a session", E.ret = -1 /\ NoEffect))
  /\ (up => Ob({"C11"}, "the entry count is the number of stored entries", E.ret = NnzOf(Obj(E.a))))
  /\ (up /\ Obj(E.a) = None => Ob({"C13"}, "no count for a missing matrix", E.ret = -1))
  /\ UNCHANGED <<up, heap, memo>> /\ Keep /\ Done

\* printed entries <<row, col, value>> against the stored ones
Near(v, s, type) ==
  IF s = v THEN TRUE
  ELSE IF IsSpecial(v) \/ ~RIsNum(s) THEN FALSE
  ELSE CASE type \in {MPZ, MPQ, INT64} -> REq(v, s)
         [] type = FP64 -> RCmpAbs(RSub(v, s), "1/1000000") <= 0
         [] OTHER -> RCmpAbs(RSub(v, s), RPow10(-E.opt.prec)) <= 0
ShownOK(A) == \A k \in 1..Len(E.ents) :
                 \E e \in Stored(A) : e[1] = E.ents[k][1] /\ e[2] = E.ents[k][2] /\ Near(e[3], E.ents[k][3], A.type)
AllShown(A) == Pattern(A) = {<<E.ents[k][1], E.ents[k][2]>> : k \in 1..Len(E.ents)} /\ Len(E.ents) = Cardinality(Pattern(A))
KindName(k) == CASE k = CSC -> "csc" [] k = TRIPLET -> "triplet" [] OTHER -> "dense"
TypeNames(t) == CASE t = MPZ -> {"mpz"} [] t = MPQ -> {"mpq"} [] t = MPFR -> {"mpfr"} [] t = INT64 -> {"int64"} [] OTHER -> {"double", "fp64"}
DoCheck ==
  /\ Common({}, MayPrint)
  /\ IF ~up THEN Refused(TRUE)
     ELSE LET A == Obj(E.a)
              ok == IF A = None THEN FALSE ELSE Valid(A)
          IN
          /\ (A = None => Status(FALSE, OK, <<>>))
          /\ (A # None /\ ~Fired => Ob({"C10"}, "a matrix is accepted if and only if it is valid", E.st = (IF ok THEN OK ELSE INCORRECT_INPUT)))
          /\ (A # None /\ ~ok /\ ~Fired => Ob({"C13"}, "an invalid matrix is reported", E.st = INCORRECT_INPUT))
          /\ (Fired => Ob({"C14"}, "a failed allocation gives out of memory or a correct result",
                          E.st \in {OUT_OF_MEMORY, IF ok THEN OK ELSE INCORRECT_INPUT}))
          /\ Ob({"C10", "C14", "C15"}, "the check releases its workspace", E.live = Live \/ E.opt.print >= 2)
          /\ (E.st = OK /\ ok /\ E.pn = 0 /\ Lvl >= 2 /\ ~Fired /\ AllNumbers(A) =>
                /\ Ob({"C23"}, "the excerpt names the kind, the type and the sizes of the matrix",
                       /\ {E.words[k] : k \in 1..Len(E.words)} \in {{KindName(A.kind), t} : t \in TypeNames(A.type)}
                       /\ (A.m < MaxInt /\ A.n < MaxInt =>
                             {ToString(A.m), ToString(A.n), ToString(Nnz(A)), A.scale} \subseteq {E.tok[k] : k \in 1..Len(E.tok)}))
                /\ Ob({"C23"}, "printed entries are entries of the matrix", ShownOK(A))
                /\ (Lvl >= 3 => Ob({"C23"}, "every entry is printed", AllShown(A)))
                /\ (Lvl = 2 => Ob({"C23"}, "the excerpt is bounded", E.nlines <= 64)))
          /\ (E.st = INCORRECT_INPUT /\ Lvl >= 1 /\ E.pn = 0 => Ob({"C23"}, "errors are printed", E.pc > 0))
  /\ MemoIf((IF up /\ ~Fired /\ Obj(E.a) # None THEN Valid(Obj(E.a)) ELSE FALSE), "Check" \o Cd(E.a), ToString(E.st))
  /\ UNCHANGED <<up, heap>> /\ Keep /\ Done

CopyProps(A) ==
  (IF ExactPair(A.type, E.type) THEN {"C07"} ELSE {}) \cup
  (IF E.type = MPZ THEN {"C08"} ELSE {}) \cup
  (IF (~ExactPair(A.type, E.type) /\ E.type # MPZ) \/ (A.type = MPFR /\ E.type = MPFR) THEN {"C09"} ELSE {})
\* conversions with a promised result: no NaN or infinity to a rational, nothing beyond the doubles to a
\* double, no big integer to int64, and a NaN is not made an entry of a sparse matrix
Convertible(A) ==
  /\ AllNumbers(A) /\ A.scale # "0"
  /\ (E.type \in {MPZ, MPQ} => Finite(A))
  /\ (A.type = MPZ /\ E.type = INT64 /\ A.scale = "1" => \A k \in 1..Len(A.x) : FitsInt64(A.x[k]))
  /\ (A.type \in {MPZ, MPQ} /\ E.type = FP64 => \A k \in 1..Len(A.x) : RCmpAbs(Value(A, A.x[k]), MaxDouble) <= 0)
  /\ (E.type = MPFR /\ A.kind = DENSE /\ E.kind # DENSE => \A k \in 1..Len(A.x) : A.x[k] # "nan")
CopyGood(A, C, P) ==
  /\ Ob(P, "the copy has the requested kind, type and shape", ConvShape(A, E.kind, E.type, C))
  /\ Ob(P, "the copy is a valid matrix that owns its parts", WellFormed(C))
  /\ Ob(P, "the scale of the copy is a nonzero number", RCanon(C.scale) /\ C.scale # "0" /\ (C.type # MPZ => C.scale = "1"))
  /\ Ob(P, "the stored numbers are canonical", Canonical(C))
  /\ Ob(P, "the copy has the expected entries",
        WellFormed(C) /\ RIsNum(C.scale) /\ C.scale # "0" /\ AllNumbers(C) =>
          OutEntries(A, C) = ConvEntries(A, E.kind, E.type, E.opt.prec, E.opt.round))
  /\ Ob(P, "the copy has the requested precision", C.type = MPFR /\ Len(C.x) > 0 => C.xp = E.opt.prec)
  /\ Ob(P \cup {"C07", "C16"}, "the copy shares no memory", E.sh_out = 0)
DoCopy ==
  /\ Common({}, MayPrint)
  /\ IF ~up THEN Refused(E.h = 2 \/ E.d = "-")
     ELSE LET A == Obj(E.a)
              ok == CopyArgs(Handle(E.d), E.kind, E.type, A)
          IN /\ (ok => (Convertible(A) => Status(ok, OK, <<E.h>>)))
             /\ (~ok => Status(ok, OK, <<E.h>>))
             /\ ((ok /\ E.st = OK /\ E.h = 1) => (Convertible(A) => CopyGood(A, E.out, CopyProps(A))))
  /\ MemoIf(up /\ E.h = 1, "Copy" \o ToString(<<E.kind, E.type>>) \o Cd(E.a) \o OptKey, E.cd)
  /\ heap' = IF E.d = "-" THEN heap ELSE IF E.h = 1 THEN Put(heap, E.d, E.out @@ [cd |-> E.cd]) ELSE Drop(heap, {E.d})
  /\ UNCHANGED up /\ Keep /\ Done

(* ---------------- analysis ---------------- *)
AMDORD == 2   COLAMDORD == 1   NOORD == 0
Bound(n, z) == z >= n /\ RCmp(ROfInt(z), RMul(ROfInt(n), ROfInt(n))) <= 0
Perm0(q, n) == Len(q) >= n /\ {q[k] : k \in 1..n} = 0..(n-1)
OrderFails(A, order) ==
  CASE order = NOORD -> FALSE
    [] order = AMDORD -> AMD!OrderStatus(A.n, A.hp = 1, A.hi = 1, TRUE, A.p, A.i) = AMD!AMD_INVALID
    [] OTHER -> COL!ColamdDiag([hasA |-> TRUE, hasp |-> TRUE, nr |-> A.n, nc |-> A.n, Alen |-> MaxInt, p |-> A.p, A |-> A.i]).st < 0
DoAnalyze ==
  /\ Common({}, MayPrint)
  /\ IF ~up THEN Refused(E.h = 2 \/ E.d = "-")
     ELSE LET A == Obj(E.a)
              ok == AnalyzeArgs(Handle(E.d), A)
              \* the ordering does not take this pattern
              bad == ok /\ OrderFails(A, E.opt.order)
          IN IF bad
             THEN Ob({"C05", "C13"}, "a failure of the ordering is reported and nothing is returned", E.st # OK /\ E.h = 0)
             ELSE /\ Status(ok, OK, <<E.h>>)
                  /\ (ok /\ E.st = OK /\ E.h = 1 =>
                       /\ Ob({"C05"}, "the column order is a permutation", Perm0(E.out.q, A.n))
                       /\ (E.opt.order = COLAMDORD /\ On({"C27"}) =>
                             Ob({"C27"}, "the analysis orders by COLAMD with its default knobs",
                               Perm0(E.out.q, A.n) /\ ColStepsOK(AMD!Pos(A.n, A.p, A.i), A.n, A.n, "10", "10", "1", E.out.q)))
                       /\ (E.opt.order = AMDORD /\ On({"C26"}) =>
                             \E adj \in Bind(AMD!Adj(A.n, AMD!Pos(A.n, A.p, A.i))) :
                             Ob({"C26"}, "the analysis orders by AMD with its default parameters",
                               Perm0(E.out.q, A.n) /\ AmdStepsOK(adj, AMD!Dense(adj, "10"), E.piv, TRUE, SubSeq(E.out.q, 1, A.n))))
                       /\ Ob({"C05"}, "no ordering means the identity",
                             E.opt.order = NOORD => \A k \in 1..A.n : E.out.q[k] = k - 1)
                       /\ Ob({"C05"}, "the estimates are between n and n*n", A.n >= 1 => Bound(A.n, E.out.lnz) /\ Bound(A.n, E.out.unz))
                       /\ Ob({"C23"}, "ordering information is printed", (Lvl >= 1 /\ E.pn = 0 /\ E.opt.order # NOORD) => E.pc > 0))
  /\ MemoIf(up /\ E.h = 1, "Analyze" \o Cd(E.a) \o OptKey, E.cd)
  /\ heap' = IF E.d = "-" THEN heap ELSE IF E.h = 1 THEN Put(heap, E.d, E.out @@ [cd |-> E.cd]) ELSE Drop(heap, {E.d})
  /\ UNCHANGED up /\ Keep /\ Done
DoAFree ==
  /\ Common({}, FALSE)
  /\ IF ~up THEN Refused(E.h = E.had)
     ELSE /\ Ob({"C11", "C15"}, "freeing an analysis releases it and clears the handle", E.st = OK /\ E.h = 0 /\ E.leftown = 0)
          /\ (E.had = 0 => Ob({"C11"}, "freeing nothing does nothing", NoEffect))
  /\ heap' = IF E.h = 0 THEN Drop(heap, {E.d}) ELSE heap
  /\ UNCHANGED <<up, memo>> /\ Keep /\ Done
DoPFree ==
  /\ Common({}, FALSE)
  /\ (~up => Ob({"C12"}, "a release outside a session is ignored", NoEffect \/ E.had = 0))
  /\ (up /\ E.had = 1 => Ob({"C15", "C22"}, "the block is released", E.still = 0))
  /\ heap' = IF E.still = 0 THEN Drop(heap, {E.d}) ELSE heap
  /\ UNCHANGED <<up, memo>> /\ Keep /\ Done

(* ---------------- factorisation ---------------- *)
FA == Obj(E.a)
FS == IF E.ev = "Factor" THEN Obj(E.s) ELSE None
FactorOK == FactorArgs(Handle(E.l), Handle(E.u), Handle(E.r), Handle(E.p), FA, FS)
FactorReadable == FactorOK /\ Valid(FA) /\ AllNumbers(FA) /\ Perm0(FS.q, FA.n)
Known(c) == c \in DOMAIN sing
SolKey(a, b) == a \o "|" \o b

BackOK == BackslashArgs(Handle(E.d), E.type, FA, Obj(E.b))
BackReadable == BackOK /\ Valid(FA) /\ AllNumbers(FA) /\ Valid(Obj(E.b)) /\ AllNumbers(Obj(E.b)) /\ FA.scale # "0" /\ Obj(E.b).scale # "0"
FreeRun == Enforce # {} /\ E.st \in {OK, SINGULAR} /\ ~Known(Cd(E.a))
\* does judging this event need the elimination machine
NeedsLU ==
  /\ up
  /\ \/ /\ E.ev = "Factor" /\ E.st \in {OK, SINGULAR}
        /\ FactorReadable /\ FA.n >= 1 /\ FA.n <= MaxLU
        /\ \/ On({"C03", "C04"}) /\ E.st = OK
           \/ ~Known(Cd(E.a)) /\ (On({"C02"}) \/ E.st = SINGULAR)
     \/ /\ E.ev = "Backslash" /\ E.st \in {OK, SINGULAR}
        /\ BackReadable /\ FA.n >= 1 /\ FA.n <= MaxLU
        /\ \/ ~Known(Cd(E.a)) /\ (On({"C02"}) \/ E.st = SINGULAR)
           \/ E.st = OK /\ On({"C06"}) /\ SolKey(Cd(E.a), Cd(E.b)) \notin DOMAIN sol

\* the logged row permutation gives the pivot row of every step
Guide == IF E.ev = "Factor" /\ E.st = OK /\ E.hp = 1 /\ Len(E.pinv) = FA.n /\ {E.pinv[k] : k \in 1..FA.n} = 0..(FA.n - 1)
         THEN [t \in 1..FA.n |-> CHOOSE r \in 1..FA.n : E.pinv[r] = t - 1] ELSE <<>>
ColSeq == IF E.ev = "Factor" THEN [t \in 1..FA.n |-> FS.q[t] + 1] ELSE [t \in 1..FA.n |-> t]
StartLU ==
  /\ ph = "ev" /\ NeedsLU
  /\ ph' = "lu" /\ lu' = LU!LuInit(FA.n, FullRows(FA), TLCEval(ColSeq)) /\ guide' = TLCEval(Guide)
  /\ UNCHANGED <<l, up, heap, gv, memo, sing, sol, prevlive>>
\* one elimination step: the pivot the code chose, or any candidate when it chose none
PivotStep ==
  /\ ph = "lu" /\ ~LU!LuDone(lu) /\ ~LU!LuStuck(lu)
  /\ LET C == LU!Cands(lu)
         r == IF guide # <<>> THEN guide[lu.k + 1] ELSE CHOOSE x \in C : TRUE
     IN IF r \in C
        THEN /\ (guide # <<>> =>
                  Ob({"C04"}, "the pivot obeys the scheme",
                     LU!PivotOK(E.opt.pivot, E.opt.tol, LU!ColOf(lu), C, LU!PivCol(lu), r)))
             /\ lu' = LU!LuStep(lu, r) /\ UNCHANGED guide
        ELSE /\ Ob({"C03", "C04"}, "the pivot is a nonzero candidate", FALSE)
             /\ lu' = LU!LuStep(lu, CHOOSE x \in C : TRUE) /\ guide' = <<>>
  /\ UNCHANGED <<l, up, heap, gv, memo, sing, sol, ph, prevlive>>
LuFinal == ph = "lu" /\ (LU!LuDone(lu) \/ LU!LuStuck(lu))
NowKnown == LuFinal \/ Known(Cd(E.a))
IsSingular == IF LuFinal THEN LU!LuStuck(lu) ELSE sing[Cd(E.a)]
Learn == sing' = IF LuFinal /\ ~Known(Cd(E.a)) THEN Put(sing, Cd(E.a), LU!LuStuck(lu)) ELSE sing

\* L as logged against the machine: entry (s, t) in pivot order
LWant(s, t) == LET f == lu.L[t + 1] r == lu.rows[s + 1] IN IF r \in DOMAIN f THEN f[r] ELSE "0"
UWant(s, t) == LET f == lu.U[s + 1] c == lu.q[t + 1] IN IF c \in DOMAIN f THEN f[c] ELSE "0"
Ks(M, t) == (M.p[t + 1] + 1)..M.p[t + 2]
FactorForm(M, n) == /\ M.kind = CSC /\ M.type = MPZ /\ M.m = n /\ M.n = n /\ M.scale = "1" /\ WellFormed(M)
LEntriesOK(M) == \A t \in 0..(lu.n - 1) :
   /\ \A k \in Ks(M, t) : M.i[k] >= t /\ M.x[k] = LWant(M.i[k], t)
   /\ LET R == {M.i[k] : k \in Ks(M, t)} IN \A s \in t..(lu.n - 1) : s \in R \/ LWant(s, t) = "0"
UEntriesOK(M) == \A t \in 0..(lu.n - 1) :
   /\ \A k \in Ks(M, t) : M.i[k] <= t /\ M.x[k] = UWant(M.i[k], t)
   /\ LET R == {M.i[k] : k \in Ks(M, t)} IN \A s \in 0..t : s \in R \/ UWant(s, t) = "0"
FactorGood ==
  LET n == FA.n IN
  /\ Ob({"C03"}, "the row permutation is a permutation", Len(E.pinv) = n /\ {E.pinv[k] : k \in 1..n} = 0..(n-1))
  /\ Ob({"C03"}, "L, U and rhos are well formed with scale one",
        /\ FactorForm(E.L, n) /\ FactorForm(E.U, n)
        /\ E.R.kind = DENSE /\ E.R.type = MPZ /\ E.R.m = n /\ E.R.n = 1 /\ E.R.scale = "1" /\ WellFormed(E.R))
  /\ (LuFinal /\ guide # <<>> /\ FactorForm(E.L, n) /\ FactorForm(E.U, n) =>
        /\ Ob({"C03"}, "rhos are the pivots", E.R.x = lu.rhos)
        /\ Ob({"C03"}, "L is the exact factor", LEntriesOK(E.L))
        /\ Ob({"C03"}, "U is the exact factor", UEntriesOK(E.U)))
  /\ Ob({"C16"}, "the factors share no memory", E.sh_L = 0 /\ E.sh_U = 0 /\ E.sh_R = 0)
DoFactor ==
  /\ Common({}, MayPrint)
  /\ LET hs == <<E.hl, E.hu, E.hr, E.hp>> IN
     IF ~up THEN Refused(\A k \in 1..4 : hs[k] = 2 \/ <<E.l, E.u, E.r, E.p>>[k] = "-")
     ELSE IF ~FactorOK THEN Status(FALSE, OK, hs)
     ELSE /\ (FactorReadable /\ NowKnown => Status(TRUE, IF IsSingular THEN SINGULAR ELSE OK, hs))
          /\ (FactorReadable /\ NowKnown /\ E.st \in {OK, SINGULAR} =>
                Ob({"C02"}, "singular if and only if the determinant is zero", (E.st = SINGULAR) <=> IsSingular))
          /\ (FactorReadable /\ ~NowKnown =>
                /\ Ob({"C14"}, "a failed allocation gives out of memory or a correct result",
                      Fired => E.st \in {OUT_OF_MEMORY, OK, SINGULAR})
                /\ Ob({"C02", "C14"}, "failure returns no objects", E.st # OK => \A k \in 1..4 : hs[k] = 0)
                /\ Ob(AllC \ {"C18","C19","C20","C21","C22","C24","C26","C27"}, "the call ends with the expected status",
                      ~Fired => E.st \in {OK, SINGULAR}))
          /\ (E.st = OK /\ FactorReadable => FactorGood)
  /\ IF up /\ FactorOK THEN Learn ELSE UNCHANGED sing
  /\ MemoIf(up /\ FactorOK /\ E.st \in {OK, SINGULAR}, "Factor" \o Cd(E.a) \o Cd(E.s) \o OptKey,
            IF E.st = OK THEN E.cdL \o E.cdU \o E.cdR \o E.cdP ELSE "singular")
  /\ LET tag == [fid |-> Cd(E.a) \o Cd(E.s) \o OptKey, acd |-> Cd(E.a), scd |-> Cd(E.s)]
         h0 == Drop(heap, {E.l, E.u, E.r, E.p})
     IN heap' = IF ~up /\ E.st # OK THEN heap
                ELSE IF E.st = OK /\ E.hl = 1 /\ E.hu = 1 /\ E.hr = 1 /\ E.hp = 1
                THEN (E.l :> (E.L @@ tag @@ [cd |-> E.cdL])) @@ (E.u :> (E.U @@ tag @@ [cd |-> E.cdU]))
                     @@ (E.r :> (E.R @@ tag @@ [cd |-> E.cdR])) @@ (E.p :> (tag @@ [perm |-> E.pinv, cd |-> E.cdP])) @@ h0
                ELSE h0
  /\ UNCHANGED <<up, gv, sol>> /\ Done

(* ---------------- solving ---------------- *)
\* A x = b exactly, every matrix standing for its integers over its scale
Residual0(A, b, X) ==
  LET R == FullRows(A) n == A.n IN
  \A c \in 1..b.n :
    LET x == [k \in 1..n |-> X.x[(c-1) * n + k]] IN
    \A r \in 1..A.m : RDiv(RDot(R[r], x), A.scale) = RDiv(b.x[(c-1) * b.m + r], b.scale)
SolForm(A, b, X, type) ==
  /\ X.kind = DENSE /\ X.type = type /\ X.m = A.n /\ X.n = b.n /\ X.scale = "1" /\ WellFormed(X)
  /\ Len(X.x) = A.n * b.n
SolArgsOK == SolveArgs(Handle(E.d), Obj(E.b), FA, Obj(E.l), Obj(E.u), Obj(E.r), Obj(E.s), Obj(E.p))
Tagged(nm) == "fid" \in DOMAIN heap[nm]
SolReadable ==
  /\ SolArgsOK
  /\ Tagged(E.l) /\ Tagged(E.u) /\ Tagged(E.r) /\ Tagged(E.p)
  /\ LET f == heap[E.l].fid IN heap[E.u].fid = f /\ heap[E.r].fid = f /\ heap[E.p].fid = f
  /\ heap[E.l].acd = Cd(E.a) /\ heap[E.l].scd = Cd(E.s)
  /\ Valid(FA) /\ AllNumbers(FA) /\ Valid(Obj(E.b)) /\ AllNumbers(Obj(E.b)) /\ FA.scale # "0" /\ Obj(E.b).scale # "0"
\* the factors belong to another matrix than the one given: the vector is still that of the factored one
OtherA == {nm \in DOMAIN heap : "kind" \in DOMAIN heap[nm] /\ heap[nm].cd = heap[E.l].acd}
OtherReadable ==
  /\ SolArgsOK
  /\ Tagged(E.l) /\ Tagged(E.u) /\ Tagged(E.r) /\ Tagged(E.p)
  /\ LET f == heap[E.l].fid IN f # "user" /\ heap[E.u].fid = f /\ heap[E.r].fid = f /\ heap[E.p].fid = f
  /\ heap[E.l].acd # Cd(E.a) /\ heap[E.l].scd = Cd(E.s)
  /\ Valid(FA) /\ AllNumbers(FA) /\ Valid(Obj(E.b)) /\ AllNumbers(Obj(E.b)) /\ FA.scale # "0" /\ Obj(E.b).scale # "0"
  /\ OtherA # {} /\ SolKey(heap[E.l].acd, Cd(E.b)) \in DOMAIN sol
\* the integer system of the factored matrix solved for the stored integers of b
OtherX == LET A0 == heap[CHOOSE nm \in OtherA : TRUE] s == sol[SolKey(heap[E.l].acd, Cd(E.b))] IN
          [k \in 1..Len(s) |-> RMul(s[k], RDiv(Obj(E.b).scale, A0.scale))]
\* the stored integers of A times x are those of b
Satisfies(A, b, x) ==
  LET R == FullRows(A) n == A.n IN
  \A c \in 1..b.n : LET y == [k \in 1..n |-> x[(c-1) * n + k]] IN
    \A r \in 1..A.m : RDot(R[r], y) = b.x[(c-1) * b.m + r]
Verdict ==
  LET x == TLCEval(OtherX) good == TLCEval(Satisfies(FA, Obj(E.b), x))
      want == IF E.opt.check = 1 /\ ~good THEN INCORRECT ELSE OK
  IN /\ Ob({"C25"}, "the check of a solution reports incorrect exactly when A x and b differ",
            E.st = want \/ (Fired /\ E.st = OUT_OF_MEMORY))
     /\ Ob({"C25"}, "an incorrect solution is not returned", E.st # OK => E.h = 0)
     /\ Ob({"C25"}, "the printed verdict is the one returned", E.opt.check = 1 /\ Lvl >= 1 /\ E.pn = 0 /\ E.st \in {OK, INCORRECT} =>
            (E.verified = 1 <=> good) /\ (E.wrong = 1 <=> ~good))
     /\ (E.st = OK /\ E.h = 1 =>
          Ob({"C25"}, "the vector is that of the factored matrix, scaled by the given ones",
             Len(E.out.x) = Len(x) /\ \A k \in 1..Len(x) : E.out.x[k] = RMul(x[k], RDiv(FA.scale, Obj(E.b).scale))))
LearnSol(c) == sol' = IF c THEN Put(sol, SolKey(Cd(E.a), Cd(E.b)), E.out.x) ELSE sol
DoSolve ==
  LET A == FA b == Obj(E.b)
      good == up /\ SolReadable /\ E.st = OK /\ E.h = 1
      form == good /\ SolForm(A, b, E.out, MPQ) /\ Canonical(E.out)
      ax == form /\ Residual0(A, b, E.out)
  IN
  /\ Common({}, MayPrint)
  /\ IF ~up THEN Refused(E.h = 2 \/ E.d = "-")
     ELSE IF ~SolArgsOK THEN Status(FALSE, OK, <<E.h>>)
     ELSE /\ (SolReadable => Status(TRUE, OK, <<E.h>>))
          /\ (On({"C25"}) /\ OtherReadable => Verdict)
          /\ (good => /\ Ob({"C01"}, "the solution is a dense rational matrix of the right shape", form)
                      /\ Ob({"C01", "C17"}, "A x = b exactly", On({"C01", "C17"}) => ax)
                      /\ Ob({"C16"}, "the solution shares no memory", E.sh_out = 0)
                      /\ Ob({"C17", "C23", "C25"}, "a check of a correct solution says so", E.opt.check = 1 /\ Lvl >= 1 /\ E.pn = 0 => E.verified = 1 /\ E.wrong = 0))
  /\ MemoIf(up /\ SolReadable /\ E.h = 1, "Solve" \o Cd(E.b) \o Cd(E.a) \o Cd(E.l) \o Cd(E.u) \o Cd(E.r) \o Cd(E.s) \o Cd(E.p), E.cd)
  /\ LearnSol(On({"C06", "C25"}) /\ ax)
  /\ heap' = IF E.d = "-" THEN heap ELSE IF E.h = 1 THEN Put(heap, E.d, E.out @@ [cd |-> E.cd]) ELSE Drop(heap, {E.d})
  /\ UNCHANGED <<up, gv, sing>> /\ Done

\* the exact solution, from the machine or from a verified earlier result
BCol(b, c) == [r \in 1..b.m |-> b.x[(c-1) * b.m + r]]
ExactSol(A, b) ==
  IF SolKey(Cd(E.a), Cd(E.b)) \in DOMAIN sol THEN sol[SolKey(Cd(E.a), Cd(E.b))]
  ELSE LET cols == TLCEval([c \in 1..b.n |-> TLCEval(LU!LuSolve(lu, TLCEval(BCol(b, c))))]) IN
       [k \in 1..(A.n * b.n) |-> RMul(RDiv(A.scale, b.scale), cols[((k-1) \div A.n) + 1][((k-1) % A.n) + 1])]
Target(v) == CASE E.type = MPQ -> v
               [] E.type = FP64 -> RoundDouble(v, RNDZ)
               [] OTHER -> RoundPrec(v, E.opt.prec, E.opt.round)
TargetOK(v, w) == w = Target(v) \/ (E.type = FP64 /\ RCmpAbs(v, MaxDouble) > 0 /\ w = (IF RSgn(v) > 0 THEN "inf" ELSE "-inf"))
DoBackslash ==
  LET A == FA b == Obj(E.b)
      good == up /\ BackReadable /\ E.st = OK /\ E.h = 1
      form == good /\ SolForm(A, b, E.out, E.type) /\ Canonical(E.out)
      haveSol == (LuFinal /\ LU!LuDone(lu)) \/ SolKey(Cd(E.a), Cd(E.b)) \in DOMAIN sol
      ex == IF form /\ haveSol /\ On({"C06"}) THEN TLCEval(ExactSol(A, b)) ELSE <<>>
  IN
  /\ Common({}, MayPrint)
  /\ IF ~up THEN Refused(E.h = 2 \/ E.d = "-")
     ELSE IF ~BackOK THEN Status(FALSE, OK, <<E.h>>)
     ELSE /\ (BackReadable /\ NowKnown => Status(TRUE, IF IsSingular THEN SINGULAR ELSE OK, <<E.h>>))
          /\ (BackReadable /\ NowKnown /\ E.st \in {OK, SINGULAR} =>
                Ob({"C02"}, "singular if and only if the determinant is zero", (E.st = SINGULAR) <=> IsSingular))
          /\ (BackReadable /\ ~NowKnown =>
                /\ Ob({"C14"}, "a failed allocation gives out of memory or a correct result",
                      Fired => E.st \in {OUT_OF_MEMORY, OK, SINGULAR})
                /\ Ob({"C02", "C14"}, "failure returns no objects", E.st # OK => E.h = 0)
                /\ Ob(AllC \ {"C18","C19","C20","C21","C22","C24","C26","C27"}, "the call ends with the expected status",
                      ~Fired => E.st \in {OK, SINGULAR}))
          /\ (good =>
                /\ Ob({"C06", "C01"}, "the solution is dense, of the requested type and shape, with scale one", form)
                /\ (form /\ E.type = MPQ => Ob({"C01", "C06"}, "A x = b exactly", Residual0(A, b, E.out)))
                /\ (form /\ haveSol /\ On({"C06"}) =>
                      Ob({"C06"}, "every entry is the exact solution converted to the requested type",
                         \A k \in 1..Len(ex) : TargetOK(ex[k], E.out.x[k])))
                /\ Ob({"C06"}, "the solution has the requested precision", E.type = MPFR /\ Len(E.out.x) > 0 => E.out.xp = E.opt.prec)
                /\ Ob({"C16"}, "the solution shares no memory", E.sh_out = 0)
                /\ Ob({"C17", "C23", "C25"}, "a check of a correct solution says so", E.opt.check = 1 /\ Lvl >= 1 /\ E.pn = 0 => E.verified = 1 /\ E.wrong = 0))
  /\ MemoIf(up /\ BackReadable /\ E.st \in {OK, SINGULAR}, "Backslash" \o ToString(E.type) \o Cd(E.a) \o Cd(E.b) \o OptKey,
            IF E.h = 1 THEN E.cd ELSE "singular")
  /\ IF up /\ BackReadable THEN Learn ELSE UNCHANGED sing
  /\ LearnSol(ex # <<>> /\ SolKey(Cd(E.a), Cd(E.b)) \notin DOMAIN sol /\ FALSE)
  /\ heap' = IF E.d = "-" THEN heap ELSE IF E.h = 1 THEN Put(heap, E.d, E.out @@ [cd |-> E.cd]) ELSE Drop(heap, {E.d})
  /\ UNCHANGED <<up, gv>> /\ Done

(* ---------------- GMP layer ---------------- *)
IsVar(s) == s \in DOMAIN gv
DoGSet == /\ gv' = IF E.d \in DOMAIN gv THEN [gv EXCEPT ![E.d].v = E.val, ![E.d].den = IF RIsNum(E.val) THEN RDen(E.val) ELSE "1"] ELSE gv
          /\ UNCHANGED <<up, heap, memo, sing, sol>> /\ Done
\* the arguments that are variables
VarArgs == {E.args[k] : k \in 1..Len(E.args)} \cap DOMAIN gv
DoG ==
  LET op == E.op a == E.args d == E.d
      new == op \in GMP!InitOps
      clr == op \in GMP!ClearOps
      qry == op \in GMP!QueryOps
      want == IF ~up \/ new \/ clr \/ qry \/ E.st # OK THEN "any" ELSE GMP!NewVal(op, a, gv, E.dbl)
  IN
  /\ Common(IF qry THEN {} ELSE {d}, FALSE)
  /\ IF ~up
     THEN Ob({"C12"}, "arithmetic obtains and releases no memory outside a session", E.na = 0 /\ E.nf = 0)
     ELSE /\ (~Fired /\ ~clr => Ob({"C18"}, "arithmetic succeeds", E.st = OK))
          /\ (Fired /\ ~clr => Ob({"C14", "C18"}, "a failed allocation gives out of memory or a correct result", E.st \in {OK, OUT_OF_MEMORY}))
          /\ (Fired /\ ~clr /\ E.st # OK => Ob({"C14", "C15", "C18"}, "a failed call keeps no memory", E.live <= Live))
          /\ (E.st = OK /\ ~new /\ ~clr /\ ~qry =>
                /\ Ob({"C18"}, "the result is what the operation means", want = "any" \/ E.val = want \/ (RIsNum(E.val) /\ RIsNum(want) /\ REq(E.val, want)))
                /\ Ob({"C18"}, "the result is in canonical form", op \in GMP!RawOps \/ GMP!Special(E.val) \/ RCanon(E.val))
                /\ Ob({"C18"}, "the precision of a variable does not change", E.dprec = gv[d].prec))
          /\ (E.st = OK /\ new => Ob({"C18"}, "a new variable is zero (or NaN) with the requested precision",
                 IF op = "mpfr_init2" THEN E.val = "nan" /\ E.dprec = RToInt(a[2]) ELSE E.val = "0"))
          /\ (E.st = OK /\ qry => Ob({"C18"}, "the answer is exact", GMP!AnswerOK(op, a, gv, E.ret)))
  /\ gv' = IF E.st # OK \/ (~up /\ ~clr) THEN (IF d \in DOMAIN gv /\ E.val # "uninit" THEN [gv EXCEPT ![d].v = E.val, ![d].den = IF RIsNum(E.val) THEN RDen(E.val) ELSE "1"] ELSE gv)
           ELSE IF clr THEN Drop(gv, {d})
           ELSE IF new THEN Put(gv, d, [v |-> E.val, den |-> "1", prec |-> E.dprec])
           ELSE IF qry THEN gv ELSE [gv EXCEPT ![d].v = E.val, ![d].den = GMP!NewDen(op, a, gv, E.val)]
  /\ UNCHANGED <<up, heap, memo, sing, sol>> /\ Done

(* ---------------- memory layer ---------------- *)
DoMem ==
  LET o == MEM!MemStep(E, up, Fired) IN
  /\ Common({E.b}, FALSE)
  /\ (up \/ E.op \notin MEM!SlipOps => Ob({"C22"}, "the memory call does what it promises", MEM!MemOK(E, o)))
  /\ (~up /\ E.op \in MEM!SlipOps => Ob({"C12", "C22"}, "memory calls are refused outside a session", MEM!MemOK(E, o)))
  /\ UNCHANGED <<up, heap, memo>> /\ Keep /\ Done

(* ---------------- orderings ---------------- *)
Bit(x, b) == (x \div b) % 2 = 1
DoAmdOrder ==
  LET n == E.n
      hasAp == ~Bit(E.nm, 1) hasAi == ~Bit(E.nm, 2) hasP == ~Bit(E.nm, 4) hasInfo == ~Bit(E.nm, 16)
      want == AMD!OrderStatus(n, hasAp, hasAi, hasP, E.Ap, E.Ai)
      I == E.info
      alpha == IF Bit(E.nm, 8) \/ E.ctl = 0 THEN "10" ELSE E.dense
  IN
  /\ Common({}, FALSE)
  /\ Ob({"C19"}, "the default parameters are the documented ones", E.defs = <<10, 1>>)
  /\ Ob({"C19"}, "AMD returns the right status", E.st = want \/ (Fired /\ E.st = AMD!AMD_OUT_OF_MEMORY))
  /\ Ob({"C19"}, "AMD does not modify its input", E.inok = 1)
  /\ Ob({"C19", "C15"}, "AMD releases its workspace", E.live = Live)
  /\ (hasInfo => Ob({"C19"}, "the status is also in the statistics", I[1] = E.st))
  /\ (E.st \in {0, 1} /\ want \in {0, 1} =>
        /\ Ob({"C19"}, "the result is a permutation", AMD!IsPerm(E.P, n))
        /\ (On({"C26"}) => \E adj \in Bind(AMD!Adj(n, AMD!Pos(n, E.Ap, E.Ai))) :
              Ob({"C26"}, "AMD eliminates a row of least approximate degree in every step",
                AMD!IsPerm(E.P, n) /\ AmdStepsOK(adj, AMD!Dense(adj, alpha), E.piv, E.aggr = 1, E.P)))
        /\ (hasInfo /\ On({"C19"}) /\ n > 0 =>
              LET S == AMD!Pos(n, E.Ap, E.Ai)
                  adj == TLCEval(AMD!Adj(n, S))
                  aat == AMD!SumCard(adj, DOMAIN adj)
                  lnz == I[10]
                  dense == AMD!Dense(adj, alpha)
                  cnt == TLCEval(IF AMD!IsPerm(E.P, n) THEN AMD!ColCounts(adj, E.P) ELSE <<>>)
              IN
              /\ Ob({"C19"}, "size and entry count are reported", I[2] = n /\ I[3] = Cardinality(S))
              /\ Ob({"C19"}, "symmetry and diagonal are reported",
                    /\ I[5] = AMD!NzDiag(S) /\ RCmp(RAbs(RSub(E.symf, AMD!Symm(S))), RPow2(-50)) <= 0)
              /\ Ob({"C19"}, "the entries of A+A' are reported", I[6] = aat)
              /\ Ob({"C19"}, "the dense rows are reported", I[7] = Cardinality(dense))
              /\ Ob({"C19"}, "the dense rows come last", AMD!Last(E.P, Cardinality(dense)) = dense)
              /\ Ob({"C19"}, "the fill is not underestimated", lnz >= AMD!Sum(cnt))
              /\ Ob({"C19"}, "the operations of a factorization are counted",
                    /\ I[11] = lnz /\ 2 * I[12] = I[13] + lnz
                    /\ I[13] >= AMD!SumSq(cnt) /\ I[14] >= AMD!MaxFront(cnt)
                    /\ (lnz = AMD!Sum(cnt) => I[13] = AMD!SumSq(cnt) /\ I[14] = AMD!MaxFront(cnt)))
              /\ Ob({"C19"}, "no fill for forests and cliques",
                    (dense = {} /\ AMD!IsPerm(E.P, n) /\ (AMD!IsForest(adj) \/ AMD!IsCliques(adj))) =>
                       2 * lnz = aat /\ AMD!Sum(cnt) = lnz)))
  /\ MemoIf(E.st \in {0, 1}, "Amd" \o E.icd, E.ocd)
  /\ UNCHANGED <<up, heap>> /\ Keep /\ Done
DoAmdValid ==
  /\ Common({}, FALSE)
  /\ Ob({"C19"}, "the pattern is classified correctly",
        E.st = AMD!ValidStatus(IF Bit(E.nm, 4) THEN E.n + 1 ELSE E.n, E.n, ~Bit(E.nm, 1), ~Bit(E.nm, 2), E.Ap, E.Ai))
  /\ Ob({"C19"}, "AMD does not modify its input", E.inok = 1)
  /\ UNCHANGED <<up, heap, memo>> /\ Keep /\ Done

\* the ordering routine without the tests: the rows of a symmetric pattern are given and destroyed
RowsOf(v) == {E.rows[v + 1][k] : k \in 1..Len(E.rows[v + 1])}
\* the nodes of an assembly forest: the rows eliminated in each, its front, the nodes absorbed by it
Fronts(n, adj, Pe, Nv, size) ==
  CHOOSE f \in UNION {{TLCEval([nodes |-> N,
      group |-> [e \in N |-> {i \in 0..(n - 1) : rep[i] = e}],
      front |-> [e \in N |-> size[e + 1]],
      sons |-> [e \in N |-> {g \in N : Pe[g + 1] = e}]])
    : rep \in Bind([i \in 0..(n - 1) |-> AMD!RepOf(Pe, Nv, i, n)])} : N \in Bind({e \in AMD!Nodes(Nv) : adj[e] # {}})} : TRUE
Amd2Test(adj, pos, dense, N, perm, cnt) ==
  LET n == E.n
      I == E.info
      d == Cardinality(dense)
      tree == perm /\ AMD!InRange(n, E.Pe, E.Nv)
      forest == tree /\ AMD!ForestOK(n, E.Pe, E.Nv, pos, dense)
  IN
  /\ Ob({"C19"}, "the result is a permutation", perm)
  /\ Ob({"C19"}, "the inverse permutation is returned too", perm => \A k \in 1..n : E.Next[E.Last[k] + 1] = k - 1)
  /\ Ob({"C19"}, "the dense rows come last", perm => AMD!Last(E.Last, d) = dense)
  /\ Ob({"C19"}, "the assembly forest covers every row that is not dense", forest)
  /\ Ob({"C19"}, "the order is a postorder of the assembly forest", forest => AMD!PostorderOK(n, E.Pe, E.Nv, pos))
  /\ Ob({"C19"}, "the fronts account for the fill",
        forest => /\ \A i \in 1..n : IF E.Nv[i] > 0 THEN E.Elen[i] >= E.Nv[i] ELSE E.Elen[i] = -1
                  /\ AMD!FrontSum(adj, N, E.Nv, E.Elen, d) >= AMD!Sum(cnt))
  /\ (~Bit(E.nm, 16) =>
        /\ Ob({"C19"}, "the status is also in the statistics", I[1] = 0)
        /\ Ob({"C19"}, "the dense rows are reported", I[7] = d)
        /\ Ob({"C19"}, "the fill is not underestimated", I[10] >= AMD!Sum(cnt))
        /\ Ob({"C19"}, "the fronts account for the fill", forest => I[10] = AMD!FrontSum(adj, N, E.Nv, E.Elen, d))
        /\ Ob({"C19"}, "the operations of a factorization are counted",
                    /\ I[11] = I[10] /\ 2 * I[12] = I[13] + I[10]
                    /\ I[13] >= AMD!SumSq(cnt) /\ I[14] >= AMD!MaxFront(cnt)
                    /\ (I[10] = AMD!Sum(cnt) => I[13] = AMD!SumSq(cnt) /\ I[14] = AMD!MaxFront(cnt)))
        /\ Ob({"C19"}, "no fill for forests and cliques",
                    (dense = {} /\ perm /\ (AMD!IsForest(adj) \/ AMD!IsCliques(adj))) =>
                       2 * I[10] = AMD!SumCard(adj, DOMAIN adj) /\ AMD!Sum(cnt) = I[10]))
  /\ IF ~On({"C26"}) THEN TRUE
     ELSE IF ~forest THEN Ob({"C26"}, "AMD eliminates a row of least approximate degree in every step", FALSE)
     ELSE \E s \in Bind(ALG!Start(adj, dense)), f \in {Fronts(n, adj, E.Pe, E.Nv, E.Elen)} :
          IF E.piv # <<>>      \* the order of elimination is known
          THEN Ob({"C26"}, "AMD eliminates a row of least approximate degree in every step", ALG!Follow(s, E.piv, 1, E.aggr = 1, 0, f))
          ELSE \E fuel \in Bind(ALG!Search(s, {}, E.aggr = 1, 0, f, 1000)) :
          /\ Ob({"C26"}, "AMD eliminates a row of least approximate degree in every step", fuel >= 0)
          /\ (fuel = 0 => Ob({"C26"}, "(the search for the order of elimination was cut short)", TRUE))
DoAmd2 ==
  /\ Common({}, FALSE)
  /\ Ob({"C19", "C15"}, "AMD releases its workspace", E.live = Live)
  /\ (On({"C19", "C26"}) =>
      \E adj \in Bind([v \in 0..(E.n - 1) |-> RowsOf(v)]), perm \in Bind(AMD!IsPerm(E.Last, E.n)) :
      \E pos \in Bind([i \in 0..(E.n - 1) |-> E.Next[i + 1]]), dense \in Bind(AMD!Dense(adj, E.dense)),
         N \in Bind(AMD!Nodes(E.Nv)), cnt \in Bind(IF perm THEN AMD!ColCounts(adj, E.Last) ELSE <<>>) :
         Amd2Test(adj, pos, dense, N, perm, cnt))
  /\ SameIf(TRUE, "the ordering does not depend on the space it is given", "Amd2" \o E.icd, E.ocd)
  /\ UNCHANGED <<up, heap>> /\ Keep /\ Done

\* the Fortran versions: iw (1..iwlen), the matrix in the first pfree - 1 places, everything counted from 1
AmdFView ==
  LET n == E.n
      adj == [v \in 0..(n - 1) |-> RowsOf(v)]
      last == [k \in 1..n |-> E.Last[k] - 1]
      Pe == [i \in 1..n |-> -E.Pe[i] - 1]
  IN [adj |-> adj, last |-> last, pos |-> [i \in 0..(n - 1) |-> E.Elen[i + 1] - 1], Pe |-> Pe,
      N |-> AMD!Nodes(E.Nv),
      perm |-> AMD!IsPerm(last, n),
      range |-> \A i \in 1..n : Pe[i] \in -1..(n - 1) /\ E.Nv[i] \in 0..n]
AmdFTest(V, rep, cnt) ==
  LET n == E.n
      adj == V.adj last == V.last pos == V.pos Pe == V.Pe perm == V.perm N == V.N
      \* a variable that is no node hangs below one
      forest == /\ perm /\ V.range /\ \A i \in 0..(n - 1) : rep[i] >= 0
                /\ \A e \in N : /\ Pe[e + 1] >= 0 => Pe[e + 1] \in N /\ pos[e] < pos[Pe[e + 1]]
                                 /\ AMD!Interval({pos[i] : i \in {j \in 0..(n - 1) : rep[j] = e}})
      real == {e \in N : adj[e] # {}}
      seq == SelectSeq(last, LAMBDA v : v \in N /\ adj[v] # {})
      piv(e) == Cardinality({i \in 0..(n - 1) : rep[i] = e})
  IN
  /\ Ob({"C26"}, "the Fortran version returns a permutation", perm)
  /\ Ob({"C26"}, "the Fortran version returns the inverse permutation too", perm => \A k \in 1..n : E.Elen[last[k] + 1] = k)
  /\ (perm => Ob({"C26"}, "the Fortran version returns an assembly forest", forest))
  /\ (forest =>
        /\ Ob({"C26"}, "the Fortran version accounts for the fill",
              \A e \in N : /\ E.Nv[e + 1] >= piv(e)
                           /\ \A i \in {j \in 0..(n - 1) : rep[j] = e} : cnt[pos[i] + 1] < E.Nv[e + 1])
        /\ Ob({"C26"}, "no fill for forests and cliques",
              (AMD!IsForest(adj) \/ AMD!IsCliques(adj)) => 2 * AMD!Sum(cnt) = AMD!SumCard(adj, DOMAIN adj))
        /\ Ob({"C26"}, "AMD eliminates a row of least approximate degree in every step",
              /\ \E s \in Bind(ALG!Start(adj, {})), q \in Bind(seq), f \in {Fronts(n, adj, Pe, E.Nv, E.Nv)} :
                    ALG!Follow(s, q, 1, E.which = 0, IF E.which = 0 THEN 0 ELSE 1, f)
              /\ \A e \in N \ real : E.Nv[e + 1] = 1 /\ Pe[e + 1] = -1))
DoAmdF ==
  /\ Common({}, FALSE)
  /\ Ob({"C26"}, "the Fortran version leaves the sizes alone", E.same = 1)
  /\ (On({"C26"}) =>
       \E V \in Bind(AmdFView) :
       \E rep \in Bind(IF V.range THEN [i \in 0..(E.n - 1) |-> AMD!RepOf(V.Pe, E.Nv, i, E.n)] ELSE <<>>),
          cnt \in Bind(IF V.perm THEN AMD!ColCounts(V.adj, V.last) ELSE <<>>) : AmdFTest(V, rep, cnt))
  /\ Ob({"C26"}, "the space for an ordering without compression is reported",
        /\ E.ncmpa >= 0 /\ E.pfree >= E.pfree0 - 1
        /\ (E.ncmpa = 0 <=> E.pfree <= E.iwlen))
  /\ SameIf(TRUE, "the ordering does not depend on the space it is given", "AmdF" \o E.icd, E.ocd)
  /\ UNCHANGED <<up, heap>> /\ Keep /\ Done


(* ---------------- shared utilities ---------------- *)
DoUtil ==
  LET i == E.in o == E.out IN
  /\ Common({}, FALSE)
  /\ CASE E.what = "hypot" -> Ob({"C24"}, "the length of a complex number is accurate", UTL!HypotOK(i[1], i[2], o[1]))
       [] E.what = "div" -> Ob({"C24"}, "the quotient of complex numbers is accurate and division by zero is reported",
                               UTL!DivOK(i[1], i[2], i[3], i[4], o[1], o[2], E.ret))
       [] E.what = "tic" -> /\ Ob({"C24"}, "the clock measures the time between tic and toc", UTL!TocOK(i[1], i[2], o[1]))
                            /\ Ob({"C24"}, "time does not run backwards", RCmp(o[2], RSub(i[1], RPow2(-12))) >= 0)
                            /\ Ob({"C24"}, "nanoseconds are a fraction of a second", RSgn(o[3]) >= 0 /\ RCmp(o[3], RPow10(9)) < 0)
       [] E.what = "version" -> Ob({"C24"}, "the version is that of the header",
                                   /\ ROfInt(E.ret) = i[4]
                                   /\ (E.nul = 0 => <<o[1], o[2], o[3]>> = <<i[1], i[2], i[3]>>)
                                   /\ (E.nul = 1 => <<o[1], o[2], o[3]>> = <<"-1", "-1", "-1">>))
       [] E.what = "start" -> /\ Ob({"C24"}, "the configuration starts with the standard functions", i = UTL!Standard)
                              /\ Ob({"C24"}, "starting the suite installs the standard functions, finishing keeps them", o = UTL!Standard /\ E.fin = UTL!Standard)
  /\ UNCHANGED <<up, heap, memo>> /\ Keep /\ Done

DoColamd ==
  LET c == [hasA |-> ~Bit(E.nm, 1), hasp |-> ~Bit(E.nm, 2), nr |-> E.nr, nc |-> E.nc, Alen |-> E.Alen, p |-> E.p, A |-> E.A]
      hasStats == ~Bit(E.nm, 4)
      d == COL!ColamdDiag(c)
      ok == hasStats /\ d.st >= 0
  IN
  /\ Common({}, FALSE)
  /\ Ob({"C20"}, "COLAMD succeeds exactly for valid input", (E.st = 1) <=> ok)
  /\ Ob({"C20"}, "COLAMD leaves the knobs alone", E.kok = 1)
  /\ Ob({"C20"}, "the default knobs are the documented ones", E.defs = <<10, 10, 1>>)
  /\ (hasStats => Ob({"C20"}, "the status names the defect and its place", COL!DiagOK(d, E.st, E.stats)))
  /\ (ok /\ E.st = 1 =>
        /\ Ob({"C20"}, "the result is a permutation of the columns", COL!IsPermOf(E.perm, E.nc))
        /\ LET g == COL!Ignored(COL!Cells(c, E.nc), E.nr, E.nc, E.k0, E.k1) IN
           /\ Ob({"C20"}, "the ignored rows and columns are counted", E.stats[1] = g.rows /\ E.stats[2] = g.cols)
           /\ Ob({"C20"}, "the ignored columns come last", COL!OrderedFirst(E.perm, E.nc, g.live))
        /\ (On({"C27"}) => Ob({"C27"}, "COLAMD eliminates columns of least score in every step",
              COL!IsPermOf(E.perm, E.nc) /\ ColStepsOK(COL!Cells(c, E.nc), E.nr, E.nc, E.k0, E.k1, E.k2, E.perm))))
  /\ IF On({"C27"}) THEN SameIf(E.st = 1, "the ordering does not depend on the space it is given", "Colamd" \o E.icd, E.opd)
     ELSE MemoIf(E.st = 1, "Colamd" \o E.icd, E.ocd)
  /\ UNCHANGED <<up, heap>> /\ Keep /\ Done
\* recommended workspace: 0 for overflow or bad arguments, else enough
DoRec ==
  LET w == RAdd(RAdd(RMul("2", E.nnz), E.nc), RAdd(RMul("6", RAdd(E.nc, "1")), RMul("4", RAdd(E.nr, "1"))))
      neg == RSgn(E.nnz) < 0 \/ RSgn(E.nr) < 0 \/ RSgn(E.nc) < 0
      full == RAdd(w, RFloor(RDiv(E.nnz, "5")))
      \* not an Int any more
      over == RCmp(full, RSub(RPow2(IF E.var = 1 THEN 63 ELSE 31), "1")) >= 0
      \* the sizes of the structures in bytes must also be sizes
      size == IF E.var = 1 THEN "8" ELSE "4"
      overb == \/ RCmp(RMul(RMul("6", size), RAdd(E.nc, "1")), RPow2(64)) >= 0
               \/ RCmp(RMul(RMul("4", size), RAdd(E.nr, "1")), RPow2(64)) >= 0
  IN
  /\ Common({}, FALSE)
  /\ Ob({"C20"}, "the recommended workspace suffices and is zero when it cannot be had",
        IF neg THEN E.ret = "0" ELSE IF over THEN E.ret = "0" ELSE (E.ret = "0" /\ overb) \/ RCmp(E.ret, w) >= 0)
  /\ UNCHANGED <<up, heap, memo>> /\ Keep /\ Done
DoSymamd ==
  LET c == [hasA |-> ~Bit(E.nm, 1), hasp |-> ~Bit(E.nm, 2), nr |-> E.n, nc |-> E.n, p |-> E.p, A |-> E.A]
      hasStats == ~Bit(E.nm, 4)
      d == COL!SymamdDiag(c)
      ok == hasStats /\ d.st >= 0
  IN
  /\ Common({}, FALSE)
  /\ Ob({"C21"}, "SYMAMD does not modify its input", E.inok = 1 /\ E.kok = 1)
  /\ Ob({"C21", "C15"}, "SYMAMD releases its workspace", E.live = Live)
  /\ IF Fired
     THEN Ob({"C21"}, "lack of memory is reported", (E.st = 0 /\ hasStats => E.stats[4] = COL!C_MEMORY) /\ (E.st = 1 => ok))
     ELSE /\ Ob({"C21"}, "SYMAMD succeeds exactly for valid input", (E.st = 1) <=> ok)
          /\ (hasStats => Ob({"C21"}, "the status names the defect and its place", COL!DiagOK(d, E.st, E.stats)))
  /\ (ok /\ E.st = 1 => LET ign == COL!SymIgnored(COL!Cells(c, E.n), E.n, E.k0) IN
        /\ Ob({"C21"}, "the result is a permutation", COL!IsPermOf(E.perm, E.n))
        /\ Ob({"C21"}, "the ignored rows and columns are counted",
              E.stats[1] = Cardinality(ign) /\ E.stats[2] = Cardinality(ign))
        /\ Ob({"C21"}, "the ignored rows and columns come last", COL!OrderedFirst(E.perm, E.n, (0..(E.n - 1)) \ ign))
        /\ (On({"C27"}) => Ob({"C27"}, "SYMAMD eliminates columns of least score in every step",
              COL!IsPermOf(E.perm, E.n) /\ SymStepsOK(COL!Cells(c, E.n), E.n, E.k0, E.k2, E.perm)))
        /\ IF On({"C21"}) THEN Ob({"C21"}, "the upper triangle does not matter",
                                  E.lcd \in DOMAIN memo => memo[E.lcd] = E.ocd)
           ELSE TRUE)
  /\ IF On({"C21"}) /\ ok /\ E.st = 1 THEN memo' = (IF E.lcd \in DOMAIN memo THEN memo ELSE Put(memo, E.lcd, E.ocd))
     ELSE MemoIf(E.st = 1, "Symamd" \o E.icd, E.ocd)
  /\ UNCHANGED <<up, heap>> /\ Keep /\ Done
\* the reports of AMD and COLAMD: through the installed function only; the figures given are the figures shown
ReportArgs ==
  LET a == E.args IN
  CASE E.what = "amd_control" -> {a[1]}
    [] E.what = "amd_info" ->
        {a[k] : k \in {x \in {2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14} : RSgn(a[x]) >= 0}}
        \cup (IF RSgn(a[2]) >= 0 /\ RSgn(a[10]) >= 0 THEN {RAdd(a[2], a[10])} ELSE {})
        \cup (IF \E x \in {2, 11, 12, 13} : RSgn(a[x]) < 0 THEN {}
              ELSE LET ldl == RAdd(a[11], RMul("2", a[12])) IN
                   {RAdd(a[2], ldl), ldl, RAdd(RMul("9", a[11]), RMul("8", a[12])), RAdd(a[11], RMul("2", a[13])), RAdd(RMul("9", a[11]), RMul("8", a[13]))})
    [] OTHER -> \* stats of colamd and symamd, by status
       CASE a[4] = "0" -> {a[1], a[2], a[3]} [] a[4] = "1" -> {a[1], a[2], a[3], a[5], a[6], a[7]}
         [] a[4] \in {"-3", "-4", "-5", "-6"} -> {a[5]} [] a[4] \in {"-7", "-8"} -> {a[5], a[6]}
         [] a[4] = "-9" -> {a[5], a[6], RSub(a[7], "1")} [] OTHER -> {}
DoReport ==
  /\ Common({}, TRUE)
  /\ Ob({"C23"}, "nothing is printed without a print function", E.pn = 1 => E.pc = 0)
  /\ (E.pn = 0 /\ E.isnull = 0 => Ob({"C23"}, "the figures given are the figures shown", ReportArgs \subseteq {E.nums[x] : x \in 1..Len(E.nums)}))
  /\ (E.pn = 0 => Ob({"C23"}, "a report is printed", E.pc > 0))
  /\ UNCHANGED <<up, heap, memo>> /\ Keep /\ Done

Consume ==
  CASE E.ev = "Reset" -> DoReset   [] E.ev = "End" -> DoEnd       [] E.ev = "Crash" -> DoCrash
    [] E.ev = "Init" -> DoInit     [] E.ev = "Finalize" -> DoFinalize
    [] E.ev = "Mat" -> DoMat       [] E.ev = "PSet" -> DoPSet     [] E.ev = "SSet" -> DoSSet
    [] E.ev = "OptSet" -> DoOptSet [] E.ev = "OptNew" -> DoOptNew [] E.ev = "OptFree" -> DoOptFree
    [] E.ev = "Alloc" -> DoAlloc   [] E.ev = "MFree" -> DoMFree   [] E.ev = "Nnz" -> DoNnz
    [] E.ev = "Check" -> DoCheck   [] E.ev = "Copy" -> DoCopy     [] E.ev = "Analyze" -> DoAnalyze
    [] E.ev = "AFree" -> DoAFree   [] E.ev = "PFree" -> DoPFree   [] E.ev = "Factor" -> DoFactor
    [] E.ev = "Solve" -> DoSolve   [] E.ev = "Backslash" -> DoBackslash
    [] E.ev = "G" -> DoG           [] E.ev = "GSet" -> DoGSet     [] E.ev = "Mem" -> DoMem
    [] E.ev = "Amd" -> (IF E.what = "o" THEN DoAmdOrder ELSE DoAmdValid)
    [] E.ev = "Amd2" -> DoAmd2     [] E.ev = "AmdF" -> DoAmdF     [] E.ev = "Util" -> DoUtil
    [] E.ev = "Colamd" -> DoColamd [] E.ev = "Rec" -> DoRec       [] E.ev = "Symamd" -> DoSymamd
    [] E.ev = "Report" -> DoReport

Init == /\ l = 1 /\ up = FALSE /\ heap = <<>> /\ gv = <<>> /\ memo = <<>> /\ sing = <<>> /\ sol = <<>>
        /\ ph = "ev" /\ lu = NoLu /\ guide = <<>> /\ prevlive = 0
        /\ TLCSet(1, 0) /\ TLCSet(2, <<>>) /\ TLCSet(3, 0)
Next == /\ l <= Len(Trace)
        /\ \/ StartLU
           \/ PivotStep
           \/ ((ph = "ev" /\ ~NeedsLU) \/ LuFinal) /\ Consume
Spec == Init /\ [][Next]_vars
View == <<l, ph, lu.k>>

Accepted ==
  /\ PrintT("COUNTS " \o ToJson(TLCGet(2)))
  /\ PrintT("CONSUMED " \o ToString(TLCGet(3)) \o " OF " \o ToString(Len(Trace)) \o " FAILURES " \o ToString(TLCGet(1)))
  /\ TLCGet(3) = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
