------------------------------ MODULE SlipLife ------------------------------
(***************************************************************************)
(* Life cycle of the library and of its simple objects: initialise and     *)
(* finalise in every order, default options, matrices of every kind and    *)
(* type (owned or shallow, with or without initialised entries), a copy,   *)
(* a raw block, in every combination, before, inside and after a session.  *)
(* As in SlipSession, TLC prints every transition with the call that makes *)
(* it and the status it must end with.                                     *)
(***************************************************************************)
EXTENDS SlipApi, Json
CONSTANTS AllTypes       \* TRUE: every type of matrix; FALSE: integers and multiprecision floats only

VARIABLES up, opt, mat, cop, blk, cmd, st
vars == <<up, opt, mat, cop, blk, cmd, st>>
View == <<up, opt, mat, cop, blk>>

T == IF AllTypes THEN Types ELSE {MPZ, MPFR}
NoMat == [kind |-> -1, type |-> -1, shal |-> 0, init |-> 0, empty |-> 0]
M0 == IF mat = NoMat THEN NULL
      ELSE LET k == mat.kind d == IF mat.empty = 1 THEN 0 ELSE 2 IN
           [kind |-> k, type |-> mat.type, m |-> d, n |-> d, nzmax |-> 3, nz |-> 0, hp |-> IF k = CSC /\ mat.shal = 0 THEN 1 ELSE 0,
            p |-> [i \in 1..(d + 1) |-> 0]]
H(d) == IF d = "-" THEN NULL ELSE [h |-> 1]
Res(argsok, good) == IF ~up THEN PANIC ELSE IF ~argsok THEN INCORRECT_INPUT ELSE good
Keep(S) == /\ ("opt" \in S => opt' = opt) /\ ("mat" \in S => mat' = mat) /\ ("cop" \in S => cop' = cop) /\ ("blk" \in S => blk' = blk) /\ ("up" \in S => up' = up)
Objs == {"opt", "mat", "cop", "blk"}
S(x) == ToString(x)

InitC == \E how \in {"init", "initx", "initbad"} :
  /\ (how = "initbad" => up)
  /\ cmd' = <<how>> /\ st' = (IF up THEN PANIC ELSE OK) /\ up' = TRUE /\ Keep(Objs)
FinC == cmd' = <<"fin">> /\ st' = (IF up THEN OK ELSE PANIC) /\ up' = FALSE /\ Keep(Objs)
\* options: created only in a session, released as a plain block
OptC == \/ opt = 0 /\ cmd' = <<"optnew">> /\ st' = OK /\ opt' = (IF up THEN 1 ELSE 0) /\ Keep({"up", "mat", "cop", "blk"})
        \/ opt = 1 /\ up /\ cmd' = <<"optfree">> /\ st' = OK /\ opt' = 0 /\ Keep({"up", "mat", "cop", "blk"})
AllocTuples == {"M", "-"} \X (-1..3) \X (-1..5) \X {"0", "2", "neg", "neg2", "huge"} \X {0, 1} \X {0, 1}
AllocC == \E t \in AllocTuples :
  LET d == t[1] k == t[2] ty == t[3] dim == t[4] sh == t[5] in == t[6]
      ok == AllocArgs(H(d), k, ty, IF dim = "neg" THEN -1 ELSE 1, IF dim = "neg2" THEN -1 ELSE 1)
      s == Res(ok, IF dim = "huge" /\ sh = 0 THEN OUT_OF_MEMORY ELSE OK)
  IN /\ mat = NoMat /\ ~(dim = "huge" /\ sh = 1)
     \* keep the product of deviations small
     /\ (ty \in T \/ ty \notin Types)
     /\ ~(d = "-" /\ dim \in {"neg", "neg2"}) /\ ~(k \notin Kinds /\ dim \in {"neg", "neg2"}) /\ (dim = "huge" => ok)
     /\ cmd' = <<"alloc", d, S(k), S(ty), dim, S(sh), S(in)>> /\ st' = s
     /\ mat' = (IF s = OK THEN [kind |-> k, type |-> ty, shal |-> sh, init |-> in, empty |-> IF dim = "0" THEN 1 ELSE 0] ELSE mat)
     /\ Keep({"up", "opt", "cop", "blk"})
AllocFail == \E k \in Kinds, ty \in T, in \in {0, 1} :
  /\ mat = NoMat /\ up /\ cmd' = <<"f", "alloc", "M", S(k), S(ty), "2", "0", S(in)>> /\ st' = OK /\ Keep(Objs \cup {"up"})
FreeC == \E d \in {"M", "C", "-"} :
  /\ cmd' = <<"free", d>> /\ st' = (IF up THEN OK ELSE PANIC)
  /\ mat' = (IF up /\ d = "M" THEN NoMat ELSE mat) /\ cop' = (IF up /\ d = "C" THEN 0 ELSE cop) /\ Keep({"up", "opt", "blk"})
\* reading a matrix
Whole == mat # NoMat => (mat.shal = 0 /\ mat.init = 1)
QueryC == \E q \in {"nnz", "check"}, a \in {"M", "C", "-"} :
  /\ (a = "C" => cop = 1) /\ (q = "check" /\ a = "M" => Whole \/ mat.shal = 1)
  /\ cmd' = <<q, a>> /\ Keep(Objs \cup {"up"})
  /\ st' = (IF q = "nnz" THEN OK
            ELSE Res(a # "-" /\ (a = "M" => mat # NoMat), IF a = "M" /\ mat.shal = 1 THEN INCORRECT_INPUT ELSE OK))
CopyTuples == {"C", "-"} \X (-1..3) \X (-1..5) \X {"M", "-"}
CopyC == \E t \in CopyTuples :
  LET ok == CopyArgs(H(t[1]), t[2], t[3], IF t[4] = "M" THEN M0 ELSE NULL) s == Res(ok, OK) IN
  /\ cop = 0 /\ Whole
  /\ (t[3] \in T \/ t[3] \notin Types)
  /\ ~(t[1] = "-" /\ t[4] = "-") /\ ~(t[2] \notin Kinds /\ t[3] \notin Types)
  /\ cmd' = <<"copy", t[1], S(t[2]), S(t[3]), t[4]>> /\ st' = s
  /\ cop' = (IF s = OK THEN 1 ELSE cop) /\ Keep({"up", "opt", "mat", "blk"})
CopyFail == \E k \in Kinds, ty \in T :
  /\ up /\ cop = 0 /\ Whole /\ mat # NoMat
  /\ cmd' = <<"f", "copy", "C", S(k), S(ty), "M">> /\ st' = OK /\ Keep(Objs \cup {"up"})
\* raw blocks: given and released only in a session
BlkC == \/ \E op \in {"smalloc", "scalloc"} : blk = 0 /\ cmd' = <<op>> /\ st' = OK /\ blk' = (IF up THEN 1 ELSE 0) /\ Keep({"up", "opt", "mat", "cop"})
        \/ cmd' = <<"srealloc">> /\ st' = OK /\ blk' = (IF up THEN 1 ELSE blk) /\ Keep({"up", "opt", "mat", "cop"})
        \/ up /\ cmd' = <<"sfree">> /\ st' = OK /\ blk' = 0 /\ Keep({"up", "opt", "mat", "cop"})
        \/ ~up /\ blk = 0 /\ cmd' = <<"sfree">> /\ st' = OK /\ Keep(Objs \cup {"up"})
\* everything else, refused outside a session
OtherC == \E c \in {"analyze", "factor", "solve", "bsl", "afree"} :
  /\ ~up /\ cmd' = <<c>> /\ st' = PANIC /\ Keep(Objs \cup {"up"})

Init == up = FALSE /\ opt = 0 /\ mat = NoMat /\ cop = 0 /\ blk = 0 /\ cmd = <<"start">> /\ st = OK
Next == InitC \/ FinC \/ OptC \/ AllocC \/ AllocFail \/ FreeC \/ QueryC \/ CopyC \/ CopyFail \/ BlkC \/ OtherC
Spec == Init /\ [][Next]_vars

TypeOK == up \in BOOLEAN /\ opt \in 0..1 /\ cop \in 0..1 /\ blk \in 0..1 /\ st \in {OK, OUT_OF_MEMORY, INCORRECT_INPUT, PANIC}
          /\ (mat = NoMat \/ (mat.kind \in Kinds /\ mat.type \in Types))
\* nothing comes into being or disappears outside a session
DownRefuses == [][~up => opt' = opt /\ mat' = mat /\ cop' = cop /\ blk' = blk]_vars
FailureKeeps == [][st' # OK => opt' = opt /\ mat' = mat /\ cop' = cop /\ blk' = blk /\ (cmd'[1] # "initbad" => up' = up)]_vars

St(u, o, m, c, b) == ToString(u) \o ToString(o) \o ToString(m.kind) \o ToString(m.type) \o ToString(m.shal) \o ToString(m.init) \o ToString(m.empty) \o ToString(c) \o ToString(b)
Emit == PrintT("EDGE " \o ToJson(<<St(up, opt, mat, cop, blk), cmd', st', St(up', opt', mat', cop', blk')>>))
=============================================================================
