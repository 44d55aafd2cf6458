------------------------------ MODULE MemSpec ------------------------------
(***************************************************************************)
(* The memory layer: SuiteSparse_malloc/calloc/realloc/free and the SLIP_  *)
(* versions.  Sizes are numbers as strings (they may exceed 2^32).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigRat

M1(x) == IF RCmp(x, "1") > 0 THEN x ELSE "1"
Bytes(n, s) == RMul(M1(n), M1(s))
Overflows(n, s) == RCmp(Bytes(n, s), RPow2(64)) >= 0

SlipOps == {"smalloc", "scalloc", "srealloc", "sfree"}
MallocOps == {"smalloc", "ssmalloc"}
CallocOps == {"scalloc", "sscalloc"}
ReallocOps == {"srealloc", "ssrealloc"}
FreeOps == {"sfree", "ssfree"}
Items(e) == IF e.op = "smalloc" THEN "1" ELSE e.a1
Size(e)  == IF e.op = "smalloc" THEN e.a1 ELSE IF e.op \in ReallocOps THEN e.a3 ELSE e.a2

(* What a call may do: the record of the permitted outcome.                *)
(*   block: "none" NULL is returned, "new" a new block, "old" the old one, *)
(*          "moved" the resized block, "freed", "kept" (release ignored)   *)
(*   ok: the success flag (-1: none)   reqs: requests reaching the user    *)
Out(b, k, r) == [block |-> b, ok |-> k, reqs |-> r]
MemStep(e, up, fired) ==
  IF e.op \in SlipOps /\ ~up THEN
     (IF e.op \in FreeOps THEN Out("kept", -1, 0)
      ELSE IF e.op \in ReallocOps THEN (IF e.had = 1 THEN Out("old", 0, 0) ELSE Out("none", 0, 0))
      ELSE Out("none", -1, 0))
  ELSE IF e.op \in FreeOps THEN Out("freed", -1, 0)
  ELSE IF e.op \in ReallocOps THEN
     (IF e.had = 0
      THEN (IF Overflows(e.a1, Size(e)) THEN Out("none", 0, 0)
            ELSE IF fired THEN Out("none", 0, 1) ELSE Out("new", 1, 1))
      ELSE IF Overflows(e.a1, Size(e)) THEN Out("old", 0, 0)
      ELSE IF M1(e.a1) = M1(e.a2) THEN Out("old", 1, 0)
      ELSE IF ~fired THEN Out("moved", 1, 1)
      ELSE IF RCmp(M1(e.a1), M1(e.a2)) < 0 THEN Out("old", 1, 1) ELSE Out("old", 0, 1))
  ELSE IF Overflows(Items(e), Size(e)) THEN Out("none", -1, 0)
  ELSE IF fired THEN Out("none", -1, 1) ELSE Out("new", -1, 1)

BlockOK(e, o) ==
  CASE o.block = "none"  -> e.null = 1
    [] o.block = "new"   -> /\ e.null = 0 /\ e.known = 1 /\ e.same = 0
                            /\ RCmp(e.size, Bytes(Items(e), Size(e))) >= 0
    [] o.block = "moved" -> /\ e.null = 0 /\ e.known = 1 /\ RCmp(e.size, Bytes(e.a1, e.a3)) >= 0
                            /\ e.keep = 1
    [] o.block = "old"   -> e.null = 0 /\ e.same = 1 /\ e.oldalive = 1 /\ e.keep = 1 /\ e.size = e.oldsz
    [] o.block = "freed" -> e.oldalive = 0 /\ e.null = 1
    [] o.block = "kept"  -> e.oldalive = e.had
MemOK(e, o) == /\ BlockOK(e, o)
               /\ (o.ok = -1 \/ e.ok = o.ok)
               /\ e.na <= o.reqs
               /\ (e.op \in CallocOps /\ o.block = "new" => e.zero = 1)
=============================================================================
