----------------------------- MODULE MC_Matrix ------------------------------
(***************************************************************************)
(* Every small matrix object, well formed or not, and every conversion of  *)
(* the well-formed ones. Checks SlipMatrix against independent statements  *)
(* of what its operators mean, and prints every object with the verdict    *)
(* that SLIP_matrix_check owes; lib/walk.py builds each of them for the    *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS SlipMatrix, Json

CONSTANTS MaxDim,      \* dimensions 0..MaxDim
          MaxNz,       \* space for at most this many entries
          Hi,          \* the elements of p are -1..Hi
          Vals         \* values of the entries

VARIABLES A,           \* the object
          how          \* "made" or the conversion that produced it
vars == <<A, how>>

Rec(k, m, n, nzmax, nz, p, i, j, x) ==
  [kind |-> k, type |-> MPQ, m |-> m, n |-> n, nzmax |-> nzmax, nz |-> nz, scale |-> "1",
   p |-> p, i |-> i, j |-> j, x |-> x, hp |-> IF k = CSC THEN 1 ELSE 0, hi |-> IF k = DENSE THEN 0 ELSE 1,
   hj |-> IF k = TRIPLET THEN 1 ELSE 0, hx |-> 1, sp |-> 0, si |-> 0, sj |-> 0, sx |-> 0,
   cp |-> Len(p), ci |-> Max1(nzmax), cj |-> IF k = TRIPLET THEN Max1(nzmax) ELSE 0, cx |-> Max1(nzmax)]
XS(n) == [1..n -> Vals]
Made ==
  \/ \E m, n \in 0..MaxDim, z \in 0..MaxNz :
       \E p \in [1..(n + 1) -> (-1)..Hi], i \in [1..z -> -1..MaxDim] :
         A = Rec(CSC, m, n, z, 0, p, i, <<>>, [k \in 1..z |-> IF k = 2 THEN "0" ELSE ToString(2 * k + 1)])
  \/ \E m, n \in 0..MaxDim, z \in 0..MaxNz, nz \in -1..(MaxNz + 1) :
       \E i, j \in [1..z -> -1..MaxDim] :
         A = Rec(TRIPLET, m, n, z, nz, <<>>, i, j, [k \in 1..z |-> IF k = 2 THEN "0" ELSE ToString(2 * k + 1)])
  \/ \E m, n \in 0..MaxDim : \E x \in XS(m * n) : A = Rec(DENSE, m, n, m * n, 0, <<>>, <<>>, <<>>, x)

(* ---------------- conversion, as a construction ---------------- *)
RECURSIVE Listing(_)
\* the entries column by column, rows ascending
Less(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
Listing(S) == IF S = {} THEN <<>>
              ELSE LET e == CHOOSE e \in S : \A f \in S : f = e \/ Less(e, f) IN <<e>> \o Listing(S \ {e})
Convert(B, k) ==
  LET S == Stored(B)
      T == IF k # DENSE /\ B.kind = DENSE THEN {e \in S : e[3] # "0"} ELSE S
      s == Listing(T) c == Len(s)
  IN CASE k = CSC -> Rec(CSC, B.m, B.n, c, 0, [j \in 1..(B.n + 1) |-> Cardinality({t \in 1..c : s[t][2] < j - 1})],
                         [t \in 1..c |-> s[t][1]], <<>>, [t \in 1..c |-> s[t][3]])
       [] k = TRIPLET -> Rec(TRIPLET, B.m, B.n, c, c, <<>>, [t \in 1..c |-> s[t][1]], [t \in 1..c |-> s[t][2]], [t \in 1..c |-> s[t][3]])
       [] OTHER -> Rec(DENSE, B.m, B.n, B.m * B.n, 0, <<>>, <<>>, <<>>,
                       [t \in 1..(B.m * B.n) |-> LET E == {e \in S : e[1] = (t - 1) % B.m /\ e[2] = (t - 1) \div B.m}
                                                 IN IF E = {} THEN "0" ELSE (CHOOSE e \in E : TRUE)[3]])

Init == how = "made" /\ Made
Next == \E k \in Kinds : Valid(A) /\ how = "made" /\ A' = Convert(A, k) /\ how' = ToString(A.kind) \o ToString(k)
Spec == Init /\ [][Next]_vars

(* ---------------- what the operators of SlipMatrix mean ---------------- *)
\* the arrays of a valid sparse object list the cells of some set of cells, each once
ListsACellSet ==
  A.kind = CSC =>
    (Valid(A) <=> \E c \in [1..A.n -> SUBSET (0..(A.m - 1))] :
       /\ A.p[1] = 0
       /\ \A j \in 1..A.n : A.p[j + 1] = A.p[j] + Cardinality(c[j])
       /\ A.p[A.n + 1] <= A.nzmax
       /\ \A j \in 1..A.n : {A.i[k] : k \in (A.p[j] + 1)..A.p[j + 1]} = c[j])
TripletsAreDistinct ==
  A.kind = TRIPLET =>
    (Valid(A) <=> /\ A.nz \in 0..A.nzmax
                  /\ \A k \in 1..A.nz : <<A.i[k], A.j[k]>> \in (0..(A.m - 1)) \X (0..(A.n - 1))
                  /\ \A k, l \in 1..A.nz : A.i[k] = A.i[l] /\ A.j[k] = A.j[l] => k = l)
DenseIsValid == A.kind = DENSE => Valid(A) /\ Cardinality(Pattern(A)) = A.m * A.n
\* in a valid object every cell is stored at most once and the count is that of the cells
CountIsCount == Valid(A) => /\ Nnz(A) = Cardinality(Stored(A)) /\ Cardinality(Pattern(A)) = Cardinality(Stored(A))
                            /\ Pattern(A) \subseteq (0..(A.m - 1)) \X (0..(A.n - 1))
\* the matrix it stands for, as rows, has the same entries
RowsAgree == Valid(A) =>
   Entries(A) = UNION {{<<r - 1, c - 1, FullRows(A)[r][c]>> : c \in {c \in 1..A.n : FullRows(A)[r][c] # "0"}} : r \in 1..A.m}
\* conversions lose nothing, and the judgement of the traces accepts them
Conversions == [][/\ Valid(A') /\ WellFormed(A') /\ Entries(A') = Entries(A)
                  /\ OutEntries(A, A') = ConvEntries(A, A'.kind, MPQ, 53, RNDN)
                  /\ ConvShape(A, A'.kind, MPQ, A')
                  \* and back again
                  /\ \A k \in Kinds : Entries(Convert(A', k)) = Entries(A)]_vars
Show == how = "made" => PrintT("CASE " \o ToJson(<<A.kind, A.m, A.n, A.nzmax, A.nz, A.p, A.i, A.j, A.x, IF Valid(A) THEN 1 ELSE 0>>))
=============================================================================
