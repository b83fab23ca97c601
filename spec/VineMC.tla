------------------------------- MODULE VineMC -------------------------------
(***************************************************************************)
(* Keeping a decomposition D U = R up to date while D changes, as done by    *)
(* every update of a reduced complex: rows and columns are swapped, inserted *)
(* and deleted, interleaved with column additions in any order.  Whenever R  *)
(* is reduced its pivots are those of D reduced from scratch.                *)
(***************************************************************************)
EXTENDS Reduction
CONSTANTS P, NR, NC
VARIABLES D, U
vars == <<D, U>>
R == MMul(P, D, U)
VecsOf(m) == {VMk(P, 0..(m - 1), LAMBDA i : f[i]) : f \in [0..(m - 1) -> 0..(P - 1)]}
Init == D = MZero(0, 0) /\ U = MIdent(P, 0)
Add == \E j \in 1..D.n, k \in 1..D.n, a \in 1..(P - 1) : k < j /\ U' = AddCol(P, U, k, j, a) /\ UNCHANGED D
SwapRows == \E i \in 0..(D.m - 2) : D' = MRowMap(D, D.m, LAMBDA k : IF k = i THEN i + 1 ELSE IF k = i + 1 THEN i ELSE k) /\ UNCHANGED U
Sw(c, j) == [c EXCEPT ![j] = c[j + 1], ![j + 1] = c[j]]
\* columns j and j + 1 of D trade places; U follows when it does not use one for the other (an addition can always arrange that)
SwapCols == \E j \in 1..(D.n - 1) :
              /\ (j - 1) \notin DOMAIN U.c[j + 1]
              /\ D' = [D EXCEPT !.c = Sw(D.c, j)]
              /\ LET V == MRowMap(U, U.m, LAMBDA k : IF k = j - 1 THEN j ELSE IF k = j THEN j - 1 ELSE k) IN U' = [V EXCEPT !.c = Sw(V.c, j)]
InsertRow == D.m < NR /\ \E i \in 0..D.m : D' = MRowMap(D, D.m + 1, LAMBDA k : IF k >= i THEN k + 1 ELSE k) /\ UNCHANGED U
DeleteRow == \E i \in 0..(D.m - 1) : /\ \A j \in 1..D.n : i \notin DOMAIN D.c[j]
                                     /\ D' = MRowMap(D, D.m - 1, LAMBDA k : IF k > i THEN k - 1 ELSE k) /\ UNCHANGED U
InsertCol == D.n < NC /\ \E j \in 0..D.n : \E x \in VecsOf(D.m) :
               /\ D' = Mat(D.m, D.n + 1, SubSeq(D.c, 1, j) \o <<x>> \o SubSeq(D.c, j + 1, D.n))
               /\ LET up(y) == VMap(y, LAMBDA k : IF k >= j THEN k + 1 ELSE k)
                  IN U' = Mat(D.n + 1, D.n + 1, TLCEval([k \in 1..(D.n + 1) |-> IF k <= j THEN up(U.c[k]) ELSE IF k = j + 1 THEN VUnit(P, j) ELSE up(U.c[k - 1])]))
\* the last column may always go; any other when no later column of U uses it
DeleteCol == \E j \in 1..D.n :
               /\ \A k \in (j + 1)..D.n : (j - 1) \notin DOMAIN U.c[k]
               /\ D' = Mat(D.m, D.n - 1, SubSeq(D.c, 1, j - 1) \o SubSeq(D.c, j + 1, D.n))
               /\ LET down(y) == VMap(y, LAMBDA k : IF k > j - 1 THEN k - 1 ELSE k)
                  IN U' = Mat(D.n - 1, D.n - 1, TLCEval([k \in 1..(D.n - 1) |-> IF k < j THEN down(U.c[k]) ELSE down(U.c[k + 1])]))
Next == Add \/ SwapRows \/ SwapCols \/ InsertRow \/ DeleteRow \/ InsertCol \/ DeleteCol
Inv == /\ MUpperInv(U) /\ U.n = D.n /\ \A j \in 1..U.n : U.c[j][j - 1] = 1
       /\ IsReduced(R) => PivotMap(R) = SeqPairs(P, D) /\ SameSpans(P, D, R)
=============================================================================
