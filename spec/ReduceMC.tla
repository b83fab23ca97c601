------------------------------ MODULE ReduceMC ------------------------------
(* Every interleaving of column additions on every small matrix: whichever reduced state is reached, the pivot pairs are those of
   left-to-right elimination, A U = R, U stays unit upper triangular and prefix spans are kept. *)
EXTENDS Reduction
CONSTANTS P, NR, NC
VARIABLES A, R, U
vars == <<A, R, U>>
Cols == {VMk(P, 0..(NR - 1), LAMBDA i : f[i]) : f \in [0..(NR - 1) -> 0..(P - 1)]}
Init == \E f \in [1..NC -> Cols] : A = Mat(NR, NC, f) /\ R = A /\ U = MIdent(P, NC)
Add == \E j \in 1..NC, k \in 1..NC, a \in 1..(P - 1) :
          /\ k < j /\ DOMAIN R.c[k] # {} /\ DOMAIN R.c[j] # {} /\ VPivot(R.c[k]) \in DOMAIN R.c[j]
          /\ R' = AddCol(P, R, k, j, a) /\ U' = AddCol(P, U, k, j, a) /\ UNCHANGED A
Next == Add
Inv == /\ Factors(P, A, R, U)
       /\ IsReduced(R) => /\ PivotMap(R) = SeqPairs(P, A)
                          /\ SameSpans(P, A, R)
=============================================================================
