------------------------------- MODULE DualMC -------------------------------
(***************************************************************************)
(* Persistent cohomology by reversing and transposing: for every filtered    *)
(* complex of HomMC, in every admissible order, augmented or not, reducing   *)
(* the coboundaries with the order of cells reversed pairs exactly the same  *)
(* cells, coboundaries square to zero and the (reduced) Betti numbers agree. *)
(***************************************************************************)
EXTENDS HomMC
\* coboundary from (k-1)-cells to k-cells, cells listed backwards
Anti(X) == MJ(MT(X))
Same(X) == LET f == SeqPairs(P, X) g == SeqPairs(P, Anti(X)) IN
           \A i \in 0..(X.m - 1) : \A j \in 0..(X.n - 1) : (f[i + 1] = j) <=> (g[X.n - 1 - j + 1] = X.m - 1 - i)
Augm(D) == [D EXCEPT ![1] = Mat(1, D[1].n, TLCEval([j \in 1..D[1].n |-> VUnit(P, 0)]))]
DualInv == LET DP == Reorder(Bd(cells), perm) AP == Augm(DP) rk == Ranks(P, DP) ra == Ranks(P, AP) IN
       /\ \A k \in 1..3 : Same(AP[k])
       /\ \A k \in 1..2 : /\ MIsZero(MMul(P, MT(AP[k + 1]), MT(AP[k]))) /\ MIsZero(MMul(P, Anti(AP[k + 1]), Anti(AP[k])))
       /\ Betti(ra, AP, 0) = Betti(rk, DP, 0) - 1 /\ \A k \in 1..2 : Betti(ra, AP, k) = Betti(rk, DP, k)
       \* dim of the kernel of the coboundary modulo the image of the one before = Betti number
       /\ \A k \in 0..2 : LET out == IF k = 2 THEN 0 ELSE MRank(P, MT(AP[k + 2])) IN DP[k + 1].n - out - MRank(P, MT(AP[k + 1])) = Betti(ra, AP, k)
=============================================================================
