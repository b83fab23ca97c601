------------------------------ MODULE QuiverMC ------------------------------
(***************************************************************************)
(* Representations grown one arrow at a time.  The rank table is that of a *)
(* decomposition into intervals: multiplicities are non-negative and add   *)
(* up to the dimensions.                                                   *)
(***************************************************************************)
EXTENDS Quiver, Json
CONSTANTS P, MaxN, MaxD, Emit
VARIABLES dims, arr
Cols(m) == {VMk(P, DOMAIN f, LAMBDA i : f[i]) : f \in [0..(m - 1) -> 0..(P - 1)]}
Mats(m, n) == {Mat(m, n, c) : c \in [1..n -> Cols(m)]}
Init == /\ dims \in {<<d>> : d \in 0..MaxD} /\ arr = <<>>
Next == /\ Len(dims) < MaxN
        /\ \E d \in 0..MaxD : \E dir \in {1, -1} :
             \E M \in (IF dir = 1 THEN Mats(d, dims[Len(dims)]) ELSE Mats(dims[Len(dims)], d)) :
               dims' = Append(dims, d) /\ arr' = Append(arr, [dir |-> dir, M |-> M])
        /\ (Emit /\ Len(dims') = MaxN) => PrintT(<<"VF_B", ToJson([dims |-> dims', dir |-> [i \in DOMAIN arr' |-> arr'[i].dir], M |-> [i \in DOMAIN arr' |-> MList(arr'[i].M)]])>>)
Inv == LET T == RankTab(P, dims, arr) n == Len(dims) IN
       /\ \A a \in 1..n : Rk(T, a, a) = dims[a]
       /\ \A a \in 1..n : \A b \in a..n : Mult(T, a, b) >= 0
       /\ \A i \in 1..n : FoldSet(LAMBDA ab, acc : acc + Mult(T, ab[1], ab[2]), 0, {ab \in (1..n) \X (1..n) : ab[1] <= i /\ i <= ab[2]}) = dims[i]
=============================================================================
