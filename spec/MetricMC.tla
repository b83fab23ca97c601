------------------------------ MODULE MetricMC ------------------------------
(***************************************************************************)
(* Points of a small grid are placed, then landmarks chosen greedily.  The *)
(* distances satisfy the metric laws; the Hausdorff distance of a greedy   *)
(* selection never increases and is at most twice that of the best         *)
(* selection of the same size (Gonzalez), squared for the Euclidean metric.*)
(***************************************************************************)
EXTENDS Metric
CONSTANTS L, N, MM
VARIABLES pts, S, h
Grid == {<<a, b>> : a \in -L..L, b \in 0..L}
Init == pts \in UNION {[1..k -> Grid] : k \in 1..N} /\ S = {0} /\ h = <<>>
D == [i \in DOMAIN pts |-> [j \in DOMAIN pts |-> Dist(MM, pts[i], pts[j])]]
Next == /\ Cardinality(S) < Len(pts)
        /\ \E x \in FarSet(D, Len(pts), S, (0..(Len(pts) - 1)) \ S) : S' = S \cup {x}
        /\ h' = Append(h, Cover1(D, Len(pts), S)) /\ UNCHANGED pts
Twice(a, b) == IF MM = "euc" THEN a <= 4 * b ELSE a <= 2 * b
Inv == /\ \A i, j, k \in DOMAIN pts : MetricLaws(MM, pts[i], pts[j], pts[k])
       /\ \A j \in 1..(Len(h) - 1) : h[j] >= h[j + 1]
       /\ h # <<>> => h[Len(h)] >= Cover1(D, Len(pts), S)
       /\ S \in Greedy(D, Len(pts), {0}, Cardinality(S) - 1)
       /\ \A T \in kSubset(Cardinality(S), 0..(Len(pts) - 1)) : Twice(Cover1(D, Len(pts), S), Cover1(D, Len(pts), T))
=============================================================================
