------------------------------ MODULE Metric ------------------------------
(***************************************************************************)
(* Finite metric data.  A table is <<m, n, entries>> in row order; points  *)
(* are the rows, in quarter units.  Distances of the l1 and l-infinity     *)
(* metrics are in quarters, those of the Euclidean metric are squared      *)
(* (sixteenths), so every comparison of distances is one of integers.      *)
(* Radii are in eighths (l1, l-infinity) or, squared, in 1/64 (Euclidean). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions
NRow(P) == P[1]
NCol(P) == P[2]
Entry(P, i, j) == P[3][i * P[2] + j + 1]                     \* i, j from 0
Rows(P) == TLCEval([i \in 1..P[1] |-> [j \in 1..P[2] |-> P[3][(i - 1) * P[2] + j]]])
Abs(x) == IF x < 0 THEN -x ELSE x
SumF(f, n) == FoldLeft(LAMBDA a, i : a + f[i], 0, [i \in 1..n |-> i])
Dist(m, x, y) ==
    LET n == Len(x)
        d == [i \in 1..n |-> Abs(x[i] - y[i])]
    IN  CASE m = "l1" -> SumF(d, n)
          [] m = "linf" -> Max({0} \cup {d[i] : i \in 1..n})
          [] m = "euc" -> SumF([i \in 1..n |-> d[i] * d[i]], n)
\* table of distances between the rows of X and of Y
DTab(m, X, Y) == LET a == Rows(X) b == Rows(Y) IN TLCEval([i \in DOMAIN a |-> TLCEval([j \in DOMAIN b |-> Dist(m, a[i], b[j])])])
AtMost(m, d, r) == IF m = "euc" THEN 4 * d <= r ELSE 2 * d <= r
Below(m, d, r) == IF m = "euc" THEN 4 * d < r ELSE 2 * d < r
\* metric laws of a table of distances of points among themselves (squares: triangle inequality by squaring twice)
Tri(m, a, b, c) == IF m # "euc" THEN a <= b + c ELSE LET k == a - b - c IN k <= 0 \/ k * k <= 4 * b * c
MetricLaws(m, x, y, z) == /\ Dist(m, x, y) = Dist(m, y, x) /\ (Dist(m, x, y) = 0 <=> x = y) /\ Dist(m, x, y) >= 0
                          /\ Tri(m, Dist(m, x, z), Dist(m, x, y), Dist(m, y, z))
Pairs(n) == {e \in SUBSET (0..(n - 1)) : Cardinality(e) = 2}
\* ----------------------------------------------------------- landmarking
\* d a square table (1-based), a set of chosen indices S (from 0)
ToSetDist(d, S, x) == Min({d[s + 1][x + 1] : s \in S})
FarSet(d, n, S, among) == {x \in among : \A y \in among : ToSetDist(d, S, y) <= ToSetDist(d, S, x)}
Cover1(d, n, S) == Max({ToSetDist(d, S, x) : x \in 0..(n - 1)})              \* Hausdorff distance of S to all points
\* the sets that k greedy steps can reach from S: every step adds a point at the largest distance from the set
RECURSIVE Greedy(_, _, _, _)
Greedy(d, n, S, k) == IF k = 0 THEN {S} ELSE UNION {Greedy(d, n, S \cup {x}, k - 1) : x \in FarSet(d, n, S, (0..(n - 1)) \ S)}
\* the same, until everything is within the radius
RECURSIVE GreedyTo(_, _, _, _)
GreedyTo(d, n, S, mr) == IF AtMost(mr[1], Cover1(d, n, S), mr[2]) THEN {S} ELSE UNION {GreedyTo(d, n, S \cup {x}, mr) : x \in FarSet(d, n, S, (0..(n - 1)) \ S)}
\* centers: points minimizing the largest distance to a set of k + 1 max-min landmarks (landmarks may repeat once every point is one)
RECURSIVE Land(_, _, _, _)
Land(d, n, S, k) == IF k = 0 THEN {S} ELSE UNION {Land(d, n, S \cup {x}, k - 1) : x \in FarSet(d, n, S, 0..(n - 1))}
Ecc(d, S, x) == Max({d[s + 1][x + 1] : s \in S})
Centers(d, n, i0, k) == UNION {{x \in 0..(n - 1) : \A y \in 0..(n - 1) : Ecc(d, S, x) <= Ecc(d, S, y)} : S \in Land(d, n, {i0}, k)}
\* a sequence of indices produced by greedy selection, with the Hausdorff distance of every prefix
GreedySeq(d, n, s) == /\ Cardinality(ToSet(s)) = Len(s)
                      /\ \A j \in 2..Len(s) : s[j] \in FarSet(d, n, ToSet(SubSeq(s, 1, j - 1)), (0..(n - 1)) \ ToSet(SubSeq(s, 1, j - 1)))
\* exact k nearest of x among the n columns of row d, by increasing distance
KNearest(row, s, k) == /\ Len(s) = k /\ Cardinality(ToSet(s)) = k /\ ToSet(s) \subseteq 0..(Len(row) - 1)
                       /\ \A a \in 1..(k - 1) : row[s[a] + 1] <= row[s[a + 1] + 1]
                       /\ k > 0 => \A y \in (0..(Len(row) - 1)) \ ToSet(s) : row[y + 1] >= row[s[k] + 1]
KNearSet(row, S, k) == /\ Cardinality(S) = k /\ S \subseteq 0..(Len(row) - 1)
                       /\ \A x \in S : \A y \in (0..(Len(row) - 1)) \ S : row[x + 1] <= row[y + 1]
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
SortedBy(row) == SortSeq(row, <)
=============================================================================
