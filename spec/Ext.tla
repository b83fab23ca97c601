------------------------------- MODULE Ext -------------------------------
(***************************************************************************)
(* Functions on vertices, on voxels and on grids extended to complexes.    *)
(* A simplex is an increasing sequence of vertices, a cube a sequence      *)
(* <<a1, b1, a2, b2, ...>> with b = a or b = a + 1.  cells[k + 1] lists    *)
(* the k-cells.  A filtration by intervals gives every cell [entry, exit]. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
Flat(cells) == UNION {Rng(cells[k]) : k \in DOMAIN cells}
\* ------------------------------------------------------------ extrema over the vertices of a cell
Corners(c) == LET n == Len(c) \div 2 IN {v \in [1..n -> UNION {{c[2 * i - 1], c[2 * i]} : i \in 1..n}] : \A i \in 1..n : v[i] \in {c[2 * i - 1], c[2 * i]}}
MaxOver(s, f(_)) == LET V == TLCEval({f(v) : v \in s}) IN Max(V)
MinOver(s, f(_)) == LET V == TLCEval({f(v) : v \in s}) IN Min(V)
\* intervals during which a cell is present when a vertex v is present on [f(v) - eps, f(v) + eps]
Window(s, f(_), eps) == <<MaxOver(s, f) - eps, MinOver(s, f) + eps>>
Good(w) == w[1] <= w[2]
\* ------------------------------------------------------------ boxes of the integer grid
Cube1(c) == Len(c) % 2 = 0 /\ \A i \in 1..(Len(c) \div 2) : c[2 * i] \in {c[2 * i - 1], c[2 * i - 1] + 1}
CDim(c) == Cardinality({i \in 1..(Len(c) \div 2) : c[2 * i - 1] # c[2 * i]})
Segs(lo, hi) == {<<a, a>> : a \in lo..hi} \cup {<<a, a + 1>> : a \in lo..(hi - 1)}
RECURSIVE BoxCubes(_, _)
BoxCubes(lo, hi) == IF lo = <<>> THEN {<<>>} ELSE {s \o c : s \in Segs(lo[1], hi[1]), c \in BoxCubes(Tail(lo), Tail(hi))}
Low(c) == [i \in 1..(Len(c) \div 2) |-> c[2 * i - 1]]
High(c) == [i \in 1..(Len(c) \div 2) |-> c[2 * i]]
\* the Freudenthal simplices inside a cube: chains of corners from the lowest to the highest
Leq(v, w) == \A i \in DOMAIN v : v[i] <= w[i]
Chains(c) == LET V == TLCEval(Corners(c)) IN
    {S \in SUBSET V : Low(c) \in S /\ High(c) \in S /\ \A v, w \in S : Leq(v, w) \/ Leq(w, v)}
RowMajor(v, n) == FoldLeft(LAMBDA acc, i : acc * n[i] + v[i], 0, [i \in 1..Len(n) |-> i])
Freud(C, n) == UNION {TLCEval({SetToSortSeq({RowMajor(v, n) : v \in S}, <) : S \in Chains(c)}) : c \in C}
\* ------------------------------------------------------------ voxel images: img[i][j][k], cubes on one vertex more per axis
Dims(img) == <<Len(img), Len(img[1]), Len(img[1][1])>>
Around(c, i, n) == {a \in 0..(n - 1) : a <= c[2 * i - 1] /\ c[2 * i] <= a + 1}
Voxels(img, c) == LET d == Dims(img) IN {img[a + 1][b + 1][e + 1] : a \in Around(c, 1, d[1]), b \in Around(c, 2, d[2]), e \in Around(c, 3, d[3])}
Toplex(img, c) == LET V == TLCEval(Voxels(img, c)) IN <<Min(V), Max(V)>>
\* ------------------------------------------------------------ level sets
Meets(xs, s0, s1) == \E j \in DOMAIN xs : xs[j][1] <= s1 /\ xs[j][2] >= s0
RECURSIVE Windows(_, _, _)
\* the windows of a zigzag of level sets: [s, s + e], [s, s + 2 e], [s + e, s + 2 e], ...
Windows(s, e, t1) == IF s < t1 - e THEN <<<<s, s + e>>, <<s, s + 2 * e>>>> \o Windows(s + e, e, t1) ELSE <<<<s, s + e>>>>
=============================================================================
