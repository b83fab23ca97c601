----------------------------- MODULE Complexes -----------------------------
(***************************************************************************)
(* Finite complexes given by lists of cells per dimension, and their       *)
(* boundary operators, written from the definitions:                       *)
(*   simplex  <<v0,..,vk>>, v0 < .. < vk    face i drops v_i, sign (-1)^i  *)
(*   cube     <<<<a1,b1>>,..>>, b = a or a + 1   upper face minus lower    *)
(*            face of the t-th non-degenerate interval, sign (-1)^t        *)
(*   cell     an explicit list of <<face index, integer coefficient>>      *)
(* An orientation of a cell is a choice, so a boundary column is           *)
(* determined only up to sign (SameUpToSign).                              *)
(***************************************************************************)
EXTENDS LinAlg
\* ------------------------------------------------------------ simplices
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
IsSimplex(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
SFaces(s) == {Drop(s, i) : i \in 1..Len(s)}
\* all non-empty faces of s including s
SClosure(s) == {SetToSortSeq(T, <) : T \in (SUBSET {s[k] : k \in DOMAIN s}) \ {{}}}
IndexOf(seq) == LET D == TLCEval({seq[k] : k \in DOMAIN seq}) IN TLCEval([x \in D |-> (CHOOSE k \in DOMAIN seq : seq[k] = x) - 1])
SimplexCol(p, idx, s) == VOfK(TLCEval([i \in 1..Len(s) |-> <<idx[Drop(s, i)], FInt(p, IF i % 2 = 1 THEN 1 ELSE -1)>>]))
SimplexBd(p, cells, k) ==      \* boundary from dimension k to k - 1; cells[k + 1] lists the k-simplices
    IF k = 0 THEN MZero(1, Len(cells[1]))
    ELSE LET idx == IndexOf(cells[k]) IN Mat(Len(cells[k]), Len(cells[k + 1]), TLCEval([j \in 1..Len(cells[k + 1]) |-> SimplexCol(p, idx, cells[k + 1][j])]))
\* ---------------------------------------------------------------- cubes
\* a cube is a flat sequence lo1, hi1, lo2, hi2, ..
CubeDim(c) == Cardinality({i \in 1..(Len(c) \div 2) : c[2 * i - 1] # c[2 * i]})
IsCube(c) == Len(c) % 2 = 0 /\ \A i \in 1..(Len(c) \div 2) : c[2 * i] \in {c[2 * i - 1], c[2 * i - 1] + 1}
NonDeg(c) == SetToSortSeq({i \in 1..(Len(c) \div 2) : c[2 * i - 1] # c[2 * i]}, <)
LowFace(c, i) == [c EXCEPT ![2 * i] = c[2 * i - 1]]
UpFace(c, i) == [c EXCEPT ![2 * i - 1] = c[2 * i]]
CFaces(c) == UNION {{LowFace(c, i), UpFace(c, i)} : i \in ToSet(NonDeg(c))}
CubeCol(p, idx, c) == LET d == NonDeg(c)
                          sg(t) == IF t % 2 = 1 THEN 1 ELSE -1
                      IN  VOfK(TLCEval([t \in 1..Len(d) |-> <<idx[UpFace(c, d[t])], FInt(p, sg(t))>>] \o [t \in 1..Len(d) |-> <<idx[LowFace(c, d[t])], FInt(p, -sg(t))>>]))
CubeBd(p, cells, k) ==
    IF k = 0 THEN MZero(1, Len(cells[1]))
    ELSE LET idx == IndexOf(cells[k]) IN Mat(Len(cells[k]), Len(cells[k + 1]), TLCEval([j \in 1..Len(cells[k + 1]) |-> CubeCol(p, idx, cells[k + 1][j])]))
\* ---------------------------------------------------------------- cells
\* cells[1] is the number of vertices as a one-element sequence <<n>>; cells[k + 1] a sequence of lists <<<<index, coefficient>>, ..>>
CellBd(p, cells, k, n) ==       \* n[k + 1] cells in dimension k
    IF k = 0 THEN MZero(1, n[1])
    ELSE Mat(n[k], n[k + 1], TLCEval([j \in 1..n[k + 1] |-> LET c == cells[k + 1][j] IN
              FoldLeft(LAMBDA acc, e : VAdd(p, acc, VScale(p, FInt(p, e[2]), VUnit(p, e[1]))), VZero, c)]))
\* --------------------------------------------------------- chain complexes
\* A chain complex is a sequence D of matrices, D[k + 1] : C_k -> C_{k-1}.
Top(D) == Len(D) - 1
NC(D, k) == D[k + 1].n
IsComplex(p, D) == \A k \in 1..(Len(D) - 1) : D[k].n = D[k + 1].m /\ MIsZero(MMul(p, D[k], D[k + 1]))
SameUpToSign(p, A, B) == A.m = B.m /\ A.n = B.n /\ \A j \in 1..A.n : A.c[j] \in {B.c[j], VScale(p, FInt(p, -1), B.c[j])}
\* ranks of the boundaries, one per dimension
Ranks(p, D) == TLCEval([k \in 1..Len(D) |-> MRank(p, D[k])])
Betti(rk, D, k) == NC(D, k) - rk[k + 1] - (IF k = Top(D) THEN 0 ELSE rk[k + 2])
Bettis(rk, D) == TLCEval([k \in 1..Len(D) |-> Betti(rk, D, k - 1)])
BdCols(D, k) == IF k = Top(D) THEN <<>> ELSE D[k + 2].c           \* generators of B_k
IsCycle(p, D, k, x) == DOMAIN MVec(p, D[k + 1], x) = {}
Euler(D) == FoldLeft(LAMBDA acc, k : acc + (IF k % 2 = 1 THEN 1 ELSE -1) * D[k].n, 0, TLCEval([k \in 1..Len(D) |-> k]))
=============================================================================
