-------------------------------- MODULE Maps --------------------------------
(***************************************************************************)
(* Cell maps, the chain maps they define and the maps these induce on      *)
(* (co)homology, from the definitions.                                     *)
(* An orientation of each cell is a choice, so the chain map is pinned     *)
(* down by: the image cell, its coefficient +-1, coefficient +1 on         *)
(* vertices, and commutation with the boundaries (this determines every    *)
(* sign by induction over the dimension).                                  *)
(***************************************************************************)
EXTENDS Complexes
\* ------------------------------------------------------------ vertex maps
Img(f0, s) == TLCEval([i \in 1..Len(s) |-> f0[s[i] + 1]])
Degenerate(t) == \E i, j \in 1..Len(t) : i < j /\ t[i] = t[j]
Sorted(t) == SetToSortSeq({t[i] : i \in DOMAIN t}, <)
Inversions(t) == Cardinality({<<i, j>> \in (1..Len(t)) \X (1..Len(t)) : i < j /\ t[i] > t[j]})
Sgn(t) == IF Inversions(t) % 2 = 0 THEN 1 ELSE -1
CellsAt(cells, k) == IF k + 1 <= Len(cells) THEN cells[k + 1] ELSE <<>>
\* the map of oriented simplices (orientation by increasing vertices)
MapMat(p, X, Y, f0, k) ==
    LET idx == IndexOf(CellsAt(Y, k))
    IN  Mat(Len(CellsAt(Y, k)), Len(X[k + 1]), TLCEval([j \in 1..Len(X[k + 1]) |->
            LET t == Img(f0, X[k + 1][j]) IN IF Degenerate(t) THEN VZero ELSE idx[Sorted(t)] :> FInt(p, Sgn(t))]))
InclMat(p, X, Y, k) == LET idx == IndexOf(CellsAt(Y, k))
                       IN Mat(Len(CellsAt(Y, k)), Len(X[k + 1]), TLCEval([j \in 1..Len(X[k + 1]) |-> idx[X[k + 1][j]] :> FOne(p)]))
IsSimplicial(X, Y, f0) == \A k \in DOMAIN X : \A j \in DOMAIN X[k] :
                             LET t == Sorted(Img(f0, X[k][j])) IN t \in ToSet(CellsAt(Y, Len(t) - 1))
MapF(p, X, Y, f0) == TLCEval([k \in 1..Len(X) |-> MapMat(p, X, Y, f0, k - 1)])
InclF(p, X, Y) == TLCEval([k \in 1..Len(X) |-> InclMat(p, X, Y, k - 1)])
Commutes(p, F, DX, DY) == \A k \in 2..Len(DX) :
    LET G == MMul(p, F[k - 1], DX[k]) IN IF k <= Len(DY) THEN MMul(p, DY[k], F[k]) = G ELSE MIsZero(G)
\* the same map with other orientations of the cells
SameMap(p, F, G) == /\ Len(F) = Len(G) /\ F[1] = G[1]
                    /\ \A k \in 1..Len(F) : SameUpToSign(p, F[k], G[k])
\* ------------------------------------------------ restriction of a matrix
Keep(n, S) == SetToSortSeq((0..(n - 1)) \ S, <)
SubMat(A, rows, cols) ==          \* rows, cols: increasing sequences of indices to keep
    LET S == ToSet(rows) loc == TLCEval([i \in S |-> (CHOOSE j \in DOMAIN rows : rows[j] = i) - 1])
    IN  Mat(Len(rows), Len(cols), TLCEval([j \in 1..Len(cols) |-> VMap(VRestrict(A.c[cols[j] + 1], S), LAMBDA i : loc[i])]))
QuotMap(F, rows, cols) == TLCEval([k \in 1..Len(F) |-> SubMat(F[k], Keep(F[k].m, IF k <= Len(rows) THEN ToSet(rows[k]) ELSE {}), Keep(F[k].n, ToSet(cols[k])))])
QuotD(D, inds) == TLCEval([k \in 1..Len(D) |-> SubMat(D[k], IF k = 1 THEN <<0>> ELSE Keep(D[k].m, ToSet(inds[k - 1])), Keep(D[k].n, ToSet(inds[k])))])
IndsOf(X, A) == TLCEval([k \in 1..Len(X) |-> LET idx == IndexOf(X[k]) IN TLCEval([j \in 1..Len(CellsAt(A, k - 1)) |-> idx[A[k][j]]])])
\* ---------------------------------------------------------- graded spaces
\* outgoing differential of degree d in dimension k, and generators of the image of the incoming one
OutMat(D, d, k) == IF d = -1 THEN D[k + 1] ELSE IF k = Top(D) THEN MZero(0, D[k + 1].n) ELSE MT(D[k + 2])
InCols(D, d, k) == IF d = -1 THEN BdCols(D, k) ELSE MT(D[k + 1]).c
HDim(p, D, d, k) == OutMat(D, d, k).n - MRank(p, OutMat(D, d, k)) - RankOf(p, InCols(D, d, k))
\* gs is a basis of the (co)homology in dimension k
IsHomBasis(p, D, d, k, gs) ==
    /\ Len(gs) = HDim(p, D, d, k)
    /\ \A i \in DOMAIN gs : DOMAIN MVec(p, OutMat(D, d, k), gs[i]) = {}
    /\ LET B == BasisOf(p, InCols(D, d, k)) IN BDim(BasisAddAll(p, B, gs)) = BDim(B) + Len(gs)
\* A is the matrix of the induced map in the bases gs (source) and hs (target space D, degree d)
IsInduced(p, A, F, gs, D, d, hs, k) ==
    /\ A.m = Len(hs) /\ A.n = Len(gs)
    /\ LET B == TLCEval(BasisOf(p, InCols(D, d, k))) H == Mat(D[k + 1].n, Len(hs), hs)
       IN  \A i \in 1..Len(gs) : InSpan(p, B, VSub(p, MVec(p, F, gs[i]), MVec(p, H, A.c[i])))
AugD(p, D, aug) == IF aug = 1 THEN [D EXCEPT ![1] = Mat(1, D[1].n, TLCEval([j \in 1..D[1].n |-> VUnit(p, 0)]))] ELSE D
\* ------------------------------------- subdivided triangles (Sierpinski)
Pow3(i) == FoldLeft(LAMBDA a, j : 3 * a, 1, [j \in 1..i |-> j])
\* the level-i complex: every corner triangle of level i - 1 split into three by the midpoints of its sides, middle triangles filled
SierCounts(i) == <<(3 * Pow3(i) + 3) \div 2, 3 * Pow3(i)>> \o (IF i = 0 THEN <<>> ELSE <<(Pow3(i) - 1) \div 2>>)
SierBetti(i) == <<1, Pow3(i)>> \o (IF i = 0 THEN <<>> ELSE <<0>>)
SierOK(p, D, h, i) == /\ [k \in DOMAIN D |-> D[k].n] = SierCounts(i) /\ IsComplex(p, D) /\ h = SierBetti(i)
                      /\ \A k \in DOMAIN D : HDim(p, D, -1, k - 1) = SierBetti(i)[k]
                      /\ \A k \in 2..Len(D) : \A j \in 1..D[k].n : Cardinality(DOMAIN D[k].c[j]) = (IF k = 2 THEN 2 ELSE LET t == Pow3(i - 1) IN IF j > D[k].n - t THEN 3 ELSE Cardinality(DOMAIN D[k].c[j]))
\* a vertex is kept, an edge is sent to its two halves (a path of two edges with the same ends), a filled triangle to a filled triangle
SierMap(p, F, DX, DY) == /\ Commutes(p, F, DX, DY)
                         /\ \A k \in DOMAIN F : F[k].m = (IF k \in DOMAIN DY THEN DY[k].n ELSE 0) /\ F[k].n = (IF k \in DOMAIN DX THEN DX[k].n ELSE 0)
                         /\ \A k \in DOMAIN F : \A j \in 1..F[k].n :
                               LET S == DOMAIN F[k].c[j] IN IF k = 2 THEN Cardinality(S) = 2 /\ \A x \in S : F[k].c[j][x] \in {FOne(p), FNeg(p, FOne(p))}
                                                            ELSE Cardinality(S) = 1 /\ \A x \in S : F[k].c[j][x] \in {FOne(p), FNeg(p, FOne(p))}
                         /\ \A k \in DOMAIN F : \A i, j \in 1..F[k].n : i < j => DOMAIN F[k].c[i] \cap DOMAIN F[k].c[j] = {}
=============================================================================
