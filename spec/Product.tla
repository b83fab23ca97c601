------------------------------ MODULE Product ------------------------------
(***************************************************************************)
(* Products of complexes, from the definitions.                            *)
(* The simplices of the triangulated product of X and Y are the sequences  *)
(* of pairs of vertices that weakly increase in both coordinates, strictly *)
(* in at least one of them at each step, and whose projections are         *)
(* simplices of X and Y.  The pair (i, j) is the vertex i + n j.           *)
(* The tensor product has basis x (x) y, ordered by the dimension of x,    *)
(* then x, then y, and d(x (x) y) = dx (x) y + (-1)^|x| x (x) dy.          *)
(***************************************************************************)
EXTENDS Maps
\* lattice paths from <<1,1>> to <<a,b>> by steps (1,0), (0,1), (1,1)
RECURSIVE Paths(_, _)
Paths(a, b) == IF a = 1 /\ b = 1 THEN {<< <<1, 1>> >>}
               ELSE LET prev == (IF a > 1 THEN Paths(a - 1, b) ELSE {}) \cup (IF b > 1 THEN Paths(a, b - 1) ELSE {})
                                   \cup (IF a > 1 /\ b > 1 THEN Paths(a - 1, b - 1) ELSE {})
                    IN  TLCEval({Append(q, <<a, b>>) : q \in prev})
PathTab == TLCEval([a \in 1..5 |-> TLCEval([b \in 1..5 |-> Paths(a, b)])])
\* the simplices with projections exactly s and t
Over(s, t, n) == TLCEval({[i \in 1..Len(q) |-> s[q[i][1]] + n * t[q[i][2]]] : q \in PathTab[Len(s)][Len(t)]})
Shuffles(s, t, n) == {c \in Over(s, t, n) : Len(c) = Len(s) + Len(t) - 1}
All(cells) == UNION {ToSet(cells[k]) : k \in DOMAIN cells}
TriAll(X, Y, n, md) == UNION {UNION {{c \in Over(s, t, n) : Len(c) <= md + 1} : t \in All(Y)} : s \in All(X)}
\* products of cells whose dimensions add up to at most md
TriSkel(X, Y, n, md) == UNION {UNION {Over(s, t, n) : t \in {t \in All(Y) : Len(s) + Len(t) - 2 <= md}} : s \in All(X)}
\* cells listed per dimension, without repetition
Listing(cells) == /\ \A k \in DOMAIN cells : /\ \A c \in ToSet(cells[k]) : Len(c) = k /\ IsSimplex(c)
                                             /\ Cardinality(ToSet(cells[k])) = Len(cells[k])
Closed(S) == \A c \in S : Len(c) > 1 => SFaces(c) \subseteq S
IsProduct(cells, X, Y, n, md) == /\ Len(cells) = md + 1 /\ Listing(cells) /\ Closed(All(cells))
                                 /\ All(cells) \subseteq TriAll(X, Y, n, md) /\ TriSkel(X, Y, n, md) \subseteq All(cells)
ProjX(c, n) == SetToSortSeq({c[i] % n : i \in DOMAIN c}, <)
ProjY(c, n) == SetToSortSeq({c[i] \div n : i \in DOMAIN c}, <)
\* ---------------------------------------------------------- tensor product
Nd(D, k) == IF k < 0 \/ k > Top(D) THEN 0 ELSE D[k + 1].n
RECURSIVE ShiftUpTo(_, _, _, _)
ShiftUpTo(DA, DB, n, i) == IF i = 0 THEN 0 ELSE Nd(DA, i - 1) * Nd(DB, n - i + 1) + ShiftUpTo(DA, DB, n, i - 1)
TInd(DA, DB, i, a, j, b) == ShiftUpTo(DA, DB, i + j, i) + a * Nd(DB, j) + b      \* index of a (x) b
Kron(p, x, y, m) == LET S == TLCEval({<<i, j>> : i \in DOMAIN x, j \in DOMAIN y})
                        T == TLCEval({m * q[1] + q[2] : q \in S})
                    IN  TLCEval([k \in T |-> FMul(p, x[k \div m], y[k % m])])
Up(x, s) == VMap(x, LAMBDA i : i + s)
TensVec(p, DA, DB, i, x, j, y) == Up(Kron(p, x, y, Nd(DB, j)), ShiftUpTo(DA, DB, i + j, i))
TensCol(p, DA, DB, i, a, j, b) ==
    VAdd(p, IF i = 0 THEN VZero ELSE TensVec(p, DA, DB, i - 1, DA[i + 1].c[a + 1], j, VUnit(p, b)),
            IF j = 0 THEN VZero ELSE VScale(p, FInt(p, IF i % 2 = 0 THEN 1 ELSE -1), TensVec(p, DA, DB, i, VUnit(p, a), j - 1, DB[j + 1].c[b + 1])))
\* basis of the degree-n part as <<i, a, j, b>>, in order
TensBasis(DA, DB, n) == FlattenSeq(TLCEval([k \in 1..(n + 1) |-> LET i == k - 1 IN
                            FlattenSeq(TLCEval([a \in 1..Nd(DA, i) |-> TLCEval([b \in 1..Nd(DB, n - i) |-> <<i, a - 1, n - i, b - 1>>])]))]))
Tens(p, DA, DB, md) == TLCEval([k \in 1..(md + 1) |->
    LET bs == TLCEval(TensBasis(DA, DB, k - 1))
    IN  IF k = 1 THEN MZero(1, Len(bs)) ELSE Mat(Len(TensBasis(DA, DB, k - 2)), Len(bs), TLCEval([j \in 1..Len(bs) |-> TensCol(p, DA, DB, bs[j][1], bs[j][2], bs[j][3], bs[j][4])]))])
RECURSIVE Conv(_, _, _, _)
Conv(bx, by, k, i) == IF i < 0 THEN 0
                      ELSE (IF i < Len(bx) /\ k - i \in 0..(Len(by) - 1) THEN bx[i + 1] * by[k - i + 1] ELSE 0) + Conv(bx, by, k, i - 1)
Kunneth(bx, by, k) == Conv(bx, by, k, k)
B(p, D) == Bettis(Ranks(p, D), D)
\* homology below the dimension where the product was cut off
BettiTo(md, total) == IF md >= total THEN md ELSE md - 1
KunnethOK(p, DX, DY, D, md) == LET bx == B(p, DX) by == B(p, DY) b == B(p, D) IN
                                \A k \in 0..BettiTo(md, Top(DX) + Top(DY)) : b[k + 1] = Kunneth(bx, by, k)
\* --------------------------------------------------------- Eilenberg-Zilber
\* F is the natural chain map: x (x) y goes to a signed sum of exactly the top simplices over x and y,
\* vertices to vertices, and F commutes with the boundaries (this determines every sign)
IsEZ(p, F, T, X, Y, n, XY, D) ==
    /\ Len(F) = Len(T) /\ Len(D) = Len(F)
    /\ \A k \in 1..Len(F) : F[k].m = D[k].n /\ F[k].n = T[k].n
    /\ \A k \in 1..Len(F) :
         LET idx == IndexOf(XY[k])
             bs == TLCEval(FlattenSeq([i \in 1..k |-> IF i > Len(X) \/ k - i + 1 > Len(Y) THEN <<>> ELSE
                     FlattenSeq(TLCEval([a \in 1..Len(X[i]) |-> TLCEval([b \in 1..Len(Y[k - i + 1]) |-> <<X[i][a], Y[k - i + 1][b]>>])]))]))
         IN  /\ Len(bs) = F[k].n
             /\ \A j \in 1..Len(bs) :
                  /\ DOMAIN F[k].c[j] = {idx[c] : c \in Shuffles(bs[j][1], bs[j][2], n)}
                  /\ \A i \in DOMAIN F[k].c[j] : F[k].c[j][i] \in (IF k = 1 THEN {FOne(p)} ELSE {FOne(p), FInt(p, -1)})
    /\ Commutes(p, F, T, D)
\* a chain map that is an isomorphism on homology in dimensions 0..top
QuasiIso(p, F, T, D, top) ==
    LET bt == B(p, T) bd == B(p, D) IN
    \A k \in 0..top :
      /\ bt[k + 1] = bd[k + 1]
      /\ LET Z == KernelSeq(p, T[k + 1])                 \* F maps cycles onto the homology of the target
             S == BasisOf(p, BdCols(D, k))
         IN  BDim(BasisAddAll(p, S, TLCEval([i \in 1..Len(Z) |-> MVec(p, F[k + 1], Z[i])]))) = BDim(S) + bd[k + 1]
\* ------------------------------------------------------- pairs of complexes
SubD(D, inds) == TLCEval([k \in 1..Len(D) |-> SubMat(D[k], IF k = 1 THEN <<0>> ELSE SetToSortSeq(ToSet(inds[k - 1]), <), SetToSortSeq(ToSet(inds[k]), <))])
\* the long exact sequence of the pair: H_k(X,A) = coker(H_k(A) -> H_k(X)) + ker(H_{k-1}(A) -> H_{k-1}(X))
LES(p, D, inds) ==
    LET S == SubD(D, inds) Q == QuotD(D, inds)
        bs == B(p, S) bd == B(p, D) bq == B(p, Q)
        \* rank of H_k(A) -> H_k(X)
        rk(k) == LET BX == BasisOf(p, BdCols(D, k)) Z == KernelSeq(p, S[k + 1]) keep == SetToSortSeq(ToSet(inds[k + 1]), <)
                 IN  BDim(BasisAddAll(p, BX, TLCEval([i \in 1..Len(Z) |-> VMap(Z[i], LAMBDA j : keep[j + 1])]))) - BDim(BX)
    IN  /\ IsComplex(p, S) /\ IsComplex(p, Q)
        /\ \A k \in 0..Top(D) : bq[k + 1] = (bd[k + 1] - rk(k)) + (IF k = 0 THEN 0 ELSE bs[k] - rk(k - 1))
\* ----------------------------------------------------------- Mayer-Vietoris
\* C_{k+1}(X) -> C_k(Y): the boundary of cells of A, restricted to Y; cells outside A go to zero
MVMat(DX, XC, YC, A, k) ==
    LET idx == IndexOf(CellsAt(YC, k)) S == TLCEval({i \in 0..(Len(XC[k + 1]) - 1) : XC[k + 1][i + 1] \in DOMAIN idx})
    IN  Mat(Len(CellsAt(YC, k)), Len(XC[k + 2]), TLCEval([j \in 1..Len(XC[k + 2]) |->
            IF XC[k + 2][j] \in A THEN VMap(VRestrict(DX[k + 2].c[j], S), LAMBDA i : idx[XC[k + 1][i + 1]]) ELSE VZero]))
\* ------------------------------------------------------------------ algebra
KronMat(p, A, C) == Mat(A.m * C.m, A.n * C.n, TLCEval(FlattenSeq([i \in 1..A.n |-> [j \in 1..C.n |-> Kron(p, A.c[i], C.c[j], C.m)]])))
DSum(A, C) == Mat(A.m + C.m, A.n + C.n, TLCEval(A.c \o [j \in 1..C.n |-> Up(C.c[j], A.m)]))
=============================================================================
