----------------------------- MODULE ProductMC -----------------------------
(***************************************************************************)
(* For every pair of complexes on NX and NY vertices: the tensor product   *)
(* is a complex, the shuffle map with explicit signs is the natural chain  *)
(* map onto the triangulated product and an isomorphism on homology, the   *)
(* Kunneth formula holds for both, and every subcomplex satisfies the long *)
(* exact sequence of the pair.                                             *)
(***************************************************************************)
EXTENDS Product
CONSTANTS P, NX, NY
VARIABLES X, Y, A
vars == <<X, Y, A>>
Simp(n) == {SetToSortSeq(S, <) : S \in SUBSET (0..(n - 1)) \ {{}}}
Cpx(n) == {K \in SUBSET Simp(n) : \A s \in K : SClosure(s) \subseteq K}
List(K, n) == TLCEval([k \in 1..n |-> SetToSeq({s \in K : Len(s) = k})])
Init == X \in Cpx(NX) /\ Y = {} /\ A = {}
Next == \/ Y = {} /\ A = {} /\ Y' \in Cpx(NY) \ {{}} /\ UNCHANGED <<X, A>>
        \/ Y = {} /\ A = {} /\ A' \in {B2 \in Cpx(NX) : B2 \subseteq X /\ B2 # {}} /\ UNCHANGED <<X, Y>>
DOf(cells) == TLCEval([k \in 1..Len(cells) |-> SimplexBd(P, cells, k - 1)])
\* the sign of a shuffle: steps along Y that come before a step along X
YBefore(c, n) == Cardinality({<<i, j>> \in (1..(Len(c) - 1)) \X (1..(Len(c) - 1)) : i < j /\ c[i] \div n # c[i + 1] \div n /\ c[j] \div n = c[j + 1] \div n})
EZMat(x, y, n, XY, k) ==
    LET idx == IndexOf(XY[k])
        bs == TLCEval(FlattenSeq([i \in 1..k |-> IF i > Len(x) \/ k - i + 1 > Len(y) THEN <<>> ELSE
                     FlattenSeq(TLCEval([a \in 1..Len(x[i]) |-> TLCEval([b \in 1..Len(y[k - i + 1]) |-> <<x[i][a], y[k - i + 1][b]>>])]))]))
        col(b) == LET S == Shuffles(b[1], b[2], n) I == TLCEval({idx[c] : c \in S})
                  IN  TLCEval([i \in I |-> FInt(P, IF YBefore(XY[k][i + 1], n) % 2 = 0 THEN 1 ELSE -1)])
    IN  Mat(Len(XY[k]), Len(bs), TLCEval([j \in 1..Len(bs) |-> col(bs[j])]))
ProductOK ==
    LET x == List(X, NX) y == List(Y, NY) md == NX + NY - 2
        S == TriAll(x, y, NX, md)
        XY == TLCEval([k \in 1..(md + 1) |-> SetToSeq({c \in S : Len(c) = k})])
        DX == DOf(x) DY == DOf(y) D == DOf(XY) T == Tens(P, DX, DY, md)
        F == TLCEval([k \in 1..(md + 1) |-> EZMat(x, y, NX, XY, k)])
    IN  /\ TriSkel(x, y, NX, md) = S /\ IsProduct(XY, x, y, NX, md)
        /\ IsComplex(P, T) /\ IsComplex(P, D)
        /\ KunnethOK(P, DX, DY, T, md) /\ KunnethOK(P, DX, DY, D, md)
        /\ IsEZ(P, F, T, x, y, NX, XY, D) /\ QuasiIso(P, F, T, D, md)
PairOK == LET x == List(X, NX) a == List(A, NX) IN LES(P, DOf(x), IndsOf(x, a))
Inv == (X # {} /\ Y # {} => ProductOK) /\ (A # {} => PairOK)
=============================================================================
