------------------------------- MODULE MapsMC -------------------------------
(***************************************************************************)
(* Every pair of vertex maps X -> Y -> Z on NV vertices, X any complex up  *)
(* to dimension MD, Y and Z the images (so the maps are simplicial): the   *)
(* chain maps commute with the boundaries and compose, and so do the       *)
(* matrices in any homology bases.                                         *)
(***************************************************************************)
EXTENDS Maps
CONSTANTS P, NV, MD
V == 0..(NV - 1)
Full == {SetToSortSeq(T, <) : T \in {S \in SUBSET V : S # {} /\ Cardinality(S) <= MD + 1}}
VARIABLES X, f, g
\* a complex is generated by a set of maximal faces
Closure(M) == UNION {SClosure(s) : s \in M}
List(K) == TLCEval([k \in 1..(MD + 1) |-> SetToSeq({s \in K : Len(s) = k})])
Init == /\ X \in {Closure(M) : M \in {N \in SUBSET Full : N # {} /\ Cardinality(N) <= 2}}
        /\ f \in [1..NV -> V] /\ g \in [1..NV -> V]
Next == UNCHANGED <<X, f, g>>
Image(h, K) == {Sorted(Img(h, s)) : s \in K}
Bd(c) == TLCEval([k \in 1..Len(c) |-> SimplexBd(P, c, k - 1)])
\* a homology basis: cycles completing the boundaries
HB(D, k) == LET Z == KernelSeq(P, D[k + 1])
            IN  FoldLeft(LAMBDA acc, z : IF InSpan(P, BasisOf(P, BdCols(D, k) \o acc), z) THEN acc ELSE Append(acc, z), <<>>, Z)
\* coordinates of the class of x in the basis hs modulo boundaries
Coord(D, k, hs, x) == CHOOSE v \in [1..Len(hs) -> {FInt(P, c) : c \in 0..(P - 1)}] :
    InSpan(P, BasisOf(P, BdCols(D, k)), VSub(P, x, FoldLeft(LAMBDA a, i : VAxpy(P, v[i], hs[i], a), VZero, TLCEval([i \in 1..Len(hs) |-> i]))))
IndM(F, k, gs, D, hs) == Mat(Len(hs), Len(gs), TLCEval([i \in 1..Len(gs) |-> LET v == Coord(D, k, hs, MVec(P, F[k + 1], gs[i])) IN VMk(P, 0..(Len(hs) - 1), LAMBDA j : v[j + 1])]))
Inv == LET Y == Image(f, X) Z == Image(g, Y) gf == [i \in 1..NV |-> g[f[i] + 1]]
           x == TLCEval(List(X)) y == TLCEval(List(Y)) z == TLCEval(List(Z))
           F == MapF(P, x, y, f) G == MapF(P, y, z, g) H == MapF(P, x, z, gf)
           dx == Bd(x) dy == Bd(y) dz == Bd(z)
       IN  /\ IsSimplicial(x, y, f) /\ IsSimplicial(y, z, g) /\ IsSimplicial(x, z, gf)
           /\ Commutes(P, F, dx, dy) /\ Commutes(P, G, dy, dz) /\ Commutes(P, H, dx, dz)
           /\ \A k \in 1..Len(F) : H[k] = MMul(P, G[k], F[k])
           /\ \A k \in 0..MD : LET a == HB(dx, k) b == HB(dy, k) c == HB(dz, k)
                               IN  IndM(H, k, a, dz, c) = MMul(P, IndM(G, k, b, dz, c), IndM(F, k, a, dy, b))
=============================================================================
