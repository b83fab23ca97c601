------------------------------ MODULE Complex ------------------------------
(***************************************************************************)
(* The state machine of a growing complex and of a filtration over it.     *)
(*                                                                         *)
(* A complex is [kind, amb, cells]: kind "simp" (trie-based), "light"      *)
(* (numbered simplices) or "cube"; amb is the ambient dimension of a       *)
(* cubical complex; cells[k + 1] is the sequence of k-cells in the order   *)
(* of their insertion, so that position - 1 is the index of the cell.      *)
(* Trailing empty dimensions carry no information (Trim).                  *)
(* A filtration is [x, v]: a complex and v[k + 1][i + 1] the value of      *)
(* cell i in dimension k.                                                  *)
(***************************************************************************)
EXTENDS Complexes
RECURSIVE Trim(_)
Trim(cs) == IF cs = <<>> \/ cs[Len(cs)] # <<>> THEN cs ELSE Trim(SubSeq(cs, 1, Len(cs) - 1))
New(kind, amb) == [kind |-> kind, amb |-> amb, cells |-> <<>>]
At(cs, k) == IF k + 1 \in DOMAIN cs THEN cs[k + 1] ELSE <<>>
Cells(X, k) == At(X.cells, k)
Set(X, k) == TLCEval(ToSet(Cells(X, k)))
AllCells(X) == UNION {Set(X, k - 1) : k \in DOMAIN X.cells}
Norm(X, s) == IF X.kind = "cube" THEN s ELSE TLCEval(SortSeq(s, <))     \* vertices may come in any order
DimOf(X, s) == IF X.kind = "cube" THEN CubeDim(s) ELSE Len(s) - 1
FacesOf(X, s) == IF DimOf(X, s) = 0 THEN {} ELSE IF X.kind = "cube" THEN CFaces(s) ELSE SFaces(s)
Acceptable(X, s) == IF X.kind = "cube" THEN Len(s) = 2 * X.amb /\ IsCube(s) ELSE Len(s) >= 1 /\ IsSimplex(s)
Has(X, s) == s \in Set(X, DimOf(X, s))
Idx(X, s) == LET c == Cells(X, DimOf(X, s)) IN IF Has(X, s) THEN (CHOOSE i \in DOMAIN c : c[i] = s) - 1 ELSE 1000000001
RECURSIVE Close(_, _)
Close(X, S) == IF S = {} THEN {} ELSE LET T == UNION {FacesOf(X, s) : s \in S} IN S \cup Close(X, T)
Closure(X, s) == TLCEval(Close(X, {s}))
Put(cs, k, s) == LET n == IF Len(cs) > k + 1 THEN Len(cs) ELSE k + 1
                 IN  TLCEval([j \in 1..n |-> IF j = k + 1 THEN Append(At(cs, k), s) ELSE At(cs, j - 1)])
\* ---------------------------------------------------------------- actions
Refused(X, s) == ~Has(X, s) /\ \E f \in FacesOf(X, s) : ~Has(X, f)
Add(X, s) == IF Has(X, s) \/ Refused(X, s) THEN X ELSE [X EXCEPT !.cells = Put(@, DimOf(X, s), s)]
\* the new cells may be appended in any order: Y is a result of adding s with its faces to X
Extends(X, Y, new) == /\ Y.kind = X.kind /\ Y.amb = X.amb
                      /\ \A k \in 0..(Len(Y.cells) - 1) :
                            /\ IsPrefix(Cells(X, k), Cells(Y, k))
                            /\ LET T == SubSeq(Cells(Y, k), Len(Cells(X, k)) + 1, Len(Cells(Y, k)))
                               IN  ToSet(T) = {t \in new : DimOf(X, t) = k} /\ Len(T) = Cardinality(ToSet(T))
                      /\ \A k \in Len(Y.cells)..Len(X.cells) : Cells(X, k) = <<>>
                      /\ \A t \in new : DimOf(X, t) < Len(Y.cells)
NewFaces(X, s) == {t \in Closure(X, s) : ~Has(X, t)}
IsAddRec(X, s, Y) == Extends(X, Y, NewFaces(X, s))
\* one particular order, for generating behaviours
RECURSIVE AddAll(_, _)
AddAll(X, S) == IF S = {} THEN X ELSE LET s == CHOOSE t \in S : \A u \in S : DimOf(X, t) <= DimOf(X, u) IN AddAll(Add(X, s), S \ {s})
AddRec(X, s) == AddAll(X, NewFaces(X, s))
IsUnion(X, Y, Z) == AllCells(Z) = AllCells(X) \cup AllCells(Y)
IsInter(X, Y, Z) == AllCells(Z) = AllCells(X) \cap AllCells(Y)
IsSkeleton(X, k, Z) == Z.amb = X.amb /\ AllCells(Z) = {s \in AllCells(X) : DimOf(X, s) <= k}
GridCubes(n) == LET I == {<<a, b>> : a \in 0..(n - 1), b \in 0..(n - 1)} \cap {<<a, b>> \in (0..(n - 1)) \X (0..(n - 1)) : b \in {a, a + 1}}
                IN  {i \o j \o k : i \in I, j \in I, k \in I}
\* ------------------------------------------------------------- invariants
Distinct(X) == \A k \in DOMAIN X.cells : Len(X.cells[k]) = Cardinality(ToSet(X.cells[k]))
Graded(X) == \A k \in DOMAIN X.cells : \A s \in ToSet(X.cells[k]) : DimOf(X, s) = k - 1 /\ Acceptable(X, s)
Closed(X) == \A s \in AllCells(X) : \A f \in FacesOf(X, s) : Has(X, f)
BdOf(q, X, k) == IF X.kind = "cube" THEN CubeBd(q, X.cells, k) ELSE SimplexBd(q, X.cells, k)
ComplexInv(X) == Distinct(X) /\ Graded(X) /\ Closed(X)
SquareZero(q, X) == LET cs == Trim(X.cells) IN cs # <<>> => IsComplex(q, TLCEval([k \in 1..Len(cs) |-> BdOf(q, [X EXCEPT !.cells = cs], k - 1)]))
\* -------------------------------------------------------------- filtration
FNew(X, v) == [x |-> X, v |-> v]
ValOf(f, s) == At(f.v, DimOf(f.x, s))[Idx(f.x, s) + 1]
OneValueEach(f) == \A k \in 0..Max({Len(f.v), Len(f.x.cells), 1}) : Len(At(f.v, k)) = Len(Cells(f.x, k))
\* g is f with the cells new (exactly) added at value t, re-added cells again (possibly none) at t, everything else unchanged
FStep(f, g, again, t) ==
    /\ OneValueEach(g)
    /\ \A s \in AllCells(g.x) : ValOf(g, s) = IF ~Has(f.x, s) \/ s \in again THEN t ELSE ValOf(f, s)
Monotone(f) == \A s \in AllCells(f.x) : \A u \in FacesOf(f.x, s) : ValOf(f, u) <= ValOf(f, s)
Sub(f, a) == {s \in AllCells(f.x) : ValOf(f, s) <= a}
=============================================================================
