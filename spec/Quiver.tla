------------------------------- MODULE Quiver -------------------------------
(***************************************************************************)
(* A representation of a line quiver: spaces of dimension dims[i] and, for *)
(* each consecutive pair, an arrow [dir, M], dir = 1 (i -> i+1) or -1      *)
(* (i <- i+1).  Its interval decomposition is determined by the ranks of   *)
(* the linear relations composed along the line, which are computed here   *)
(* from the definition and not from any matrix normal form.                *)
(***************************************************************************)
EXTENDS LinAlg
Blk == 1000
ShiftV(x, o) == VMap(x, LAMBDA i : i + o)
\* a relation R between V_a (indices 0..) and V_i (indices Blk..) as a sequence of spanning vectors
Diag(p, d) == TLCEval([i \in 1..d |-> (i - 1 :> FOne(p)) @@ (Blk + i - 1 :> FOne(p))])
Left(x) == VRestrict(x, {i \in DOMAIN x : i < Blk})
Right(x) == VRestrict(x, {i \in DOMAIN x : i >= Blk})
RStep(p, R, d, ar) ==       \* d: dimension of the next space
    IF ar.dir = 1
    THEN BasisSeq(BasisOf(p, TLCEval([k \in 1..Len(R) |-> ShiftV(MVec(p, ar.M, ShiftV(Right(R[k]), -Blk)), Blk) @@ Left(R[k])])))
    ELSE \* { (x, z) : (x, g z) in R }: combinations of (x, y, 0) and (0, -g z, z) that vanish in the middle
         LET mid == 2 * Blk
             vs == TLCEval([k \in 1..Len(R) |-> ShiftV(Right(R[k]), Blk) @@ Left(R[k])])
                   \o TLCEval([j \in 1..d |-> (Blk + j - 1 :> FOne(p)) @@ ShiftV(VScale(p, FInt(p, -1), ar.M.c[j]), mid)])
             S == UNION {{i \in DOMAIN vs[k] : i >= mid} : k \in DOMAIN vs}
         IN  SubspaceVanishing(p, vs, S, 10 * Blk)
VanishDim(p, R, lo) ==      \* dimension of the part of R inside one factor
    LET keep(i) == IF lo THEN i >= Blk ELSE i < Blk       \* coordinates that must vanish
        S == TLCEval(UNION {{i \in DOMAIN R[k] : keep(i)} : k \in DOMAIN R})
    IN  Len(SubspaceVanishing(p, R, S, 10 * Blk))
RelRank(p, R) == RankOf(p, R) - VanishDim(p, R, TRUE) - VanishDim(p, R, FALSE)
RECURSIVE RowFrom(_, _, _, _, _)
RowFrom(p, dims, arr, R, b) ==       \* ranks of the relations ending at b, b + 1, ..
    IF b = Len(dims) THEN <<RelRank(p, R)>>
    ELSE <<RelRank(p, R)>> \o RowFrom(p, dims, arr, TLCEval(RStep(p, R, dims[b + 1], arr[b])), b + 1)
\* RankTab[a][b - a + 1]: rank of the relation from node a to node b
RankTab(p, dims, arr) == TLCEval([a \in 1..Len(dims) |-> TLCEval(RowFrom(p, dims, arr, Diag(p, dims[a]), a))])
Rk(T, a, b) == IF a < 1 \/ b > Len(T) THEN 0 ELSE T[a][b - a + 1]
Mult(T, a, b) == Rk(T, a, b) - Rk(T, a - 1, b) - Rk(T, a, b + 1) + Rk(T, a - 1, b + 1)
\* bars as <<first node, last node>> (1-based) decompose the representation
Decomposes(T, dims, bars) == \A a \in 1..Len(dims) : \A b \in a..Len(dims) :
    Cardinality({k \in DOMAIN bars : bars[k][1] <= a /\ bars[k][2] >= b}) = Rk(T, a, b)
=============================================================================
