------------------------------ MODULE DenseMC -------------------------------
(***************************************************************************)
(* The dense algorithms as transition systems: LU with complete pivoting   *)
(* (any non-zero pivot), a span kept as P^T-ed unit lower columns and      *)
(* grown by any vector, and similarity transforms under any sequence of    *)
(* elementary operations.                                                  *)
(***************************************************************************)
EXTENDS Dense
CONSTANTS P, MM, NN, KIND
VARIABLES A0, S, A, V, k
vars == <<A0, S, A, V, k>>
Elems == 0..(P - 1)
Vecs(n) == {VMk(P, 0..(n - 1), LAMBDA i : f[i]) : f \in [0..(n - 1) -> Elems]}
AllMats(m, n) == {Mat(m, n, c) : c \in [1..n -> Vecs(m)]}
Empty == Mat(MM, 0, <<>>)
Init == /\ k = 0
        /\ IF KIND = "span" THEN A0 = VZero /\ S = MIdent(P, NN) /\ A = Empty /\ V = <<>>
           ELSE \E B \in AllMats(MM, NN) : A0 = B /\ A = B /\ S = MIdent(P, MM) /\ V = MIdent(P, NN)
\* ---- A0 = S (I + strict lower part of the first k columns of A) (the rest of A) V
Rest == {ij \in (k..(MM - 1)) \X (k..(NN - 1)) : MGet(P, A, ij[1], ij[2]) # FZero(P)}
Clear(B) == LET d == FInv(P, MGet(P, B, k, k))
                mul == TLCEval([i \in (k + 1)..(MM - 1) |-> FMul(P, d, MGet(P, B, i, k))])
            IN  Mat(MM, NN, TLCEval([j \in 1..NN |-> IF j - 1 < k THEN B.c[j]
                      ELSE IF j - 1 = k THEN VMk(P, 0..(MM - 1), LAMBDA i : IF i > k THEN mul[i] ELSE MGet(P, B, i, k))
                      ELSE VMk(P, 0..(MM - 1), LAMBDA i : IF i > k THEN FSub(P, MGet(P, B, i, j - 1), FMul(P, mul[i], MGet(P, B, k, j - 1))) ELSE MGet(P, B, i, j - 1))]))
Lu == /\ KIND = "lu" /\ k < Min({MM, NN}) /\ Rest # {}
      /\ \E ij \in Rest : A' = Clear(SwapCols(P, SwapRows(P, A, k, ij[1]), k, ij[2])) /\ S' = SwapCols(P, S, k, ij[1]) /\ V' = SwapRows(P, V, k, ij[2])
      /\ k' = k + 1 /\ UNCHANGED A0
LowPart == Mat(MM, MM, TLCEval([j \in 1..MM |-> IF j <= k THEN VAdd(P, VUnit(P, j - 1), VRestrict(A.c[j], j..(MM - 1))) ELSE VUnit(P, j - 1)]))
UpPart == Mat(MM, NN, TLCEval([j \in 1..NN |-> IF j <= k THEN VRestrict(A.c[j], 0..(j - 1)) ELSE A.c[j]]))
LuInv == /\ MMul(P, S, MMul(P, LowPart, MMul(P, UpPart, V))) = A0 /\ MPerm(P, S) /\ MPerm(P, V)
         /\ (k = Min({MM, NN}) \/ Rest = {}) => IsLU(P, A0, S, LowPart, UpPart, V) /\ k = MRank(P, A0)
\* ---- S = P^T, A = L, A0 = basis of the span
Grow == /\ KIND = "span" /\ UNCHANGED V
        /\ \E v \in Vecs(NN) :
              LET y == FwdX(P, A, MVec(P, S, v)).y IN
              IF DOMAIN y = {} THEN UNCHANGED <<A0, S, A, k>>
              ELSE \E q \in DOMAIN y :
                      LET L == Mat(NN, A.n + 1, Append(A.c, VScale(P, FInv(P, y[q]), y))) IN
                      A' = SwapRows(P, L, A.n, q) /\ S' = SwapRows(P, S, A.n, q) /\ A0' = TLCEval(BasisAdd(P, A0, v)) /\ k' = k + 1
Canon(B) == BasisSeq(B)
SpanInv == /\ k = BDim(A0) /\ A.n = k /\ UnitLower(P, A) /\ MPerm(P, S)
           /\ \A v \in Vecs(NN) : InSpan(P, A0, v) <=> DOMAIN FwdX(P, A, MVec(P, S, v)).y = {}
\* ---- A0 = S A V, V = S^-1
Sim == /\ KIND = "sim" /\ k < 3 /\ k' = k + 1 /\ UNCHANGED A0
       /\ \/ \E i, j \in 0..(NN - 1) : i < j /\ S' = SwapCols(P, S, i, j) /\ A' = SwapRows(P, SwapCols(P, A, i, j), i, j) /\ V' = SwapRows(P, V, i, j)
          \/ \E i, j \in 0..(NN - 1), c \in 1..(P - 1) : i # j /\ S' = AddCol(P, S, FNeg(P, c), j, i) /\ A' = AddCol(P, AddRow(P, A, c, i, j), FNeg(P, c), j, i) /\ V' = AddRow(P, V, c, i, j)
          \/ \E i \in 0..(NN - 1), c \in 2..(P - 1) : S' = ScaleCol(P, S, FInv(P, c), i) /\ A' = ScaleCol(P, ScaleRow(P, A, c, i), FInv(P, c), i) /\ V' = ScaleRow(P, V, c, i)
SimInv == MMul(P, S, MMul(P, A, V)) = A0 /\ MMul(P, S, V) = MIdent(P, NN)
Next == Lu \/ Grow \/ Sim
Inv == CASE KIND = "lu" -> LuInv [] KIND = "span" -> SpanInv [] KIND = "sim" -> SimInv
=============================================================================
