----------------------------- MODULE Reduction -----------------------------
(***************************************************************************)
(* Column reduction of a matrix A as a state machine.  A state is the pair *)
(* (R, U); the only action adds a multiple of an earlier column to a later *)
(* one, to R and U alike.  Any algorithm built from such steps keeps       *)
(* A U = R with U unit upper triangular, and when R is reduced its pivots  *)
(* are the same whatever the order of the steps (checked exhaustively in   *)
(* ReduceMC).  An implementation is right when its result is a reduced     *)
(* state reachable this way.                                               *)
(***************************************************************************)
EXTENDS LinAlg
NoInd == 1000000001
AddCol(p, X, k, j, a) == [X EXCEPT !.c[j] = VAxpy(p, a, X.c[k], X.c[j])]
\* pivot row -> column of a reduced matrix, 0-based, NoInd where there is none
PivotMap(R) == FoldLeft(LAMBDA f, j : IF DOMAIN R.c[j] = {} THEN f ELSE [f EXCEPT ![VPivot(R.c[j]) + 1] = j - 1],
                        TLCEval([i \in 1..R.m |-> NoInd]), TLCEval([j \in 1..R.n |-> j]))
\* left-to-right elimination: the canonical run of the state machine.
\* acc: pivot -> reduced column.
RECURSIVE ElimPivot(_, _, _)
\* B[i + 1] is the registered column with pivot row i, or the zero vector
ElimPivot(p, B, x) == IF DOMAIN x = {} THEN x
                      ELSE LET i == VPivot(x) b == B[i + 1] IN
                           IF DOMAIN b # {} THEN ElimPivot(p, B, VAxpy(p, FNeg(p, FDiv(p, x[i], b[i])), b, x)) ELSE x
SeqPairs(p, A) ==     \* pivot row -> column (0-based)
    FoldLeft(LAMBDA acc, j : LET x == TLCEval(ElimPivot(p, acc.B, A.c[j]))
                             IN IF DOMAIN x = {} THEN acc
                                ELSE LET i == VPivot(x) IN [B |-> TLCEval([acc.B EXCEPT ![i + 1] = x]), f |-> TLCEval([acc.f EXCEPT ![i + 1] = j - 1])],
             [B |-> TLCEval([i \in 1..A.m |-> VZero]), f |-> TLCEval([i \in 1..A.m |-> NoInd])], TLCEval([j \in 1..A.n |-> j])).f
\* every column of R lies in the span of the same-or-earlier columns of A, and prefix ranks agree
RECURSIVE PrefixOK(_, _, _, _, _, _)
PrefixOK(p, A, R, j, B, nz) ==
    IF j > A.n THEN TRUE
    ELSE LET B2 == TLCEval(BasisAdd(p, B, A.c[j]))
             nz2 == IF DOMAIN R.c[j] = {} THEN nz ELSE nz + 1
         IN  /\ InSpan(p, B2, R.c[j])
             /\ BDim(B2) = nz2
             /\ PrefixOK(p, A, R, j + 1, B2, nz2)
SameSpans(p, A, R) == A.m = R.m /\ A.n = R.n /\ PrefixOK(p, A, R, 1, VZero, 0)
Factors(p, A, R, U) == A.n = U.m /\ U.n = A.n /\ MUpperInv(U) /\ MMul(p, A, U) = R
IsReduced(R) == LET nz == {j \in 1..R.n : DOMAIN R.c[j] # {}} IN Cardinality({VPivot(R.c[j]) : j \in nz}) = Cardinality(nz)
=============================================================================
