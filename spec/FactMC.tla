------------------------------- MODULE FactMC -------------------------------
(***************************************************************************)
(* Elimination A = L Q U as a transition system.  W starts as A; a step      *)
(* picks a non-zero entry with nothing to its left and nothing above it and  *)
(* clears the rest of its row and column, collecting the row operations in L *)
(* (downwards only) and the column operations in U (rightwards only).  For   *)
(* every order of pivots the product and the shapes are kept, the run ends   *)
(* with as many pivots as the rank, and where the pivots lie is decided by   *)
(* the ranks of the leading blocks of A alone.                               *)
(***************************************************************************)
EXTENDS LinAlg
CONSTANTS P, NR, NC
VARIABLES A, W, L, U, done
vars == <<A, W, L, U, done>>
Cols == {VMk(P, 0..(NR - 1), LAMBDA i : f[i]) : f \in [0..(NR - 1) -> 0..(P - 1)]}
Init == /\ \E f \in [1..NC -> Cols] : A = Mat(NR, NC, f)
        /\ W = A /\ L = MIdent(P, NR) /\ U = MIdent(P, NC) /\ done = {}
At(X, i, j) == MGet(P, X, i, j)
Corner(i, j) == /\ At(W, i, j) # 0
                /\ \A k \in 0..(i - 1) : At(W, k, j) = 0
                /\ \A k \in 0..(j - 1) : At(W, i, k) = 0
Free == {c \in (0..(NR - 1)) \X (0..(NC - 1)) : Corner(c[1], c[2])} \ done
Step(i, j) ==
    LET a == At(W, i, j)
        down == VMk(P, 0..(NR - 1), LAMBDA k : IF k = i THEN 1 ELSE FDiv(P, At(W, k, j), a))       \* column i of the row operations
        right == VMk(P, 0..(NC - 1), LAMBDA k : IF k = j THEN 1 ELSE FDiv(P, At(W, i, k), a))      \* row j of the column operations
        E == Mat(NR, NR, TLCEval([k \in 1..NR |-> IF k = i + 1 THEN down ELSE VUnit(P, k - 1)]))
        F == MT(Mat(NC, NC, TLCEval([k \in 1..NC |-> IF k = j + 1 THEN right ELSE VUnit(P, k - 1)])))
    IN  /\ W' = Mat(NR, NC, TLCEval([c \in 1..NC |->
                  VMk(P, 0..(NR - 1), LAMBDA k : IF c = j + 1 THEN (IF k = i THEN a ELSE 0)
                                                 ELSE IF k = i THEN 0
                                                 ELSE FSub(P, At(W, k, c - 1), FDiv(P, FMul(P, At(W, k, j), At(W, i, c - 1)), a)))]))
        /\ L' = MMul(P, L, E) /\ U' = MMul(P, F, U) /\ done' = done \cup {<<i, j>>} /\ UNCHANGED A
Next == \E c \in Free : Step(c[1], c[2])
Block(i, j) == RankOf(P, TLCEval([c \in 1..j |-> VRestrict(A.c[c], 0..(i - 1))]))
Jump(i, j) == Block(i + 1, j + 1) - Block(i, j + 1) - Block(i + 1, j) + Block(i, j)
Inv == /\ MMul(P, MMul(P, L, W), U) = A
       /\ MLowerInv(L) /\ MUpperInv(U)
       /\ \A c \in done : Corner(c[1], c[2]) /\ Jump(c[1], c[2]) = 1
       /\ Free = {} => (MPivotShape(W) /\ MNnz(W) = MRank(P, A) /\ {<<i, j>> \in (0..(NR - 1)) \X (0..(NC - 1)) : At(W, i, j) # 0} = done)
\* triangular systems: substitution from the last (first) unknown gives the unique solution
RECURSIVE Back(_, _, _)
Back(T, b, x) == IF DOMAIN b = {} THEN x
                 ELSE LET i == Max(DOMAIN b) c == FDiv(P, b[i], T.c[i + 1][i])
                      IN Back(T, VAxpy(P, FNeg(P, c), T.c[i + 1], b), VAxpy(P, c, VUnit(P, i), x))
Solve == (done = {} /\ MUpperInv(A)) => \A b \in Cols : LET x == Back(A, b, VZero) IN MVec(P, A, x) = b /\ \A y \in Cols : MVec(P, A, y) = b => y = x
=============================================================================
