------------------------------- MODULE Dense --------------------------------
(***************************************************************************)
(* Dense matrices with elementary operations, their LU factorization with  *)
(* complete pivoting, triangular solves, similarity transforms A0 = S A V  *)
(* with V the inverse of S, spans grown vector by vector, permutations     *)
(* composed from swaps, and index ranges.                                  *)
(***************************************************************************)
EXTENDS LinAlg
\* from dense rows <<m, n, rows>>
DenseOf(p, r) == Mat(r[1], r[2], TLCEval([j \in 1..r[2] |-> VMk(p, 0..(r[1] - 1), LAMBDA i : r[3][i + 1][j])]))
DVec(p, x) == VMk(p, 0..(Len(x) - 1), LAMBDA i : x[i + 1])
FromRows(p, m, n, v) == Mat(m, n, TLCEval([j \in 1..n |-> VMk(p, 0..(m - 1), LAMBDA i : v[i * n + j])]))
\* elementary matrices of order n (indices from 0)
Swp(i, j, k) == IF k = i THEN j ELSE IF k = j THEN i ELSE k
SwapM(p, n, i, j) == Mat(n, n, TLCEval([c \in 1..n |-> VUnit(p, Swp(i, j, c - 1))]))
AddM(p, n, a, i, j) == Mat(n, n, TLCEval([c \in 1..n |-> IF c - 1 = i THEN VAxpy(p, a, VUnit(p, j), VUnit(p, i)) ELSE VUnit(p, c - 1)]))   \* row j += a row i
ScaleM(p, n, a, i) == Mat(n, n, TLCEval([c \in 1..n |-> IF c - 1 = i THEN VScale(p, a, VUnit(p, i)) ELSE VUnit(p, c - 1)]))
SwapRows(p, A, i, j) == MMul(p, SwapM(p, A.m, i, j), A)
SwapCols(p, A, i, j) == MMul(p, A, SwapM(p, A.n, i, j))
AddRow(p, A, a, i, j) == MMul(p, AddM(p, A.m, a, i, j), A)                       \* row j += a row i
AddCol(p, A, a, i, j) == MMul(p, A, MT(AddM(p, A.n, a, i, j)))                  \* column j += a column i
ScaleRow(p, A, a, i) == MMul(p, ScaleM(p, A.m, a, i), A)
ScaleCol(p, A, a, i) == MMul(p, A, ScaleM(p, A.n, a, i))
UnitLower(p, L) == \A j \in 1..L.n : j <= L.m => (\A i \in DOMAIN L.c[j] : i >= j - 1) /\ VGet(p, L.c[j], j - 1) = FOne(p)
\* A = P L U Q
IsLU(p, A, P, L, U, Q) == /\ MPerm(p, P) /\ P.m = A.m /\ MPerm(p, Q) /\ Q.m = A.n
                          /\ L.m = A.m /\ L.n = A.m /\ UnitLower(p, L) /\ U.m = A.m /\ U.n = A.n /\ MUpper(U)
                          /\ MMul(p, P, MMul(p, L, MMul(p, U, Q))) = A
                          /\ Cardinality({j \in 1..U.n : (j - 1) \in DOMAIN U.c[j]}) = MRank(p, A)         \* complete pivoting reveals the rank
\* forward substitution with a unit lower triangular L (at least as many rows as columns): the only x that clears the leading entries
FwdX(p, L, y) == LET st == FoldLeft(LAMBDA a, j : LET c == VGet(p, a.y, j) IN [x |-> IF c = FZero(p) THEN a.x ELSE (j :> c) @@ a.x, y |-> VAxpy(p, FNeg(p, c), L.c[j + 1], a.y)],
                                    [x |-> VZero, y |-> y], [j \in 1..L.n |-> j - 1])
                 IN  st
\* what a swap does to a sequence (positions from 0); a composition applies its parts in order
SwapSeq(s, i, j) == TLCEval([k \in DOMAIN s |-> s[Swp(i, j, k - 1) + 1]])
Selected(A, rows, cols) == Mat(Len(rows), Len(cols), TLCEval([j \in 1..Len(cols) |->
                              LET x == A.c[cols[j] + 1] D == {i \in 0..(Len(rows) - 1) : rows[i + 1] \in DOMAIN x} IN TLCEval([i \in D |-> x[rows[i + 1]]])]))
=============================================================================
