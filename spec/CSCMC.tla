------------------------------- MODULE CSCMC -------------------------------
(***************************************************************************)
(* Back substitution and column accumulation as transition systems, for    *)
(* every upper triangular matrix with non-zero diagonal and right side of  *)
(* order N over F_P: the rows are eliminated from the last to the first    *)
(* (skipping rows that hold zero), in the end U x = b; and the product of  *)
(* U with b is reached whatever the order in which its terms are added.    *)
(***************************************************************************)
EXTENDS CSC
CONSTANTS P, N
Scal == 0..(P - 1)
Vecs(k) == [0..(k - 1) -> Scal]
VARIABLES U, b, y, row, acc, todo
vars == <<U, b, y, row, acc, todo>>
ColOf(x, k, d) == Drop0(P, [i \in 0..k |-> IF i = k THEN d ELSE x[i]])
Init == \E cs \in [1..N -> UNION {{<<x, d>> : x \in Vecs(N - 1), d \in 1..(P - 1)}}] :
          /\ \A k \in 1..N : \A i \in (k - 1)..(N - 2) : cs[k][1][i] = 0
          /\ U = Mat(N, N, TLCEval([k \in 1..N |-> ColOf(cs[k][1], k - 1, cs[k][2])]))
          /\ \E x \in Vecs(N) : b = Drop0(P, x)
          /\ y = b /\ row = N /\ acc = VZero /\ todo = DOMAIN b
Eliminate == LET nz == {i \in DOMAIN y : i < row} IN
             /\ row' = IF nz = {} THEN 0 ELSE Max(nz)
             /\ y' = IF nz = {} THEN y ELSE BackStep(P, U, y, Max(nz))
             /\ UNCHANGED <<U, b, acc, todo>>
Add == \E k \in todo : todo' = todo \ {k} /\ acc' = VAxpy(P, b[k], U.c[k + 1], acc) /\ UNCHANGED <<U, b, y, row>>
Next == (row > 0 /\ Eliminate) \/ (row = 0 /\ Add)
\* the rows not yet eliminated: U times the finished part plus the unfinished part is b
Partial == MVec(P, U, VRestrict(y, row..(N - 1)))
Inv == /\ VAdd(P, Partial, VRestrict(y, 0..(row - 1))) = b
       /\ (row = 0) => MVec(P, U, y) = b
       /\ (todo = {}) => acc = MVec(P, U, b)
=============================================================================
