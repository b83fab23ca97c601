-------------------------------- MODULE CSC --------------------------------
(***************************************************************************)
(* Compressed-column storage: colptr, row indices and values, and the      *)
(* matrix it stands for.  A column may list its entries in any order.      *)
(***************************************************************************)
EXTENDS LinAlg
ColEntries(cp, ri, vs, j) == TLCEval([k \in 1..(cp[j + 1] - cp[j]) |-> <<ri[cp[j] + k], vs[cp[j] + k]>>])
Dense(m, n, cp, ri, vs) == Mat(m, n, TLCEval([j \in 1..n |-> VOfK(ColEntries(cp, ri, vs, j))]))
\* rows rs and columns cs, in the order given
Pick(A, rs, cs) == Mat(Len(rs), Len(cs), TLCEval([j \in 1..Len(cs) |->
    LET x == A.c[cs[j] + 1] D == TLCEval({i \in 1..Len(rs) : rs[i] \in DOMAIN x}) IN TLCEval([i \in {k - 1 : k \in D} |-> x[rs[i + 1]]])]))
NoI == 1000000001
\* place[i + 1]: new row of row i, or NoI when the row is left out
Place(A, cs, place, m) == Mat(m, Len(cs), TLCEval([j \in 1..Len(cs) |->
    LET x == A.c[cs[j] + 1] D == TLCEval({i \in DOMAIN x : place[i + 1] # NoI}) IN TLCEval([r \in {place[i + 1] : i \in D} |-> x[CHOOSE i \in D : place[i + 1] = r]])]))
\* column operations of a product and of a back substitution, one term at a time
Drop0(p, x) == LET D == TLCEval({i \in DOMAIN x : x[i] # FZero(p)}) IN TLCEval([i \in D |-> x[i]])
BackStep(p, U, y, i) ==      \* y[i] := y[i] / U[i,i], then y[:i] -= y[i] U[:i,i]
    LET a == FDiv(p, VGet(p, y, i), MGet(p, U, i, i))
        up == VRestrict(U.c[i + 1], 0..(i - 1))
        rest == VRestrict(y, DOMAIN y \ {i})
    IN  VAdd(p, VAxpy(p, FNeg(p, a), up, rest), IF a = FZero(p) THEN VZero ELSE (i :> a))
=============================================================================
