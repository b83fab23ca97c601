------------------------------ MODULE SmithMC -------------------------------
(***************************************************************************)
(* The Smith reduction as a transition system over Z or F_p[x], for every  *)
(* small matrix and every choice of pivots and order of the elementary     *)
(* operations: the factorization is kept and the reduction ends in the     *)
(* Smith form (told independently by determinantal divisors).              *)
(***************************************************************************)
EXTENDS Poly
CONSTANTS K, P, M, N, B            \* ring, characteristic, shape, entries: |a| <= B, or degree < B
VARIABLES A, R, S, C, j, ph
vars == <<A, R, S, C, j, ph>>
RECURSIVE PolyUpTo(_)
PolyUpTo(d) == IF d = 0 THEN {<<>>} ELSE PolyUpTo(d - 1) \cup {Append(s, c) : s \in [1..(d - 1) -> 0..(P - 1)], c \in 1..(P - 1)}
Entries == IF K = "z" THEN (-B)..B ELSE PolyUpTo(B)
\* the extended Euclidean algorithm: <<x, y, g, w, z>>; keeps a when a divides b
RECURSIVE Euc(_, _, _, _, _, _, _)
Sub(a, q, b) == RAdd(K, P, a, RNeg(K, P, RMul(K, P, q, b)))
Euc(s0, s, t0, t, r0, r, i) ==
    IF r = Zr(K) THEN <<s0, t0, r0, IF i % 2 = 1 THEN RNeg(K, P, t) ELSE t, IF i % 2 = 0 THEN RNeg(K, P, s) ELSE s>>
    ELSE LET q == RQuo(K, P, r0, r) IN Euc(s, Sub(s0, q, s), t, Sub(t0, q, t), r, Sub(r0, q, r), i + 1)
Bez(a, b) == IF a # Zr(K) /\ RDivides(K, P, a, b) THEN <<On(K, P), Zr(K), a, On(K, P), RQuo(K, P, b, a)>>
             ELSE Euc(On(K, P), Zr(K), Zr(K), On(K, P), a, b, 0)
Lin(x, a, y, b) == RAdd(K, P, RMul(K, P, x, a), RMul(K, P, y, b))
\* rows i, k replaced by a r_i + b r_k and c r_i + d r_k
MixR(X, i, k, a, b, c, d) == RMat(X.m, X.n, LAMBDA u, v : IF u = i THEN Lin(a, X.e[i][v], b, X.e[k][v]) ELSE IF u = k THEN Lin(c, X.e[i][v], d, X.e[k][v]) ELSE X.e[u][v])
\* columns i, k replaced by a c_i + c c_k and b c_i + d c_k
MixC(X, i, k, a, b, c, d) == RMat(X.m, X.n, LAMBDA u, v : IF v = i THEN Lin(a, X.e[u][i], c, X.e[u][k]) ELSE IF v = k THEN Lin(b, X.e[u][i], d, X.e[u][k]) ELSE X.e[u][v])
Z0 == Zr(K) I1 == On(K, P) Ng(x) == RNeg(K, P, x)
SwR(X, i, k) == IF i = k THEN X ELSE MixR(X, i, k, Z0, I1, I1, Z0)
SwC(X, i, k) == IF i = k THEN X ELSE MixC(X, i, k, Z0, I1, I1, Z0)
Init == \E f \in [1..M -> [1..N -> Entries]] :
            /\ A = [m |-> M, n |-> N, e |-> f] /\ S = A /\ R = RId(K, P, M) /\ C = RId(K, P, N) /\ j = 1 /\ ph = "pivot"
Rest == {rc \in (j..M) \X (j..N) : S.e[rc[1]][rc[2]] # Z0}
Pivot == /\ ph = "pivot"
         /\ IF Rest = {} THEN ph' = "div" /\ UNCHANGED <<A, R, S, C, j>>
            ELSE \E rc \in Rest : /\ S' = SwR(SwC(S, j, rc[2]), j, rc[1])
                                  /\ R' = SwC(R, j, rc[1]) /\ C' = SwR(C, j, rc[2])
                                  /\ ph' = "cols" /\ UNCHANGED <<A, j>>
RowDirty == {c \in (j + 1)..N : S.e[j][c] # Z0}
ColDirty == {i \in (j + 1)..M : S.e[i][j] # Z0}
Cols == /\ ph = "cols" /\ UNCHANGED <<A, j>>
        /\ IF RowDirty = {} THEN ph' = "rows" /\ UNCHANGED <<R, S, C>>
           ELSE \E c \in RowDirty : LET t == TLCEval(Bez(S.e[j][j], S.e[j][c])) IN
                /\ S' = MixC(S, j, c, t[1], Ng(t[5]), t[2], t[4]) /\ C' = MixR(C, j, c, t[4], t[5], Ng(t[2]), t[1])
                /\ UNCHANGED <<R, ph>>
Rows == /\ ph = "rows" /\ UNCHANGED A
        /\ IF ColDirty = {} THEN (IF RowDirty = {} THEN ph' = "pivot" /\ j' = j + 1 ELSE ph' = "cols" /\ j' = j) /\ UNCHANGED <<R, S, C>>
           ELSE \E i \in ColDirty : LET t == TLCEval(Bez(S.e[j][j], S.e[i][j])) IN
                /\ S' = MixR(S, j, i, t[1], t[2], Ng(t[5]), t[4]) /\ R' = MixC(R, j, i, t[4], Ng(t[2]), t[5], t[1])
                /\ UNCHANGED <<C, ph, j>>
\* finalization: from the top, in order
Bad == {q \in (1..(j - 1)) \X (1..(j - 1)) : q[1] < q[2] /\ ~RDivides(K, P, S.e[q[1]][q[1]], S.e[q[2]][q[2]])}
Div == /\ ph = "div" /\ UNCHANGED <<A, j>>
       /\ IF Bad = {} THEN ph' = "done" /\ UNCHANGED <<R, S, C>>
          ELSE \E q \in Bad : LET i == q[1] k == q[2] t == TLCEval(Bez(S.e[i][i], S.e[k][k])) yz == TLCEval(RMul(K, P, t[2], t[5])) one == RAdd(K, P, I1, Ng(yz)) IN
               /\ S' = MixR(MixC(S, i, k, t[1], Ng(t[5]), t[2], t[4]), i, k, I1, I1, Ng(yz), one)
               /\ C' = MixR(C, i, k, t[4], t[5], Ng(t[2]), t[1])
               /\ R' = MixC(R, i, k, one, Ng(I1), yz, I1)
               /\ UNCHANGED ph
Next == Pivot \/ Cols \/ Rows \/ Div
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Kept == Factors(K, P, A, R, S, C)
Diag == ph \in {"div", "done"} => RDiagonal(K, S)
Mon(X) == IF K = "z" THEN X ELSE RMat(X.m, X.n, LAMBDA u, v : PMonic(P, X.e[u][v]))
Final == ph = "done" => SmithOf(K, P, A, Mon(S)) /\ RowsFactor(K, P, A, R, S)
Ends == <>(ph = "done")
=============================================================================
