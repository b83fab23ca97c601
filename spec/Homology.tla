------------------------------ MODULE Homology ------------------------------
(***************************************************************************)
(* Homology and persistent homology of a (filtered) chain complex, written *)
(* from the definitions, and the persistence pairing of an ordered basis.  *)
(***************************************************************************)
EXTENDS Complexes, Reduction
Inf == 1000000000
\* ---------------------------------------------------------- filtrations
\* val[k + 1][i + 1]: filtration value of the i-th k-cell.
Monotone(D, val) == \A k \in 2..Len(D) : \A j \in 1..D[k].n : \A i \in DOMAIN D[k].c[j] : val[k - 1][i + 1] <= val[k][j]
IsPermOf(q, n) == Len(q) = n /\ {q[i] : i \in 1..n} = 0..(n - 1)
SortsBy(q, v) == IsPermOf(q, Len(v)) /\ \A i \in 1..(Len(q) - 1) : v[q[i] + 1] <= v[q[i + 1] + 1]
IsOrder(perm, D, val) == Len(perm) = Len(D) /\ \A k \in 1..Len(D) : Len(val[k]) = D[k].n /\ SortsBy(perm[k], val[k])
InvPerm(q) == TLCEval([i \in 1..Len(q) |-> (CHOOSE j \in 1..Len(q) : q[j] = i - 1) - 1])
\* D with every basis listed in the order perm (perm[k + 1][new] = old)
Reorder(D, perm) ==
    LET inv == TLCEval([k \in 1..Len(D) |-> InvPerm(perm[k])])
    IN  TLCEval([k \in 1..Len(D) |->
          Mat(D[k].m, D[k].n, TLCEval([j \in 1..D[k].n |-> LET x == D[k].c[perm[k][j] + 1]
                                                 IN  IF k = 1 THEN x ELSE VMap(x, LAMBDA i : inv[k - 1][i + 1])]))])
\* pivot pairing in every dimension of an ordered complex: pair[k + 1][i + 1] is the k-cell killing the (k-1)-cell i
Pairing(p, D) == TLCEval([k \in 1..Len(D) |-> SeqPairs(p, D[k])])
Negative(P, k) == {P[k + 1][i] : i \in DOMAIN P[k + 1]} \ {NoInd}           \* k-cells that kill a class
\* bars in dimension k as <<birth position, death position or NoInd>>
BarsAt(D, P, k) == {<<i, IF k = Top(D) THEN NoInd ELSE P[k + 2][i + 1]>> : i \in (0..(NC(D, k) - 1)) \ Negative(P, k)}
\* the same bars in terms of cells and values
Deperm(perm, k, b) == <<perm[k + 1][b[1] + 1], IF b[2] = NoInd THEN NoInd ELSE perm[k + 2][b[2] + 1]>>
BarVal(val, k, c) == <<val[k + 1][c[1] + 1], IF c[2] = NoInd THEN Inf ELSE val[k + 2][c[2] + 1]>>
\* -------------------------------------------- rank of H_k(X_s) -> H_k(X_t)
\* = dim Z_k(s) - dim (Z_k(s) cap B_k(t)) ; B_k(t) cap C_k(s) = B_k(t) cap Z_k(s)
ColsUpTo(A, v, t) == LET d == SetToSeq({j \in 1..A.n : v[j] <= t}) IN TLCEval([i \in 1..Len(d) |-> A.c[d[i]]])
PersRank(p, D, val, k, s, t) ==
    LET zs == Len(SelectSeq(val[k + 1], LAMBDA x : x <= s)) - RankOf(p, ColsUpTo(D[k + 1], val[k + 1], s))
        late == {i \in 0..(NC(D, k) - 1) : val[k + 1][i + 1] > s}
    IN  IF k = Top(D) THEN zs
        ELSE LET b == ColsUpTo(D[k + 2], val[k + 2], t)
                 up == TLCEval([i \in 1..Len(b) |-> VRestrict(b[i], late)])
             IN  zs - (RankOf(p, b) - RankOf(p, up))
Values(val) == UNION {{val[k][i] : i \in DOMAIN val[k]} : k \in DOMAIN val}
\* a bag (sequence) of <<birth value, death value>> pairs counts persistent ranks
RankRight(p, D, val, k, bars) ==
    \A s \in Values(val) : \A t \in {x \in Values(val) : x >= s} :
        Cardinality({i \in DOMAIN bars : bars[i][1] <= s /\ bars[i][2] > t}) = PersRank(p, D, val, k, s, t)
=============================================================================
