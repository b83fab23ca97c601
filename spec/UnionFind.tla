------------------------------ MODULE UnionFind ------------------------------
(***************************************************************************)
(* Merging of components of a filtered graph with the elder rule, as a     *)
(* state machine over its edges in filtration order.  State: comp (vertex  *)
(* -> oldest vertex of its component) and the bars closed so far.  When    *)
(* two components meet, the one with the younger oldest vertex dies.       *)
(***************************************************************************)
EXTENDS Homology
Elder(v, a, b) == IF v[a + 1] < v[b + 1] \/ (v[a + 1] = v[b + 1] /\ a < b) THEN a ELSE b
UFInit(n) == [comp |-> TLCEval([i \in 1..n |-> i - 1]), bars |-> <<>>]
UFStep(v0, st, a, b, t) ==      \* an edge {a, b} with value t
    LET ra == st.comp[a + 1] rb == st.comp[b + 1]
    IN  IF ra = rb THEN st
        ELSE LET keep == Elder(v0, ra, rb) gone == IF keep = ra THEN rb ELSE ra
             IN  [comp |-> TLCEval([i \in DOMAIN st.comp |-> IF st.comp[i] = gone THEN keep ELSE st.comp[i]]),
                  bars |-> Append(st.bars, <<v0[gone + 1], t>>)]
UFFinish(v0, st) == st.bars \o TLCEval(LET s == SetToSeq({st.comp[i] : i \in DOMAIN st.comp}) IN [i \in 1..Len(s) |-> <<v0[s[i] + 1], Inf>>])
\* edges of X (columns of D[2]) in some filtration order
UFRun(X, v) ==
    IF Len(X) = 1 THEN UFFinish(v[1], UFInit(X[1].n))
    ELSE LET es == SetToSortSeq(1..X[2].n, LAMBDA i, j : v[2][i] < v[2][j] \/ (v[2][i] = v[2][j] /\ i < j))
             st == FoldLeft(LAMBDA s, j : LET d == DOMAIN X[2].c[j] IN IF d = {} THEN s ELSE UFStep(v[1], s, Min(d), Max(d), v[2][j]), UFInit(X[1].n), es)
         IN  UFFinish(v[1], st)
=============================================================================
