---------------------------- MODULE UnionFindMC ----------------------------
(* all filtered graphs on NV vertices with values 0..MaxVal: edges arrive in filtration order *)
EXTENDS UnionFind
CONSTANTS NV, MaxVal
VARIABLES v0, es, st, now
vars == <<v0, es, st, now>>
Pairs == {e \in (0..(NV - 1)) \X (0..(NV - 1)) : e[1] < e[2]}
Init == v0 \in [1..NV -> 0..MaxVal] /\ es = <<>> /\ st = UFInit(NV) /\ now = 0
AddEdge(e, t) == /\ t >= now /\ t >= v0[e[1] + 1] /\ t >= v0[e[2] + 1] /\ ~\E i \in DOMAIN es : es[i][1] = e
                 /\ es' = Append(es, <<e, t>>) /\ st' = UFStep(v0, st, e[1], e[2], t) /\ now' = t /\ UNCHANGED v0
Next == \E e \in Pairs, t \in 0..MaxVal : AddEdge(e, t)
\* the complex built so far, with the vertices in the order v0 (ties by index)
G == <<MZero(1, NV), Mat(NV, Len(es), TLCEval([j \in 1..Len(es) |-> VOf(<<<<es[j][1][1], 1>>, <<es[j][1][2], 1>>>>)]))>>
V == <<v0, TLCEval([j \in 1..Len(es) |-> es[j][2]])>>
Q == <<SetToSortSeq(0..(NV - 1), LAMBDA i, j : v0[i + 1] < v0[j + 1] \/ (v0[i + 1] = v0[j + 1] /\ i < j)), TLCEval([j \in 1..Len(es) |-> j - 1])>>
Bag(s) == LET T == ToSet(s) IN [x \in T |-> Cardinality({i \in DOMAIN s : s[i] = x})]
ByReduction == LET X == Reorder(G, Q) P == Pairing(2, X) E == SetToSeq(BarsAt(X, P, 0)) IN TLCEval([i \in 1..Len(E) |-> BarVal(V, 0, Deperm(Q, 0, E[i]))])
Elders == \A i \in 1..NV : LET S == {x \in 1..NV : st.comp[x] = st.comp[i]} IN st.comp[i] + 1 \in S /\ \A x \in S : v0[st.comp[i] + 1] <= v0[x]
Agree == Bag(UFFinish(v0, st)) = Bag(ByReduction)
Inv == Elders /\ Agree
=============================================================================
