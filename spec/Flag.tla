------------------------------- MODULE Flag -------------------------------
(***************************************************************************)
(* Flag complexes, nerves, Dowker and witness constructions by their       *)
(* definitions.  Simplices are increasing sequences; a complex is a set of *)
(* simplices; graphs are sets of two-element sets; w gives edge values.    *)
(***************************************************************************)
EXTENDS Metric
Asc(S) == SetToSortSeq(S, <)
Clique(E, S) == \A a \in S : \A b \in S : a < b => {a, b} \in E
\* cliques of at most d + 1 vertices, by extending with larger vertices
RECURSIVE Grow(_, _, _, _)
Grow(n, E, L, d) == IF d = 0 \/ L = {} THEN L
                    ELSE LET M == TLCEval({S \cup {v} : S \in L, v \in 0..(n - 1)} \cap {T \in {S \cup {v} : S \in L, v \in 0..(n - 1)} : \E v \in T : \E S \in L : T = S \cup {v} /\ v \notin S /\ \A u \in S : u < v /\ {u, v} \in E})
                         IN  L \cup Grow(n, E, M, d - 1)
Cliques(n, E, d) == TLCEval({S \in UNION {kSubset(k, 0..(n - 1)) : k \in 1..(IF d + 1 < n THEN d + 1 ELSE n)} : Clique(E, S)})
FVal(w, t0, S) == IF Cardinality(S) = 1 THEN t0 ELSE Max({w[e] : e \in {e \in SUBSET S : Cardinality(e) = 2}})
\* the recorded cells (one list per dimension) are exactly the set C of vertex sets, each once
CAt(cs, k) == IF k + 1 \in DOMAIN cs THEN cs[k + 1] ELSE <<>>
IsCells(cs, C) == \A k \in 0..(Max({Len(cs)} \cup {Cardinality(S) : S \in C}) - 1) :
                     LET want == {Asc(S) : S \in {S \in C : Cardinality(S) = k + 1}} c == CAt(cs, k)
                     IN  ToSet(c) = want /\ Len(c) = Cardinality(want)
IsFilt(f, C, w, t0) == /\ IsCells(f.cells, C)
                       /\ \A k \in DOMAIN f.cells : /\ Len(CAt(f.vals, k - 1)) = Len(f.cells[k])
                                                    /\ \A i \in DOMAIN f.cells[k] : f.vals[k][i] = FVal(w, t0, ToSet(f.cells[k][i]))
\* every cell comes with the position of an edge that gives it its value
IsOrigin(f, inds, es) ==
    \A k \in DOMAIN f.cells : /\ Len(CAt(inds, k - 1)) = Len(f.cells[k])
        /\ \A i \in DOMAIN f.cells[k] :
             IF k = 1 THEN inds[1][i] = f.cells[1][i][1]
             ELSE LET e == es[inds[k][i] + 1] IN {e[1], e[2]} \subseteq ToSet(f.cells[k][i]) /\ e[3] = f.vals[k][i]
\* a list of valued edges lists the graph E with values w, each edge once
IsEdgeList(es, E, w) == Len(es) = Cardinality(E) /\ {{e[1], e[2]} : e \in ToSet(es)} = E /\ \A e \in ToSet(es) : e[3] = w[{e[1], e[2]}]
\* ---------------------------------------------------------------- nerves
\* cover: sequence of sets; one vertex per set, a simplex for every non-empty common intersection
NerveSets(cover, d) == LET n == Len(cover) IN
    TLCEval({S \in UNION {kSubset(k, 0..(n - 1)) : k \in 1..(IF d + 1 < n THEN d + 1 ELSE n)} :
               Cardinality(S) = 1 \/ \E x \in UNION {cover[i + 1] : i \in S} : \A i \in S : x \in cover[i + 1]})
\* --------------------------------------------------------- Dowker, witness
\* d: landmarks x witnesses
Inf == 1000000000
DowkerEdge(d, i, j) == LET K == DOMAIN d[i + 1] IN IF K = {} THEN Inf ELSE Min({Max({d[i + 1][k], d[j + 1][k]}) : k \in K})
DowkerW(d) == TLCEval([e \in Pairs(Len(d)) |-> DowkerEdge(d, Min(e), Max(e))])
Column(d, k) == [i \in DOMAIN d |-> d[i][k]]
\* the nu-th smallest entry of a column (0 when nu = 0)
NuTh(d, k, nu) == IF nu = 0 THEN 0 ELSE SortSeq(Column(d, k), <)[nu]
Relaxed(d, nu) == TLCEval([i \in DOMAIN d |-> TLCEval([k \in DOMAIN d[i] |-> Max({0, d[i][k] - NuTh(d, k, nu)})])])
\* simplices having a witness for all of their faces: k-simplices whose vertices are the k + 1 landmarks nearest to some witness
RECURSIVE Weak(_, _, _, _)
Weak(d, nx, L, k) ==
    IF k = 0 THEN {{i} : i \in L}
    ELSE LET low == Weak(d, nx, L, k - 1)
             cand == {S \in kSubset(k + 1, L) : \E x \in 1..nx : \A i \in S : \A j \in L \ S : d[i + 1][x] < d[j + 1][x]}
         IN  low \cup {S \in cand : \A v \in S : S \ {v} \in low}
=============================================================================
