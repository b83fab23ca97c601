---------------------------- MODULE FunctorTrace ----------------------------
(***************************************************************************)
(* Recorded functors between diagrams.                                     *)
(*   X   cells per node     g  edges <<source, target, vertex map>>        *)
(*   D   chain complexes    F  chain maps                                  *)
(*   h   last homology diagram [k, gens, mats]                             *)
(*   dg  graded spaces [deg, D, F, g]                                      *)
(***************************************************************************)
EXTENDS Maps, Trace0
Fl == INSTANCE Flag
Q == INSTANCE Quiver
VARIABLES X, g, D, F, h, dg
fvars == <<X, g, D, F, h, dg>>
p == Hdr.p
TraceInit == TInit /\ X = <<>> /\ g = <<>> /\ D = <<>> /\ F = <<>> /\ h = [k |-> -1] /\ dg = [deg |-> 0]
Mats(ms) == TLCEval([k \in 1..Len(ms) |-> MOf(ms[k])])
CanonAll(ms) == \A k \in 1..Len(ms) : MCanon(p, ms[k])
Vecs(gs) == TLCEval([k \in 1..Len(gs) |-> TLCEval([i \in 1..Len(gs[k]) |-> VOfK(gs[k][i])])])
VCanonAll(gs) == \A k \in 1..Len(gs) : \A i \in 1..Len(gs[k]) : VCanon(p, gs[k][i])
\* an integer matrix with entries +-1, over the field
IntMat(I) == Mat(I[1], I[2], TLCEval([j \in 1..I[2] |-> VOfK(TLCEval([i \in DOMAIN I[3][j] |-> <<I[3][j][i][1], FInt(p, I[3][j][i][2])>>]))]))
IntOK(I) == Len(I[3]) = I[2] /\ \A j \in 1..I[2] : \A x \in ToSet(I[3][j]) : x[2] \in {1, -1}
IntMats(I) == TLCEval([k \in 1..Len(I) |-> IntMat(I[k])])
\* ----------------------------------------------------------- diagrams of sets
Sets(c) == [i \in DOMAIN c |-> ToSet(c[i])]
Refines(a, b, f) == Len(f) = Len(a) /\ \A i \in DOMAIN a : ToSet(a[i]) \subseteq ToSet(b[f[i] + 1])
LocalPts(P, S) == LET r == Fl!Rows(P) s == Fl!Asc(S) IN TLCEval([i \in DOMAIN s |-> r[s[i] + 1]])
RipsSets(e, i) ==
    LET pts == LocalPts(e.P, ToSet(e.sets[i]))
        rr == IF Len(e.rr) = 1 THEN e.rr[1] ELSE e.rr[i]
        E == {x \in Fl!Pairs(Len(pts)) : Fl!AtMost(e.m, Fl!Dist(e.m, pts[Min(x) + 1], pts[Max(x) + 1]), rr)}
    IN  Fl!Cliques(Len(pts), E, e.d)
Monotone(e) == \A j \in DOMAIN e.ed : e.rr[e.ed[j][1] + 1] <= e.rr[e.ed[j][2] + 1]
\* the recorded diagram of complexes: the wanted cells at the nodes, the maps of oriented simplices (up to orientation) along the edges
TopOK(r, want, ed) ==
    /\ Len(r.nodes) = Len(want) /\ \A i \in DOMAIN want : Fl!IsCells(r.nodes[i], want[i])
    /\ Len(r.edges) = Len(ed)
    /\ \A j \in DOMAIN ed : LET q == r.edges[j] a == r.nodes[ed[j][1] + 1] b == r.nodes[ed[j][2] + 1] IN
         /\ q[1] = ed[j][1] /\ q[2] = ed[j][2] /\ \A k \in DOMAIN q[3] : IntOK(q[3][k])
         /\ SameMap(p, MapF(p, a, b, ed[j][3]), IntMats(q[3]))
\* ------------------------------------------------------------- functor laws
Compose(f, u) == [i \in DOMAIN f |-> u[f[i] + 1]]
\* edges k that are the composition of edges i and j, and identity edges
Comps(es) == {t \in (DOMAIN es) \X (DOMAIN es) \X (DOMAIN es) :
                 /\ es[t[1]][2] = es[t[2]][1] /\ es[t[3]][1] = es[t[1]][1] /\ es[t[3]][2] = es[t[2]][2]
                 /\ es[t[3]][3] = Compose(es[t[1]][3], es[t[2]][3])}
Idents(es) == {j \in DOMAIN es : es[j][1] = es[j][2] /\ \A i \in DOMAIN es[j][3] : es[j][3][i] = i - 1}
\* op: the functor reverses arrows
Laws(es, m(_), dim(_), op) ==
    /\ \A t \in Comps(es) : m(t[3]) = IF op THEN MMul(p, m(t[1]), m(t[2])) ELSE MMul(p, m(t[2]), m(t[1]))
    /\ \A j \in Idents(es) : m(j) = MIdent(p, dim(es[j][1] + 1))
Flow(op, q) == IF op THEN <<q[2], q[1]>> ELSE <<q[1], q[2]>>
\* homology of all nodes, and the map induced along every edge; mt(q): the matrix recorded for edge q in dimension k
GensOK(r, DD, deg) == \A i \in DOMAIN DD : /\ VCanonAll(r.nodes[i]) /\ Len(r.nodes[i]) = Len(DD[i])
                            /\ LET v == Vecs(r.nodes[i]) IN \A k \in 1..Len(DD[i]) : IsHomBasis(p, DD[i], deg, k - 1, v[k])
EdgeOK(A, q, r, DD, FF, deg, k) ==
    /\ MCanon(p, A)
    /\ IsInduced(p, MOf(A), FF[k + 1], Vecs(r.nodes[q[1] + 1])[k + 1], DD[q[2] + 1], deg, Vecs(r.nodes[q[2] + 1])[k + 1], k)
Shape(r, es, op) == /\ Len(r.nodes) = Len(X) /\ Len(r.edges) = Len(es)
                    /\ \A j \in DOMAIN es : <<r.edges[j][1], r.edges[j][2]>> = Flow(op, es[j])
HomOK(r, DD, FF, deg, op, ks, at(_, _)) ==
    /\ Shape(r, g, op) /\ GensOK(r, DD, deg)
    /\ \A k \in ks : /\ \A j \in DOMAIN g : EdgeOK(at(j, k), r.edges[j], r, DD, FF[j], deg, k)
                     /\ Laws(g, LAMBDA j : MOf(at(j, k)), LAMBDA i : Len(r.nodes[i][k + 1]), op)
TopDims(top) == LET n == Len(X[1]) - 1 IN IF top = 1 THEN n + 1 ELSE n
AllOK(r, DD, FF, deg, op, top) ==
    LET n == TopDims(top) IN
    IF n = 0 THEN r = [why |-> "refused"]
    ELSE /\ "why" \notin DOMAIN r /\ \A j \in DOMAIN r.edges : Len(r.edges[j][3]) = n
         /\ HomOK(r, DD, FF, deg, op, 0..(n - 1), LAMBDA j, k : r.edges[j][3][k + 1])
\* line diagrams: edge i joins nodes i and i + 1
IsLine(es, n) == n >= 1 /\ Len(es) = n - 1 /\ \A i \in DOMAIN es : {es[i][1], es[i][2]} = {i - 1, i}
Table(ms, es, dims) == Q!RankTab(p, dims, TLCEval([i \in DOMAIN es |-> [dir |-> IF es[i][1] = i - 1 THEN 1 ELSE -1, M |-> ms[i]]]))
HDims(k) == TLCEval([i \in DOMAIN D |-> HDim(p, D[i], -1, k)])
TraceNext ==
    /\ More
    /\ LET e == Ev r == e.r IN
       CASE e.op \in {"nerve", "rips", "ripsat"} ->
              IF e.op = "ripsat" /\ ~Monotone(e) THEN r = [why |-> "range"] /\ UNCHANGED fvars
              ELSE LET want == IF e.op = "nerve" THEN [i \in DOMAIN e.c |-> Fl!NerveSets(Sets(e.c[i]), e.d)] ELSE [i \in DOMAIN e.sets |-> RipsSets(e, i)]
                   IN  /\ e.op = "nerve" => \A j \in DOMAIN e.ed : Refines(e.c[e.ed[j][1] + 1], e.c[e.ed[j][2] + 1], e.ed[j][3])
                       /\ "why" \notin DOMAIN r /\ TopOK(r, TLCEval(want), e.ed)
                       /\ X' = r.nodes /\ g' = e.ed
                       /\ F' = TLCEval([j \in DOMAIN e.ed |-> IntMats(r.edges[j][3])]) /\ UNCHANGED <<D, h, dg>>
         [] e.op = "chain" ->
              /\ Shape(r, g, FALSE)
              /\ \A i \in DOMAIN X : CanonAll(r.nodes[i]) /\ LET ds == Mats(r.nodes[i]) IN
                   /\ Len(ds) = Len(X[i]) /\ \A k \in 1..Len(ds) : SameUpToSign(p, SimplexBd(p, X[i], k - 1), ds[k])
                   /\ IsComplex(p, ds)
              /\ D' = TLCEval([i \in DOMAIN X |-> Mats(r.nodes[i])])
              /\ \A j \in DOMAIN g : /\ CanonAll(r.edges[j][3]) /\ Mats(r.edges[j][3]) = F[j]
                                     /\ Commutes(p, F[j], D'[g[j][1] + 1], D'[g[j][2] + 1])
              /\ \A t \in Comps(g) : \A k \in 1..Min({Len(F[t[1]]), Len(F[t[3]])}) : F[t[3]][k] = MMul(p, F[t[2]][k], F[t[1]][k])
              /\ UNCHANGED <<X, g, F, h, dg>>
         [] e.op = "hom" -> /\ HomOK(r, D, F, -1, FALSE, {e.k}, LAMBDA j, k : r.edges[j][3])
                            /\ h' = [k |-> e.k, mats |-> TLCEval([j \in DOMAIN g |-> MOf(r.edges[j][3])])] /\ UNCHANGED <<X, g, D, F, dg>>
         [] e.op = "homs" -> AllOK(r, D, F, -1, FALSE, e.top) /\ UNCHANGED fvars
         [] e.op = "bars" -> /\ Q!Decomposes(Table(h.mats, g, HDims(h.k)), HDims(h.k), TLCEval([i \in DOMAIN r |-> <<r[i][2] + 1, r[i][4] + 1>>]))
                             /\ (\A i \in DOMAIN r : r[i][1] = e.k) /\ UNCHANGED fvars
         [] e.op = "riphom" ->
              IF ~Monotone(e) THEN r = [why |-> "range"] /\ UNCHANGED fvars
              ELSE /\ "why" \notin DOMAIN r /\ h.k = e.k /\ Shape(r, g, FALSE) /\ r.nodes = HDims(e.k)
                   /\ \A j \in DOMAIN g : MCanon(p, r.edges[j][3])
                   /\ LET A == TLCEval([j \in DOMAIN g |-> MOf(r.edges[j][3])]) IN
                      /\ \A j \in DOMAIN g : A[j].m = h.mats[j].m /\ A[j].n = h.mats[j].n /\ MRank(p, A[j]) = MRank(p, h.mats[j])
                      /\ \A i, j \in DOMAIN g : g[i][2] = g[j][1] => MRank(p, MMul(p, A[j], A[i])) = MRank(p, MMul(p, h.mats[j], h.mats[i]))
                      /\ Laws(g, LAMBDA j : A[j], LAMBDA i : r.nodes[i], FALSE)
                      /\ IsLine(g, Len(X)) => Table(A, g, HDims(e.k)) = Table(h.mats, g, HDims(e.k))
                   /\ UNCHANGED fvars
         [] e.op = "dgl" ->
              LET deg == IF e.deg = 0 THEN -1 ELSE e.deg
                  low(i) == IF deg = -1 THEN MZero(0, Len(X[i][1])) ELSE MZero(Len(X[i][1]), 0)
                  FF == [j \in DOMAIN g |-> IF deg = -1 THEN F[j] ELSE TLCEval([k \in DOMAIN F[j] |-> MT(F[j][k])])]
              IN  /\ Shape(r, g, deg = 1)
                  /\ \A i \in DOMAIN X : /\ r.nodes[i].deg = deg /\ CanonAll(r.nodes[i].D)
                                         /\ LET ds == Mats(r.nodes[i].D) IN
                                            /\ Len(ds) = Len(X[i]) + 1 /\ ds[1] = low(i)
                                            /\ ds[Len(ds)] = (LET n == Len(X[i][Len(X[i])]) IN IF deg = -1 THEN MZero(n, 0) ELSE MZero(0, n))
                                            /\ \A k \in 2..Len(X[i]) : ds[k] = (IF deg = -1 THEN D[i][k] ELSE MT(D[i][k]))
                  /\ \A j \in DOMAIN g : CanonAll(r.edges[j][3]) /\ Mats(r.edges[j][3]) = FF[j]
                  /\ dg' = [deg |-> deg, F |-> TLCEval(FF)] /\ UNCHANGED <<X, g, D, F, h>>
         [] e.op = "dghom" -> HomOK(r, D, dg.F, dg.deg, dg.deg = 1, {e.k}, LAMBDA j, k : r.edges[j][3]) /\ UNCHANGED fvars
         [] e.op = "dghoms" -> AllOK(r, D, dg.F, dg.deg, dg.deg = 1, e.top) /\ UNCHANGED fvars
         [] OTHER -> FALSE
    /\ Consume
=============================================================================
