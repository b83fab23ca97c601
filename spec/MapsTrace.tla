----------------------------- MODULE MapsTrace -----------------------------
(***************************************************************************)
(* Recorded histories of complexes, maps between them, reductions and      *)
(* induced maps.                                                           *)
(*   cx   slot -> [cells, D]                                               *)
(*   fm   slot -> [a, b, F] chain map over the field                       *)
(*   rd   slot -> generators per dimension of the last reduction           *)
(*   dg   slot -> [deg, D, gens] of the last graded reduction              *)
(*   ind  <<map, dimension>> -> induced matrix, valid for the current      *)
(*        reductions                                                       *)
(***************************************************************************)
EXTENDS Maps, Trace0
VARIABLES cx, fm, rd, dg, ind
mvars == <<cx, fm, rd, dg, ind>>
p == Hdr.p
TraceInit == TInit /\ cx = VZero /\ fm = VZero /\ rd = VZero /\ dg = VZero /\ ind = VZero
Mats(ms) == TLCEval([k \in 1..Len(ms) |-> MOf(ms[k])])
CanonAll(ms) == \A k \in 1..Len(ms) : MCanon(p, ms[k])
Vecs(gs) == TLCEval([k \in 1..Len(gs) |-> TLCEval([i \in 1..Len(gs[k]) |-> VOfK(gs[k][i])])])
VCanonAll(gs) == \A k \in 1..Len(gs) : \A i \in 1..Len(gs[k]) : VCanon(p, gs[k][i])
OwnD(cells) == IF Hdr.kind = "cube" THEN TLCEval([k \in 1..Len(cells) |-> CubeBd(p, cells, k - 1)]) ELSE TLCEval([k \in 1..Len(cells) |-> SimplexBd(p, cells, k - 1)])
\* recorded integer matrices: every coefficient is +-1 and reduces to the field matrix
IntsOK(I, F) == Len(I) = Len(F) /\ \A k \in 1..Len(I) : /\ I[k][1] = F[k].m /\ I[k][2] = F[k].n /\ Len(I[k][3]) = F[k].n
                  /\ \A j \in 1..F[k].n : /\ \A x \in ToSet(I[k][3][j]) : x[2] \in {1, -1}
                                          /\ VOfK(I[k][3][j]) = VOfK(I[k][3][j]) /\ F[k].c[j] = VOfK(TLCEval([i \in DOMAIN I[k][3][j] |-> <<I[k][3][j][i][1], FInt(p, I[k][3][j][i][2])>>]))
Own(e) == CASE e.how = "incl" -> InclF(p, cx[e.a].cells, cx[e.b].cells)
            [] e.how = "id" -> InclF(p, cx[e.a].cells, cx[e.a].cells)
            [] e.how = "vert" -> MapF(p, cx[e.a].cells, cx[e.b].cells, e.f0)
MapOK(e) ==
    LET F == TLCEval(Mats(e.r.F)) own == TLCEval(Own(e))
    IN  /\ CanonAll(e.r.F) /\ IntsOK(e.r.I, F)
        /\ IF e.how = "vert" THEN SameMap(p, own, F) ELSE own = F
        /\ Commutes(p, F, cx[e.a].D, cx[e.b].D)
        /\ IF "of" \in DOMAIN e        \* the map is the composition of two earlier ones
           THEN \A k \in 1..Min({Len(F), Len(fm[e.of[2]].F)}) : F[k] = MMul(p, fm[e.of[2]].F[k], fm[e.of[1]].F[k])
           ELSE TRUE
Dims(D) == [k \in 1..Len(D) |-> D[k].n]
Store(f, s, v) == TLCEval((s :> v) @@ f)
IndOK(A, F, gs, D, d, hs, k) == MCanon(p, A) /\ IsInduced(p, MOf(A), F, gs, D, d, hs, k)
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op = "cpx" ->
              /\ CanonAll(e.r.D) /\ LET D == Mats(e.r.D) own == OwnD(e.cells) IN
                   /\ Len(D) = Len(own) /\ \A k \in 1..Len(D) : SameUpToSign(p, own[k], D[k])
                   /\ IsComplex(p, D) /\ cx' = Store(cx, e.i, [cells |-> e.cells, D |-> D])
              /\ UNCHANGED <<fm, rd, dg, ind>>
         [] e.op = "relcpx" ->
              LET X == cx[e.a] IN
              /\ CanonAll(e.r.D) /\ Mats(e.r.D) = QuotD(X.D, IndsOf(X.cells, cx[e.s].cells))
              /\ cx' = Store(cx, e.i, [cells |-> <<>>, D |-> Mats(e.r.D)]) /\ UNCHANGED <<fm, rd, dg, ind>>
         [] e.op = "rawcpx" ->
              /\ CanonAll(e.r.D) /\ Mats(e.r.D) = Mats(e.D) /\ IsComplex(p, Mats(e.D))
              /\ cx' = Store(cx, e.i, [cells |-> <<>>, D |-> Mats(e.D)]) /\ UNCHANGED <<fm, rd, dg, ind>>
         [] e.op = "rawmap" ->
              /\ CanonAll(e.r.F) /\ Mats(e.r.F) = Mats(e.F) /\ Commutes(p, Mats(e.F), cx[e.a].D, cx[e.b].D)
              /\ fm' = Store(fm, e.i, [a |-> e.a, b |-> e.b, F |-> Mats(e.F)]) /\ UNCHANGED <<cx, rd, dg, ind>>
         [] e.op = "map" -> /\ MapOK(e) /\ fm' = Store(fm, e.i, [a |-> e.a, b |-> e.b, F |-> Mats(e.r.F)]) /\ UNCHANGED <<cx, rd, dg, ind>>
         [] e.op = "assign" -> IntsOK(e.r, fm[e.m].F) /\ UNCHANGED mvars
         [] e.op = "relmap" ->
              LET ia == IndsOf(cx[e.a].cells, cx[e.sa].cells) ib == IndsOf(cx[e.b].cells, cx[e.sb].cells)
              IN  /\ \A k \in 1..Len(ia) : k <= Len(e.r.ia) => ToSet(e.r.ia[k]) = ToSet(ia[k])
                  /\ CanonAll(e.r.F) /\ Mats(e.r.F) = QuotMap(fm[e.m].F, ib, ia)
                  /\ Commutes(p, Mats(e.r.F), QuotD(cx[e.a].D, ia), QuotD(cx[e.b].D, ib))
                  /\ UNCHANGED mvars
         [] e.op = "relidx" -> CanonAll(e.r.F) /\ Mats(e.r.F) = QuotMap(fm[e.m].F, e.rows, e.cols) /\ UNCHANGED mvars
         [] e.op = "red" ->
              /\ VCanonAll(e.r.gens) /\ Len(e.r.gens) = Len(cx[e.i].D)
              /\ \A k \in 1..Len(e.r.gens) : IsHomBasis(p, cx[e.i].D, -1, k - 1, Vecs(e.r.gens)[k])
              /\ rd' = Store(rd, e.i, Vecs(e.r.gens)) /\ UNCHANGED <<cx, fm, dg, ind>>
         [] e.op = "induced" ->
              /\ IndOK(e.r, fm[e.m].F[e.k + 1], rd[e.a][e.k + 1], cx[e.b].D, -1, rd[e.b][e.k + 1], e.k)
              /\ IF "of" \in DOMAIN e THEN MOf(e.r) = MMul(p, ind[<<e.of[2], e.k>>], ind[<<e.of[1], e.k>>]) ELSE TRUE
              /\ IF e.id = 1 THEN MOf(e.r) = MIdent(p, Len(rd[e.a][e.k + 1])) ELSE TRUE
              /\ ind' = Store(ind, <<e.m, e.k>>, MOf(e.r)) /\ UNCHANGED <<cx, fm, rd, dg>>
         [] e.op = "relinduced" ->
              LET ia == IndsOf(cx[e.a].cells, cx[e.sa].cells) ib == IndsOf(cx[e.b].cells, cx[e.sb].cells) F == QuotMap(fm[e.m].F, ib, ia)
              IN  IndOK(e.r, F[e.k + 1], rd[e.ra][e.k + 1], cx[e.rb].D, -1, rd[e.rb][e.k + 1], e.k) /\ UNCHANGED mvars
         [] e.op = "dgred" ->
              LET D == AugD(p, cx[e.i].D, e.aug) IN
              /\ VCanonAll(e.r.gens) /\ Len(e.r.gens) = Len(D)
              /\ \A k \in 1..Len(e.r.gens) : IsHomBasis(p, D, e.deg, k - 1, Vecs(e.r.gens)[k])
              /\ dg' = Store(dg, e.i, [deg |-> e.deg, D |-> D, gens |-> Vecs(e.r.gens)]) /\ UNCHANGED <<cx, fm, rd, ind>>
         [] e.op = "dgmap" -> CanonAll(e.r) /\ Mats(e.r) = (IF e.deg = -1 THEN fm[e.m].F ELSE [k \in 1..Len(fm[e.m].F) |-> MT(fm[e.m].F[k])]) /\ UNCHANGED mvars
         [] e.op = "dginduced" ->
              LET F == fm[e.m].F[e.k + 1] s == IF e.deg = -1 THEN dg[e.a] ELSE dg[e.b] t == IF e.deg = -1 THEN dg[e.b] ELSE dg[e.a]
              IN  IndOK(e.r, IF e.deg = -1 THEN F ELSE MT(F), s.gens[e.k + 1], t.D, e.deg, t.gens[e.k + 1], e.k) /\ UNCHANGED mvars
         [] e.op = "dgpref" ->
              LET g == dg[e.i] c == VOfK(e.c) x == VOfK(e.r.rep) IN
              /\ VCanon(p, e.r.rep) /\ VCanon(p, e.r.back) /\ VOfK(e.r.back) = c
              /\ InSpan(p, BasisOf(p, InCols(g.D, g.deg, e.k)), VSub(p, x, c))
              /\ DOMAIN MVec(p, OutMat(g.D, g.deg, e.k), c) = {} => InSpan(p, BasisOf(p, g.gens[e.k + 1]), x)
              /\ UNCHANGED mvars
         [] e.op = "serp" ->
              /\ Len(e.r.nodes) = e.n /\ Len(e.r.edges) = e.n - 1
              /\ \A i \in 1..e.n : CanonAll(e.r.nodes[i].D) /\ SierOK(p, Mats(e.r.nodes[i].D), e.r.nodes[i].h, i - 1)
              /\ \A i \in 1..(e.n - 1) : LET x == e.r.edges[i] F == Mats(x.F) IN
                    x.s = i - 1 /\ x.t = i /\ CanonAll(x.F) /\ IntsOK(x.I, F) /\ SierMap(p, F, Mats(e.r.nodes[i].D), Mats(e.r.nodes[i + 1].D))
              /\ UNCHANGED mvars
         [] OTHER -> FALSE
    /\ Consume
=============================================================================
