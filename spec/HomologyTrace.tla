--------------------------- MODULE HomologyTrace ---------------------------
(***************************************************************************)
(* Recorded histories of building, reducing, querying and updating chain   *)
(* complexes.                                                              *)
(*   D     boundary operators in cell order                                *)
(*   rk    their ranks                                                     *)
(*   val   filtration values, perm the current order, DP = Reorder(D,perm) *)
(*   PR    pairing of DP (for an unfiltered complex: of D itself)          *)
(*   gens  generators reported by the last reduction, per dimension        *)
(***************************************************************************)
EXTENDS Homology, Trace0
VARIABLES D, rk, val, perm, DP, PR, gens
hvars == <<D, rk, val, perm, DP, PR, gens>>
p == Hdr.p
TraceInit == TInit /\ D = <<>> /\ rk = <<>> /\ val = <<>> /\ perm = <<>> /\ DP = <<>> /\ PR = <<>> /\ gens = <<>>
Mats(ms) == TLCEval([k \in 1..Len(ms) |-> MOf(ms[k])])
CanonAll(ms) == \A k \in 1..Len(ms) : MCanon(p, ms[k])
\* boundary operators of the recorded complex, from the definitions
OwnD(e) == CASE e.kind = "simp" -> TLCEval([k \in 1..Len(e.r.cells) |-> SimplexBd(p, e.r.cells, k - 1)])
             [] e.kind = "cube" -> TLCEval([k \in 1..Len(e.cells) |-> CubeBd(p, e.cells, k - 1)])
             [] e.kind = "cell" -> TLCEval([k \in 1..Len(e.cells) |-> CellBd(p, e.cells, k - 1, e.n)])
             [] e.kind = "mat"  -> Mats(e.cells)
\* simplices added recursively from the top are numbered by the library; otherwise in the order given
Numbered(e) == e.kind = "simp" => /\ Len(e.r.cells) = Len(e.cells)
                                  /\ IF e.how = "top" THEN \A k \in DOMAIN e.cells : ToSet(e.r.cells[k]) = ToSet(e.cells[k]) /\ Len(e.r.cells[k]) = Len(e.cells[k])
                                     ELSE e.r.cells = e.cells
ValOf(cells, vals, k, s) == vals[k][CHOOSE i \in DOMAIN cells[k] : cells[k][i] = s]
GivenVals(e) == IF e.kind = "simp" /\ e.how = "top" THEN TLCEval([k \in DOMAIN e.vals |-> [i \in DOMAIN e.vals[k] |-> ValOf(e.cells, e.vals, k, e.r.cells[k][i])]]) ELSE e.vals
\* the Rips filtration of a table of distances
RipsCells(d, r, dm) == {S \in UNION {kSubset(k, DOMAIN d) : k \in 1..Min({dm + 1, Len(d)})} : \A i, j \in S : d[i][j] <= r}
RipsVal(d, s) == Max({d[i + 1][j + 1] : i, j \in ToSet(s)})
IsRips(e) == LET cs == e.r.cells IN
    /\ \A k \in DOMAIN cs : \A i \in DOMAIN cs[k] : Len(cs[k][i]) = k /\ \A a \in 1..(k - 1) : cs[k][i][a] < cs[k][i][a + 1]
    /\ {ToSet(s) : s \in UNION {ToSet(cs[k]) : k \in DOMAIN cs}} = {{i - 1 : i \in S} : S \in RipsCells(e.P, e.rr, e.d)}
    /\ \A k \in DOMAIN cs : Len(cs[k]) = Cardinality(ToSet(cs[k])) /\ e.r.val[k] = [i \in DOMAIN cs[k] |-> RipsVal(e.P, cs[k][i])]
SetD(e, own) ==
    /\ CanonAll(e.r.D) /\ D' = Mats(e.r.D)
    /\ Len(D') = Len(own)
    /\ \A k \in 1..Len(own) : IF e.kind \in {"simp", "cube"} THEN SameUpToSign(p, own[k], D'[k]) ELSE own[k] = D'[k]
    /\ IsComplex(p, D') /\ rk' = Ranks(p, D')
\* quotient complex: delete the rows and columns of the subcomplex (kind "rel"): inds[k + 1] are the deleted k-cells
Quot(D0, inds) ==
    LET keep == TLCEval([k \in 1..Len(D0) |-> SetToSortSeq((0..(D0[k].n - 1)) \ ToSet(inds[k]), <)])
        loc == TLCEval([k \in 1..Len(D0) |-> LET S == ToSet(keep[k]) IN [i \in S |-> (CHOOSE j \in DOMAIN keep[k] : keep[k][j] = i) - 1]])
    IN  TLCEval([k \in 1..Len(D0) |-> Mat(IF k = 1 THEN 1 ELSE Len(keep[k - 1]), Len(keep[k]),
            TLCEval([j \in 1..Len(keep[k]) |-> LET x == D0[k].c[keep[k][j] + 1] IN
                 IF k = 1 THEN VZero ELSE VMap(VRestrict(x, ToSet(keep[k - 1])), LAMBDA i : loc[k - 1][i])]))])
Sub(D0, inds) == Quot(D0, TLCEval([k \in 1..Len(D0) |-> SetToSeq((0..(D0[k].n - 1)) \ ToSet(inds[k]))]))
IsSubcomplex(D0, inds) == \A k \in 2..Len(D0) : \A j \in ToSet(inds[k]) : DOMAIN D0[k].c[j + 1] \subseteq ToSet(inds[k - 1])
\* ------------------------------------------------------------- reductions
ListM(M) == MList(M)
\* factorisation of the ordered complex X with pairing Q
FactOK(f, X, Q, basis) ==
    /\ Len(f.R) = Len(X) /\ CanonAll(f.R)
    /\ \A k \in 1..Len(X) : LET R == MOf(f.R[k]) IN
         /\ R.m = X[k].m /\ R.n = X[k].n /\ IsReduced(R) /\ PivotMap(R) = Q[k] /\ f.p2c[k] = Q[k]
         /\ basis => /\ MCanon(p, f.U[k]) /\ Factors(p, X[k], R, MOf(f.U[k]))
    /\ \A k \in 1..Len(X) : ToSet(f.I[k]) = {b[1] : b \in {c \in BarsAt(X, Q, k - 1) : c[2] = NoInd}}
                            /\ Len(f.I[k]) = Cardinality(ToSet(f.I[k]))
GensOK(gs) == \A k \in 1..Len(D) :
    /\ Len(gs[k]) = Betti(rk, D, k - 1)
    /\ \A i \in DOMAIN gs[k] : VCanon(p, gs[k][i]) /\ IsCycle(p, D, k - 1, VOfK(gs[k][i]))
    /\ LET B == BasisOf(p, BdCols(D, k - 1)) IN BDim(BasisAddAll(p, B, TLCEval([i \in DOMAIN gs[k] |-> VOfK(gs[k][i])]))) = BDim(B) + Len(gs[k])
ReduceOK(e) == /\ e.r.betti = Bettis(rk, D) /\ e.r.dims = [k \in 1..Len(D) |-> D[k].n] /\ e.r.maxdim = Top(D)
               /\ FactOK(e.r.fact, D, PR, e.basis = 1)
               /\ IF e.basis = 1 THEN GensOK(e.r.gens) /\ gens' = e.r.gens ELSE UNCHANGED gens
PrefOK(e) == LET c == VOfK(e.c) r == VOfK(e.r.rep) k == e.k
                 B == BasisOf(p, BdCols(D, k))
                 G == BasisOf(p, TLCEval([i \in DOMAIN gens[k + 1] |-> VOfK(gens[k + 1][i])]))
             IN  /\ VCanon(p, e.r.rep) /\ VCanon(p, e.r.back) /\ VOfK(e.r.back) = c
                 /\ InSpan(p, B, VSub(p, r, c))
                 /\ IsCycle(p, D, k, c) => InSpan(p, G, r)
\* ------------------------------------------------------------ persistence
\* recorded pairs: <<dim, birth cell, death cell, birth value, death value>>
PairsOK(ps, k, perm0, val0, permuted) ==
    LET E == BarsAt(DP', PR', k)
        mk(b) == LET c == Deperm(perm0, k, b) v == BarVal(val0, k, c) IN
                 IF permuted THEN <<k, b[1], b[2], v[1], v[2]>> ELSE <<k, c[1], c[2], v[1], v[2]>>
    IN  Len(ps) = Cardinality(E) /\ ToSet(ps) = {mk(b) : b \in E}
\* a representative: a cycle made of cells not younger than its birth cell, containing it (positions in the order perm)
RepOK(x, k, b) == /\ VCanon(p, x) /\ LET v == VOfK(x) IN DOMAIN v # {} /\ VPivot(v) = b /\ IsCycle(p, DP', k, v)
UnpermV(q, x) == VMap(VOfK(x), LAMBDA i : q[i + 1])
RECURSIVE SumLen(_, _)
SumLen(cs, i) == IF i = 0 THEN 0 ELSE Len(cs[i]) + SumLen(cs, i - 1)
Nnz(M) == SumLen(M[3], Len(M[3]))
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in ToSet(s) : Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN t : t[i] = x})
NowOrder(e) == /\ IsOrder(e.r.perm, D, val') /\ perm' = e.r.perm
               /\ DP' = Reorder(D, perm') /\ PR' = Pairing(p, DP')
PersOK(e, basis) ==
    /\ e.r.val = val'
    /\ \A k \in 1..Len(D) : /\ PairsOK(e.r.pairs[k], k - 1, perm', val', FALSE)
                            /\ PairsOK(e.r.pairsp[k], k - 1, perm', val', TRUE)
                            /\ ToSet(e.r.vec[k]) = {SubSeq(x, 2, 5) : x \in ToSet(e.r.pairs[k])} /\ Len(e.r.vec[k]) = Len(e.r.pairs[k])
                            /\ (Hdr.ranks = 1) => RankRight(p, D, val', k - 1, TLCEval([i \in DOMAIN e.r.pairs[k] |-> SubSeq(e.r.pairs[k][i], 4, 5)]))
    /\ e.r.betti = Bettis(rk, D)
    /\ FactOK(e.r.fact, DP', PR', basis)
    /\ \A k \in 1..Len(D) : Len(e.r.ext[k]) = Len(e.r.pairsp[k]) /\ ToSet(e.r.ext[k]) = ToSet(e.r.pairsp[k])
    /\ e.r.nnzR = [k \in 1..Len(D) |-> Nnz(e.r.fact.R[k])] /\ (basis => e.r.nnzU = [k \in 1..Len(D) |-> Nnz(e.r.fact.U[k])])
    /\ basis => \A k \in 1..Len(D) : \A i \in DOMAIN e.r.pairs[k] :
                  /\ Len(e.r.reps[k]) = Len(e.r.pairs[k]) /\ Len(e.r.repsp[k]) = Len(e.r.pairsp[k])
                  /\ RepOK(e.r.repsp[k][i], k - 1, e.r.pairsp[k][i][2])
                  /\ VCanon(p, e.r.reps[k][i])
                  /\ LET inv == InvPerm(perm'[k]) IN RepOK(VList(UnpermV(inv, e.r.reps[k][i])), k - 1, inv[e.r.pairs[k][i][2] + 1])
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op = "complex" -> /\ Numbered(e) /\ SetD(e, OwnD(e)) /\ e.r.valid = TRUE /\ PR' = Pairing(p, D') /\ UNCHANGED <<val, perm, DP, gens>>
         [] e.op = "relative" -> \* ChainComplex(X, A): the cells of A are given by index
                /\ IsSubcomplex(D, e.inds) /\ CanonAll(e.r.D) /\ D' = Mats(e.r.D) /\ D' = Quot(D, e.inds) /\ rk' = Ranks(p, D') /\ PR' = Pairing(p, D') /\ UNCHANGED <<val, perm, DP, gens>>
         [] e.op = "subcomplex" ->
                /\ IsSubcomplex(D, e.inds) /\ CanonAll(e.r.D) /\ D' = Mats(e.r.D) /\ D' = Sub(D, e.inds) /\ rk' = Ranks(p, D') /\ PR' = Pairing(p, D') /\ UNCHANGED <<val, perm, DP, gens>>
         [] e.op = "reduce" -> ReduceOK(e) /\ UNCHANGED <<D, rk, val, perm, DP, PR>>
         [] e.op = "apparent" -> e.r = Bettis(rk, D) /\ UNCHANGED hvars
         [] e.op = "prefrep" -> PrefOK(e) /\ UNCHANGED hvars
         \* the stored reduction after tidying is still a factorisation with the same pairs
         [] e.op = "tidy" -> FactOK(e.r.fact, D, PR, TRUE) /\ GensOK(e.r.gens) /\ gens' = e.r.gens /\ UNCHANGED <<D, rk, val, perm, DP, PR>>
         [] e.op = "filt" -> /\ Numbered(e) /\ SetD(e, OwnD(e))
                             /\ val' = GivenVals(e) /\ e.r.val = val' /\ Monotone(D', val')
                             /\ IsOrder(e.r.perm, D', val') /\ perm' = e.r.perm
                             /\ DP' = Reorder(D', perm') /\ CanonAll(e.r.DP) /\ Mats(e.r.DP) = DP'
                             /\ PR' = Pairing(p, DP') /\ UNCHANGED gens
         [] e.op = "rips" -> /\ IsRips(e) /\ SetD(e, OwnD(e)) /\ val' = e.r.val
                             /\ IsOrder(e.r.perm, D', val') /\ perm' = e.r.perm
                             /\ DP' = Reorder(D', perm') /\ CanonAll(e.r.DP) /\ Mats(e.r.DP) = DP'
                             /\ PR' = Pairing(p, DP') /\ UNCHANGED gens
         [] e.op = "freduce" -> /\ val' = val /\ NowOrder(e) /\ PersOK(e, e.basis = 1) /\ UNCHANGED <<D, rk, gens>>
         [] e.op = "again" -> e.r.same = TRUE /\ e.r.bars = TRUE /\ UNCHANGED hvars
         \* two barcodes are equal when they are the same bag of (dimension, birth, death)
         [] e.op = "bars" -> /\ e.r.same = SameBag(e.a, e.b)
                             /\ \A i \in 1..Len(e.a) : /\ e.r.len[i] = e.a[i][3] - e.a[i][2] /\ e.r.mid[i] = e.a[i][2] + e.a[i][3]
                                   /\ \A j \in 1..Len(e.b) : e.r.E[i][j] = (IF e.a[i] = e.b[j] THEN 1 ELSE 0) /\ e.r.N[i][j] = 1 - e.r.E[i][j]
                             /\ UNCHANGED hvars
         [] e.op = "fupdate" -> /\ val' = e.vals /\ Monotone(D, val') /\ NowOrder(e) /\ PersOK(e, TRUE) /\ UNCHANGED <<D, rk, gens>>
         [] e.op = "cupdate" -> \* FilteredChainComplex::update_filtration: only the ordered complex is kept
                /\ val' = e.vals /\ e.r.val = val' /\ NowOrder(e) /\ CanonAll(e.r.DP) /\ Mats(e.r.DP) = DP' /\ UNCHANGED <<D, rk, gens>>
         [] e.op = "ftidy" -> /\ val' = val /\ NowOrder(e) /\ PersOK(e, TRUE) /\ UNCHANGED <<D, rk, gens>>
         [] OTHER -> FALSE
    /\ Consume
=============================================================================
