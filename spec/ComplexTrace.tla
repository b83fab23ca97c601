---------------------------- MODULE ComplexTrace ----------------------------
(***************************************************************************)
(* Recorded histories of complexes (C) and filtrations (G), registers by   *)
(* number; K holds cell complexes as [n, cells].                           *)
(***************************************************************************)
EXTENDS Complex, Trace0
VARIABLES C, G, K
cvars == <<C, G, K>>
p == Hdr.p
TraceInit == TInit /\ C = <<>> /\ G = <<>> /\ K = <<>>
Upd(f, d, x) == (d :> x) @@ f
\* ------------------------------------------------------------ observations
\* the object observed by a dump, every part of which must agree
Seen(kind, amb, d) == [kind |-> kind, amb |-> amb, cells |-> Trim(d.cells)]
DumpOK(d) ==
    /\ Len(d.cells) = d.maxdim + 1 /\ Len(d.n) = d.maxdim + 1 /\ Len(d.back) = d.maxdim + 1
    /\ d.n = [k \in DOMAIN d.cells |-> Len(d.cells[k])]
    /\ d.total = FoldLeft(LAMBDA a, b : a + b, 0, d.n)
    /\ d.list = d.cells /\ d.all = FlattenSeq(d.cells)
    /\ \A k \in DOMAIN d.cells : d.back[k] = [i \in DOMAIN d.cells[k] |-> i - 1]
\* a dump of an object whose cells are known exactly
Is(X, d) == DumpOK(d) /\ Trim(d.cells) = Trim(X.cells)
Obs(e, d) == Seen(e.kind, IF e.kind = "cube" THEN d.maxdim ELSE 0, d)
TX(X) == [X EXCEPT !.cells = Trim(@)]
RetAdd(X, s, r) == r[1] = DimOf(X, s) /\ r[2] = Idx(Add(X, s), s)
RetRec(X, Y, s, r) ==
    IF Has(X, s) THEN r \in {<<>>, <<<<DimOf(X, s), Idx(X, s)>>>>}
    ELSE /\ Len(r) = Cardinality(ToSet(r))
         /\ ToSet(r) = {<<DimOf(X, t), Idx(Y, t)>> : t \in NewFaces(X, s)}
         /\ r[Len(r)] = <<DimOf(X, s), Idx(Y, s)>>
\* ------------------------------------------------------------------ complexes
NewAmb(e) == IF e.kind # "cube" \/ e.a = <<>> THEN 0 ELSE e.a[Len(e.a)]
DoNew(e) == /\ C' = Upd(C, e.d, New(e.kind, NewAmb(e))) /\ Is(New(e.kind, NewAmb(e)), e.r)
            /\ (e.kind # "simp" /\ e.a # <<>>) => e.r.maxdim = e.a[Len(e.a)]
            /\ UNCHANGED <<G, K>>
DoCopy(e) == Is(C[e.s], e.r) /\ C' = Upd(C, e.d, C[e.s]) /\ UNCHANGED <<G, K>>
DoAdd(e) ==
    LET X == C[e.d] s == Norm(X, e.s) IN
    IF ~Acceptable(X, s) THEN e.r.ret = "throw" /\ Is(X, e.r.x) /\ UNCHANGED cvars
    ELSE /\ RetAdd(X, s, e.r.ret) /\ Is(Add(X, s), e.r.x) /\ C' = Upd(C, e.d, TX(Add(X, s))) /\ UNCHANGED <<G, K>>
DoAddRec(e) ==
    LET X == C[e.d] s == Norm(X, e.s) Y == Seen(X.kind, X.amb, e.r.x) IN
    IF ~Acceptable(X, s) THEN e.r.ret = "throw" /\ Is(X, e.r.x) /\ UNCHANGED cvars
    ELSE /\ DumpOK(e.r.x) /\ IsAddRec(X, s, Y) /\ RetRec(X, Y, s, e.r.ret) /\ C' = Upd(C, e.d, Y) /\ UNCHANGED <<G, K>>
DoLoad(e) == LET Y == FoldLeft(LAMBDA X, s : Add(X, s), C[e.d], e.cs) IN Is(Y, e.r) /\ C' = Upd(C, e.d, TX(Y)) /\ UNCHANGED <<G, K>>
DoFind(e) == e.r = [i \in DOMAIN e.q |-> Idx(C[e.d], e.q[i])] /\ UNCHANGED cvars
DoInds(e) == LET X == C[e.d] A == C[e.s] IN
    /\ \A k \in DOMAIN e.r.all : e.r.all[k] = [i \in DOMAIN Cells(A, k - 1) |-> Idx(X, Cells(A, k - 1)[i])]
    /\ e.r.per = e.r.all /\ Len(e.r.all) >= Len(X.cells) /\ UNCHANGED cvars
DoBinary(e) == LET Z == Obs(e, e.r) IN
    /\ DumpOK(e.r) /\ ComplexInv(Z)
    /\ CASE e.op = "union" -> IsUnion(C[e.a], C[e.b], Z)
         [] e.op = "inter" -> IsInter(C[e.a], C[e.b], Z)
         [] e.op = "uadd"  -> /\ IsUnion(C[e.d], C[e.s], Z) /\ \A k \in 0..(Len(C[e.d].cells) - 1) : IsPrefix(Cells(C[e.d], k), Cells(Z, k))
         [] e.op = "skel"  -> IsSkeleton(C[e.s], e.k, Z)
         [] e.op = "grid"  -> AllCells(Z) = GridCubes(e.n) /\ Z.amb = 3
    /\ C' = Upd(C, e.d, Z) /\ UNCHANGED <<G, K>>
DoSetDim(e) == LET X == C[e.d] IN
    IF AllCells(X) # {} THEN e.r.ret = "throw" /\ Is(X, e.r.x) /\ UNCHANGED cvars
    ELSE e.r.ret = "ok" /\ Is(X, e.r.x) /\ C' = Upd(C, e.d, [X EXCEPT !.amb = Max({X.amb, e.k})]) /\ UNCHANGED <<G, K>>
\* ------------------------------------------------------------------ boundaries
IntCol(b) == VOfK(TLCEval([i \in DOMAIN b |-> <<b[i][1], FInt(7, b[i][2])>>]))
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
SameCol(q, x, y) == x = y \/ x = VScale(q, FInt(q, -1), y)
FaceIdx(X, s) == {Idx(X, f) : f \in FacesOf(X, s)}
DoBds(e) ==
    LET X == C[e.d]
        top == Len(e.r.bd) - 1
        Y == [X EXCEPT !.cells = TLCEval([k \in 1..(top + 1) |-> Cells(X, k - 1)])]
        own == TLCEval([k \in 1..(top + 1) |-> BdOf(p, Y, k - 1)])
        own7 == TLCEval([k \in 1..(top + 1) |-> BdOf(7, Y, k - 1)])
        M(ms) == TLCEval([k \in DOMAIN ms |-> MOf(ms[k])])
        csc == M(e.r.csc)  D1 == M(e.r.D1)
    IN  /\ \A k \in DOMAIN e.r.csc : MCanon(p, e.r.csc[k]) /\ SameUpToSign(p, own[k + 1], csc[k])
        /\ Len(e.r.csc) = top
        /\ \A k \in DOMAIN e.r.D1 : MCanon(p, e.r.D1[k])
        /\ Len(D1) = top + 1 /\ IsComplex(p, D1) /\ D1[1] = own[1] /\ \A k \in 1..top : D1[k + 1] = csc[k]
        /\ e.r.D2 = e.r.D1 /\ e.r.valid = TRUE
        /\ \A k \in 1..(top + 1) : Len(e.r.bd[k]) = Len(Cells(X, k - 1)) /\ \A i \in DOMAIN e.r.bd[k] :
              IF e.kind = "cube" THEN TRUE
              ELSE LET b == e.r.bd[k][i] IN
                   IF k = 1 THEN b = <<>>
                   ELSE /\ Increasing([j \in DOMAIN b |-> b[j][1]]) /\ \A j \in DOMAIN b : b[j][2] \in {1, -1}
                        /\ SameCol(7, own7[k].c[i], IntCol(b))
                        /\ LET z == VOfK(TLCEval([j \in DOMAIN b |-> <<b[j][1], FInt(p, b[j][2])>>])) IN z = D1[k].c[i]
        /\ \A k \in 1..(top + 1) : \A i \in DOMAIN e.r.faces[k] :
              IF k = 1 THEN TRUE ELSE ToSet(e.r.faces[k][i]) = FaceIdx(X, Cells(X, k - 1)[i]) /\ Len(e.r.faces[k][i]) = Cardinality(ToSet(e.r.faces[k][i]))
        /\ UNCHANGED cvars
\* --------------------------------------------------------------- cell complexes
KObs(x, d) == d.total = FoldLeft(LAMBDA a, b : a + b, 0, x.n) /\ Len(d.n) = d.maxdim + 2 /\ \A k \in DOMAIN d.n : d.n[k] = IF k \in DOMAIN x.n THEN x.n[k] ELSE 0
KPad(x, k) == LET m == Max({Len(x.n), k + 1}) IN [n |-> TLCEval([j \in 1..m |-> IF j \in DOMAIN x.n THEN x.n[j] ELSE 0]),
                                                  cells |-> TLCEval([j \in 1..m |-> At(x.cells, j - 1)])]
KAdd(x, k, b) == LET y == KPad(x, k) IN [n |-> [y.n EXCEPT ![k + 1] = @ + 1], cells |-> IF k = 0 THEN y.cells ELSE [y.cells EXCEPT ![k + 1] = Append(@, b)]]
DoCell(e) ==
    LET x == IF e.op = "new" THEN [n |-> <<0>>, cells |-> <<<<>>>>] ELSE K[e.d]
        y == CASE e.op = "new" -> x
               [] e.op = "cvert" -> KAdd(x, 0, <<>>)
               [] e.op = "cverts" -> [x EXCEPT !.n[1] = @ + e.k]
               [] e.op = "cadd" -> KAdd(x, e.k, e.b)
    IN  /\ CASE e.op = "new" -> KObs(y, e.r)
             [] e.op = "cvert" -> e.r.ret = x.n[1] /\ KObs(y, e.r.x)
             [] e.op = "cverts" -> e.r.ret = x.n[1] + e.k /\ KObs(y, e.r.x)
             [] e.op = "cadd" -> e.r.ret = KPad(x, e.k).n[e.k + 1] /\ KObs(y, e.r.x)
        /\ K' = Upd(K, e.d, y) /\ UNCHANGED <<C, G>>
DoCellBds(e) ==
    LET x == KPad(K[e.d], Len(e.r.D1) - 1)
        own == TLCEval([k \in 1..Len(x.n) |-> CellBd(p, x.cells, k - 1, x.n)])
    IN  /\ \A k \in DOMAIN e.r.D1 : MCanon(p, e.r.D1[k]) /\ MOf(e.r.D1[k]) = own[k]
        /\ Len(e.r.D1) = Len(own) /\ e.r.D2 = e.r.D1 /\ e.r.csc = Tail(e.r.D1)
        /\ e.r.valid = IsComplex(p, own) /\ UNCHANGED cvars
\* ------------------------------------------------------------------ filtrations
FSeen(kind, amb, d) == [x |-> Seen(kind, amb, d.x), v |-> d.vals]
FDumpOK(d) == DumpOK(d.x) /\ d.vals2 = d.vals /\ d.n = [k \in DOMAIN d.vals |-> Len(d.vals[k])] /\ (d.vals # <<>> => d.maxdim = Len(d.vals) - 1)
FIs(f, d) == FDumpOK(d) /\ Is(f.x, d.x) /\ OneValueEach([x |-> f.x, v |-> d.vals]) /\ \A k \in 0..(Len(f.v) - 1) : At(d.vals, k) = At(f.v, k)
DoFNew(e) == LET X == New(e.kind, NewAmb(e)) IN FDumpOK(e.r) /\ Is(X, e.r.x) /\ OneValueEach([x |-> X, v |-> e.r.vals]) /\ G' = Upd(G, e.d, FNew(X, <<>>)) /\ UNCHANGED <<C, K>>
DoFFrom(e) == LET X == C[e.s] IN FDumpOK(e.r) /\ Is(X, e.r.x) /\ OneValueEach([x |-> X, v |-> e.r.vals]) /\ G' = Upd(G, e.d, FNew(X, e.r.vals)) /\ UNCHANGED <<C, K>>
DoFVal(e) == LET f == FNew(C[e.s], e.v) IN FIs(f, e.r) /\ G' = Upd(G, e.d, f) /\ UNCHANGED <<C, K>>
DoFCopy(e) == FIs(G[e.s], e.r) /\ G' = Upd(G, e.d, G[e.s]) /\ UNCHANGED <<C, K>>
DoFAdd(e) ==
    LET f == G[e.d] s == Norm(f.x, e.s) g == FSeen(f.x.kind, f.x.amb, e.r.f) IN
    /\ FDumpOK(e.r.f) /\ RetAdd(f.x, s, e.r.ret) /\ g.x.cells = Trim(Add(f.x, s).cells)
    /\ FStep(f, g, IF Has(f.x, s) THEN {s} ELSE {}, e.t)
    /\ G' = Upd(G, e.d, g) /\ UNCHANGED <<C, K>>
DoFAddRec(e) ==
    LET f == G[e.d] s == Norm(f.x, e.s) g == FSeen(f.x.kind, f.x.amb, e.r.f) IN
    /\ FDumpOK(e.r.f) /\ IsAddRec(f.x, s, g.x) /\ RetRec(f.x, g.x, s, e.r.ret)
    /\ \E again \in SUBSET (IF Has(f.x, s) THEN {s} ELSE {}) : FStep(f, g, again, e.t)
    /\ G' = Upd(G, e.d, g) /\ UNCHANGED <<C, K>>
DoFUpd(e) == LET g == [G[e.d] EXCEPT !.v = e.v] IN FIs(g, e.r) /\ G' = Upd(G, e.d, g) /\ UNCHANGED <<C, K>>
\* cells of the other filtration enter (or are re-added) with its values
DoFUnion(e) ==
    LET f == G[e.d] h == G[e.s] g == FSeen(f.x.kind, f.x.amb, e.r) IN
    /\ FDumpOK(e.r) /\ IsUnion(f.x, h.x, g.x) /\ ComplexInv(g.x) /\ \A k \in 0..(Len(f.x.cells) - 1) : IsPrefix(Cells(f.x, k), Cells(g.x, k))
    /\ OneValueEach(g) /\ \A s \in AllCells(g.x) : ValOf(g, s) = IF Has(h.x, s) THEN ValOf(h, s) ELSE ValOf(f, s)
    /\ G' = Upd(G, e.d, g) /\ UNCHANGED <<C, K>>
DoSub(e) ==
    LET f == G[e.s] Z == Seen(f.x.kind, f.x.amb, e.r) IN
    /\ DumpOK(e.r) /\ Monotone(f) => (ComplexInv(Z) /\ AllCells(Z) = Sub(f, e.t))
    /\ (e.kind = "cube" => e.r.maxdim = f.x.amb)
    /\ C' = Upd(C, e.d, Z) /\ UNCHANGED <<G, K>>
StableSort(v) == SetToSortSeq(DOMAIN v, LAMBDA i, j : v[i] < v[j] \/ (v[i] = v[j] /\ i < j))
DoFSort(e) == LET f == G[e.d] IN
    /\ \A k \in DOMAIN e.r.all : LET q == StableSort(At(f.v, k - 1)) IN
          /\ e.r.all[k] = [i \in DOMAIN q |-> q[i] - 1] /\ e.r.per[k] = e.r.all[k]
          /\ Len(e.r.inv[k]) = Len(q) /\ \A i \in DOMAIN q : e.r.inv[k][q[i]] = i - 1
    /\ Len(e.r.all) >= Len(f.v) /\ Len(e.r.inv) = Len(e.r.all) /\ UNCHANGED cvars
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op \in {"new", "cvert", "cverts", "cadd"} /\ e.kind = "cell" -> DoCell(e)
         [] e.op = "bds" /\ e.kind = "cell" -> DoCellBds(e)
         [] e.op = "newdims" -> /\ C' = Upd(C, e.d, New(e.kind, 0)) /\ Is(New(e.kind, 0), e.r) /\ UNCHANGED <<G, K>>
         [] e.op = "new" /\ e.kind # "cell" -> DoNew(e)
         [] e.op \in {"copy", "assign", "move", "mover"} -> DoCopy(e)
         [] e.op = "dump" -> Is(C[e.d], e.r) /\ UNCHANGED cvars
         [] e.op = "add" -> DoAdd(e)
         [] e.op = "addrec" -> DoAddRec(e)
         [] e.op = "load" -> DoLoad(e)
         [] e.op = "find" -> DoFind(e)
         [] e.op = "inds" -> DoInds(e)
         [] e.op \in {"union", "inter", "uadd", "skel", "grid"} -> DoBinary(e)
         [] e.op = "setdim" -> DoSetDim(e)
         [] e.op = "bds" /\ e.kind # "cell" -> DoBds(e)
         [] e.op = "fnew" -> DoFNew(e)
         [] e.op = "ffrom" -> DoFFrom(e)
         [] e.op = "fval" -> DoFVal(e)
         [] e.op \in {"fcopy", "fassign"} -> DoFCopy(e)
         [] e.op = "fadd" -> DoFAdd(e)
         [] e.op = "faddrec" -> DoFAddRec(e)
         [] e.op = "fupd" -> DoFUpd(e)
         [] e.op = "funion" -> DoFUnion(e)
         [] e.op = "sub" -> DoSub(e)
         [] e.op = "fsort" -> DoFSort(e)
         [] OTHER -> FALSE
    /\ Consume
=============================================================================
