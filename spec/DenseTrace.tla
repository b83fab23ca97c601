---------------------------- MODULE DenseTrace ------------------------------
(***************************************************************************)
(* Recorded histories of dense matrices: registers M with their storage    *)
(* order, a span sp, a similarity transform sm.                            *)
(***************************************************************************)
EXTENDS Dense, Trace0
VARIABLES M, ord, sp, sm
p == Hdr.p
dvars == <<M, ord, sp, sm>>
TraceInit == TInit /\ M = [i \in 0..3 |-> Mat(0, 0, <<>>)] /\ ord = [i \in 0..3 |-> "row"] /\ sp = [n |-> -1, B |-> VZero] /\ sm = [A0 |-> <<>>]
DCanon(r) == Len(r[3]) = r[1] /\ \A i \in 1..r[1] : Len(r[3][i]) = r[2] /\ \A j \in 1..r[2] : FIsElem(p, r[3][i][j])
Is(r, W) == /\ DCanon(r) /\ r[1] = W.m /\ r[2] = W.n /\ DenseOf(p, r) = W
Vec(x) == DVec(p, x)
ElemsOK(x) == \A i \in DOMAIN x : FIsElem(p, x[i])
Put(i, W, o) == M' = TLCEval([M EXCEPT ![i] = W]) /\ ord' = [ord EXCEPT ![i] = o] /\ UNCHANGED <<sp, sm>>
Res(e, W, o) == Is(e.r, W) /\ Put(e.d, W, o)
\* a column can be added or removed where the storage is by columns (a single row is both)
ByCols(i) == ord[i] = "col" \/ M[i].m = 1
Dense1(W, x) == TLCEval([k \in 1..x |-> VGet(p, W, k - 1)])
RowOf(W, i) == TLCEval([j \in 1..W.n |-> VGet(p, W.c[j], i)])
ColOf(W, j) == TLCEval([i \in 1..W.m |-> VGet(p, W.c[j + 1], i - 1)])
WalkOK(w, s) == w[1] = s /\ w[2] = s /\ w[3] = s /\ w[4] = Reverse(s) /\ w[5] = s /\ w[6] = Reverse(s)
SimIs(r, A0, S, A, V) == /\ Is(r.S, S) /\ Is(r.A, A) /\ Is(r.V, V) /\ Is(r.P, A0) /\ r.n = A0.m
SimOp(e, S, A, V) ==
    LET n == A.n IN
    CASE e.k \in {"swapr", "swapc"} -> [S |-> SwapCols(p, S, e.i, e.j), A |-> SwapRows(p, SwapCols(p, A, e.i, e.j), e.i, e.j), V |-> SwapRows(p, V, e.i, e.j)]
      [] e.k = "add" -> [S |-> AddCol(p, S, FNeg(p, e.c), e.j, e.i), A |-> AddCol(p, AddRow(p, A, e.c, e.i, e.j), FNeg(p, e.c), e.j, e.i), V |-> AddRow(p, V, e.c, e.i, e.j)]
      [] e.k = "scaler" -> [S |-> ScaleCol(p, S, FInv(p, e.c), e.i), A |-> ScaleCol(p, ScaleRow(p, A, e.c, e.i), FInv(p, e.c), e.i), V |-> ScaleRow(p, V, e.c, e.i)]
      [] e.k = "scalec" -> [S |-> ScaleCol(p, S, e.c, e.i), A |-> ScaleRow(p, ScaleCol(p, A, e.c, e.i), FInv(p, e.c), e.i), V |-> ScaleRow(p, V, FInv(p, e.c), e.i)]
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op = "make" -> LET W == FromRows(p, e.m, e.n, e.v) IN Is(e.r, W) /\ Put(e.i, W, IF e.ord = "col" THEN "col" ELSE "row")
         [] e.op = "fill" -> LET W == Mat(e.m, e.n, TLCEval([j \in 1..e.n |-> VMk(p, 0..(e.m - 1), LAMBDA i : e.c)])) IN Is(e.r, W) /\ Put(e.i, W, IF e.ord = "col" THEN "col" ELSE "row")
         [] e.op = "ident" -> Is(e.r, MIdent(p, e.n)) /\ Put(e.i, MIdent(p, e.n), "row")
         [] e.op = "tocol" -> Res(e, M[e.a], "col")
         [] e.op = "copy" -> Res(e, M[e.a], ord[e.a])
         [] e.op = "T" -> Res(e, MT(M[e.a]), "row")
         [] e.op = "mul" -> Res(e, MMul(p, M[e.a], M[e.b]), "row")
         [] e.op = "mv" -> LET y == MVec(p, M[e.a], Vec(e.x)) IN
                           /\ ElemsOK(e.r.y) /\ Len(e.r.y) = M[e.a].m /\ Vec(e.r.y) = y /\ Is(e.r.z, Mat(M[e.a].m, 1, <<y>>)) /\ UNCHANGED dvars
         [] e.op = "swapr" -> Res(e, SwapRows(p, M[e.d], e.i, e.j), ord[e.d])
         [] e.op = "swapc" -> Res(e, SwapCols(p, M[e.d], e.i, e.j), ord[e.d])
         [] e.op = "addr" -> Res(e, AddRow(p, M[e.d], e.c, e.i, e.j), ord[e.d])
         [] e.op = "addc" -> Res(e, AddCol(p, M[e.d], e.c, e.i, e.j), ord[e.d])
         [] e.op = "scaler" -> Res(e, ScaleRow(p, M[e.d], e.c, e.i), ord[e.d])
         [] e.op = "scalec" -> Res(e, ScaleCol(p, M[e.d], e.c, e.i), ord[e.d])
         [] e.op = "appc" -> LET W == M[e.d] N == IF e.r.ok THEN Mat(W.m, W.n + 1, Append(W.c, VMk(p, 0..(W.m - 1), LAMBDA i : e.c))) ELSE W
                             IN  (e.r.ok \in (IF ByCols(e.d) THEN {TRUE} ELSE BOOLEAN)) /\ Is(e.r.M, N) /\ Put(e.d, N, ord[e.d])
         [] e.op = "delc" -> LET W == M[e.d] N == IF e.r.ok THEN Mat(W.m, W.n - 1, SubSeq(W.c, 1, W.n - 1)) ELSE W
                             IN  (e.r.ok \in (IF ByCols(e.d) THEN {TRUE} ELSE BOOLEAN)) /\ Is(e.r.M, N) /\ Put(e.d, N, ord[e.d])
         [] e.op = "walk" -> LET W == M[e.a] IN
                             /\ Len(e.r) = W.m + W.n /\ \A i \in 1..W.m : WalkOK(e.r[i], RowOf(W, i - 1))
                             /\ (\A j \in 1..W.n : WalkOK(e.r[W.m + j], ColOf(W, j - 1)))
                             /\ UNCHANGED dvars
         [] e.op = "view" -> Is(e.r, Selected(M[e.a], e.rs, e.cs)) /\ UNCHANGED dvars
         [] e.op = "viewr" -> Is(e.r, Selected(M[e.a], [k \in 1..(e.r1 - e.r0) |-> e.r0 + k - 1], [k \in 1..(e.c1 - e.c0) |-> e.c0 + k - 1])) /\ UNCHANGED dvars
         [] e.op = "viewset" -> LET W == M[e.a] N == Mat(W.m, W.n, TLCEval([j \in 1..W.n |-> IF (j - 1) \in ToSet(e.cs)
                                        THEN VMk(p, 0..(W.m - 1), LAMBDA i : IF i \in ToSet(e.rs) THEN e.x ELSE VGet(p, W.c[j], i)) ELSE W.c[j]]))
                                IN  Is(e.r, N) /\ Put(e.a, N, ord[e.a])
         [] e.op = "lu" -> LET D(r) == DenseOf(p, r) IN
                           /\ \A r \in {e.r.P, e.r.L, e.r.U, e.r.Q} : DCanon(r)
                           /\ IsLU(p, M[e.a], D(e.r.P), D(e.r.L), D(e.r.U), D(e.r.Q)) /\ Is(e.r.prod, M[e.a]) /\ Is(e.r.A, M[e.a]) /\ UNCHANGED dvars
         [] e.op = "lsolve" -> LET s == FwdX(p, M[e.a], Vec(e.y)) IN
                               /\ ElemsOK(e.r.x) /\ ElemsOK(e.r.y) /\ Vec(e.r.x) = s.x /\ Len(e.r.x) = M[e.a].n /\ Vec(e.r.y) = s.y
                               /\ VAdd(p, MVec(p, M[e.a], s.x), s.y) = Vec(e.y)
                               /\ e.r.ok = InSpan(p, BasisOf(p, M[e.a].c), Vec(e.y)) /\ UNCHANGED dvars
         [] e.op = "lres" -> ElemsOK(e.r) /\ Vec(e.r) = FwdX(p, M[e.a], Vec(e.y)).y /\ UNCHANGED dvars
         [] e.op = "span" -> e.r.dim = 0 /\ e.r.vdim = e.n /\ sp' = [n |-> e.n, B |-> VZero] /\ UNCHANGED <<M, ord, sm>>
         [] e.op = "sadd" -> LET v == Vec(e.v) in == InSpan(p, sp.B, v) B == IF in THEN sp.B ELSE TLCEval(BasisAdd(p, sp.B, v)) Pt == DenseOf(p, e.r.Pt) L == DenseOf(p, e.r.L) IN
                             /\ e.r.r = ~in /\ e.r.dim = BDim(B) /\ e.r.vdim = sp.n /\ DCanon(e.r.Pt) /\ DCanon(e.r.L)
                             /\ MPerm(p, Pt) /\ Pt.n = sp.n /\ L.m = sp.n /\ L.n = BDim(B) /\ UnitLower(p, L) /\ SameSpan(p, MMul(p, MT(Pt), L).c, BasisSeq(B))
                             /\ sp' = [sp EXCEPT !.B = B] /\ UNCHANGED <<M, ord, sm>>
         [] e.op = "shas" -> e.r = InSpan(p, sp.B, Vec(e.v)) /\ UNCHANGED dvars
         [] e.op = "sim" -> LET A == M[e.a] I == MIdent(p, A.n) IN SimIs(e.r, A, I, A, I) /\ sm' = [A0 |-> A, S |-> I, A |-> A, V |-> I] /\ UNCHANGED <<M, ord, sp>>
         [] e.op = "simop" -> LET q == SimOp(e, sm.S, sm.A, sm.V) IN
                              /\ SimIs(e.r, sm.A0, q.S, q.A, q.V) /\ sm' = TLCEval([A0 |-> sm.A0, S |-> q.S, A |-> q.A, V |-> q.V]) /\ UNCHANGED <<M, ord, sp>>
         [] e.op = "perm" -> LET n == Len(e.is)
                                 f == FoldLeft(LAMBDA a, k : IF e.hows[k] = 3 THEN <<k>> \o a ELSE Append(a, k), <<>>, [k \in 1..n |-> k])     \* the order in which the swaps apply
                             IN  /\ e.r.all = FoldLeft(LAMBDA s, k : SwapSeq(s, e.is[k], e.js[k]), e.data, f)
                                 /\ e.r.one = (IF n = 0 THEN e.data ELSE SwapSeq(e.data, e.is[1], e.js[1]))
                                 /\ e.r.txt = (IF n = 0 THEN "()" ELSE FoldLeft(LAMBDA s, k : s \o "(" \o ToString(e.is[k]) \o "," \o ToString(e.js[k]) \o ")", "", f)) /\ UNCHANGED dvars
         [] e.op = "range" -> LET s == IF e.two = 1 THEN 1 ELSE e.s n == Abs(e.e - e.b) \div Abs(s) x == [k \in 1..n |-> e.b + (k - 1) * s] IN
                              /\ e.r.n = n /\ e.r.x = x /\ e.r.y = x /\ e.r.z = x /\ e.r.f = e.b /\ e.r.l = e.e /\ e.r.s = s /\ UNCHANGED dvars
         [] OTHER -> FALSE
    /\ Consume
=============================================================================
