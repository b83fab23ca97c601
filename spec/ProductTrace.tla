---------------------------- MODULE ProductTrace ----------------------------
(* Recorded products, tensor products, pairs, Kronecker products of classes; every call is self-contained. *)
EXTENDS Product, Trace0
p == Hdr.p
Mats(ms) == TLCEval([k \in 1..Len(ms) |-> MOf(ms[k])])
CanonAll(ms) == \A k \in 1..Len(ms) : MCanon(p, ms[k])
Vecs(gs) == TLCEval([k \in 1..Len(gs) |-> TLCEval([i \in 1..Len(gs[k]) |-> VOfK(gs[k][i])])])
ArgM(x) == Mat(x[1], x[2], TLCEval([j \in 1..Len(x[3]) |-> VOfK(x[3][j])]))
Arg(ms) == TLCEval([k \in 1..Len(ms) |-> ArgM(ms[k])])
Bound(cells) == IF cells[1] = <<>> THEN 0 ELSE 1 + Max({s[1] : s \in ToSet(cells[1])})
OwnD(cells) == TLCEval([k \in 1..Len(cells) |-> SimplexBd(p, cells, k - 1)])
\* boundary matrices of the simplices in the listing, up to the orientation of each
OwnOK(D, cells) == /\ Len(D) = Len(cells) /\ \A k \in 1..Len(D) : SameUpToSign(p, SimplexBd(p, cells, k - 1), D[k])
                   /\ IsComplex(p, D)
MD(e) == IF e.md = -1 THEN Len(e.x) + Len(e.y) - 2 ELSE e.md
TriOK(e, r) ==
    LET n == IF e.n = -1 THEN Bound(e.x) ELSE e.n md == MD(e) D == Mats(r.D) IN
    /\ IsProduct(r.cells, e.x, e.y, n, md) /\ CanonAll(r.D) /\ OwnOK(D, r.cells)
    /\ KunnethOK(p, OwnD(e.x), OwnD(e.y), D, md)
EZOK(e, r) ==
    LET n == Bound(e.x) DX == Mats(r.DX) DY == Mats(r.DY) T == Mats(r.T) F == Mats(r.F) D == Mats(r.D) IN
    /\ CanonAll(r.T) /\ CanonAll(r.F) /\ CanonAll(r.D)
    /\ OwnOK(DX, e.x) /\ OwnOK(DY, e.y) /\ T = Tens(p, DX, DY, e.md)
    /\ IsProduct(r.cells, e.x, e.y, n, e.md) /\ OwnOK(D, r.cells)
    /\ IsEZ(p, F, T, e.x, e.y, n, r.cells, D)
    /\ QuasiIso(p, F, T, D, BettiTo(e.md, Len(e.x) + Len(e.y) - 2))
EZRelOK(e, r) ==
    LET n == Bound(e.x) D == Mats(r.D) T == Mats(r.T) F == Mats(r.F) RF == Mats(r.RF) RT == Mats(r.RT) RD == Mats(r.RD)
        A == All(e.a) BB == All(e.b)
        \* products that lie in A x Y or X x B
        ri == TLCEval([k \in 1..Len(r.cells) |-> SetToSortSeq({i - 1 : i \in {i \in DOMAIN r.cells[k] : ProjX(r.cells[k][i], n) \in A \/ ProjY(r.cells[k][i], n) \in BB}}, <)])
        bs(k) == TLCEval(FlattenSeq([i \in 1..k |-> IF i > Len(e.x) \/ k - i + 1 > Len(e.y) THEN <<>> ELSE
                     FlattenSeq(TLCEval([a \in 1..Len(e.x[i]) |-> TLCEval([b \in 1..Len(e.y[k - i + 1]) |-> e.x[i][a] \in A \/ e.y[k - i + 1][b] \in BB])]))]))
        ti == TLCEval([k \in 1..Len(r.T) |-> LET q == bs(k) IN SetToSortSeq({i - 1 : i \in {i \in DOMAIN q : q[i]}}, <)])
    IN  /\ CanonAll(r.RT) /\ CanonAll(r.RF) /\ CanonAll(r.RD)
        /\ RT = QuotD(T, ti) /\ RD = QuotD(D, ri) /\ RF = QuotMap(F, ri, ti)
        /\ Commutes(p, RF, RT, RD) /\ QuasiIso(p, RF, RT, RD, BettiTo(e.md, Len(e.x) + Len(e.y) - 2))
RelOK(e, r) ==
    LET D == Mats(r.D) R == Mats(r.R) inds == IndsOf(e.x, e.a) IN
    /\ OwnOK(D, e.x) /\ CanonAll(r.R) /\ R = QuotD(D, inds) /\ OwnOK(Mats(r.DA), e.a) /\ LES(p, D, inds)
MVOK(e, r) ==
    LET A == All(e.a) DX == Mats(r.DX) DY == Mats(r.DY)
        F == TLCEval([k \in 1..Len(r.M) |-> LET w == r.M[k] IN Mat(w[1], w[2], TLCEval([j \in 1..Len(w[3]) |-> VOfK(TLCEval([i \in DOMAIN w[3][j] |-> <<w[3][j][i][1], FInt(p, w[3][j][i][2])>>]))]))])
    IN  /\ Listing(r.x) /\ Listing(r.y) /\ All(r.x) = A \cup All(e.b) /\ All(r.y) = A \cap All(e.b)
        /\ OwnOK(DX, r.x) /\ OwnOK(DY, r.y)
        /\ \A k \in 1..Len(F) : /\ F[k] = MVMat(DX, r.x, r.y, A, k - 1)
                                /\ \A j \in 1..Len(r.M[k][3]) : LET c == r.M[k][3][j] IN \A i \in 1..(Len(c) - 1) : c[i][1] < c[i + 1][1]
        \* the connecting map takes boundaries to boundaries: F_{k} D_{k+2} + D_k F_{k+1} = 0
        /\ \A k \in 1..(Len(F) - 1) : LET Z == KernelSeq(p, DX[k + 2]) By == BasisOf(p, BdCols(DY, k)) IN
             k <= Top(DY) => \A i \in 1..Len(Z) : DOMAIN MVec(p, DY[k + 1], MVec(p, F[k + 1], Z[i])) = {}
\* classes of products of generators in the basis g of the tensor product
KronHOK(e, r) ==
    LET DA == Arg(e.a) DB == Arg(e.b) D == Tens(p, DA, DB, Len(e.a) + Len(e.b) - 2)
        gx == Vecs(r.gx) gy == Vecs(r.gy) g == Vecs(r.g) IN
    /\ \A k \in 1..Len(DA) : IsHomBasis(p, DA, -1, k - 1, gx[k])
    /\ \A k \in 1..Len(DB) : IsHomBasis(p, DB, -1, k - 1, gy[k])
    /\ \A k \in 1..Len(D) : IsHomBasis(p, D, -1, k - 1, g[k])
    /\ \A i \in 1..Len(DA), j \in 1..Len(DB) :
         LET K == MOf(r.K[i][j]) k == i + j - 2 Bd == TLCEval(BasisOf(p, BdCols(D, k))) H == Mat(NC(D, k), Len(g[k + 1]), g[k + 1]) ny == Len(gy[j]) IN
         /\ MCanon(p, r.K[i][j]) /\ K.m = Len(g[k + 1]) /\ K.n = Len(gx[i]) * ny
         /\ \A a \in 1..Len(gx[i]), b \in 1..ny :
              InSpan(p, Bd, VSub(p, TensVec(p, DA, DB, i - 1, gx[i][a], j - 1, gy[j][b]), MVec(p, H, K.c[(a - 1) * ny + b])))
Ok(e) == LET r == e.r IN
    CASE e.op = "tri" -> TriOK(e, r)
      [] e.op = "ez" -> EZOK(e, r)
      [] e.op = "ezrel" -> EZRelOK(e, r)
      [] e.op = "relc" -> RelOK(e, r)
      [] e.op = "mv" -> MVOK(e, r)
      [] e.op = "sub" -> LET D == Arg(e.d) IN CanonAll(r.S) /\ CanonAll(r.Q) /\ Mats(r.S) = SubD(D, e.inds) /\ Mats(r.Q) = QuotD(D, e.inds) /\ r.valid = TRUE /\ LES(p, D, e.inds)
      [] e.op = "tens" -> LET DA == Arg(e.a) DB == Arg(e.b) md == IF e.d = -1 THEN Len(e.a) + Len(e.b) - 2 ELSE e.d T == Mats(r) IN
                          CanonAll(r) /\ T = Tens(p, DA, DB, md) /\ IsComplex(p, T) /\ KunnethOK(p, DA, DB, T, md)
      [] e.op = "kronc" -> VCanon(p, r) /\ VOfK(r) = TensVec(p, Arg(e.a), Arg(e.b), e.dx, VOfK(e.x), e.dy, VOfK(e.y))
      [] e.op = "kronh" -> KronHOK(e, r)
      [] e.op = "mat" -> MCanon(p, r.T) /\ MCanon(p, r.S) /\ MOf(r.T) = KronMat(p, ArgM(e.a), ArgM(e.b)) /\ MOf(r.S) = DSum(ArgM(e.a), ArgM(e.b))
      [] e.op = "vec" -> VCanon(p, r.K) /\ VCanon(p, r.T) /\ VOfK(r.K) = Kron(p, VOfK(e.a), VOfK(e.b), e.m) /\ VOfK(r.T) = VOfK(r.K) /\ VOfK(r.sh) = Up(VOfK(e.a), e.m)
      [] OTHER -> FALSE
TraceInit == TInit
TraceNext == More /\ Ok(Ev) /\ Consume
=============================================================================
