------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* The algebra layer as a register machine: field elements, sparse vectors *)
(* and column matrices live in registers; every public operation is one    *)
(* action.  fr / vr / mr : register -> abstract value.                     *)
(***************************************************************************)
EXTENDS LinAlg
CONSTANT NReg
VARIABLES p, fr, vr, mr
avars == <<p, fr, vr, mr>>
Regs == 0..(NReg - 1)
AInit(q) == /\ p = q
            /\ fr = [d \in Regs |-> FZero(q)]
            /\ vr = [d \in Regs |-> VZero]
            /\ mr = [d \in Regs |-> MZero(0, 0)]

\* ---- index relabelings ------------------------------------------------------------
PermGet(s, i) == s[i + 1]                         \* library permutations are 0-based
SwapIdx(i, j, k) == IF k = i THEN j ELSE IF k = j THEN i ELSE k
\* final index of old index i when rows/columns appear at the (sorted) final positions ins
RECURSIVE Shifted(_, _)
Shifted(i, ins) == IF ins = <<>> THEN i
                   ELSE IF Head(ins) <= i THEN Shifted(i + 1, Tail(ins)) ELSE i
Pos0(s, x) == (CHOOSE k \in DOMAIN s : s[k] = x) - 1
SeqRange(s) == {s[k] : k \in DOMAIN s}
InsIdx(n, ins) == \* for final position k: <<"new", idx>> or <<"old", idx>>
    [k \in 0..(n + Len(ins) - 1) |->
        IF k \in SeqRange(ins) THEN <<1, Pos0(ins, k)>>
        ELSE <<0, k - Cardinality({i \in SeqRange(ins) : i < k})>>]

\* ---- field actions --------------------------------------------------------------------
NewF(e) ==
    CASE e.op = "fint"  -> FInt(p, e.k)
      [] e.op = "ffrac" -> RatN(e.n, e.den)
      [] e.op = "fassign" -> FInt(p, e.k)
      [] e.op = "fadd"  -> FAdd(p, fr[e.a], fr[e.b])
      [] e.op = "fsub"  -> FSub(p, fr[e.a], fr[e.b])
      [] e.op = "fmul"  -> FMul(p, fr[e.a], fr[e.b])
      [] e.op = "fdiv"  -> FDiv(p, fr[e.a], fr[e.b])
      [] e.op = "fneg"  -> FNeg(p, fr[e.a])
      [] e.op = "finv"  -> FInv(p, fr[e.a])
      [] e.op = "fadde" -> FAdd(p, fr[e.d], fr[e.b])
      [] e.op = "fsube" -> FSub(p, fr[e.d], fr[e.b])
      [] e.op = "fmule" -> FMul(p, fr[e.d], fr[e.b])
      [] e.op = "fdive" -> FDiv(p, fr[e.d], fr[e.b])
FWriteOps == {"fint", "ffrac", "fassign", "fadd", "fsub", "fmul", "fdiv", "fneg", "finv", "fadde", "fsube", "fmule", "fdive"}
FWrite(e) == /\ e.op \in {"fdiv", "fdive"} => fr[e.b] # FZero(p)
             /\ e.op = "finv" => fr[e.a] # FZero(p)
             /\ fr' = [fr EXCEPT ![e.d] = NewF(e)]
             /\ UNCHANGED <<p, vr, mr>>
FQuery(e) ==
    CASE e.op = "fcmp" -> LET a == fr[e.d] b == fr[e.b]
                          IN <<a = b, a # b, FLess(p, a, b), FLess(p, b, a), a = FZero(p)>>
      [] e.op = "fcmpi" -> <<fr[e.d] = FInt(p, e.k), fr[e.d] # FInt(p, e.k)>>
      [] e.op = "fint_of" -> IF p = 0 THEN fr[e.d][1] ELSE fr[e.d]     \* asked of integers only
FQueryOps == {"fcmp", "fcmpi", "fint_of"}

\* ---- vector actions -------------------------------------------------------------------
Kron(x, y, m) == LET S == {<<i, j>> : i \in DOMAIN x, j \in DOMAIN y}
                     T == TLCEval({m * s[1] + s[2] : s \in S})
                 IN  TLCEval([k \in T |-> FMul(p, x[k \div m], y[k % m])])
Mix(x, i, j, a, b, c, d) ==
    LET xi == VGet(p, x, i) xj == VGet(p, x, j)
        G(k) == IF k = i THEN FAdd(p, FMul(p, a, xi), FMul(p, b, xj))
                ELSE IF k = j THEN FAdd(p, FMul(p, c, xi), FMul(p, d, xj)) ELSE x[k]
    IN  VMk(p, DOMAIN x \cup {i, j}, G)
\* every entry with index after a removed one moves down
Drop(x, S) == LET g(k) == k - Cardinality({s \in S : s < k}) IN VMap(VRestrict(x, DOMAIN x \ S), g)
NewV(e) ==
    LET y == vr[e.d] IN
    CASE e.op = "vset" -> VOf(e.v)
      [] e.op = "vtup" -> LET z == VOf(e.v) G(i) == FInt(p, z[i]) IN VMk(p, DOMAIN z, G)
      [] e.op = "vunit" -> VUnit(p, e.i)
      [] e.op = "vdense" -> [i \in 0..(e.m - 1) |-> e.a]
      [] e.op \in {"vaxpy", "vaxpyt"} -> VAxpy(p, e.a, vr[e.s], y)
      [] e.op = "vaxpyr" -> VAxpy(p, e.a, VRestrict(vr[e.s], e.f..(e.l - 1)), y)
      [] e.op = "vaxpyc" ->      \* y[k] += coeff[k] x[inds[k]]
            LET K == {k \in DOMAIN e.inds : e.inds[k] \in DOMAIN vr[e.s]}
                T == TLCEval({k - 1 : k \in K})
                G(k) == FMul(p, e.c[k + 1], vr[e.s][e.inds[k + 1]])
            IN VAdd(p, VMk(p, T, G), y)
      [] e.op = "vadd" -> VAdd(p, vr[e.a], vr[e.b])
      [] e.op = "vcopy" -> vr[e.s]
      [] e.op = "vscale" -> VScale(p, e.a, y)
      [] e.op = "vscalev" -> LET G(i) == FMul(p, e.c[i + 1], y[i]) IN VMk(p, DOMAIN y, G)
      [] e.op = "vscalei" -> LET G(i) == IF i = e.i THEN FMul(p, e.a, y[i]) ELSE y[i] IN VMk(p, DOMAIN y, G)
      [] e.op \in {"vmul", "vscaled"} -> VScale(p, e.a, vr[e.s])
      [] e.op = "vperm" -> VMap(y, LAMBDA i : PermGet(e.perm, i))
      [] e.op = "viperm" -> VMap(y, LAMBDA i : Pos0(e.perm, i))
      [] e.op = "vJ" -> VMap(y, LAMBDA i : e.m - 1 - i)
      [] e.op = "vrev" -> VMap(y, LAMBDA i : e.m - i)             \* documented as i -> n - i
      [] e.op = "vswap" -> VMap(y, LAMBDA k : SwapIdx(e.i, e.j, k))
      [] e.op = "vmix" -> Mix(y, e.i, e.j, e.a, e.b, e.c, e.dd)
      [] e.op = "vblock" -> VMap(VRestrict(vr[e.s], e.i..(e.j - 1)), LAMBDA k : k - e.i)
      [] e.op = "vsetblock" -> VMap(vr[e.s], LAMBDA k : k + e.i) @@ VRestrict(y, DOMAIN y \ (e.i..(e.j - 1)))
      [] e.op = "vshift" -> VMap(vr[e.s], LAMBDA k : k + e.sh)
      [] e.op = "vkron" -> Kron(vr[e.a], vr[e.b], e.m)
      [] e.op \in {"vindset", "vsubv"} -> VMap(VRestrict(vr[e.s], SeqRange(e.ix)), LAMBDA k : Pos0(e.ix, k))
      [] e.op = "verase" -> Drop(y, {e.i})
      [] e.op = "veraselast" -> VRestrict(y, DOMAIN y \ {e.i})
      [] e.op = "veraselasts" -> VRestrict(y, DOMAIN y \ ((e.i - e.n + 1)..e.i))
      [] e.op = "veraseafter" -> VRestrict(y, 0..e.i)
      [] e.op = "verasefirst" -> Drop(y, 0..(e.n - 1))
      [] e.op = "vinsert" -> VOf([k \in DOMAIN e.ix |-> <<e.ix[k], e.c[k]>>]) @@ VMap(y, LAMBDA i : Shifted(i, e.ix))
      [] e.op = "vinsertz" -> VMap(y, LAMBDA i : Shifted(i, e.ix))
      [] e.op \in {"vclearinds", "vclearindst"} -> VRestrict(y, {i \in DOMAIN y : e.mask[i + 1] = 0})
      [] e.op = "vclear" -> VZero
      [] e.op = "vio" -> y
      [] e.op \in {"vpush", "vput"} -> (e.i :> e.a) @@ y
      [] e.op = "vrepl" -> (e.j :> e.a) @@ VRestrict(y, DOMAIN y \ {e.i})
VWriteOps == {"vset", "vtup", "vunit", "vdense", "vaxpy", "vaxpyt", "vaxpyr", "vaxpyc", "vadd", "vcopy", "vscale", "vscalev",
              "vscalei", "vmul", "vscaled", "vperm", "viperm", "vJ", "vrev", "vswap", "vmix", "vblock", "vsetblock", "vshift", "vkron",
              "vindset", "vsubv", "verase", "veraselast", "veraselasts", "veraseafter", "verasefirst", "vinsert", "vinsertz",
              "vclearinds", "vclearindst", "vclear", "vio", "vpush", "vput", "vrepl"}
VWrite(e) == vr' = [vr EXCEPT ![e.d] = TLCEval(NewV(e))] /\ UNCHANGED <<p, fr, mr>>
FirstGE(x, i) == LET S == {k \in DOMAIN x : k >= i} IN IF S = {} THEN <<>> ELSE <<Min(S), x[Min(S)]>>
VQuery(e) ==
    LET y == vr[e.d] IN
    CASE e.op = "vdot" -> VDot(p, y, vr[e.s])
      [] e.op = "vget" -> <<VGet(p, y, e.i), VGet(p, y, e.i)>>
      [] e.op = "vgetall" -> [i \in 1..e.n |-> VGet(p, y, i - 1)]
      [] e.op = "vnnzint" -> Cardinality(DOMAIN y \cap DOMAIN vr[e.s])
      [] e.op = "veq" -> <<y = vr[e.s], y # vr[e.s]>>
      [] e.op = "vquery" -> LET l == VList(y) IN [nnz |-> Len(l), inds |-> [k \in DOMAIN l |-> l[k][1]], vals |-> [k \in DOMAIN l |-> l[k][2]]]
      [] e.op = "vends" -> LET l == VList(y) IN <<l[1], l[Len(l)]>>
      [] e.op = "vbounds" -> <<FirstGE(y, e.i), FirstGE(y, e.i + 1)>>
VQueryOps == {"vdot", "vget", "vgetall", "vnnzint", "veq", "vquery", "vends", "vbounds"}
\* the listing order of the coefficient map is not part of the contract
VCoeffInt(e, r) ==
    LET y == vr[e.d] z == vr[e.s] S == DOMAIN y \cap DOMAIN z
        q(i) == FDiv(p, y[i], z[i])
        Q == {q(i) : i \in S}
    IN  {r[k] : k \in DOMAIN r} = {<<c, Cardinality({i \in S : q(i) = c})>> : c \in Q} /\ Len(r) = Cardinality(Q)

\* ---- matrix actions ------------------------------------------------------------------
SeqV(s) == TLCEval([k \in DOMAIN s |-> VOf(s[k])])
ColMap(A, F(_)) == Mat(A.m, A.n, TLCEval([j \in 1..A.n |-> TLCEval(F(A.c[j]))]))
DirectSum(A, B) == Mat(A.m + B.m, A.n + B.n, A.c \o TLCEval([j \in 1..B.n |-> LET x == B.c[j] IN VMap(x, LAMBDA i : i + A.m)]))
DenseRow(r) == LET G(i) == r[i + 1] IN VMk(p, 0..(Len(r) - 1), G)     \* a row as a vector over columns
InsRows(A, ins, rows) ==   \* rows[k]: vector over columns, placed at final row ins[k]
    Mat(A.m + Len(ins), A.n,
        TLCEval([j \in 1..A.n |->
            LET new == {k \in DOMAIN ins : (j - 1) \in DOMAIN rows[k]}
                T == TLCEval({ins[k] : k \in new})
                nv == TLCEval([i \in T |-> rows[Pos0(ins, i) + 1][j - 1]])
                x == A.c[j]
            IN nv @@ VMap(x, LAMBDA i : Shifted(i, ins))]))
InsCols(A, ins, cs) ==
    LET f == InsIdx(A.n, ins)
    IN  Mat(A.m, A.n + Len(ins), TLCEval([k \in 1..(A.n + Len(ins)) |-> IF f[k - 1][1] = 1 THEN cs[f[k - 1][2] + 1] ELSE A.c[f[k - 1][2] + 1]]))
NewM(e) ==
    LET y == mr[e.d] IN
    CASE e.op = "mset" -> Mat(e.A[1], e.A[2], SeqV(e.A[3]))
      [] e.op = "mzero" -> MZero(e.m, e.n)
      [] e.op = "mfill" -> Mat(e.m, e.n, TLCEval([j \in 1..e.n |-> [i \in 0..(e.m - 1) |-> e.a]]))
      [] e.op = "mident" -> MIdent(p, e.n)
      [] e.op = "mcopy" -> mr[e.s]
      [] e.op = "mcsc" -> Mat(e.m, Len(e.cp) - 1, TLCEval([j \in 1..(Len(e.cp) - 1) |->
                LET K == (e.cp[j] + 1)..e.cp[j + 1]
                    z == VOf([k \in 1..(e.cp[j + 1] - e.cp[j]) |-> <<e.ri[e.cp[j] + k], e.va[e.cp[j] + k]>>])
                    G(i) == FInt(p, z[i])
                IN VMk(p, DOMAIN z, G)]))
      [] e.op = "madd" -> MAdd(p, mr[e.a], mr[e.b])
      [] e.op = "madde" -> MAdd(p, y, mr[e.b])
      [] e.op = "msub" -> MSub(p, mr[e.a], mr[e.b])
      [] e.op = "mmul" -> MMul(p, mr[e.a], mr[e.b])
      [] e.op = "mscal" -> MScale(p, e.c, mr[e.a])
      [] e.op \in {"mT", "mTT"} -> MT(mr[e.a])
      [] e.op = "mpermr" -> MRowMap(y, y.m, LAMBDA i : PermGet(e.perm, i))
      [] e.op = "mipermr" -> MRowMap(y, y.m, LAMBDA i : Pos0(e.perm, i))
      [] e.op = "mpermc" -> Mat(y.m, y.n, TLCEval([j \in 1..y.n |-> y.c[Pos0(e.perm, j - 1) + 1]]))
      [] e.op = "mipermc" -> Mat(y.m, y.n, TLCEval([j \in 1..y.n |-> y.c[e.perm[j] + 1]]))
      [] e.op = "mpermrc" -> MRowMap(Mat(y.m, y.n, TLCEval([j \in 1..y.n |-> y.c[Pos0(e.cperm, j - 1) + 1]])), y.m, LAMBDA i : PermGet(e.rperm, i))
      [] e.op = "mswapr" -> MRowMap(y, y.m, LAMBDA k : SwapIdx(e.i, e.j, k))
      [] e.op = "mswapc" -> Mat(y.m, y.n, TLCEval([k \in 1..y.n |-> y.c[SwapIdx(e.i, e.j, k - 1) + 1]]))
      [] e.op = "mmixr" -> ColMap(y, LAMBDA x : Mix(x, e.i, e.j, e.a, e.b, e.c, e.dd))
      [] e.op = "mmixc" -> Mat(y.m, y.n, [y.c EXCEPT ![e.i + 1] = VAxpy(p, e.c, y.c[e.j + 1], VScale(p, e.a, y.c[e.i + 1])),
                                                      ![e.j + 1] = VAxpy(p, e.b, y.c[e.i + 1], VScale(p, e.dd, y.c[e.j + 1]))])
      [] e.op = "mrowscale" -> ColMap(y, LAMBDA x : LET G(i) == FMul(p, e.c[i + 1], x[i]) IN VMk(p, DOMAIN x, G))
      [] e.op = "mcolinv" -> Mat(y.m, y.n, TLCEval([j \in 1..y.n |-> VScale(p, FInv(p, e.c[j]), y.c[j])]))
      [] e.op = "msubm" -> Mat(Len(e.rix), Len(e.cix), TLCEval([k \in 1..Len(e.cix) |->
                              LET x == VRestrict(mr[e.a].c[e.cix[k] + 1], SeqRange(e.rix)) IN VMap(x, LAMBDA i : Pos0(e.rix, i))]))
      [] e.op = "mblock" -> Mat(e.i1 - e.i0, e.j1 - e.j0, TLCEval([k \in 1..(e.j1 - e.j0) |->
                              LET x == VRestrict(mr[e.a].c[e.j0 + k], e.i0..(e.i1 - 1)) IN VMap(x, LAMBDA i : i - e.i0)]))
      [] e.op = "msetblock" -> Mat(y.m, y.n, TLCEval([k \in 1..y.n |->
                              IF k - 1 \in e.j0..(e.j1 - 1)
                              THEN LET x == mr[e.b].c[k - e.j0] IN VMap(x, LAMBDA i : i + e.i0) @@ VRestrict(y.c[k], DOMAIN y.c[k] \ (e.i0..(e.i1 - 1)))
                              ELSE y.c[k]]))
      [] e.op = "mclearr" -> ColMap(y, LAMBDA x : VRestrict(x, {i \in DOMAIN x : e.mask[i + 1] = 0}))
      [] e.op = "mclearc" -> Mat(y.m, y.n, TLCEval([j \in 1..y.n |-> IF e.mask[j] = 0 THEN y.c[j] ELSE VZero]))
      [] e.op = "mappc" -> Mat(y.m, y.n + 1, Append(y.c, VOf(e.v)))
      [] e.op = "mappcz" -> Mat(y.m, y.n + 1, Append(y.c, VZero))
      [] e.op = "minsc" -> InsCols(y, <<e.i>>, <<VOf(e.v)>>)
      [] e.op = "minscz" -> InsCols(y, <<e.i>>, <<VZero>>)
      [] e.op = "minscs" -> InsCols(y, e.ix, SeqV(e.vs))
      [] e.op = "mappr" -> InsRows(y, <<y.m>>, <<DenseRow(e.row)>>)
      [] e.op = "mapprs" -> InsRows(y, <<y.m>>, <<VOf(e.v)>>)
      [] e.op = "mapprz" -> Mat(y.m + 1, y.n, y.c)
      [] e.op = "minsr" -> InsRows(y, <<e.i>>, <<DenseRow(e.row)>>)
      [] e.op = "minsrz" -> InsRows(y, <<e.i>>, <<VZero>>)
      [] e.op = "minsrsz" -> InsRows(y, e.ix, [k \in DOMAIN e.ix |-> VZero])
      [] e.op \in {"minsrs", "minssp"} -> InsRows(y, e.ix, SeqV(e.vs))
      [] e.op = "merc" -> Mat(y.m, y.n - 1, RemoveAt(y.c, e.i + 1))
      [] e.op = "mercl" -> Mat(y.m, y.n - 1, SubSeq(y.c, 1, y.n - 1))
      [] e.op = "merfc" -> Mat(y.m, y.n - e.k, SubSeq(y.c, 1, y.n - e.k))
      [] e.op = "meric" -> Mat(y.m, y.n - e.k, SubSeq(y.c, e.k + 1, y.n))
      [] e.op = "merr" -> LET B == ColMap(y, LAMBDA x : Drop(x, {e.i})) IN Mat(y.m - 1, y.n, B.c)
      [] e.op = "merrl" -> LET B == ColMap(y, LAMBDA x : VRestrict(x, 0..(y.m - 2))) IN Mat(y.m - 1, y.n, B.c)
      [] e.op = "merrs" -> LET B == ColMap(y, LAMBDA x : VRestrict(x, 0..(y.m - e.k - 1))) IN Mat(y.m - e.k, y.n, B.c)
      [] e.op = "merir" -> LET B == ColMap(y, LAMBDA x : Drop(x, 0..(e.k - 1))) IN Mat(y.m - e.k, y.n, B.c)
      [] e.op = "mJr" -> Mat(mr[e.a].m, mr[e.a].n, Reverse(mr[e.a].c))
      [] e.op = "mJl" -> MRowMap(mr[e.a], mr[e.a].m, LAMBDA i : mr[e.a].m - 1 - i)
      [] e.op = "mJc" -> MJ(mr[e.a])
      [] e.op = "mdsum" -> DirectSum(mr[e.a], mr[e.b])
      [] e.op = "mio" -> y
MWriteOps == {"mset", "mzero", "mfill", "mident", "mcopy", "mcsc", "madd", "madde", "msub", "mmul", "mscal", "mT", "mTT", "mpermr", "mipermr",
              "mpermc", "mipermc", "mpermrc", "mswapr", "mswapc", "mmixr", "mmixc", "mrowscale", "mcolinv", "msubm", "mblock", "msetblock",
              "mclearr", "mclearc", "mappc", "mappcz", "minsc", "minscz", "minscs", "mappr", "mapprs", "mapprz", "minsr", "minsrz",
              "minsrsz", "minsrs", "minssp", "merc", "mercl", "merfc", "meric", "merr", "merrl", "merrs", "merir", "mJr", "mJl", "mJc",
              "mdsum", "mio"}
MWrite(e) == mr' = [mr EXCEPT ![e.d] = TLCEval(NewM(e))] /\ UNCHANGED <<p, fr, vr>>
MQuery(e) ==
    LET y == mr[e.d] IN
    CASE e.op = "mgemv" -> LET z == VList(MVec(p, y, vr[e.s])) IN <<z, z, z>>
      [] e.op = "mvtm" -> LET G(j) == VDot(p, vr[e.s], y.c[j + 1]) IN VList(VMk(p, 0..(y.n - 1), G))
      [] e.op = "mget" -> <<MGet(p, y, e.i, e.j), MGet(p, y, e.i, e.j)>>
      [] e.op = "mrows" -> MRows(p, y)
      [] e.op = "mtests" -> [nnz |-> MNnz(y), zero |-> MIsZero(y), upper |-> MUpper(y), lower |-> MLower(y), red |-> MReduced(y),
                             pivot |-> MPivotShape(y), el |-> MEL(y), eu |-> MEU(y), elh |-> MELhat(y), euh |-> MEUhat(y)]
      [] e.op = "mupinv" -> MUpperInv(y)
      [] e.op = "meq" -> y = mr[e.s]
MQueryOps == {"mgemv", "mvtm", "mget", "mrows", "mtests", "mupinv", "meq"}

\* ---- solves, inverses, factorisations: relational specifications -------------------------
IsM(r) == Len(r) = 3 /\ MCanon(p, r)
SolveV(e, r) == VCanon(p, r) /\ MVec(p, mr[e.d], VOf(r)) = vr[e.s]
SolveM(e, r) == IsM(r) /\ r[1] = mr[e.d].n /\ r[2] = mr[e.b].n /\ MMul(p, mr[e.d], MOf(r)) = mr[e.b]
MInverse(A, r) == IsM(r) /\ LET B == MOf(r) I == MIdent(p, A.n) IN B.m = A.n /\ B.n = A.n /\ MMul(p, A, B) = I /\ MMul(p, B, A) = I
Fact(e, r) ==
    LET A == mr[e.d]
        ok == \A k \in DOMAIN r : IsM(r[k])
        M(k) == MOf(r[k])
        sq(k, n) == r[k][1] = n /\ r[k][2] = n
        el(k) == r[k][1] = A.m /\ r[k][2] = A.n
        prod(s) == MMul(p, s[1], IF Len(s) = 2 THEN s[2] ELSE IF Len(s) = 3 THEN MMul(p, s[2], s[3]) ELSE MMul(p, s[2], MMul(p, s[3], s[4])))
        rk == MRank(p, A)
    IN  /\ ok
        /\ CASE e.op = "LEUP" -> /\ sq(1, A.m) /\ el(2) /\ sq(3, A.n) /\ sq(4, A.n)
                                 /\ MLowerInv(M(1)) /\ MEL(M(2)) /\ MUpperInv(M(3)) /\ MPerm(p, M(4)) /\ MNnz(M(2)) = rk
             [] e.op = "PLEU" -> /\ sq(1, A.m) /\ sq(2, A.m) /\ el(3) /\ sq(4, A.n)
                                 /\ MPerm(p, M(1)) /\ MLowerInv(M(2)) /\ MEU(M(3)) /\ MUpperInv(M(4)) /\ MNnz(M(3)) = rk
             [] e.op = "UELP" -> /\ sq(1, A.m) /\ el(2) /\ sq(3, A.n) /\ sq(4, A.n)
                                 /\ MUpperInv(M(1)) /\ MEUhat(M(2)) /\ MLowerInv(M(3)) /\ MPerm(p, M(4)) /\ MNnz(M(2)) = rk
             [] e.op = "PUEL" -> /\ sq(1, A.m) /\ sq(2, A.m) /\ el(3) /\ sq(4, A.n)
                                 /\ MPerm(p, M(1)) /\ MUpperInv(M(2)) /\ MELhat(M(3)) /\ MLowerInv(M(4)) /\ MNnz(M(3)) = rk
             [] e.op = "LQU" -> /\ sq(1, A.m) /\ el(2) /\ sq(3, A.n)
                                /\ MLowerInv(M(1)) /\ MPivotShape(M(2)) /\ MUpperInv(M(3)) /\ MNnz(M(2)) = rk
             [] e.op = "UQL" -> /\ sq(1, A.m) /\ el(2) /\ sq(3, A.n)
                                /\ MUpperInv(M(1)) /\ MPivotShape(M(2)) /\ MLowerInv(M(3)) /\ MNnz(M(2)) = rk
        /\ prod([k \in DOMAIN r |-> M(k)]) = A
FactOps == {"LEUP", "PLEU", "UELP", "PUEL", "LQU", "UQL"}
Commute(e, r) ==
    LET Y == mr[e.d] A == mr[e.a] Z == MOf(r)
    IN  /\ IsM(r)
        /\ CASE e.kind = "EL_L" -> Z.m = Y.m /\ Z.n = Y.m /\ MLowerInv(Z) /\ MMul(p, Z, Y) = MMul(p, Y, A)
             [] e.kind = "L_EL" -> Z.m = A.n /\ Z.n = A.n /\ MLowerInv(Z) /\ MMul(p, A, Z) = MMul(p, Y, A)
             [] e.kind = "U_EU" -> Z.m = A.n /\ Z.n = A.n /\ MUpperInv(Z) /\ MMul(p, A, Z) = MMul(p, Y, A)
             [] e.kind = "EU_U" -> Z.m = Y.m /\ Z.n = Y.m /\ MUpperInv(Z) /\ MMul(p, Z, Y) = MMul(p, Y, A)
=============================================================================
