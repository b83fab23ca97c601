------------------------------ MODULE DGTrace ------------------------------
(***************************************************************************)
(* Recorded histories of differential-graded vector spaces (degree -1 or   *)
(* +1, augmented or not), their reductions and persistence pairs, updates  *)
(* of a filtration in place or to another complex, and union-find.         *)
(*   D, val   the chain complex and filtration values of the last complex  *)
(*   base     the values the filtration was loaded with                     *)
(*   deg, DA  degree of the current graded space, D with its augmentation  *)
(***************************************************************************)
EXTENDS UnionFind, Trace0
VARIABLES D, val, deg, DA, base
dvars == <<D, val, deg, DA, base>>
p == Hdr.p
TraceInit == TInit /\ D = <<>> /\ val = <<>> /\ deg = 0 /\ DA = <<>> /\ base = <<>>
Mats(ms) == TLCEval([k \in 1..Len(ms) |-> MOf(ms[k])])
CanonAll(ms) == \A k \in 1..Len(ms) : MCanon(p, ms[k])
OwnD(e) == CASE e.kind \in {"simp", "light"} -> TLCEval([k \in 1..Len(e.cells) |-> SimplexBd(p, e.cells, k - 1)])
             [] e.kind = "cube" -> TLCEval([k \in 1..Len(e.cells) |-> CubeBd(p, e.cells, k - 1)])
SetD(e) ==
    /\ CanonAll(e.r.D) /\ D' = Mats(e.r.D)
    /\ LET own == OwnD(e) IN Len(D') = Len(own) /\ \A k \in 1..Len(own) : SameUpToSign(p, own[k], D'[k])
    /\ IsComplex(p, D') /\ val' = e.vals /\ base' = e.vals /\ Monotone(D', val')
Aug(D0, aug) == IF aug = 1 THEN [D0 EXCEPT ![1] = Mat(1, D0[1].n, TLCEval([j \in 1..D0[1].n |-> VUnit(p, 0)]))] ELSE D0
\* the differentials of X (already augmented or not) in the given degree
Diffs(X, aug, d) ==
    LET n == Len(X)
        lo == IF aug = 1 THEN X[1] ELSE Mat(0, X[1].n, TLCEval([j \in 1..X[1].n |-> VZero]))
        hi == Mat(X[n].n, 0, <<>>)
        all == <<lo>> \o SubSeq(X, 2, n) \o <<hi>>
    IN  IF d = -1 THEN all ELSE TLCEval([k \in 1..Len(all) |-> MT(all[k])])
Squares(ms, d) == \A k \in 1..(Len(ms) - 1) : MIsZero(IF d = -1 THEN MMul(p, ms[k], ms[k + 1]) ELSE MMul(p, ms[k + 1], ms[k]))
DiffOK(obs, want, d) == CanonAll(obs) /\ Mats(obs) = want /\ Squares(want, d)
AugOf(X) == IF \E j \in 1..X[1].n : DOMAIN X[1].c[j] # {} THEN 1 ELSE 0
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* filtration order shown by a permutation recorded in degree d
OrderOf(perm, d) == IF d = -1 THEN perm ELSE TLCEval([k \in 1..Len(perm) |-> TLCEval(Rev(perm[k]))])
BettiOf(X) == Bettis(Ranks(p, X), X)
\* recorded pairs of the graded space / complex X with values v, in the recorded order
PersOK(r, X, v, d) ==
    LET q == TLCEval(OrderOf(r.perm, d))
        XP == TLCEval(Reorder(X, q))
        PR == TLCEval(Pairing(p, XP))
    IN  /\ r.val = v /\ IsOrder(q, X, v)
        /\ r.betti = BettiOf(X) /\ r.dims = [k \in 1..Len(X) |-> X[k].n]
        /\ \A k \in 1..Len(X) :
             LET E == TLCEval(BarsAt(XP, PR, k - 1))
                 mk(b) == LET c == Deperm(q, k - 1, b) w == BarVal(v, k - 1, c) IN <<k - 1, c[1], c[2], w[1], w[2]>>
             IN  /\ Len(r.pairs[k]) = Cardinality(E) /\ ToSet(r.pairs[k]) = {mk(b) : b \in E}
                 /\ Len(r.vec[k]) = Len(r.pairs[k]) /\ \A i \in 1..Len(r.vec[k]) : r.vec[k][i] = SubSeq(r.pairs[k][i], 2, 5)
OrderedOK(r, X, v, d) == /\ r.val = v /\ IsOrder(OrderOf(r.perm, d), X, v)
                         /\ DiffOK(r.diff, Diffs(Reorder(X, r.perm), AugOf(X), d), d)
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in ToSet(s) \cup ToSet(t) :
                    Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN t : t[i] = x})
\* an order of the complex compatible with the values (ties in index order)
AnyOrder(v) == TLCEval([k \in 1..Len(v) |-> TLCEval([i \in 1..Len(v[k]) |->
                  CHOOSE c \in 0..(Len(v[k]) - 1) : i = 1 + Cardinality({x \in 0..(Len(v[k]) - 1) : v[k][x + 1] < v[k][c + 1] \/ (v[k][x + 1] = v[k][c + 1] /\ x < c)})])])
H0Bag(X, v) == LET q == AnyOrder(v) XP == TLCEval(Reorder(X, q)) PR == TLCEval(Pairing(p, XP)) E == SetToSeq(BarsAt(XP, PR, 0))
               IN  TLCEval([i \in 1..Len(E) |-> BarVal(v, 0, Deperm(q, 0, E[i]))])
UFOK(r, X, v) ==
    /\ SameBag([i \in DOMAIN r |-> SubSeq(r[i], 4, 5)], H0Bag(X, v))
    /\ SameBag([i \in DOMAIN r |-> SubSeq(r[i], 4, 5)], UFRun(X, v))
    /\ \A i \in DOMAIN r : r[i][1] = 0
RipsX(n) == LET cells == <<TLCEval([i \in 1..n |-> <<i - 1>>]),
                           FoldLeft(LAMBDA acc, i : acc \o TLCEval([j \in 1..(n - i) |-> <<i - 1, i + j - 1>>]), <<>>, TLCEval([i \in 1..n |-> i]))>>
            IN  TLCEval([k \in 1..2 |-> SimplexBd(p, cells, k - 1)])
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op = "filt" -> SetD(e) /\ UNCHANGED <<deg, DA>>
         [] e.op = "dg" -> /\ DA' = Aug(D, e.aug) /\ deg' = e.deg /\ e.r.maxdim = Top(D)
                           /\ DiffOK(e.r.diff, Diffs(DA', e.aug, e.deg), e.deg) /\ UNCHANGED <<D, val, base>>
         [] e.op = "dgreduce" -> e.r.betti = BettiOf(DA) /\ e.r.dims = [k \in 1..Len(DA) |-> DA[k].n] /\ UNCHANGED dvars
         \* the basis relisted: cell i of dimension k goes to place q[k][i] (or comes from it)
         [] e.op = "dgperm" ->
                LET inv(k) == IF e.all = 1 THEN e.ip[1] ELSE e.ip[k]
                    ord == TLCEval([k \in 1..Len(D) |-> IF inv(k) = 1 THEN e.q[k] ELSE InvPerm(e.q[k])])
                IN  /\ DA' = TLCEval(Reorder(DA, ord)) /\ DiffOK(e.r.diff, Diffs(DA', AugOf(DA), deg), deg) /\ UNCHANGED <<D, val, base, deg>>
         [] e.op = "rdgperm" ->
                LET X == TLCEval(Diffs(Reorder(DA, [k \in 1..Len(D) |-> e.q[k]]), AugOf(DA), deg))
                    R == Mats(e.r.R) U == Mats(e.r.U)
                IN  /\ e.r.betti = BettiOf(DA) /\ e.r.dims = [k \in 1..Len(DA) |-> DA[k].n]
                    /\ CanonAll(e.r.R) /\ CanonAll(e.r.U)
                    /\ \A k \in 1..Len(R) : MMul(p, X[k], U[k]) = R[k] /\ IsReduced(R[k]) /\ MUpperInv(U[k])
                    /\ UNCHANGED dvars
         [] e.op = "dgraw" ->
                LET m == Mats(e.ms) IN
                /\ e.r.same /\ e.r.dims = [k \in 1..Len(m) |-> m[k].n]
                /\ \A k \in 1..(Len(m) - 1) : (e.r.isd[k] = 1) = MIsZero(IF e.deg = -1 THEN MMul(p, m[k], m[k + 1]) ELSE MMul(p, m[k + 1], m[k]))
                /\ UNCHANGED dvars
         \* a cochain complex, its basis relisted: cell i of dimension k goes to place q[k][i] (or comes from it)
         [] e.op = "cochain" ->
                LET N == Len(D)
                    inv(k) == IF e.all = 1 THEN e.ip[1] ELSE e.ip[k]
                    ord == TLCEval([k \in 1..N |-> IF inv(k) = 1 THEN e.q[k] ELSE InvPerm(e.q[k])])
                    X == TLCEval(Reorder(D, ord))
                IN  /\ CanonAll(e.r.diff) /\ Mats(e.r.diff) = [k \in 1..N |-> MT(D[k])]
                    /\ CanonAll(e.r.pD) /\ Mats(e.r.pD) = X
                    /\ CanonAll(e.r.pdiff) /\ Mats(e.r.pdiff) = [k \in 1..N |-> MT(X[k])]
                    /\ e.r.betti = BettiOf(D) /\ e.r.dims = [k \in 1..N |-> D[k].n]
                    /\ UNCHANGED dvars
         [] e.op = "fdg" -> /\ DA' = Aug(D, e.aug) /\ deg' = e.deg /\ val' = base /\ OrderedOK(e.r, DA', base, e.deg) /\ UNCHANGED <<D, base>>
         [] e.op = "fdgupdate" -> /\ val' = e.vals /\ Monotone(D, val') /\ OrderedOK(e.r, DA, val', deg) /\ UNCHANGED <<D, deg, DA, base>>
         [] e.op = "fdgreduce" -> PersOK(e.r, DA, val, deg) /\ UNCHANGED dvars
         [] e.op = "rdgupdate" -> Monotone(D, e.vals) /\ PersOK(e.r, DA, e.vals, deg) /\ UNCHANGED dvars
         [] e.op = "chain" -> PersOK(e.r, D, val, -1) /\ UNCHANGED dvars
         [] e.op = "gen" -> /\ SetD(e) /\ deg' = deg /\ DA' = D'
                            /\ IF e.target = "fcc" THEN /\ e.r.o.val = val' /\ IsOrder(e.r.o.perm, D', val')
                                                        /\ CanonAll(e.r.o.DP) /\ Mats(e.r.o.DP) = Reorder(D', e.r.o.perm)
                               ELSE PersOK(e.r.o, D', val', IF e.target \in {"chain", "chainf"} THEN -1 ELSE deg)
         [] e.op = "uf" -> /\ UFOK(e.r, D, val)
                           /\ \A i \in DOMAIN e.r : val[1][e.r[i][2] + 1] = e.r[i][4] /\ (e.r[i][3] # NoInd => val[2][e.r[i][3] + 1] = e.r[i][5])
                           /\ Cardinality({e.r[i][2] : i \in DOMAIN e.r}) = Len(e.r) /\ UNCHANGED dvars
         [] e.op = "ufrips" -> UFOK(e.r, RipsX(e.n), <<[i \in 1..e.n |-> 0], e.vals>>) /\ UNCHANGED dvars
         \* pairs i < j of N points in lexicographic order: number k is i*N - i(i+1)/2 + (j-i-1)
         [] e.op = "binom" -> /\ Len(e.r) = Len(e.k)
                              /\ \A t \in DOMAIN e.r : LET i == e.r[t][1] j == e.r[t][2] IN
                                    /\ 0 <= i /\ i < j /\ j < e.N
                                    /\ e.k[t] = (i * e.N - ((i * (i + 1)) \div 2)) + ((j - i) - 1)
                              /\ UNCHANGED dvars
         [] OTHER -> FALSE
    /\ Consume
=============================================================================
