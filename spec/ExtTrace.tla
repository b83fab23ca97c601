----------------------------- MODULE ExtTrace -----------------------------
(* Recorded extensions; zf is the current filtration by intervals, [cells, iv] as recorded when it was made and checked then. *)
EXTENDS Ext, Trace0
VARIABLE zf
TraceInit == TInit /\ zf = [cells |-> <<>>, iv |-> <<>>]
Listed(cells, S, dim(_)) == /\ \A k \in DOMAIN cells : IsInjective(cells[k]) /\ \A i \in DOMAIN cells[k] : dim(cells[k][i]) = k - 1
                            /\ Flat(cells) = S
SDim(s) == Len(s) - 1
IsSimpList(cells, S) == Listed(cells, S, SDim)
IsCubeList(cells, S) == Listed(cells, S, CDim)
Same(a, b) == IsInjective(a) /\ Rng(a) = Rng(b)
SameCells(r, c) == \A k \in 1..Max({Len(r), Len(c)}) : Same(IF k <= Len(r) THEN r[k] ELSE <<>>, IF k <= Len(c) THEN c[k] ELSE <<>>)
Vals(cells, vals, ok(_, _)) == Len(vals) = Len(cells) /\ \A k \in DOMAIN cells : Len(vals[k]) = Len(cells[k]) /\ \A i \in DOMAIN cells[k] : ok(cells[k][i], vals[k][i])
\* ---------------------------------------------------------------- values
At2(f, v) == f[v[1] + 1][v[2] + 1]
At3(f, v) == f[v[1] + 1][v[2] + 1][v[3] + 1]
AtC(f, v, n) == f[v[3] + (v[2] + v[1] * n) * n + 1]
DoLower(e) ==
    LET r == e.r F(v) == e.f[v + 1] ok(s, x) == x = MaxOver(Rng(s), F)
        okd(s, x) == x \in Rng(s) /\ F(x) = MaxOver(Rng(s), F)
    IN  SameCells(r.cells, e.c) /\ Vals(r.cells, r.v, ok) /\ Vals(r.cells, r.i, okd) /\ r.fv = r.v
DoLowerC(e) ==
    LET F(v) == IF e.n = 2 THEN At2(e.f, v) ELSE At3(e.f, v) ok(c, x) == x = MaxOver(Corners(c), F)
    IN  SameCells(e.r.cells, e.c) /\ Vals(e.r.cells, e.r.v, ok)
\* births and deaths pull their gradients back to the vertex their cell takes its value from
DoBack(e) ==
    LET n == Len(e.imap[1])
        terms == UNION {{<<d, k>> : k \in 1..Len(e.g[d])} : d \in DOMAIN e.g}
        vert(t) == LET i == e.bd[t[1]][t[2]] IN IF i = -1 THEN -1 ELSE e.imap[t[1] + (IF t[2] % 2 = 1 THEN 0 ELSE 1)][i + 1]
    IN  e.r = TLCEval([v \in 1..n |-> FoldSet(LAMBDA t, acc : acc + e.g[t[1]][t[2]], 0, {t \in terms : vert(t) = v - 1})])
\* ---------------------------------------------------------------- intervals
AllWin(cells, f(_), verts(_), eps) == TLCEval([k \in DOMAIN cells |-> TLCEval([i \in DOMAIN cells[k] |-> Window(verts(cells[k][i]), f, eps)])])
Single(w, vals) == Len(vals) = Len(w) /\ \A k \in DOMAIN w : Len(vals[k]) = Len(w[k]) /\ \A i \in DOMAIN w[k] : vals[k][i] = <<w[k][i]>>
AllGood(w) == \A k \in DOMAIN w : \A i \in DOMAIN w[k] : Good(w[k][i])
ZS(r) == [cells |-> r.cells, iv |-> r.vals]
Trim0(c) == LET D == {k \in DOMAIN c : c[k] # <<>>} IN IF D = {} THEN <<>> ELSE SubSeq(c, 1, Max(D))
DoExtz(e) ==
    LET F(v) == e.f[v + 1] w0 == AllWin(e.c, F, Rng, e.eps) r == e.r IN
    IF AllGood(w0) THEN "cells" \in DOMAIN r /\ SameCells(r.cells, e.c) /\ Single(AllWin(r.cells, F, Rng, e.eps), r.vals) /\ zf' = ZS(r)
    ELSE r = [err |-> 1] /\ UNCHANGED zf
DoExtl(e) ==
    LET F(v) == AtC(e.f, v, e.n) w0 == AllWin(e.c, F, Corners, e.eps) r == e.r IN
    IF AllGood(w0) THEN "cells" \in DOMAIN r /\ SameCells(r.cells, e.c) /\ Single(AllWin(r.cells, F, Corners, e.eps), r.vals) /\ zf' = ZS(r)
    ELSE r = [err |-> 1] /\ UNCHANGED zf
DoExtc(e) ==
    LET F(v) == AtC(e.f, v, e.n) r == e.r
        w == AllWin(r.cells, F, Corners, e.eps)
    IN  /\ IsCubeList(r.cells, {c \in Flat(e.c) : Good(Window(Corners(c), F, e.eps))})
        /\ Single(SubSeq(w, 1, Len(r.vals)), r.vals) /\ \A k \in DOMAIN r.cells : k > Len(r.vals) => r.cells[k] = <<>>
        /\ zf' = ZS(r)
DoToplex(e) ==
    LET d == Dims(e.img) r == e.r IN
    /\ IsCubeList(r.cells, BoxCubes(<<0, 0, 0>>, d))
    /\ Len(r.vals) = Len(r.cells) /\ \A k \in DOMAIN r.cells : Len(r.vals[k]) = Len(r.cells[k]) /\ \A i \in DOMAIN r.cells[k] : r.vals[k][i] = <<Toplex(e.img, r.cells[k][i])>>
    /\ zf' = ZS(r)
DoZset(e) == e.r.vals = e.v /\ e.r.cells = e.c /\ zf' = ZS(e.r)
\* the level set between s0 and s1, per dimension
Level(s0, s1) == TLCEval([k \in 1..Len(zf.iv) |-> SelectSeq([i \in DOMAIN zf.cells[k] |-> <<zf.cells[k][i], Meets(zf.iv[k][i], s0, s1)>>], LAMBDA x : x[2])])
LevelCells(s0, s1) == LET l == Level(s0, s1) IN TLCEval([k \in DOMAIN l |-> TLCEval([i \in DOMAIN l[k] |-> l[k][i][1]])])
IsIncl(a, b, m) == \A k \in DOMAIN a : m[k][1] = Len(b[k]) /\ m[k][2] = Len(a[k]) /\ Len(m[k][3]) = Len(a[k]) /\
                      \A i \in DOMAIN a[k] : Len(m[k][3][i]) = 1 /\ m[k][3][i][1][2] = 1 /\ m[k][3][i][1][1] + 1 \in DOMAIN b[k] /\ b[k][m[k][3][i][1][1] + 1] = a[k][i]
DoLevels(e) ==
    LET ws == Windows(e.t0, e.eps, e.t1) r == e.r n == Len(ws) IN
    /\ Len(r.n) = n /\ Len(r.e) = n - 1
    /\ \A i \in 1..n : SameCells(r.n[i], LevelCells(ws[i][1], ws[i][2]))
    /\ \A i \in 1..(n - 1) : LET x == r.e[i] IN
          /\ <<x.s, x.t>> = (IF i % 2 = 1 THEN <<i - 1, i>> ELSE <<i, i - 1>>)
          /\ Len(x.m) = Len(r.n[x.s + 1]) /\ IsIncl(r.n[x.s + 1], r.n[x.t + 1], x.m)
Rd(e) ==
    CASE e.op = "lower" -> DoLower(e)
      [] e.op = "lowerc" -> DoLowerC(e)
      [] e.op = "back" -> DoBack(e)
      [] e.op = "level" -> SameCells(e.r.cells, LevelCells(e.s0, e.s1))
      [] e.op = "levels" -> DoLevels(e)
      [] OTHER -> FALSE
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op = "extz" -> DoExtz(e)
         [] e.op = "extl" -> DoExtl(e)
         [] e.op = "extc" -> DoExtc(e)
         [] e.op = "toplex" -> DoToplex(e)
         [] e.op = "zset" -> DoZset(e)
         [] e.op = "grid" -> UNCHANGED zf /\ (LET C == BoxCubes(e.lo, e.hi) IN IF e.cubes = 1 THEN IsCubeList(e.r, C) ELSE IsSimpList(e.r, Freud(C, e.n)))
         [] e.op = "gridc" -> UNCHANGED zf /\ IsSimpList(e.r, Freud(Flat(e.c), e.n))
         [] OTHER -> Rd(e) /\ UNCHANGED zf
    /\ Consume
=============================================================================
