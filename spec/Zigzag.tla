------------------------------- MODULE Zigzag -------------------------------
(***************************************************************************)
(* Zigzag filtrations: cells of a complex enter and leave, every cell      *)
(* carries a sequence of disjoint closed intervals of presence.            *)
(* At a critical value t the cells whose interval starts at t enter first  *)
(* (stage 2j - 1, the complex at t), then those whose interval ends at t   *)
(* leave (stage 2j).  The barcode in dimension k must count the rank of    *)
(* the relation composed of H_k of these inclusions between any two        *)
(* stages.                                                                 *)
(***************************************************************************)
EXTENDS Quiver, Complex
\* iv[k + 1][i + 1]: intervals <<entry, exit>> of cell i in dimension k
Ivs(iv, k) == At(iv, k)
Crit(iv) == TLCEval(SetToSortSeq(UNION {UNION {UNION {{x[1], x[2]} : x \in ToSet(iv[k][i])} : i \in DOMAIN iv[k]} : k \in DOMAIN iv}, <))
Holds(xs, t) == \E j \in DOMAIN xs : xs[j][1] <= t /\ t <= xs[j][2]            \* present at t
After(xs, t) == \E j \in DOMAIN xs : xs[j][1] <= t /\ t < xs[j][2]             \* still present after the departures at t
Stage(iv, k, n, ts) == LET t == ts[(n + 1) \div 2] IN                             \* indices of the k-cells at stage n
    IF n < 1 \/ n > 2 * Len(ts) THEN {}
    ELSE IF n % 2 = 1 THEN TLCEval({i - 1 : i \in {i \in DOMAIN Ivs(iv, k) : Holds(Ivs(iv, k)[i], t)}})
    ELSE TLCEval({i - 1 : i \in {i \in DOMAIN Ivs(iv, k) : After(Ivs(iv, k)[i], t)}})
\* the history is admissible: intervals of a cell are disjoint and every stage is a complex
DisjointIvs(xs) == \A i, j \in DOMAIN xs : xs[i][1] <= xs[i][2] /\ (i < j => xs[i][2] < xs[j][1] \/ xs[j][2] < xs[i][1])
Within(D, k, S, T) == \A j \in S : DOMAIN D[k + 1].c[j + 1] \subseteq T
Admissible(D, iv) == LET ts == Crit(iv) IN
    /\ \A k \in DOMAIN iv : \A i \in DOMAIN iv[k] : DisjointIvs(iv[k][i])
    /\ \A k \in 1..(Len(D) - 1) : \A n \in 1..(2 * Len(ts)) : Within(D, k, Stage(iv, k, n, ts), Stage(iv, k - 1, n, ts))
\* -------------------------------------------------------- homology of stages
CycOn(p, D, k, S) ==
    LET off == 500
        d == SetToSeq(S)
        B == BasisOf(p, TLCEval([i \in 1..Len(d) |-> (IF k = 0 THEN VZero ELSE VMap(D[k + 1].c[d[i] + 1], LAMBDA x : x + off)) @@ VUnit(p, d[i])]))
        e == SetToSeq({i \in DOMAIN B : i < off})
    IN  TLCEval([i \in 1..Len(e) |-> B[e[i]]])
BndOn(p, D, k, S) == IF k = Top(D) THEN VZero ELSE LET d == SetToSeq(S) IN BasisOf(p, TLCEval([i \in 1..Len(d) |-> D[k + 2].c[d[i] + 1]]))
RECURSIVE Choose(_, _, _)
Choose(p, B, zs) == IF zs = <<>> THEN <<>> ELSE IF InSpan(p, B, zs[1]) THEN Choose(p, B, Tail(zs)) ELSE <<zs[1]>> \o Choose(p, BasisAdd(p, B, zs[1]), Tail(zs))
HReps(p, D, k, S0, S1) == LET B == BndOn(p, D, k, S1) IN Choose(p, B, CycOn(p, D, k, S0))
\* the relation between H_k of stage a (coordinates in a basis) and the k-chains of the current stage, which contains the boundaries on the right
ZStart(p, D, k, S0, S1) ==
    LET hs == TLCEval(HReps(p, D, k, S0, S1)) bs == BasisSeq(BndOn(p, D, k, S1))
    IN  TLCEval([i \in 1..Len(hs) |-> ShiftV(hs[i], Blk) @@ VUnit(p, i - 1)]) \o TLCEval([i \in 1..Len(bs) |-> ShiftV(bs[i], Blk)])
ZStep(p, D, k, R, fwd, S0, S1, O0, O1) ==        \* S: cells of the next stage, O: of the current one
    IF fwd THEN IF k = Top(D) \/ S1 = O1 THEN R
                ELSE LET d == SetToSeq(S1 \ O1) IN BasisSeq(BasisOf(p, R \o TLCEval([i \in 1..Len(d) |-> ShiftV(D[k + 2].c[d[i] + 1], Blk)])))
    ELSE IF S0 = O0 THEN R ELSE SubspaceVanishing(p, R, {Blk + i : i \in O0 \ S0}, 10 * Blk)
RECURSIVE ZRow(_, _, _, _, _, _)
ZRow(p, D, k, st, R, b) ==           \* st: sequence of <<k-cells, (k+1)-cells>> per stage
    LET r == RelRank(p, R) IN
    IF r = 0 THEN [i \in b..Len(st) |-> 0]
    ELSE IF b = Len(st) THEN (b :> r)
    ELSE (b :> r) @@ ZRow(p, D, k, st, TLCEval(ZStep(p, D, k, R, (b + 1) % 2 = 1, st[b + 1][1], st[b + 1][2], st[b][1], st[b][2])), b + 1)
\* ZTab[a][b]: rank of the relation between stage a and stage b >= a
ZTab(p, D, k, iv) ==
    LET ts == Crit(iv)
        st == TLCEval([n \in 1..(2 * Len(ts)) |-> <<Stage(iv, k, n, ts), Stage(iv, k + 1, n, ts)>>])
    IN  TLCEval([a \in 1..Len(st) |-> TLCEval(ZRow(p, D, k, st, ZStart(p, D, k, st[a][1], st[a][2]), a))])
\* ------------------------------------------------------------------ barcodes
\* a bar: <<dim, birth cell, death cell, birth, death, birth is entry, death is entry>>
ValPos(ts, t) == CHOOSE j \in DOMAIN ts : ts[j] = t
FirstStage(ts, b) == IF b[6] THEN 2 * ValPos(ts, b[4]) - 1 ELSE 2 * ValPos(ts, b[4])
LastStage(ts, b) == IF b[7] THEN 2 * ValPos(ts, b[5]) - 2 ELSE 2 * ValPos(ts, b[5]) - 1
\* the event of the cell named at each end: a class is born by the entry of a k-cell or the departure of a (k+1)-cell, and dies the other way round
Event(iv, k, i, t, entry) == i + 1 \in DOMAIN Ivs(iv, k) /\ \E j \in DOMAIN Ivs(iv, k)[i + 1] : Ivs(iv, k)[i + 1][j][IF entry THEN 1 ELSE 2] = t
EndsOK(iv, b) == /\ b[4] <= b[5]
                 /\ Event(iv, IF b[6] THEN b[1] ELSE b[1] + 1, b[2], b[4], b[6])
                 /\ Event(iv, IF b[7] THEN b[1] + 1 ELSE b[1], b[3], b[5], b[7])
BirthEv(b) == <<IF b[6] THEN b[1] ELSE b[1] + 1, b[2], b[4], b[6]>>
DeathEv(b) == <<IF b[7] THEN b[1] + 1 ELSE b[1], b[3], b[5], b[7]>>
NEvents(iv, k) == 2 * FoldLeft(LAMBDA a, xs : a + Len(xs), 0, Ivs(iv, k))
\* every entry and departure of a cell of dimension <= maxdim is an end of exactly one bar
EventsUsed(iv, bs, maxdim) ==
    LET es == [i \in DOMAIN bs |-> BirthEv(bs[i])] \o [i \in DOMAIN bs |-> DeathEv(bs[i])] IN
    /\ Len(es) = Cardinality(ToSet(es))
    /\ \A k \in 0..maxdim : Cardinality({e \in ToSet(es) : e[1] = k}) = NEvents(iv, k)
BarsRight(tab, ts, bs) ==
    LET se == TLCEval([i \in DOMAIN bs |-> <<FirstStage(ts, bs[i]), LastStage(ts, bs[i])>>]) IN
    \A a \in DOMAIN tab : \A b \in a..Len(tab) : Cardinality({i \in DOMAIN se : se[i][1] <= a /\ se[i][2] >= b}) = tab[a][b]
=============================================================================
