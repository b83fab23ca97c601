---------------------------- MODULE ZigzagTrace ----------------------------
(***************************************************************************)
(* Recorded zigzag filtrations: X the complex (maximum dimension mx), iv   *)
(* the intervals of every cell, tabs the rank tables per dimension once a barcode has been asked. *)
(***************************************************************************)
EXTENDS Zigzag, Trace0
VARIABLES X, iv, tabs, mx
zvars == <<X, iv, tabs, mx>>
p == Hdr.p
Kind == Hdr.kind
TraceInit == TInit /\ X = New(Hdr.kind, Hdr.amb) /\ iv = <<>> /\ tabs = <<>> /\ mx = 0
SeenX(r) == [X EXCEPT !.cells = Trim(r.cells)]
\* the recorded values agree with the intervals: one list per cell
SameIv(a, b) == \A k \in 1..Max({Len(a), Len(b)}) : At(a, k - 1) = At(b, k - 1)
PutIv(v, k, i, x) == LET n == Max({Len(v), k + 1}) IN
    TLCEval([j \in 1..n |-> IF j # k + 1 THEN At(v, j - 1)
                            ELSE LET w == At(v, k) IN [l \in 1..Max({Len(w), i + 1}) |-> (IF l \in DOMAIN w THEN w[l] ELSE <<>>) \o (IF l = i + 1 THEN <<x>> ELSE <<>>)]])
DoZAdd(e) ==
    LET s == Norm(X, e.s) Y == Add(X, s) v == PutIv(iv, DimOf(X, s), Idx(Y, s), <<e.a, e.b>>) IN
    /\ e.r.ret = <<DimOf(X, s), Idx(Y, s)>> /\ Trim(e.r.cells) = Trim(Y.cells) /\ SameIv(e.r.vals, v)
    /\ X' = SeenX(e.r) /\ iv' = v /\ tabs' = <<>> /\ mx' = Len(e.r.cells) - 1
DoZAddRec(e) ==
    LET s == Norm(X, e.s) Y == SeenX(e.r) new == NewFaces(X, s)
        v(S) == FoldLeft(LAMBDA w, t : PutIv(w, DimOf(X, t), Idx(Y, t), <<e.a, e.b>>), iv, SetToSeq(S))
    IN  /\ IsAddRec(X, s, Y) /\ ToSet(e.r.ret) = {<<DimOf(X, t), Idx(Y, t)>> : t \in new} /\ Len(e.r.ret) = Cardinality(ToSet(e.r.ret))
        /\ new # {} /\ SameIv(e.r.vals, v(new))
        /\ X' = Y /\ iv' = v(new) /\ tabs' = <<>> /\ mx' = Len(e.r.cells) - 1
DoZVal(e) == /\ X' = [X EXCEPT !.cells = Trim(e.cells)] /\ Trim(e.r.cells) = Trim(e.cells) /\ SameIv(e.r.vals, e.v) /\ iv' = e.v /\ tabs' = <<>> /\ mx' = Len(e.r.cells) - 1
XD(Y) == LET cs == Trim(Y.cells) IN TLCEval([k \in 1..Len(cs) |-> BdOf(p, [Y EXCEPT !.cells = cs], k - 1)])
Flat(bs) == FlattenSeq(bs)
DoBars(e) ==
    LET D == XD(X)
        top == Top(D)
        ask == IF e.maxdim = -1 THEN mx - 1 ELSE e.maxdim
        tb == IF tabs # <<>> THEN tabs ELSE TLCEval([k \in 1..(top + 1) |-> ZTab(p, D, k - 1, iv)])
        ts == Crit(iv)
    IN  /\ Admissible(D, iv)
        /\ Len(e.r) = ask + 1
        /\ \A k \in DOMAIN e.r : \A i \in DOMAIN e.r[k] : e.r[k][i][1] = k - 1 /\ EndsOK(iv, e.r[k][i])
        /\ EventsUsed(iv, Flat(e.r), ask)
        /\ \A k \in DOMAIN e.r : IF k > top + 1 THEN e.r[k] = <<>> ELSE BarsRight(tb[k], ts, e.r[k])
        /\ tabs' = tb /\ UNCHANGED <<X, iv, mx>>
\* the cells whose interval meets [s0, s1]
DoLevel(e) ==
    LET meets(xs) == \E j \in DOMAIN xs : xs[j][1] <= e.s1 /\ xs[j][2] >= e.s0
        want(k) == {Cells(X, k)[i] : i \in {i \in DOMAIN Cells(X, k) : meets(iv[k + 1][i])}}
    IN  /\ \A k \in 0..Max({Len(X.cells), Len(e.r.cells)}) : ToSet(At(e.r.cells, k)) = want(k) /\ Len(At(e.r.cells, k)) = Cardinality(want(k))
        /\ UNCHANGED zvars
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op = "zadd" -> DoZAdd(e)
         [] e.op = "zaddrec" -> DoZAddRec(e)
         [] e.op = "zval" -> DoZVal(e)
         [] e.op = "bars" -> DoBars(e)
         [] e.op = "level" -> DoLevel(e)
         [] OTHER -> FALSE
    /\ Consume
=============================================================================
