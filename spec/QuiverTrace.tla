---------------------------- MODULE QuiverTrace ----------------------------
(***************************************************************************)
(* Recorded barcodes of line quivers.  tabs[k]: rank table in layer k (one *)
(* layer per dimension of a stacked diagram), dd[k] its dimensions.        *)
(***************************************************************************)
EXTENDS Quiver, Trace0
VARIABLES tabs, dd, arrs
qvars == <<tabs, dd, arrs>>
p == Hdr.p
TraceInit == TInit /\ tabs = <<>> /\ dd = <<>> /\ arrs = <<>>
ArrOf(dir, ms) == TLCEval([i \in 1..Len(dir) |-> [dir |-> dir[i], M |-> MOf(ms[i])]])
\* recorded bars: <<dim, first node, index there, last node, index there>>, 0-based
BarsOK(bs, k, hdim) ==
    LET T == tabs[k] dims == dd[k]
    IN  /\ \A b \in ToSet(bs) : /\ b[1] = hdim /\ 0 <= b[2] /\ b[2] <= b[4] /\ b[4] < Len(dims)
                                /\ b[3] \in 0..(dims[b[2] + 1] - 1) /\ b[5] \in 0..(dims[b[4] + 1] - 1)
        /\ Decomposes(T, dims, TLCEval([i \in DOMAIN bs |-> <<bs[i][2] + 1, bs[i][4] + 1>>]))
        \* the labels of bars that start (end) at the same node are different
        /\ \A i, j \in DOMAIN bs : i # j => <<bs[i][2], bs[i][3]>> # <<bs[j][2], bs[j][3]>> /\ <<bs[i][4], bs[i][5]>> # <<bs[j][4], bs[j][5]>>
PivotForm(ms, arr) == \A i \in 1..Len(arr) : MCanon(p, ms[i]) /\ LET A == MOf(ms[i]) IN
    A.m = arr[i].M.m /\ A.n = arr[i].M.n /\ MPivotShape(A)
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op = "dgm" -> /\ arrs' = TLCEval([k \in 1..Len(e.dims) |-> ArrOf(e.dir, e.M[k])]) /\ dd' = e.dims
                            /\ tabs' = TLCEval([k \in 1..Len(e.dims) |-> RankTab(p, e.dims[k], arrs'[k])])
         [] e.op = "bars" -> BarsOK(e.r, e.k + 1, e.hdim) /\ UNCHANGED qvars
         [] e.op = "form" -> PivotForm(e.r, arrs[e.k + 1]) /\ UNCHANGED qvars
         [] e.op = "allbars" -> /\ \A k \in 1..Len(dd) : BarsOK(SelectSeq(e.r, LAMBDA b : b[1] = k - 1), k, k - 1)
                                /\ (\A b \in ToSet(e.r) : b[1] \in 0..(Len(dd) - 1)) /\ UNCHANGED qvars
         [] OTHER -> FALSE
    /\ Consume
=============================================================================
