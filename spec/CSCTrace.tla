------------------------------ MODULE CSCTrace ------------------------------
(* Recorded operations on compressed-column matrices; M: the matrices held. *)
EXTENDS CSC, Trace0
VARIABLE M
p == Hdr.p
TraceInit == TInit /\ M = [i \in 0..3 |-> Mat(0, 0, <<>>)]
SortedOK(c) == \A k \in 1..(Len(c) - 1) : c[k][1] < c[k + 1][1]
RECURSIVE Total(_, _)
Total(cs, j) == IF j = 0 THEN 0 ELSE Len(cs[j]) + Total(cs, j - 1)
\* the recorded storage stands for W, columns sorted; explicit zeros only where zeros = TRUE
Shows(r, W, zeros) ==
    /\ r.M[1] = W.m /\ r.M[2] = W.n /\ Len(r.M[3]) = W.n
    /\ \A j \in 1..W.n : /\ SortedOK(r.M[3][j]) /\ Drop0(p, VOfK(r.M[3][j])) = W.c[j]
                         /\ (IF zeros THEN TRUE ELSE Len(r.M[3][j]) = Cardinality(DOMAIN W.c[j]))
                         /\ \A k \in DOMAIN r.M[3][j] : r.M[3][j][k][1] \in 0..(W.m - 1) /\ FIsElem(p, r.M[3][j][k][2])
    /\ r.nnz = Total(r.M[3], W.n) /\ r.nval = r.nnz
    /\ r.rows = MRows(p, W)
Put(i, W) == M' = TLCEval([M EXCEPT ![i] = W])
Res(e, W, zeros) == Shows(e.r, W, zeros) /\ Put(e.d, W)
Zeroless(S) == S          \* operands are free of explicit zeros except after a solve (kept zeros are values)
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op = "make" -> LET W == Dense(e.m, e.n, e.cp, e.ri, e.v) IN Shows(e.r, W, FALSE) /\ Put(e.i, W)
         [] e.op = "copy" -> Res(e, M[e.a], TRUE)
         [] e.op = "sub" -> Res(e, Pick(M[e.a], e.rs, e.cs), TRUE)
         [] e.op = "block" -> Res(e, Place(M[e.a], e.cs, e.pl, e.m), TRUE)
         [] e.op = "block2" -> /\ Shows(e.r.A, Place(M[e.a], e.cs, e.p1, e.m1), TRUE) /\ Shows(e.r.B, Place(M[e.a], e.cs, e.p2, e.m2), TRUE) /\ UNCHANGED M
         [] e.op = "mul" -> Res(e, MMul(p, M[e.a], M[e.b]), FALSE)
         [] e.op = "sum" -> Res(e, MAdd(p, M[e.a], M[e.b]), FALSE)
         [] e.op = "axpy" -> Res(e, MAdd(p, MScale(p, e.al, M[e.a]), M[e.b]), FALSE)
         [] e.op = "solve" -> /\ Shows(e.r, MOf(<<e.r.M[1], e.r.M[2], [j \in 1..Len(e.r.M[3]) |-> VList(Drop0(p, VOfK(e.r.M[3][j])))]>>), TRUE)
                              /\ LET X == Mat(e.r.M[1], e.r.M[2], TLCEval([j \in 1..Len(e.r.M[3]) |-> Drop0(p, VOfK(e.r.M[3][j]))])) IN
                                 X.m = M[e.a].n /\ X.n = M[e.b].n /\ MMul(p, M[e.a], X) = M[e.b] /\ Put(e.d, X)
         [] OTHER -> FALSE
    /\ Consume
=============================================================================
