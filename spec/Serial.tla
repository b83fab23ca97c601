------------------------------- MODULE Serial -------------------------------
(***************************************************************************)
(* The text formats as sequences of lines of tokens, with a writer and a   *)
(* reader for each kind of object.                                         *)
(*   matrix    "ColumnMatrix" / m n / one line of <<index, value>> a column*)
(*   simplices header / one line of vertices per simplex, by dimension     *)
(*   map       header / its matrices, one after the other                  *)
(* Reading what was written gives the object back; a complex comes back    *)
(* without its empty top dimensions (they are not written).                *)
(***************************************************************************)
EXTENDS LinAlg
WriteMat(A) == <<<<"ColumnMatrix">>, <<A.m, A.n>>>> \o TLCEval([j \in 1..A.n |-> VList(A.c[j])])
\* reads the matrix that starts at line k; the next unread line
ReadMat(f, k) == LET m == f[k + 1][1] n == f[k + 1][2] IN [v |-> Mat(m, n, TLCEval([j \in 1..n |-> VOfK(f[k + 1 + j])])), next |-> k + 2 + n]
WriteMats(hdr, ms) == hdr \o FlattenSeq(TLCEval([k \in 1..Len(ms) |-> WriteMat(ms[k])]))
RECURSIVE ReadMats(_, _)
ReadMats(f, k) == IF k > Len(f) THEN <<>> ELSE LET r == ReadMat(f, k) IN <<r.v>> \o ReadMats(f, r.next)
WriteSimp(cells) == <<<<"SimplicialComplex">>>> \o FlattenSeq(cells)
ReadSimp(f) == LET L == SubSeq(f, 2, Len(f)) D == IF L = <<>> THEN 1 ELSE Max({Len(L[i]) : i \in DOMAIN L})
               IN  TLCEval([k \in 1..D |-> SelectSeq(L, LAMBDA s : Len(s) = k)])
Trim(cells) == LET D == Max({1} \cup {k \in DOMAIN cells : cells[k] # <<>>}) IN SubSeq(cells, 1, D)
=============================================================================
