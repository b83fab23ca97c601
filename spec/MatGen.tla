------------------------------- MODULE MatGen -------------------------------
(***************************************************************************)
(* Enumerates every behaviour "set one or two M x N matrices over F_P,      *)
(* apply one matrix operation with every argument it can take" of the       *)
(* register machine and prints it as a call history to be replayed on the   *)
(* real code; on the way the laws of matrix algebra are checked for the     *)
(* operations themselves.                                                   *)
(***************************************************************************)
EXTENDS Algebra, Json
CONSTANTS P, M, N
VARIABLES hist
vars == <<p, fr, vr, mr, hist>>
VecsOf(k) == {VRestrict(x, {i \in DOMAIN x : x[i] # 0}) : x \in [0..(k - 1) -> 0..(P - 1)]}
Mats(m, n) == {Mat(m, n, c) : c \in [1..n -> VecsOf(m)]}
Perms(k) == {f \in [1..k -> 0..(k - 1)] : \A i, j \in 1..k : i # j => f[i] # f[j]}
Inj(k) == UNION {{f \in [1..l -> 0..(k - 1)] : \A i, j \in 1..l : i # j => f[i] # f[j]} : l \in 0..k}
Incr(k, l) == {f \in [1..l -> 0..(k - 1)] : \A i, j \in 1..l : i < j => f[i] < f[j]}
Masks(k) == [1..k -> 0..1]
Units(k) == [1..k -> 1..(P - 1)]
Lst(x) == VList(x)
Full(k) == VMk(P, 0..(k - 1), LAMBDA i : P - 1)
Quads == {<<1, 1, 0, 1>>, <<1, 0, 1, 1>>, <<0, 1, 1, 0>>, <<1, P - 1, 1, 1>>, <<0, 0, 0, 0>>, <<P - 1, 0, 0, 1>>}
Set(k, X) == [op |-> "mset", d |-> k, A |-> MList(X)]
Wr(r) == r
Unary ==
       {[op |-> o, d |-> 2, a |-> 0] : o \in {"mT", "mTT", "mJr", "mJl", "mJc"}}
  \cup {[op |-> "mscal", d |-> 2, a |-> 0, c |-> c] : c \in 0..(P - 1)}
  \cup {[op |-> o, d |-> 0, perm |-> q] : o \in {"mpermr", "mipermr"}, q \in Perms(M)}
  \cup {[op |-> o, d |-> 0, perm |-> q] : o \in {"mpermc", "mipermc"}, q \in Perms(N)}
  \cup {[op |-> "mpermrc", d |-> 0, rperm |-> q, cperm |-> t] : q \in Perms(M), t \in Perms(N)}
  \cup {[op |-> "mswapr", d |-> 0, i |-> i, j |-> j] : i \in 0..(M - 1), j \in 0..(M - 1)}
  \cup {[op |-> "mswapc", d |-> 0, i |-> i, j |-> j] : i \in 0..(N - 1), j \in 0..(N - 1)}
  \cup {[op |-> "mmixr", d |-> 0, i |-> i, j |-> j, a |-> q[1], b |-> q[2], c |-> q[3], dd |-> q[4]] : i \in 0..(M - 1), j \in 0..(M - 1), q \in Quads}
  \cup {[op |-> "mmixc", d |-> 0, i |-> i, j |-> j, a |-> q[1], b |-> q[2], c |-> q[3], dd |-> q[4]] : i \in 0..(N - 1), j \in 0..(N - 1), q \in Quads}
  \cup {[op |-> "mrowscale", d |-> 0, c |-> c] : c \in Units(M)}
  \cup {[op |-> "mcolinv", d |-> 0, c |-> c] : c \in Units(N)}
  \cup {[op |-> "msubm", d |-> 2, a |-> 0, rix |-> f, cix |-> g] : f \in Inj(M), g \in Inj(N)}
  \cup {[op |-> "mblock", d |-> 2, a |-> 0, i0 |-> a, i1 |-> b, j0 |-> c, j1 |-> e] : a \in 0..M, b \in 0..M, c \in 0..N, e \in 0..N}
  \cup {[op |-> "mclearr", d |-> 0, mask |-> q] : q \in Masks(M)} \cup {[op |-> "mclearc", d |-> 0, mask |-> q] : q \in Masks(N)}
  \cup {[op |-> "mappc", d |-> 0, v |-> Lst(x)] : x \in VecsOf(M)}
  \cup {[op |-> o, d |-> 0] : o \in {"mappcz", "mapprz", "mio"}}
  \cup {[op |-> "minsc", d |-> 0, i |-> i, v |-> Lst(Full(M))] : i \in 0..N}
  \cup {[op |-> "minscz", d |-> 0, i |-> i] : i \in 0..N}
  \cup UNION {{[op |-> "minscs", d |-> 0, ix |-> f, vs |-> [k \in 1..l |-> Lst(Full(M))]] : f \in Incr(N + l, l)} : l \in 0..2}
  \cup {[op |-> "mappr", d |-> 0, row |-> q] : q \in [1..N -> 0..(P - 1)]}
  \cup {[op |-> "mapprs", d |-> 0, v |-> Lst(x)] : x \in VecsOf(N)}
  \cup {[op |-> "minsr", d |-> 0, i |-> i, row |-> [k \in 1..N |-> P - 1]] : i \in 0..M}
  \cup {[op |-> "minsrz", d |-> 0, i |-> i] : i \in 0..M}
  \cup UNION {{[op |-> "minsrsz", d |-> 0, ix |-> f] : f \in Incr(M + l, l)} : l \in 0..2}
  \cup UNION {{[op |-> o, d |-> 0, ix |-> f, vs |-> [k \in 1..l |-> Lst(Full(N))]] : o \in {"minsrs", "minssp"}, f \in Incr(M + l, l)} : l \in 0..2}
  \cup {[op |-> "merc", d |-> 0, i |-> i] : i \in 0..(N - 1)} \cup {[op |-> "merr", d |-> 0, i |-> i] : i \in 0..(M - 1)}
  \cup (IF N > 0 THEN {[op |-> "mercl", d |-> 0]} ELSE {}) \cup (IF M > 0 THEN {[op |-> "merrl", d |-> 0]} ELSE {})
  \cup {[op |-> o, d |-> 0, k |-> k] : o \in {"merfc", "meric"}, k \in 0..N} \cup {[op |-> o, d |-> 0, k |-> k] : o \in {"merrs", "merir"}, k \in 0..M}
Unary1 == {o \in Unary : CASE o.op \in {"mmixr", "mmixc"} -> o.i # o.j [] o.op = "mblock" -> o.i0 <= o.i1 /\ o.j0 <= o.j1 [] OTHER -> TRUE}
Binary == {[op |-> o, d |-> 2, a |-> 0, b |-> 1] : o \in {"madd", "msub", "mdsum"} \cup (IF M = N THEN {"mmul"} ELSE {})}
     \cup {[op |-> "madde", d |-> 0, b |-> 1]}
Init == AInit(P) /\ hist = <<>>
Out(h) == PrintT(<<"VF_B", ToJson(h)>>)
Queries == <<[op |-> "mrows", d |-> 0], [op |-> "mtests", d |-> 0]>>
            \o (IF M = N THEN <<[op |-> "mupinv", d |-> 0]>> ELSE <<>>)
Next ==
  \/ /\ hist = <<>> /\ \E X \in Mats(M, N) : mr' = [mr EXCEPT ![0] = X] /\ hist' = <<Set(0, X)>> /\ UNCHANGED <<p, fr, vr>> /\ Out(hist' \o Queries)
  \/ /\ Len(hist) = 1 /\ \E o \in Unary1 : MWrite(o) /\ hist' = Append(hist, o) /\ Out(hist')
  \/ /\ Len(hist) = 1 /\ \E Y \in Mats(M, N) : mr' = [mr EXCEPT ![1] = Y] /\ hist' = Append(hist, Set(1, Y)) /\ UNCHANGED <<p, fr, vr>>
                      /\ Out(hist' \o <<[op |-> "meq", d |-> 0, s |-> 1]>>)
  \/ /\ Len(hist) = 2 /\ hist[2].op = "mset" /\ \E o \in Binary : MWrite(o) /\ hist' = Append(hist, o) /\ Out(hist')
X0 == mr[0]
Y0 == mr[1]
Sound == \A d \in DOMAIN mr : /\ mr[d].n = Len(mr[d].c)
                              /\ \A j \in 1..mr[d].n : \A i \in DOMAIN mr[d].c[j] : i \in 0..(mr[d].m - 1) /\ mr[d].c[j][i] \in 1..(P - 1)
Laws == (Len(hist) = 2 /\ hist[2].op = "mset") =>
        /\ MT(MT(X0)) = X0 /\ MJ(MJ(X0)) = X0 /\ MSub(P, MAdd(P, X0, Y0), Y0) = X0
        /\ MAdd(P, X0, Y0) = MAdd(P, Y0, X0)
        /\ MMul(P, X0, MIdent(P, N)) = X0 /\ MMul(P, MIdent(P, M), X0) = X0
        /\ MMul(P, MT(X0), Y0) = MT(MMul(P, MT(Y0), X0))
        /\ MRank(P, X0) = MRank(P, MT(X0)) /\ MRank(P, MAdd(P, X0, Y0)) <= MRank(P, X0) + MRank(P, Y0)
        /\ LET K == KernelSeq(P, X0) IN Len(K) = N - MRank(P, X0) /\ RankOf(P, K) = Len(K) /\ \A k \in DOMAIN K : MVec(P, X0, K[k]) = VZero
=============================================================================
