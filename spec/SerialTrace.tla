----------------------------- MODULE SerialTrace -----------------------------
(* Recorded histories of saving and loading: fs maps a file to the object last saved in it. *)
EXTENDS Serial, Trace0
VARIABLE fs
p == Hdr.p
TraceInit == TInit /\ fs = VZero
Put(f, v) == fs' = TLCEval((f :> v) @@ fs)
ArgM(x) == Mat(x[1], x[2], TLCEval([j \in 1..Len(x[3]) |-> VOfK(x[3][j])]))
SameM(x, r) == MCanon(p, r) /\ MOf(r) = ArgM(x)
\* integer matrices of a map
IntM(x) == Mat(x[1], x[2], TLCEval([j \in 1..Len(x[3]) |-> VOfK(x[3][j])]))
SameI(x, r) == /\ Len(r[3]) = r[2] /\ IntM(r) = IntM(x) /\ \A j \in 1..Len(r[3]) : Len(r[3][j]) = Len(x[3][j])
SameMap(xs, rs) == Len(xs) = Len(rs) /\ \A k \in 1..Len(xs) : SameI(xs[k], rs[k])
NArg(s, key) == {i \in DOMAIN s : s[i][1] = key}
Rd(e) ==
    LET r == e.r v == IF "f" \in DOMAIN e /\ e.f \in DOMAIN fs THEN fs[e.f] ELSE <<>> IN
    CASE e.op = "lmat" -> SameM(v, r)
      [] e.op = "stream" -> Len(r) = Len(e.l) /\ \A k \in DOMAIN r : SameM(e.l[k], r[k])
      [] e.op = "mstr" -> SameM(e.a, r)
      [] e.op = "vec" -> VCanon(p, r.a) /\ VCanon(p, r.b) /\ VOfK(r.a) = VOfK(e.v) /\ VOfK(r.b) = VOfK(e.v)
      [] e.op = "lsimp" -> r.cells = Trim(v)
      [] e.op = "lmap" -> SameMap(v, r)
      [] e.op = "ldiag" -> /\ r.meta = <<<<Len(v.n)>>, <<Len(v.e)>>>> \o TLCEval([i \in 1..Len(v.e) |-> <<v.e[i][1], v.e[i][2]>>])
                           /\ Len(r.n) = Len(v.n) /\ Len(r.e) = Len(v.e)
                           /\ \A i \in 1..Len(v.n) : IF e.kind = "simp" THEN r.n[i] = Trim(v.n[i]) ELSE SameM(v.n[i], r.n[i])
                           /\ \A i \in 1..Len(v.e) : IF e.kind = "simp" THEN SameMap(v.e[i][3], r.e[i]) ELSE SameM(v.e[i][3], r.e[i])
      [] e.op = "pts" -> r.n = e.n /\ r.d = (IF e.n = 0 THEN 0 ELSE e.d) /\ r.q = r.r
                         /\ r.r = TLCEval([i \in 1..e.n |-> TLCEval([j \in 1..e.d |-> e.x[(i - 1) * e.d + j]])])
      [] e.op = "cubes" -> r = TLCEval([k \in 1..(e.n + 1) |-> SelectSeq(e.c, LAMBDA c : Cardinality({i \in 1..e.n : c[2 * i - 1] # c[2 * i]}) = k - 1)])
      [] e.op = "argv" -> LET S == NArg(e.kv, e.key) IN
                          IF S = {} THEN r = [i |-> e.def, d |-> e.def, s |-> "none"]
                          ELSE LET k == Min(S) IN r.i = e.kv[k][2] /\ r.d = 4 * e.kv[k][2] /\ r.s = e.kv[k][3]
      [] OTHER -> FALSE
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op = "smat" -> Put(e.f, e.a)
         [] e.op = "ssimp" -> Put(e.f, e.c)
         [] e.op = "smap" -> Put(e.f, e.l)
         [] e.op = "sdiag" -> Put(e.f, [n |-> e.ns, e |-> e.es])
         [] OTHER -> Rd(e) /\ UNCHANGED fs
    /\ Consume
=============================================================================
