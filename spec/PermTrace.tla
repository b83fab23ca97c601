----------------------------- MODULE PermTrace -----------------------------
(* Recorded calls of the permutation, sorted-list and prefix-tree utilities; tr maps a slot to the tree it holds. *)
EXTENDS Perm, Trace0
VARIABLE tr
TraceInit == TInit /\ tr = <<>>
Put(s, t) == tr' = TLCEval((s :> t) @@ tr)
Lt(S, m) == {x \in S : x < m}
Rd(e) ==
    LET r == e.r IN
    CASE e.op = "sortp" -> LET x == e.x IN
           /\ SortsUp(x, r.sp) /\ SortsUp(x, r.it) /\ SortsUp(x, r.fi) /\ SortsUp(x, r.dbl) /\ SortsDown(x, r.gt) /\ SortsDown(x, r.ix)
           /\ StablySorts(x, r.st) /\ StablySorts(x, r.si) /\ Inv(r.si) = r.rk
           /\ FirstK(x, e.k, r.fk) /\ TopK(x, e.k, r.tk) /\ TopK(x, r.pk, r.tp) /\ r.pk = e.k
           /\ r.inv = Inversions(x) /\ r.sign = Sign(x) /\ r.into = Sorted(x) /\ r.into2 = Sorted(x)
           /\ r.kt = r.inv /\ r.ktd = r.inv /\ r.set = SetSeq(Rng(x))
      [] e.op = "perm" -> LET p == e.p x == e.x q == e.q IN
           /\ r.ap = Ap(x, p) /\ r.apw = r.ap /\ r.apt = r.ap /\ r.scat = Scatter(x, p) /\ r.gath = r.ap
           /\ r.inv = Inv(p) /\ r.sign = Sign(p) /\ r.kt = KTau(p, Idn(Len(p))) /\ r.kt2 = KTau(p, q) /\ r.ktl = <<r.kt, KTau(q, Idn(Len(q))), 0>>
           /\ r.id = Idn(Len(p)) /\ r.simp = Sign(p) /\ r.back = x
      [] e.op = "ind" -> LET s == e.ind p == e.p n == Len(p) o == TLCEval(SortSeq(s, LAMBDA a, b : p[a + 1] < p[b + 1])) IN
           /\ r.pp = TLCEval([k \in 1..n |-> IF k - 1 \in Rng(s) THEN (CHOOSE i \in DOMAIN s : s[i] = k - 1) - 1 ELSE 1000000001])
           /\ r.so = o /\ Ap(s, r.ps) = o /\ IsPerm(r.ps) /\ r.p1 = o /\ r.p2 = Ap(e.y, r.ps)
           /\ r.end = TLCEval(SetSeq((0..(n - 1)) \ Rng(s))) \o Sorted(s)
           /\ r.cmp = SetSeq((0..(n - 1)) \ Rng(s))
           /\ r.ends = [i \in 1..n |-> SetSeq((0..(n - 1)) \ {i - 1}) \o <<i - 1>>]
      [] e.op = "ext" -> r = e.p \o TLCEval([i \in 1..(e.n - Len(e.p)) |-> Len(e.p) + i - 1])
      [] e.op = "isect" -> LET X == Rng(e.a) Y == Rng(e.b) i == SetSeq(X \cap Y) l == SetSeq(Lt(X \cap Y, e.m)) IN
           /\ r.v = i /\ r.s = i /\ r.vs = i /\ r.has = (i # <<>>) /\ r.lt = l /\ r.hlt = (l # <<>>)
           /\ r.un = SetSeq(X \cup Y) /\ r.in = i
      [] e.op = "lt" -> LET L == {k \in DOMAIN e.x : e.x[k] < e.v} IN
           /\ r.i = (IF L = {} THEN 1000000001 ELSE Max(L) - 1)
           /\ r.nz = (IF L = {} THEN <<>> ELSE <<e.x[Max(L)], Max(L)>>)
      [] e.op = "ssr" -> LET o == e.off s == TLCEval(SumReduce(SubSeq(e.i, o + 1, Len(e.i)), SubSeq(e.v, o + 1, Len(e.v)))) IN
           r.i = SubSeq(e.i, 1, o) \o s[1] /\ r.v = SubSeq(e.v, 1, o) \o s[2]
      [] e.op = "simp" -> LET deg == Cardinality(Rng(e.s)) < Len(e.s) IN
           r.sign = (IF deg THEN 0 ELSE Sign(e.s)) /\ r.s = Sorted(e.s) /\ r.deg = deg
      [] e.op = "rnd" -> IsPerm(r.p) /\ Len(r.p) = e.n /\ Len(r.s) = e.k /\ Incr(r.s) /\ Rng(r.s) \subseteq 0..(e.n - 1)
      [] e.op = "tget" -> LET t == tr[e.t] IN
           /\ r.g = TGet(t, e.k, e.d) /\ r.gv = r.g /\ r.c = r.g /\ r.cv = r.g /\ r.n = TCount(t, e.k)
           /\ r.x = (IF TCount(t, e.k) = 1 THEN <<TGet(t, e.k, 0), TGet(t, e.k, 0)>> ELSE <<>>)
      [] OTHER -> FALSE
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op = "tnew" -> Put(e.t, (<<>> :> e.v))
         [] e.op = "tins" -> Put(e.t, TInsert(tr[e.t], e.k, e.v))
         [] e.op = "tset" -> Put(e.t, TInsert(tr[e.t], e.k, e.v))
         [] e.op = "tcopy" -> Put(e.t, tr[e.u])
         [] e.op = "tmove" -> tr' = TLCEval((e.t :> tr[e.u]) @@ (e.u :> Root) @@ tr)
         [] OTHER -> Rd(e) /\ UNCHANGED tr
    /\ Consume
=============================================================================
