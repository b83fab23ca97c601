----------------------------- MODULE PolyTrace ------------------------------
(* Recorded calls on polynomials, Smith forms and rational canonical forms. *)
EXTENDS Poly, Trace0
TraceInit == TInit
Pf == Hdr.p
Err == [err |-> "runtime_error"]
Kind(e) == IF e.op = "zsmith" THEN "z" ELSE "p"
Fail(e) ==
    IF e.op = "comp" THEN e.a = <<>> \/ e.a[Len(e.a)] # FOne(Pf)
    ELSE IF e.op \in {"charm"} THEN e.A[1] # e.A[2] ELSE FALSE
SmithOk(e, r) ==
    LET k == Kind(e) p == Pf A == TLCEval(RMatOf(k, e.A)) S == TLCEval(RMatOf(k, r.S)) IN
    /\ RMatCanon(k, p, r.S)
    /\ IF e.how = "fact" THEN LET R == TLCEval(RMatOf(k, r.R)) C == TLCEval(RMatOf(k, r.C)) IN
            /\ RMatCanon(k, p, r.R) /\ RMatCanon(k, p, r.C)
            /\ S.m = A.m /\ S.n = A.n /\ SmithShape(k, p, S) /\ Factors(k, p, A, R, S, C)
            /\ RMatOf(k, r.prod) = A
       ELSE /\ SmithOf(k, p, A, S)
            /\ e.how = "rows" => RMatCanon(k, p, r.R) /\ RowsFactor(k, p, A, RMatOf(k, r.R), S)
Rd(e) ==
    LET r == e.r p == Pf IN
    CASE e.op = "new" -> r = (CASE e.how = "mono" -> PMono(p, e.d, e.c[1]) [] e.how = "const" -> PNorm(p, <<e.c[1]>>)
                              [] e.how = "one" -> <<FOne(p)>> [] e.how = "zero" -> <<>> [] OTHER -> PNorm(p, e.c))
      [] e.op = "arith" -> LET a == PNorm(p, e.a) b == PNorm(p, e.b) IN
            /\ r.add = PAdd(p, a, b) /\ r.ia = r.add /\ r.sub = PSub(p, a, b) /\ r.is = r.sub /\ r.mul = PMul(p, a, b) /\ r.neg = PNeg(p, a)
            /\ r.dbl = PAdd(p, a, a) /\ r.nil = <<>> /\ r.eq = (a = b) /\ r.ne = (a # b) /\ r.z = (a = <<>>) /\ r.e0 = (a = <<>>) /\ r.n0 = (a # <<>>)
            /\ r.e1 = (a = <<FOne(p)>>) /\ r.n1 = (a # <<FOne(p)>>) /\ r.size = Len(a)
      [] e.op = "div" -> LET d == PDivRem(p, PNorm(p, e.a), PNorm(p, e.b)) IN r.q = d[1] /\ r.r = d[2] /\ r.q2 = d[1] /\ r.r2 = d[2]
      [] e.op = "gcd" -> PMonic(p, r) = RGcd("p", p, PNorm(p, e.a), PNorm(p, e.b)) /\ PIs(p, r)
      [] e.op = "bez" -> Bezout("p", p, PNorm(p, e.a), PNorm(p, e.b), r)
      [] e.op = "zbez" -> Bezout("z", 0, e.a, e.b, r)
      [] e.op = "eval" -> r = TLCEval([i \in DOMAIN e.v |-> PEval(p, PNorm(p, e.a), e.v[i])])
      [] e.op = "meval" -> VCanon(p, r) /\ VOf(r) = PMEval(p, PNorm(p, e.a), MOf(e.A), VOf(e.v))
      [] e.op = "comp" -> MCanon(p, r) /\ MOf(r) = Companion(p, e.a)
      [] e.op = "charm" -> RMatCanon("p", p, r) /\ RMatOf("p", r) = CharMat(p, MOf(e.A))
      [] e.op \in {"psmith", "zsmith"} -> SmithOk(e, r)
      [] e.op = "rcf" -> LET A == TLCEval(MOf(e.A)) S == TLCEval(RMatOf("p", r.S)) B == MOf(r.B) IN
            /\ SmithOf("p", p, CharMat(p, A), S)
            /\ MCanon(p, r.B) /\ \A j \in 1..A.n : /\ Len(S.e[j][j]) = 1 => DOMAIN B.c[j] = {}
                                                   /\ DOMAIN PMEval(p, S.e[j][j], A, B.c[j]) = {}
            /\ MCanon(p, r.W) /\ IsRCF(p, A, S, MOf(r.W))
      [] OTHER -> FALSE
TraceNext ==
    /\ More
    /\ LET e == Ev IN IF Fail(e) THEN e.r = Err ELSE Rd(e)
    /\ Consume
=============================================================================
