------------------------------- MODULE PolyMC -------------------------------
(* Ring axioms, division with remainder, evaluation and Euclid's algorithm for all polynomials of degree < B over F_P. *)
EXTENDS Poly
CONSTANTS P, B
VARIABLES a, b, r0, r1, s0, s1, t0, t1
vars == <<a, b, r0, r1, s0, s1, t0, t1>>
RECURSIVE PolyUpTo(_)
PolyUpTo(d) == IF d = 0 THEN {<<>>} ELSE PolyUpTo(d - 1) \cup {Append(s, c) : s \in [1..(d - 1) -> 0..(P - 1)], c \in 1..(P - 1)}
All == PolyUpTo(B)
Init == /\ a \in All /\ b \in All /\ r0 = a /\ r1 = b /\ s0 = <<1>> /\ s1 = <<>> /\ t0 = <<>> /\ t1 = <<1>>
Next == /\ r1 # <<>>
        /\ LET q == PDivRem(P, r0, r1)[1] f(x, y) == PSub(P, x, PMul(P, q, y)) IN
           r0' = r1 /\ r1' = f(r0, r1) /\ s0' = s1 /\ s1' = f(s0, s1) /\ t0' = t1 /\ t1' = f(t0, t1) /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Euclid == /\ PAdd(P, PMul(P, s0, a), PMul(P, t0, b)) = r0 /\ PAdd(P, PMul(P, s1, a), PMul(P, t1, b)) = r1
          /\ (r1 # <<>> /\ r0 # a => Len(r1) < Len(r0))
          /\ RGcd("p", P, r0, r1) = RGcd("p", P, a, b)
          /\ r1 = <<>> => /\ RDivides("p", P, r0, a) /\ RDivides("p", P, r0, b)
                          /\ \A c \in All : (RDivides("p", P, c, a) /\ RDivides("p", P, c, b)) => RDivides("p", P, c, r0)
Laws == r0 = a /\ r1 = b =>
        /\ PMul(P, a, b) = PMul(P, b, a) /\ PSub(P, PAdd(P, a, b), b) = a
        /\ (a # <<>> /\ b # <<>> => Len(PMul(P, a, b)) = Len(a) + Len(b) - 1)
        /\ \A x \in 0..(P - 1) : /\ PEval(P, PMul(P, a, b), x) = FMul(P, PEval(P, a, x), PEval(P, b, x))
                                 /\ PEval(P, PAdd(P, a, b), x) = FAdd(P, PEval(P, a, x), PEval(P, b, x))
        /\ b # <<>> => LET d == PDivRem(P, a, b) IN PAdd(P, PMul(P, d[1], b), d[2]) = a /\ Len(d[2]) < Len(b)
        /\ \A c \in PolyUpTo(2) : /\ PMul(P, PMul(P, a, b), c) = PMul(P, a, PMul(P, b, c))
                                  /\ PMul(P, PAdd(P, a, b), c) = PAdd(P, PMul(P, a, c), PMul(P, b, c))
        \* Cayley-Hamilton for the companion matrix: a(C) e_0 = 0, and the powers below the degree are the unit vectors
        /\ (a # <<>> /\ a[Len(a)] = 1 /\ Len(a) > 1) =>
              LET A == Companion(P, a) e == VUnit(P, 0) IN
              /\ PMEval(P, a, A, e) = VZero /\ \A k \in 0..(Len(a) - 2) : PMEval(P, PMono(P, k, 1), A, e) = VUnit(P, k)
              /\ \A d \in 1..(Len(a) - 1) : DetDiv("p", P, CharMat(P, A), d) = IF d = Len(a) - 1 THEN a ELSE <<1>>
Ends == <>(r1 = <<>>)
=============================================================================
