------------------------------ MODULE Strided -------------------------------
(***************************************************************************)
(* Matrices laid over a flat piece of memory in one of four orders, the     *)
(* transposed and reversed matrices that share it, the factorizations of a  *)
(* matrix into permutation, triangular and echelon parts, and exchanging a  *)
(* triangular with an echelon factor.                                       *)
(***************************************************************************)
EXTENDS Dense
Orders == {"row", "col", "rrow", "rcol"}
Reverted(l) == l \in {"rrow", "rcol"}
ByRow(l) == l \in {"row", "rrow"}
Off(l, m, n, i, j) == LET k == IF ByRow(l) THEN (i * n) + j ELSE (j * m) + i IN IF Reverted(l) THEN (m * n) - 1 - k ELSE k
\* the entry that lies at offset k
At(l, m, n, k) == LET q == IF Reverted(l) THEN (m * n) - 1 - k ELSE k IN IF ByRow(l) THEN <<q \div n, q % n>> ELSE <<q % m, q \div m>>
\* the same memory seen transposed (T), turned by half a turn (J), or both (TJ)
SeenL(k, l) == CASE k = "T" -> (CASE l = "row" -> "col" [] l = "col" -> "row" [] l = "rrow" -> "rcol" [] l = "rcol" -> "rrow")
                 [] k = "J" -> (CASE l = "row" -> "rrow" [] l = "col" -> "rcol" [] l = "rrow" -> "row" [] l = "rcol" -> "col")
                 [] k = "TJ" -> (CASE l = "row" -> "rcol" [] l = "col" -> "rrow" [] l = "rrow" -> "col" [] l = "rcol" -> "row")
SeenM(p, k, W) == CASE k = "T" -> MT(W) [] k = "J" -> MJ(W) [] k = "TJ" -> MT(MJ(W))
Seen(k, g) == [g EXCEPT !.m = IF k = "J" THEN g.m ELSE g.n, !.n = IF k = "J" THEN g.n ELSE g.m, !.l = SeenL(k, g.l)]
Read(p, s, g) == Mat(g.m, g.n, TLCEval([j \in 1..g.n |-> VMk(p, 0..(g.m - 1), LAMBDA i : s[Off(g.l, g.m, g.n, i, j - 1) + 1])]))
Flat(p, W, l) == TLCEval([k \in 1..(W.m * W.n) |-> LET e == At(l, W.m, W.n, k - 1) IN MGet(p, W, e[1], e[2])])
\* ------------------------------------------------------- factorizations
UnitDiag(p, W) == \A j \in 1..W.n : VGet(p, W.c[j], j - 1) = FOne(p)
Ones(p, W) == \A j \in 1..W.n : \A i \in DOMAIN W.c[j] : W.c[j][i] = FOne(p)
Ranked(p, W, E) == E.m = W.m /\ E.n = W.n /\ Ones(p, E) /\ MNnz(E) = MRank(p, W)
Sq(W, n) == W.m = n /\ W.n = n
IsLEUP(p, W, a, b, c, d) == Sq(a, W.m) /\ MLowerInv(a) /\ UnitDiag(p, a) /\ Ranked(p, W, b) /\ MEL(b) /\ Sq(c, W.n) /\ MUpperInv(c) /\ Sq(d, W.n) /\ MPerm(p, d)
IsPLEU(p, W, a, b, c, d) == Sq(a, W.m) /\ MPerm(p, a) /\ Sq(b, W.m) /\ MLowerInv(b) /\ Ranked(p, W, c) /\ MEU(c) /\ Sq(d, W.n) /\ MUpperInv(d) /\ UnitDiag(p, d)
IsUELP(p, W, a, b, c, d) == Sq(a, W.m) /\ MUpperInv(a) /\ UnitDiag(p, a) /\ Ranked(p, W, b) /\ MEUhat(b) /\ Sq(c, W.n) /\ MLowerInv(c) /\ Sq(d, W.n) /\ MPerm(p, d)
IsPUEL(p, W, a, b, c, d) == Sq(a, W.m) /\ MPerm(p, a) /\ Sq(b, W.m) /\ MUpperInv(b) /\ Ranked(p, W, c) /\ MELhat(c) /\ Sq(d, W.n) /\ MLowerInv(d) /\ UnitDiag(p, d)
IsFact(p, k, W, a, b, c, d) ==
    /\ CASE k = "LEUP" -> IsLEUP(p, W, a, b, c, d) [] k = "PLEU" -> IsPLEU(p, W, a, b, c, d)
         [] k = "UELP" -> IsUELP(p, W, a, b, c, d) [] k = "PUEL" -> IsPUEL(p, W, a, b, c, d)
    /\ MMul(p, a, MMul(p, b, MMul(p, c, d))) = W
\* the triangular factor R on the other side of the echelon factor E
IsSwapped(p, k, E, X, R) ==
    CASE k = "el_l" -> MLowerInv(R) /\ MMul(p, R, E) = MMul(p, E, X)
      [] k = "l_elh" -> MLowerInv(R) /\ MMul(p, E, R) = MMul(p, X, E)
      [] k = "euh_u" -> MUpperInv(R) /\ MMul(p, R, E) = MMul(p, E, X)
      [] k = "u_eu" -> MUpperInv(R) /\ MMul(p, E, R) = MMul(p, X, E)
SwapIn(k, E, X) ==
    CASE k = "el_l" -> MEL(E) /\ MLowerInv(X) /\ X.m = E.n
      [] k = "l_elh" -> MELhat(E) /\ MLowerInv(X) /\ X.m = E.m
      [] k = "euh_u" -> MEUhat(E) /\ MUpperInv(X) /\ X.m = E.n
      [] k = "u_eu" -> MEU(E) /\ MUpperInv(X) /\ X.m = E.m
=============================================================================
