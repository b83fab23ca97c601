----------------------------- MODULE StridedMC ------------------------------
(***************************************************************************)
(* KIND = "order": every order, shape up to MM x NN and sequence of up to    *)
(* three changes of view: the view reads the transformed matrix, rows and    *)
(* columns are evenly spaced in memory, and every offset is used once.       *)
(* KIND = "fact": elimination into L E U P with every choice of the pivot    *)
(* column, for every matrix; the product and the shapes are kept throughout. *)
(* KIND = "swap": every echelon and triangular factor: an exchanged factor   *)
(* exists, and its entries between pivots are decided.                       *)
(***************************************************************************)
EXTENDS Strided
CONSTANTS P, MM, NN, KIND
VARIABLES st
vars == st
Cols == {VMk(P, 0..(MM - 1), LAMBDA i : f[i]) : f \in [0..(MM - 1) -> 0..(P - 1)]}
InitOrder == \E m \in 1..MM, n \in 1..NN, l \in Orders : st = [g |-> [b |-> 1, m |-> m, n |-> n, l |-> l], W |-> Read(0, TLCEval([k \in 1..(m * n) |-> <<k, 1>>]), [b |-> 1, m |-> m, n |-> n, l |-> l]), k |-> 0]
NextOrder == \E k \in {"T", "J", "TJ"} : st.k < 3 /\ st' = [g |-> Seen(k, st.g), W |-> SeenM(0, k, st.W), k |-> st.k + 1]
InvOrder == LET g == st.g m == g.m n == g.n O(i, j) == Off(g.l, m, n, i, j) IN
            /\ Read(0, TLCEval([k \in 1..(m * n) |-> <<k, 1>>]), g) = st.W
            /\ {O(c[1], c[2]) : c \in (0..(m - 1)) \X (0..(n - 1))} = 0..((m * n) - 1)
            /\ \A i \in 0..(m - 1), j \in 0..(n - 1) : At(g.l, m, n, O(i, j)) = <<i, j>>
            /\ \A i \in 0..(m - 2), j, q \in 0..(n - 1) : O(i + 1, j) - O(i, j) = O(1, q) - O(0, q)
            /\ \A i, q \in 0..(m - 1), j \in 0..(n - 2) : O(i, j + 1) - O(i, j) = O(q, 1) - O(q, 0)
InitFact == \E f \in [1..NN -> Cols] : st = [W0 |-> Mat(MM, NN, f), W |-> Mat(MM, NN, f), L |-> MIdent(P, MM), Q |-> MIdent(P, NN), r |-> 0, c |-> 0, pv |-> <<>>]
Get(W, i, j) == MGet(P, W, i, j)
RowsLeft == {i \in st.r..(MM - 1) : \E j \in st.c..(NN - 1) : Get(st.W, i, j) # 0}
NextFact == /\ RowsLeft # {} /\ st.c < NN
            /\ LET i == Min(RowsLeft) IN
               \E q \in {j \in st.c..(NN - 1) : Get(st.W, i, j) # 0} :
                  LET V == SwapCols(P, st.W, st.c, q)
                      co(k) == FDiv(P, Get(V, k, st.c), Get(V, i, st.c))
                      Z == FoldLeft(LAMBDA X, k : IF k > i THEN AddRow(P, X, FNeg(P, co(k)), i, k) ELSE X, V, [k \in 1..MM |-> k - 1])
                      N == FoldLeft(LAMBDA X, k : IF k > i THEN AddCol(P, X, co(k), k, i) ELSE X, st.L, [k \in 1..MM |-> k - 1])
                  IN  st' = [st EXCEPT !.W = Z, !.L = N, !.Q = SwapRows(P, st.Q, st.c, q), !.r = i + 1, !.c = st.c + 1, !.pv = Append(st.pv, <<i, st.c>>)]
EOf == Mat(MM, NN, TLCEval([j \in 1..NN |-> IF j <= Len(st.pv) THEN VUnit(P, st.pv[j][1]) ELSE VZero]))
UOf == MT(Mat(NN, NN, TLCEval([j \in 1..NN |-> IF j <= Len(st.pv) THEN MT(st.W).c[st.pv[j][1] + 1] ELSE VUnit(P, j - 1)])))
InvFact == /\ MMul(P, st.L, MMul(P, st.W, st.Q)) = st.W0
           /\ MLowerInv(st.L) /\ UnitDiag(P, st.L) /\ MPerm(P, st.Q) /\ MEL(EOf)
           /\ (RowsLeft = {} \/ st.c = NN) => /\ IsFact(P, "LEUP", st.W0, st.L, EOf, UOf, st.Q)
                                             /\ IsFact(P, "PLEU", MT(st.W0), MT(st.Q), MT(UOf), MT(EOf), MT(st.L))
                                             /\ IsFact(P, "UELP", MJ(st.W0), MJ(st.L), MJ(EOf), MJ(UOf), MJ(st.Q))
                                             /\ IsFact(P, "PUEL", MT(MJ(st.W0)), MT(MJ(st.Q)), MT(MJ(UOf)), MT(MJ(EOf)), MT(MJ(st.L)))
\* echelon factors E (MM x NN) with unit pivots, and unit lower triangular X of order NN
Ech == {E \in {Mat(MM, NN, f) : f \in [1..NN -> {VZero} \cup {VUnit(P, i) : i \in 0..(MM - 1)}]} : MEL(E)}
Tri(n) == {X \in {Mat(n, n, TLCEval([j \in 1..n |-> VMk(P, 0..(n - 1), LAMBDA i : IF i = j - 1 THEN 1 ELSE IF i > j - 1 THEN f[<<i, j - 1>>] ELSE 0)])) : f \in [{c \in (0..(n - 1)) \X (0..(n - 1)) : c[1] > c[2]} -> 0..(P - 1)]} : TRUE}
InitSwap == \E E \in Ech, X \in Tri(NN) : st = [E |-> E, X |-> X]
Moved == LET E == st.E X == st.X Rk == {j \in 1..NN : DOMAIN E.c[j] # {}} rw(j) == Max(DOMAIN E.c[j])
             R(i, q) == IF \E a \in Rk : rw(a) = q THEN (LET a == CHOOSE a \in Rk : rw(a) = q IN IF \E b \in Rk : rw(b) = i THEN (LET b == CHOOSE b \in Rk : rw(b) = i IN MGet(P, X, b - 1, a - 1)) ELSE 0)
                        ELSE IF i = q THEN 1 ELSE 0
         IN  Mat(MM, MM, TLCEval([q \in 1..MM |-> VMk(P, 0..(MM - 1), LAMBDA i : R(i, q - 1))]))
InvSwap == /\ SwapIn("el_l", st.E, st.X) /\ IsSwapped(P, "el_l", st.E, st.X, Moved)
           /\ IsSwapped(P, "l_elh", MT(MJ(st.E)), MT(MJ(st.X)), MT(MJ(Moved))) /\ SwapIn("l_elh", MT(MJ(st.E)), MT(MJ(st.X)))
           /\ IsSwapped(P, "euh_u", MJ(st.E), MJ(st.X), MJ(Moved)) /\ SwapIn("euh_u", MJ(st.E), MJ(st.X))
           /\ IsSwapped(P, "u_eu", MT(st.E), MT(st.X), MT(Moved)) /\ SwapIn("u_eu", MT(st.E), MT(st.X))
           /\ \A R \in Tri(MM) : MMul(P, R, st.E) = MMul(P, st.E, st.X) => \A j \in 1..NN : \A i \in DOMAIN st.E.c[j] : R.c[i + 1] = Moved.c[i + 1]
Init == CASE KIND = "order" -> InitOrder [] KIND = "fact" -> InitFact [] KIND = "swap" -> InitSwap
Next == CASE KIND = "order" -> NextOrder [] KIND = "fact" -> NextFact [] KIND = "swap" -> UNCHANGED st
Inv == CASE KIND = "order" -> InvOrder [] KIND = "fact" -> InvFact [] KIND = "swap" -> InvSwap
=============================================================================
