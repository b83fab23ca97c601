-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* The principal ideal domains of the library: Z (ring k = "z") and F[x]   *)
(* (k = "p", F given by p as in LinAlg).  A polynomial is the sequence of  *)
(* its coefficients, lowest degree first, the last one non-zero.           *)
(***************************************************************************)
EXTENDS LinAlg
RECURSIVE PNorm(_, _)
PNorm(p, s) == IF s = <<>> \/ s[Len(s)] # FZero(p) THEN s ELSE PNorm(p, SubSeq(s, 1, Len(s) - 1))
PCo(p, a, i) == IF i \in DOMAIN a THEN a[i] ELSE FZero(p)
PIs(p, a) == (\A i \in DOMAIN a : FIsElem(p, a[i])) /\ (IF a = <<>> THEN TRUE ELSE a[Len(a)] # FZero(p))
PMax(x, y) == IF x > y THEN x ELSE y
PAdd(p, a, b) == PNorm(p, TLCEval([i \in 1..PMax(Len(a), Len(b)) |-> FAdd(p, PCo(p, a, i), PCo(p, b, i))]))
PNeg(p, a) == TLCEval([i \in DOMAIN a |-> FNeg(p, a[i])])
PSub(p, a, b) == PAdd(p, a, PNeg(p, b))
PScale(p, c, a) == IF c = FZero(p) THEN <<>> ELSE TLCEval([i \in DOMAIN a |-> FMul(p, c, a[i])])
PMul(p, a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
                 ELSE TLCEval([n \in 1..(Len(a) + Len(b) - 1) |->
                        FoldSet(LAMBDA i, acc : FAdd(p, acc, FMul(p, a[i], b[n + 1 - i])), FZero(p), {i \in DOMAIN a : n + 1 - i \in DOMAIN b})])
PMono(p, d, c) == IF c = FZero(p) THEN <<>> ELSE TLCEval([i \in 1..(d + 1) |-> IF i = d + 1 THEN c ELSE FZero(p)])
RECURSIVE PDivRem0(_, _, _, _)
PDivRem0(p, q, r, b) == IF Len(r) < Len(b) THEN <<q, r>>
    ELSE LET m == PMono(p, Len(r) - Len(b), FDiv(p, r[Len(r)], b[Len(b)]))
         IN  PDivRem0(p, PAdd(p, q, m), PSub(p, r, PMul(p, m, b)), b)
PDivRem(p, a, b) == PDivRem0(p, <<>>, a, b)                                  \* b # 0
PMonic(p, a) == IF a = <<>> THEN a ELSE PScale(p, FInv(p, a[Len(a)]), a)
PEval(p, a, x) == FoldLeft(LAMBDA acc, i : FAdd(p, FMul(p, acc, x), a[Len(a) + 1 - i]), FZero(p), [i \in DOMAIN a |-> i])     \* Horner
RECURSIVE PMEval(_, _, _, _)
PMEval(p, a, A, v) == IF a = <<>> THEN VZero ELSE VAxpy(p, a[1], v, MVec(p, A, PMEval(p, Tail(a), A, v)))                    \* a(A) v
\* the companion matrix of a monic polynomial: multiplication by x on F[x]/(a)
Companion(p, a) == LET n == Len(a) - 1 IN
    Mat(n, n, TLCEval([j \in 1..n |-> IF j < n THEN VUnit(p, j) ELSE VMk(p, 0..(n - 1), LAMBDA i : FNeg(p, a[i + 1]))]))

\* ------------------------------------------------------- either of the rings
Zr(k) == IF k = "z" THEN 0 ELSE <<>>
On(k, p) == IF k = "z" THEN 1 ELSE <<FOne(p)>>
RAdd(k, p, a, b) == IF k = "z" THEN a + b ELSE PAdd(p, a, b)
RNeg(k, p, a) == IF k = "z" THEN -a ELSE PNeg(p, a)
RMul(k, p, a, b) == IF k = "z" THEN a * b ELSE PMul(p, a, b)
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q              \* truncating, as in the language of the library
RQuo(k, p, a, b) == IF k = "z" THEN TDiv(a, b) ELSE PDivRem(p, a, b)[1]
RDivides(k, p, a, b) == IF a = Zr(k) THEN b = Zr(k) ELSE IF k = "z" THEN b % Abs(a) = 0 ELSE PDivRem(p, b, a)[2] = <<>>
RNormal(k, p, a) == IF k = "z" THEN Abs(a) ELSE PMonic(p, a)                                  \* the representative up to units
RUnit(k, p, a) == IF k = "z" THEN Abs(a) = 1 ELSE Len(a) = 1
RECURSIVE RGcd0(_, _, _, _)
RGcd0(k, p, a, b) == IF b = Zr(k) THEN a ELSE RGcd0(k, p, b, RAdd(k, p, a, RNeg(k, p, RMul(k, p, RQuo(k, p, a, b), b))))
RGcd(k, p, a, b) == RNormal(k, p, RGcd0(k, p, a, b))
\* x a + y b = g, a greatest common divisor; w = a / g, z = b / g
Bezout(k, p, a, b, t) == /\ RNormal(k, p, t[3]) = RGcd(k, p, a, b)
                         /\ RAdd(k, p, RMul(k, p, t[1], a), RMul(k, p, t[2], b)) = t[3]
                         /\ RMul(k, p, t[4], t[3]) = a /\ RMul(k, p, t[5], t[3]) = b

\* ------------------------------------------------- matrices: [m, n, e], e dense
RMat(m, n, F(_, _)) == [m |-> m, n |-> n, e |-> TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> F(i, j)])])]
RMatOf(k, r) == RMat(r[1], r[2], LAMBDA i, j : IF \E t \in DOMAIN r[3][j] : r[3][j][t][1] = i - 1
                                             THEN r[3][j][CHOOSE t \in DOMAIN r[3][j] : r[3][j][t][1] = i - 1][2] ELSE Zr(k))
RMatCanon(k, p, r) == /\ Len(r[3]) = r[2]
                      /\ \A j \in DOMAIN r[3] : LET c == r[3][j] IN
                            /\ \A t \in DOMAIN c : c[t][1] \in 0..(r[1] - 1) /\ c[t][2] # Zr(k) /\ (IF k = "z" THEN TRUE ELSE PIs(p, c[t][2]))
                            /\ \A t \in 1..(Len(c) - 1) : c[t][1] < c[t + 1][1]
RId(k, p, n) == RMat(n, n, LAMBDA i, j : IF i = j THEN On(k, p) ELSE Zr(k))
RMM(k, p, A, B) == RMat(A.m, B.n, LAMBDA i, j : FoldSet(LAMBDA t, acc : RAdd(k, p, acc, RMul(k, p, A.e[i][t], B.e[t][j])), Zr(k), 1..A.n))
\* determinant of the submatrix on the row list rs and the set of columns C
RECURSIVE RMinor(_, _, _, _, _)
RMinor(k, p, A, rs, C) == IF rs = <<>> THEN On(k, p)
    ELSE FoldSet(LAMBDA j, acc : IF A.e[rs[1]][j] = Zr(k) THEN acc
                 ELSE LET t == RMul(k, p, A.e[rs[1]][j], RMinor(k, p, A, Tail(rs), C \ {j}))
                      IN  RAdd(k, p, acc, IF Cardinality({x \in C : x < j}) % 2 = 0 THEN t ELSE RNeg(k, p, t)), Zr(k), C)
RDet(k, p, A) == RMinor(k, p, A, [i \in 1..A.m |-> i], 1..A.n)
RAdj(k, p, A) == RMat(A.m, A.m, LAMBDA i, j :
                   LET t == RMinor(k, p, A, SelectSeq([x \in 1..A.m |-> x], LAMBDA x : x # j), (1..A.m) \ {i})
                   IN  IF (i + j) % 2 = 0 THEN t ELSE RNeg(k, p, t))
RUnimod(k, p, A) == A.m = A.n /\ RUnit(k, p, RDet(k, p, A))
\* the d-th determinantal divisor: the gcd of all d x d minors
DetDiv(k, p, A, d) == FoldSet(LAMBDA rc, acc : RGcd(k, p, acc, RMinor(k, p, A, SetToSortSeq(rc[1], <), rc[2])), Zr(k),
                              kSubset(d, 1..A.m) \X kSubset(d, 1..A.n))
MinN(a, b) == IF a < b THEN a ELSE b
RDiagonal(k, S) == \A i \in 1..S.m, j \in 1..S.n : i # j => S.e[i][j] = Zr(k)
\* diagonal, each entry divides the next (so zeros come last), monic over F[x]
SmithShape(k, p, S) == /\ RDiagonal(k, S)
                       /\ \A i \in 1..(MinN(S.m, S.n) - 1) : RDivides(k, p, S.e[i][i], S.e[i + 1][i + 1])
                       /\ k = "p" => \A i \in 1..MinN(S.m, S.n) : S.e[i][i] = PMonic(p, S.e[i][i])
\* the Smith normal form of A, characterised by the determinantal divisors
SmithOf(k, p, A, S) == /\ S.m = A.m /\ S.n = A.n /\ SmithShape(k, p, S)
                       /\ \A d \in 1..MinN(A.m, A.n) : RNormal(k, p, FoldLeft(LAMBDA acc, i : RMul(k, p, acc, S.e[i][i]), On(k, p), [i \in 1..d |-> i])) = DetDiv(k, p, A, d)
Factors(k, p, A, R, S, C) == RUnimod(k, p, R) /\ RUnimod(k, p, C) /\ R.n = A.m /\ C.m = A.n /\ RMM(k, p, RMM(k, p, R, S), C) = A
\* A = R S C for some unimodular C, told from R and the Smith form S alone
RowsFactor(k, p, A, R, S) == /\ RUnimod(k, p, R) /\ R.n = A.m
                             /\ LET B == RMM(k, p, RAdj(k, p, R), A) IN
                                \A i \in 1..A.m, j \in 1..A.n : RDivides(k, p, IF i <= S.n THEN S.e[i][i] ELSE Zr(k), B.e[i][j])
\* ------------------------------------------------- rational canonical form
CharMat(p, A) == RMat(A.n, A.n, LAMBDA i, j : PSub(p, IF i = j THEN PMono(p, 1, FOne(p)) ELSE <<>>, PMono(p, 0, MGet(p, A, i - 1, j - 1))))
\* the block diagonal matrix of the companion matrices of the listed polynomials
RECURSIVE BlockComp(_, _)
BlockComp(p, s) == IF s = <<>> THEN Mat(0, 0, <<>>)
    ELSE LET X == TLCEval(BlockComp(p, SubSeq(s, 1, Len(s) - 1))) Y == TLCEval(Companion(p, s[Len(s)]))
         IN  Mat(X.m + Y.m, X.n + Y.n, X.c \o TLCEval([j \in 1..Y.n |-> VMap(Y.c[j], LAMBDA i : i + X.m)]))
InvFactors(S) == SelectSeq([i \in 1..S.m |-> S.e[i][i]], LAMBDA a : Len(a) # 1)
IsRCF(p, A, S, W) == LET F == TLCEval(BlockComp(p, InvFactors(S))) IN
                     /\ W.m = A.m /\ W.n = A.n /\ F.n = A.n
                     /\ BDim(BasisOf(p, W.c)) = A.n
                     /\ MMul(p, A, W) = MMul(p, W, F)
=============================================================================
