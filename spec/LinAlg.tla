------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Exact linear algebra over a field, used by every state machine of this  *)
(* specification as its independent oracle.                                *)
(*                                                                         *)
(* The field is given by p: a prime p means F_p with elements 0..p-1,      *)
(* p = 0 means the rationals with elements <<n, d>>, d > 0, gcd(n,d) = 1.  *)
(* A vector is a function from its support (a finite set of indices) to    *)
(* non-zero field elements.  A matrix is [m, n, c] with c a sequence of n  *)
(* column vectors indexed 0 .. m-1.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* ------------------------------------------------------------------ field
RatN(n, d) == LET g == Gcd(Abs(n), Abs(d))
                  s == IF d < 0 THEN -1 ELSE 1
              IN  <<s * (n \div g), s * (d \div g)>>
FZero(p) == IF p = 0 THEN <<0, 1>> ELSE 0
FOne(p)  == IF p = 0 THEN <<1, 1>> ELSE 1
FInt(p, k) == IF p = 0 THEN <<k, 1>> ELSE k % p
FAdd(p, a, b) == IF p = 0 THEN IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] + b[1], 1>>
                               ELSE RatN(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
                 ELSE (a + b) % p
FNeg(p, a) == IF p = 0 THEN <<-a[1], a[2]>> ELSE (p - a) % p
FSub(p, a, b) == FAdd(p, a, FNeg(p, b))
FMul(p, a, b) == IF p = 0 THEN IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
                               ELSE RatN(a[1] * b[1], a[2] * b[2])
                 ELSE (a * b) % p
FInv(p, a) == IF p = 0 THEN RatN(a[2], a[1])
              ELSE CHOOSE x \in 1..(p - 1) : (x * a) % p = 1
FDiv(p, a, b) == FMul(p, a, FInv(p, b))
FIsElem(p, a) == IF p = 0 THEN a[2] > 0 /\ Gcd(Abs(a[1]), a[2]) = 1 ELSE a \in 0..(p - 1)
FLess(p, a, b) == IF p = 0 THEN a[1] * b[2] < b[1] * a[2] ELSE a < b

\* ---------------------------------------------------------------- vectors
VZero == <<>>                                    \* the function with empty domain
VGet(p, x, i) == IF i \in DOMAIN x THEN x[i] ELSE FZero(p)
VMk(p, D, F(_)) == LET S == TLCEval({i \in D : F(i) # FZero(p)}) IN TLCEval([i \in S |-> F(i)])
VUnit(p, i) == (i :> FOne(p))
VAxpy(p, a, x, y) ==                             \* y + a x
    IF a = FZero(p) \/ DOMAIN x = {} THEN y
    ELSE LET G(i) == IF i \in DOMAIN x
                     THEN IF i \in DOMAIN y THEN FAdd(p, y[i], FMul(p, a, x[i])) ELSE FMul(p, a, x[i])
                     ELSE y[i]
         IN  VMk(p, DOMAIN x \cup DOMAIN y, G)
VAdd(p, x, y) == VAxpy(p, FOne(p), x, y)
VSub(p, x, y) == VAxpy(p, FNeg(p, FOne(p)), y, x)
VScale(p, a, x) == IF a = FZero(p) THEN VZero ELSE TLCEval([i \in DOMAIN x |-> FMul(p, a, x[i])])
VDot(p, x, y) == FoldSet(LAMBDA i, acc : FAdd(p, acc, FMul(p, x[i], y[i])), FZero(p), DOMAIN x \cap DOMAIN y)
\* relabel the support by an injective map g
VMap(x, g(_)) == LET S == TLCEval({g(i) : i \in DOMAIN x})
                 IN  TLCEval([k \in S |-> x[CHOOSE i \in DOMAIN x : g(i) = k]])
VRestrict(x, S) == LET D == TLCEval(DOMAIN x \cap S) IN TLCEval([i \in D |-> x[i]])
\* canonical listing <<<<i, x_i>>, ...>> in increasing index order
VList(x) == LET d == TLCEval(SetToSortSeq(DOMAIN x, <)) IN TLCEval([k \in 1..Len(d) |-> <<d[k], x[d[k]]>>])
VOf(s) == FoldLeft(LAMBDA acc, e : (e[1] :> e[2]) @@ acc, VZero, s)
VOfK(s) == LET D == TLCEval({s[k][1] : k \in DOMAIN s}) IN TLCEval([i \in D |-> s[CHOOSE k \in DOMAIN s : s[k][1] = i][2]])
VCanon(p, s) == /\ \A k \in 1..(Len(s) - 1) : s[k][1] < s[k + 1][1]
                /\ \A k \in 1..Len(s) : s[k][1] >= 0 /\ FIsElem(p, s[k][2]) /\ s[k][2] # FZero(p)
VPivot(x) == Max(DOMAIN x)                       \* lowest entry of a non-zero column

\* --------------------------------------------------------------- matrices
Mat(m, n, c) == [m |-> m, n |-> n, c |-> c]
MOf(r) == Mat(r[1], r[2], TLCEval([j \in 1..Len(r[3]) |-> VOfK(r[3][j])]))    \* from a recorded [m,n,cols]
MList(A) == <<A.m, A.n, TLCEval([j \in 1..A.n |-> VList(A.c[j])])>>
MCanon(p, r) == /\ Len(r[3]) = r[2]
                /\ \A j \in 1..Len(r[3]) : VCanon(p, r[3][j]) /\ \A k \in 1..Len(r[3][j]) : r[3][j][k][1] < r[1]
MZero(m, n) == Mat(m, n, TLCEval([j \in 1..n |-> VZero]))
MIdent(p, n) == Mat(n, n, TLCEval([j \in 1..n |-> VUnit(p, j - 1)]))
MGet(p, A, i, j) == VGet(p, A.c[j + 1], i)       \* 0-based, as in the library
MVec(p, A, x) == LET d == SetToSeq(DOMAIN x)
                 IN  FoldLeft(LAMBDA acc, j : VAxpy(p, x[j], A.c[j + 1], acc), VZero, d)
MMul(p, A, B) == Mat(A.m, B.n, TLCEval([j \in 1..B.n |-> MVec(p, A, B.c[j])]))
MAdd(p, A, B) == Mat(A.m, A.n, TLCEval([j \in 1..A.n |-> VAdd(p, A.c[j], B.c[j])]))
MSub(p, A, B) == Mat(A.m, A.n, TLCEval([j \in 1..A.n |-> VSub(p, A.c[j], B.c[j])]))
MScale(p, a, A) == Mat(A.m, A.n, TLCEval([j \in 1..A.n |-> VScale(p, a, A.c[j])]))
MT(A) == Mat(A.n, A.m, TLCEval([i \in 1..A.m |->
            LET S == TLCEval({j \in 0..(A.n - 1) : (i - 1) \in DOMAIN A.c[j + 1]})
            IN  TLCEval([j \in S |-> A.c[j + 1][i - 1]])]))
MRowMap(A, m, g(_)) == Mat(m, A.n, TLCEval([j \in 1..A.n |-> VMap(A.c[j], g)]))
MRows(p, A) == TLCEval([i \in 1..A.m |-> TLCEval([j \in 1..A.n |-> MGet(p, A, i - 1, j - 1)])])
MIsZero(A) == \A j \in 1..A.n : DOMAIN A.c[j] = {}
MNnz(A) == FoldLeft(LAMBDA acc, x : acc + Cardinality(DOMAIN x), 0, A.c)
MUpper(A) == \A j \in 1..A.n : \A i \in DOMAIN A.c[j] : i <= j - 1
MLower(A) == \A j \in 1..A.n : \A i \in DOMAIN A.c[j] : i >= j - 1
MDiagFull(A) == A.m = A.n /\ \A j \in 1..A.n : (j - 1) \in DOMAIN A.c[j]
MUpperInv(A) == MUpper(A) /\ MDiagFull(A)
MLowerInv(A) == MLower(A) /\ MDiagFull(A)
MPivotShape(A) == /\ \A j \in 1..A.n : Cardinality(DOMAIN A.c[j]) <= 1
                  /\ \A j, k \in 1..A.n : j # k => DOMAIN A.c[j] \cap DOMAIN A.c[k] = {}
MPerm(p, A) == A.m = A.n /\ MPivotShape(A) /\ \A j \in 1..A.n : DOMAIN A.c[j] # {} /\ \A i \in DOMAIN A.c[j] : A.c[j][i] = FOne(p)
\* E_L: pivots in the leading columns, rows strictly increasing
MEL(A) == /\ MPivotShape(A)
          /\ \A j \in 1..(A.n - 1) : DOMAIN A.c[j + 1] # {} =>
                (DOMAIN A.c[j] # {} /\ Max(DOMAIN A.c[j]) < Min(DOMAIN A.c[j + 1]))
MJ(A) == Mat(A.m, A.n, TLCEval([j \in 1..A.n |-> LET x == A.c[A.n + 1 - j] IN VMap(x, LAMBDA i : A.m - 1 - i)]))
MEU(A) == MEL(MT(A))
MELhat(A) == MEU(MJ(A))
MEUhat(A) == MEL(MJ(A))
MReduced(A) == \A j, k \in 1..A.n : (j < k /\ DOMAIN A.c[j] # {} /\ DOMAIN A.c[k] # {}) => VPivot(A.c[j]) # VPivot(A.c[k])

\* ------------------------------------------------- elimination, spans, rank
\* A basis is a function pivot -> vector whose entry at its pivot (largest index) is 1.
\* full reduction of x against basis B, from the largest index down
RECURSIVE VReduce(_, _, _)
VReduce(p, B, x) ==
    LET H == DOMAIN x \cap DOMAIN B
    IN  IF H = {} THEN x
        ELSE LET i == Max(H) IN VReduce(p, B, VAxpy(p, FNeg(p, x[i]), B[i], x))
BasisAdd(p, B, x) == LET r == TLCEval(VReduce(p, B, x))
                     IN  IF DOMAIN r = {} THEN B
                         ELSE LET i == VPivot(r) IN TLCEval((i :> VScale(p, FInv(p, r[i]), r)) @@ B)
BasisOf(p, vs) == FoldLeft(LAMBDA B, x : BasisAdd(p, B, x), VZero, vs)      \* vs a sequence of vectors
BasisAddAll(p, B, vs) == FoldLeft(LAMBDA C, x : BasisAdd(p, C, x), B, vs)
BDim(B) == Cardinality(DOMAIN B)
InSpan(p, B, x) == DOMAIN VReduce(p, B, x) = {}
BasisSeq(B) == LET d == SetToSeq(DOMAIN B) IN TLCEval([k \in 1..Len(d) |-> B[d[k]]])
RankOf(p, vs) == BDim(BasisOf(p, vs))
MRank(p, A) == RankOf(p, A.c)
SameSpan(p, vs, ws) == LET B == BasisOf(p, vs) C == BasisOf(p, ws)
                       IN BDim(B) = BDim(C) /\ \A k \in 1..Len(ws) : InSpan(p, B, ws[k])

\* Kernel of a linear map given on the columns of A: vectors z (indexed 0..n-1) with A z = 0.
\* Carries each column together with its coordinate vector, offset above the rows.
KernelSeq(p, A) ==
    LET off == A.n      \* rows live at off + i so that they are eliminated first
        aug(j) == VMap(A.c[j], LAMBDA i : i + off) @@ VUnit(p, j - 1)
        B == BasisOf(p, TLCEval([j \in 1..A.n |-> aug(j)]))
        K == {i \in DOMAIN B : i < off}
        d == SetToSeq(K)
    IN  TLCEval([k \in 1..Len(d) |-> B[d[k]]])
\* Those elements of span(vs) that vanish on the index set S, as a sequence of basis vectors.
\* hi(i) must order S above everything else; we relabel by shifting S upward.
SubspaceVanishing(p, vs, S, bound) ==
    LET up(i) == IF i \in S THEN i + bound ELSE i
        B == BasisOf(p, TLCEval([k \in 1..Len(vs) |-> VMap(vs[k], up)]))
        K == {i \in DOMAIN B : i < bound}
        d == SetToSeq(K)
    IN  TLCEval([k \in 1..Len(d) |-> B[d[k]]])
=============================================================================
