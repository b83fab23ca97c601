--------------------------- MODULE StridedTrace -----------------------------
(***************************************************************************)
(* Recorded histories of strided matrices: pieces of memory B and registers *)
(* G that see one of them in some order; registers may share memory.        *)
(***************************************************************************)
EXTENDS Strided, Trace0
VARIABLES B, G
p == Hdr.p
svars == <<B, G>>
TraceInit == TInit /\ B = <<>> /\ G = [i \in 0..5 |-> [b |-> 0, m |-> 0, n |-> 0, l |-> "row"]]
Val(i) == Read(p, B[G[i].b], G[i])
Rows(r, W) == /\ r[1] = W.m /\ r[2] = W.n /\ Len(r[3]) = r[1] /\ \A i \in 1..r[1] : Len(r[3][i]) = r[2] /\ \A j \in 1..r[2] : FIsElem(p, r[3][i][j]) /\ r[3][i][j] = MGet(p, W, i - 1, j - 1)
\* what is recorded of a register: its entries and the memory from its first cell on
Is(r, i) == LET W == Read(p, B'[G'[i].b], G'[i]) IN Rows(r, W) /\ r[4] = B'[G'[i].b] /\ r[5] = W.m * W.n
Fresh(i, W, l) == B' = Append(B, Flat(p, W, l)) /\ G' = [G EXCEPT ![i] = [b |-> Len(B) + 1, m |-> W.m, n |-> W.n, l |-> l]]
Write(i, W) == B' = [B EXCEPT ![G[i].b] = Flat(p, W, G[i].l)] /\ UNCHANGED G
Line(W, k, i) == TLCEval(IF k = "r" THEN [j \in 1..W.n |-> MGet(p, W, i, j - 1)] ELSE [j \in 1..W.m |-> MGet(p, W, j - 1, i)])
\* W with a row or column replaced by the entries of s
PutLine(W, k, i, s) == IF k = "r" THEN Mat(W.m, W.n, TLCEval([j \in 1..W.n |-> VMk(p, 0..(W.m - 1), LAMBDA q : IF q = i THEN s[j] ELSE MGet(p, W, q, j - 1))]))
                       ELSE Mat(W.m, W.n, TLCEval([j \in 1..W.n |-> IF j = i + 1 THEN DVec(p, s) ELSE W.c[j]]))
SeenLine(v, s) == v.n = Len(s) /\ v.it = s /\ v.post = s /\ v.at = s /\ v.call = s /\ v.far = s
DMat(r) == DenseOf(p, r)
TraceNext ==
    /\ More
    /\ LET e == Ev IN
       CASE e.op = "make" -> LET W == FromRows(p, e.m, e.n, e.v) IN Fresh(e.i, W, e.l) /\ Is(e.r, e.i)
         [] e.op = "zeros" -> Fresh(e.i, MZero(e.m, e.n), e.l) /\ Is(e.r, e.i)
         [] e.op = "ident" -> Fresh(e.i, MIdent(p, e.n), e.l) /\ Is(e.r, e.i)
         [] e.op = "copy" -> Fresh(e.d, Val(e.a), G[e.a].l) /\ Is(e.r, e.d)
         [] e.op = "seen" -> UNCHANGED B /\ G' = [G EXCEPT ![e.d] = IF e.k = "same" THEN G[e.a] ELSE Seen(e.k, G[e.a])] /\ Is(e.r, e.d)
         [] e.op = "look" -> UNCHANGED svars /\ Is(e.r, e.a)
         [] e.op = "lines" -> LET W == Val(e.a) IN /\ UNCHANGED svars /\ Len(e.r.rows) = W.m /\ Len(e.r.cols) = W.n
                                                   /\ \A i \in 1..W.m : SeenLine(e.r.rows[i], Line(W, "r", i - 1))
                                                   /\ \A j \in 1..W.n : SeenLine(e.r.cols[j], Line(W, "c", j - 1))
         [] e.op = "put" -> LET W == Val(e.a) IN Write(e.a, PutLine(W, "r", e.i, TLCEval([Line(W, "r", e.i) EXCEPT ![e.j + 1] = e.c]))) /\ Is(e.r, e.a)
         [] e.op = "eq" -> UNCHANGED svars /\ e.r = (Val(e.a) = Val(e.b))
         [] e.op = "swapr" -> Write(e.a, SwapRows(p, Val(e.a), e.i, e.j)) /\ Is(e.r, e.a)
         [] e.op = "swapc" -> Write(e.a, SwapCols(p, Val(e.a), e.i, e.j)) /\ Is(e.r, e.a)
         [] e.op = "addr" -> Write(e.a, AddRow(p, Val(e.a), e.c, e.j, e.i)) /\ Is(e.r, e.a)           \* row i += c row j
         [] e.op = "addc" -> Write(e.a, AddCol(p, Val(e.a), e.c, e.j, e.i)) /\ Is(e.r, e.a)
         [] e.op = "laxpy" -> LET s == Line(Val(e.a), e.k, e.i) t == Line(Val(e.b), e.q, e.j) IN
                              Write(e.a, PutLine(Val(e.a), e.k, e.i, TLCEval([x \in DOMAIN s |-> FAdd(p, s[x], FMul(p, e.c, t[x]))]))) /\ Is(e.r, e.a)
         [] e.op = "lset" -> Write(e.a, PutLine(Val(e.a), e.k, e.i, Line(Val(e.b), e.q, e.j))) /\ Is(e.r, e.a)
         [] e.op = "ldiv" -> LET s == Line(Val(e.a), e.k, e.i) IN Write(e.a, PutLine(Val(e.a), e.k, e.i, TLCEval([x \in DOMAIN s |-> FDiv(p, s[x], e.c)]))) /\ Is(e.r, e.a)
         [] e.op = "lput" -> LET s == Line(Val(e.a), e.k, e.i) IN Write(e.a, PutLine(Val(e.a), e.k, e.i, TLCEval([s EXCEPT ![e.j + 1] = e.c]))) /\ Is(e.r, e.a)
         [] e.op = "mul" -> Fresh(e.d, MMul(p, Val(e.a), Val(e.b)), G[e.a].l) /\ Is(e.r, e.d)
         [] e.op = "left" -> Write(e.b, MMul(p, Val(e.a), Val(e.b))) /\ Is(e.r, e.b)                     \* b becomes a b, where a is square
         [] e.op = "right" -> Write(e.a, MMul(p, Val(e.a), Val(e.b))) /\ Is(e.r, e.a)                    \* a becomes a b, where b is square
         [] e.op = "inv" -> LET X == Val(e.a) W == Val(e.b) Y == DMat(e.r) IN      \* b becomes the solution, in place
                            /\ Rows(e.r, Y) /\ Y.m = W.m /\ Y.n = W.n /\ (IF e.k \in {"Ll", "Ul"} THEN MMul(p, X, Y) ELSE MMul(p, Y, X)) = W
                            /\ Write(e.b, Y) /\ Is(e.r, e.b)
         [] e.op = "swapf" -> LET E == Val(e.a) X == Val(e.b) R == DMat(e.r) IN
                              /\ SwapIn(e.k, E, X) /\ Rows(e.r, R) /\ LET z == IF e.k \in {"el_l", "euh_u"} THEN E.m ELSE E.n IN Sq(R, z)
                              /\ IsSwapped(p, e.k, E, X, R) /\ UNCHANGED svars
         [] e.op = "fact" -> LET f == e.r.f D(i) == DMat(f[i]) IN
                             /\ \A i \in 1..4 : Rows(f[i], D(i)) /\ IsFact(p, e.k, Val(e.a), D(1), D(2), D(3), D(4)) /\ UNCHANGED svars /\ Is(e.r.M, e.a)
         [] e.op = "str" -> UNCHANGED svars /\ LET W == Val(e.a) IN Len(e.r) = W.m /\ \A i \in 1..W.m : e.r[i] = Line(W, "r", i - 1)
         [] e.op = "norm" -> UNCHANGED svars /\ e.r * e.r = 16 * FoldLeft(LAMBDA x, y : x + (y * y), 0, e.v)
         [] OTHER -> FALSE
    /\ Consume
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, tvars>>
=============================================================================
