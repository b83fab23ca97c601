--------------------------- MODULE TopologyTrace ---------------------------
(* Recorded metric constructions: flag, Rips, nerve, Dowker, witness, covers, landmarks, neighbourhoods, diagrams of sets. *)
EXTENDS Flag, Trace0
Sets(c) == [i \in DOMAIN c |-> ToSet(c[i])]
EFlat(e) == {{e[2 * k - 1], e[2 * k]} : k \in 1..(Len(e) \div 2)}
\* graph and values of a metric within a threshold
WOf(d) == TLCEval([e \in Pairs(Len(d)) |-> d[Min(e) + 1][Max(e) + 1]])
Le(m, w, r) == {e \in DOMAIN w : AtMost(m, w[e], r)}
Lt(m, w, r) == {e \in DOMAIN w : Below(m, w[e], r)}
InCover(w, c) == {e \in DOMAIN w : \E i \in DOMAIN c : e \subseteq ToSet(c[i])}
TabIs(t, d) == Len(t) = Len(d) /\ \A i \in DOMAIN d : t[i] = d[i]
OffDiag(t, w) == \A e \in DOMAIN w : t[Min(e) + 1][Max(e) + 1] = w[e] /\ t[Max(e) + 1][Min(e) + 1] = w[e]
WX(es) == TLCEval([e \in {{es[k][1], es[k][2]} : k \in DOMAIN es} |-> (LET k == CHOOSE k \in DOMAIN es : {es[k][1], es[k][2]} = e IN es[k][3])])
\* vertices x of the ordered set s sent to their position in t
InclMap(s, t) == [k \in DOMAIN s |-> Cardinality({y \in ToSet(t) : y < s[k]})]
IsIncl(dg, e) == LET s == dg.nodes[e[1] + 1] t == dg.nodes[e[2] + 1] IN ToSet(s) \subseteq ToSet(t) /\ e[3] = InclMap(s, t)
\* cos of an angle between integer vectors, in millionths
Dot(x, y) == SumF([i \in DOMAIN x |-> x[i] * y[i]], Len(x))
CosOK(q, x, y, rp) ==
    LET nx == Dot(x, x) ny == Dot(y, y) i0 == Dot(x, y) ip == IF rp THEN Abs(i0) ELSE i0
        k == (IF q < 0 THEN -((-q + 500) \div 1000) ELSE (q + 500) \div 1000)
    IN  IF ip * ip = nx * ny THEN q = (IF ip > 0 THEN 1000000 ELSE -1000000)
        ELSE /\ Abs(q) < 1000000 /\ (ip > 0 => q > 0) /\ (ip < 0 => q < 0) /\ (ip = 0 => q = 0)
             /\ Abs(k * k * nx * ny - ip * ip * 1000000) <= (2 * Abs(k) + 2) * nx * ny
BoundaryIn(x, lo, len, n, b) == (x - lo) * n = b * len \/ (x - lo) * n = (b + 2) * len
Inside(x, lo, len, n, b) == b * len < (x - lo) * n /\ (x - lo) * n < (b + 2) * len
HalfOpen(x, lo, len, n, b) == b * len <= (x - lo) * n /\ (x - lo) * n < (b + 2) * len
Pow2(n) == n \in {1, 2, 4, 8, 16}
SameDistinct(pts, rows, ok(_)) ==      \* pts lists the rows of an index set I with ok(I), in increasing index order
    \E I \in kSubset(Len(pts), 0..(Len(rows) - 1)) : ok(I) /\ pts = [k \in 1..Len(pts) |-> rows[Asc(I)[k] + 1]]
ZooOK(e, d) ==
    LET n == Len(d) r == e.r k == Cardinality({ToSet(r.sets.nodes[j]) : j \in DOMAIN r.sets.nodes})
        node(j) == ToSet(r.sets.nodes[j + 1])
        S(i) == node(2 * i)                                        \* the growing sets
        q(x) == IF e.m = "euc" THEN x * x ELSE x
        h(i) == Cover1(d, n, S(i))
        last == (Len(r.sets.nodes) - 1) \div 2
        rv(c, dd) == IF e.m = "euc" THEN (c \div 4) * (c \div 4) * dd ELSE c * dd      \* 16 times the (squared) parameter
        par == [j \in 0..(2 * last) |-> IF e.which = "dm" THEN rv(e.rho, h(IF j % 2 = 0 THEN j \div 2 ELSE (j - 1) \div 2))
                                        ELSE IF j % 2 = 0 THEN rv(e.eta, h(j \div 2)) ELSE rv(e.rho, h((j - 1) \div 2))]
        xs(j) == LET pts == r.sets.nodes[j + 1]
                     dd == [a \in DOMAIN pts |-> [b \in DOMAIN pts |-> d[pts[a] + 1][pts[b] + 1]]]
                     w == WOf(dd)
                 IN  Cliques(Len(pts), {f \in DOMAIN w : (IF e.m = "euc" THEN w[f] ELSE 4 * w[f]) <= par[j]}, e.dmax)
    IN  /\ e.which = "dm" => /\ Len(r.whole) = Len(r.rips) /\ \A j \in DOMAIN r.whole : IsCells(r.whole[j], xs(j - 1))
                             /\ r.ends = [x \in 1..(2 * last) |-> <<r.sets.edges[x][1], r.sets.edges[x][2]>>] /\ r.samer = TRUE
        /\ Len(r.sets.nodes) = 2 * last + 1 /\ Len(r.sets.edges) = 2 * last /\ Len(r.r16) = 2 * last + 1 /\ Len(r.rips) = 2 * last + 1
        \* one center, then the sets grow greedily to everything
        /\ S(0) \in {{c} : c \in Centers(d, n, 0, e.X[2] + 1)} /\ S(last) = 0..(n - 1)
        /\ \A i \in 0..(last - 1) : /\ node(2 * i + 1) = S(i + 1)
                                    /\ S(i + 1) \in Greedy(d, n, S(i), Cardinality(S(i + 1)) - Cardinality(S(i)))
                                    /\ e.which # "dm" => Cardinality(S(i + 1)) = Cardinality(S(i)) + 1
        /\ \A i \in 0..(last - 1) : LET a == r.sets.edges[2 * i + 1] b == r.sets.edges[2 * i + 2]
                                    IN  a[1] = 2 * i /\ a[2] = 2 * i + 1 /\ b[1] = 2 * i + 2 /\ b[2] = 2 * i + 1 /\ IsIncl(r.sets, a) /\ IsIncl(r.sets, b)
        /\ \A j \in 0..(2 * last) : r.r16[j + 1] = par[j] /\ IsCells(r.rips[j + 1], xs(j))
\* coordinates in thousandths; angles in steps of 15 degrees
Cos15(j) == LET k == j % 24
                c == <<1000, 966, 866, 707, 500, 259, 0>>
            IN  IF k <= 6 THEN c[k + 1] ELSE IF k <= 12 THEN -c[12 - k + 1] ELSE IF k <= 18 THEN -c[k - 12 + 1] ELSE c[24 - k + 1]
Close(a, b, t) == a - b <= t /\ b - a <= t
CircleAt(q, rad, n, i) == Close(q[1], rad * Cos15(i * (24 \div n)), rad) /\ Close(q[2], rad * Cos15(i * (24 \div n) + 18), rad)   \* sin x = cos(x + 270 degrees)
GenOK(e, r) ==
    CASE e.what = "prod" -> LET x == Rows(e.X) y == Rows(e.Y) ny == Len(y)
                            IN  r = [k \in 1..(Len(x) * ny) |-> [c \in 1..(NCol(e.X) + NCol(e.Y)) |-> 250 * (x[(k - 1) \div ny + 1] \o y[((k - 1) % ny) + 1])[c]]]
      [] e.what = "interval" -> Len(r) = e.n /\ \A i \in 1..e.n : Len(r[i]) = 1 /\ Close(r[i][1] * (e.n - 1), 1000 * (e.a * (e.n - i) + e.b * (i - 1)), e.n)
      [] e.what = "circle" -> Len(r) = e.n /\ \A i \in 1..e.n : Len(r[i]) = 2 /\ CircleAt(r[i], e.rad, e.n, i - 1)
      [] e.what = "cylinder" -> /\ Len(r) = e.n * e.k
                                /\ \A i \in 1..(e.n * e.k) : /\ Len(r[i]) = 3 /\ Close(r[i][1] * (e.n - 1), 1000 * ((i - 1) \div e.k), e.n)
                                                             /\ CircleAt(Tail(r[i]), e.rad, e.k, (i - 1) % e.k)
      [] e.what = "sphere" -> /\ r.same = TRUE
                              /\ \A q \in {r.a, r.b} : Len(q) = e.n /\ \A i \in 1..e.n : Len(q[i]) = e.d /\ Close(SumF([j \in 1..e.d |-> q[i][j] * q[i][j]], e.d), 1000000, 1000 * (e.d + 1))
      [] e.what = "cube" -> /\ r.same = TRUE /\ \A q \in {r.a, r.b} : Len(q) = e.n /\ \A i \in 1..e.n : Len(q[i]) = e.d /\ \A j \in 1..e.d : q[i][j] >= 0 /\ q[i][j] <= 1000
      [] OTHER -> FALSE
Ok(e) == LET r == e.r IN
    CASE e.op = "flag" -> IsCells(r, Cliques(e.n, EFlat(e.e), e.d))
      [] e.op \in {"flagf", "flagx"} ->
            LET w == WX(e.es) C == Cliques(e.n, DOMAIN w, e.d)
            IN  IsFilt(r.f, C, w, e.t0) /\ (e.op = "flagx" => IsOrigin(r.f, r.inds, r.edges) /\ IsEdgeList(r.edges, DOMAIN w, w))
      [] e.op \in {"rips", "ripsf", "ripsx"} ->
            LET d == DTab(e.m, e.P, e.P) w == WOf(d) E == Le(e.m, w, e.rr) C == Cliques(Len(d), E, e.d)
            IN  IF e.op = "rips" THEN IsCells(r, C)
                ELSE IsFilt(r.f, C, w, 0) /\ (e.op = "ripsx" => IsEdgeList(r.edges, E, w)
                        /\ IsOrigin(r.f, r.inds, SortSeq(r.edges, LAMBDA a, b : a[3] < b[3] \/ (a[3] = b[3] /\ (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))))))
      [] e.op = "ripscov" ->
            LET d == DTab(e.m, e.P, e.P) w == WOf(d) E == Lt(e.m, w, e.rr)
                C == IF e.strict = 0 THEN Cliques(Len(d), E \cap InCover(w, e.c), e.d)
                     ELSE {{v} : v \in 0..(Len(d) - 1)} \cup UNION {Cliques(Len(d), {f \in E : f \subseteq ToSet(e.c[i])}, e.d) : i \in DOMAIN e.c}
            IN  IsFilt(r, C, w, 0)
      [] e.op = "complete" ->
            LET w == TLCEval([p \in Pairs(e.n) |-> LET k == CHOOSE k \in DOMAIN e.t : {e.e[2 * k - 1], e.e[2 * k]} = p IN e.t[k]])
                C == Cliques(e.n, Pairs(e.n), e.d)
            IN  IsFilt(r.f, C, w, e.t0) /\ IsCells(r.X, C)
      [] e.op = "rips1" ->
            LET n == Len(e.x) IN Len(r.t) * 2 = Len(r.e) /\ EFlat(r.e) = Pairs(n) /\ Len(r.t) = Cardinality(Pairs(n))
                                 /\ \A k \in DOMAIN r.t : r.t[k] = Abs(e.x[r.e[2 * k - 1] + 1] - e.x[r.e[2 * k] + 1])
      [] e.op = "allpairs" -> EFlat(r) = Pairs(e.n) /\ Len(r) = 2 * Cardinality(Pairs(e.n))
      [] e.op = "sortedges" ->
            LET tri(x, t) == [k \in DOMAIN t |-> <<x[2 * k - 1], x[2 * k], t[k]>>]
            IN  Sorted(r.t) /\ Len(r.e) = Len(e.e) /\ \A z \in ToSet(tri(e.e, e.t)) \cup ToSet(tri(r.e, r.t)) :
                    Cardinality({k \in DOMAIN e.t : tri(e.e, e.t)[k] = z}) = Cardinality({k \in DOMAIN r.t : tri(r.e, r.t)[k] = z})
      [] e.op = "pairdist" ->
            LET pt(i) == SubSeq(e.x, i * e.dim + 1, (i + 1) * e.dim)
            IN  Len(r) * 2 = Len(e.e) /\ \A k \in DOMAIN r : r[k] = Dist("euc", pt(e.e[2 * k - 1]), pt(e.e[2 * k]))
      \* ------------------------------------------------------- nerves, Dowker, witnesses
      [] e.op = "nerve" -> IsCells(r, NerveSets(Sets(e.c), e.d))
      [] e.op = "dowedge" -> r = DowkerEdge(Rows(e.P), e.i, e.j)
      [] e.op = "dowker" -> Len(r) = NRow(e.P) /\ OffDiag(r, DowkerW(Rows(e.P)))
      [] e.op \in {"dowf", "dowc", "dowfd", "dowcd"} ->
            LET m == IF e.op \in {"dowf", "dowc"} THEN "l1" ELSE e.m
                d == IF e.op \in {"dowf", "dowc"} THEN Rows(e.P) ELSE DTab(e.m, e.L, e.X)
                w == DowkerW(d) E == Lt(m, w, e.rr)
            IN  IsFilt(r, Cliques(Len(d), IF e.op \in {"dowf", "dowfd"} THEN E ELSE E \cap InCover(w, e.c), e.d), w, 0)
      [] e.op = "getm" -> r = [k \in 1..NCol(e.P) |-> NuTh(Rows(e.P), k, e.nu)]
      [] e.op = "wit" -> LET d == DTab(e.m, e.L, e.X) IN IsCells(r, Weak(d, NRow(e.X), 0..(Len(d) - 1), e.d))
      [] e.op = "witp" -> LET d == DTab(e.m, e.L, e.X) IN Len(r) = Len(d) /\ OffDiag(r, DowkerW(Relaxed(d, e.nu)))
      [] e.op = "witlazy" -> LET d == DTab(e.m, e.L, e.X) w == DowkerW(Relaxed(d, e.nu)) IN IsCells(r, Cliques(Len(d), Le(e.m, w, e.rr), e.d))
      [] e.op \in {"witn", "witstrict"} ->
            LET d == Relaxed(DTab(e.m, e.L, e.X), e.nu)
                c == [i \in DOMAIN d |-> {k - 1 : k \in {k \in DOMAIN d[i] : AtMost(e.m, d[i][k], e.rr)}}]
            IN  IF e.op = "witn" THEN Len(r) = Len(c) /\ \A i \in DOMAIN c : r[i] = Asc(c[i]) ELSE IsCells(r, NerveSets(c, e.d))
      [] e.op = "witf" -> LET d == DTab(e.m, e.L, e.X) w == DowkerW(d) IN IsFilt(r, Cliques(Len(d), Lt(e.m, w, e.rr), e.d), w, 0)
      [] e.op = "wite" -> LET d == DTab(e.m, e.L, e.X) w == DowkerW(d) IN EFlat(r) = Lt(e.m, w, e.rr) /\ Len(r) = 2 * Cardinality(EFlat(r))
      [] e.op = "incl" -> r = InclMap(e.a, e.b)
      [] e.op \in {"subsets", "covers"} ->
            LET n == Len(e.c) s == Sets(e.c)
            IN  /\ Len(r.nodes) = (IF n = 0 THEN 0 ELSE 2 * n - 1) /\ Len(r.edges) = (IF n = 0 THEN 0 ELSE 2 * n - 2)
                /\ \A i \in 1..n : r.nodes[2 * i - 1] = Asc(s[i])
                /\ \A i \in 1..(n - 1) : r.nodes[2 * i] = Asc(IF e.op = "subsets" THEN s[i] \cup s[i + 1] ELSE s[i] \cap s[i + 1])
                /\ LET st(x) == <<r.edges[x][1], r.edges[x][2]>>
                   IN  {st(x) : x \in DOMAIN r.edges} = UNION {IF e.op = "subsets" THEN {<<2 * i - 2, 2 * i - 1>>, <<2 * i, 2 * i - 1>>} ELSE {<<2 * i - 1, 2 * i - 2>>, <<2 * i - 1, 2 * i>>} : i \in 1..(n - 1)}
                /\ \A x \in DOMAIN r.edges : IsIncl(r, r.edges[x])
      [] e.op = "bivar" ->
            LET a == Sets(e.a) b == Sets(e.b) good == {<<i, j>> \in (DOMAIN a) \X (DOMAIN b) : a[i] \cap b[j] # {}}
            IN  /\ Len(r.c) = Cardinality(good) /\ Len(r.f1) = Len(r.c) /\ Len(r.f2) = Len(r.c)
                /\ {<<r.f1[k] + 1, r.f2[k] + 1>> : k \in DOMAIN r.c} = good
                /\ \A k \in DOMAIN r.c : r.c[k] = Asc(a[r.f1[k] + 1] \cap b[r.f2[k] + 1])
      \* ------------------------------------------------------ metrics, landmarks, covers
      [] e.op = "dist" -> LET d == DTab(e.m, e.P, e.Q) IN TabIs(r.a, d) /\ TabIs(r.b, d) /\ TabIs(r.c, d) /\ TabIs(r.d, d) /\ TabIs(r.s, DTab(e.m, e.P, e.P))
      [] e.op = "angdist" ->
            LET x == Rows(e.V)
            IN  \A i \in DOMAIN x : \A j \in DOMAIN x :
                  LET q == r[i][j] rp == e.m \in {"rpcos", "rpangle"}
                  IN  q # 1000000007 /\ CosOK(IF e.m \in {"cos", "rpcos"} THEN 1000000 - q ELSE q, x[i], x[j], rp)
      [] e.op = "enclosing" -> r = (IF NRow(e.P) = 0 THEN Inf ELSE Min({Max({0} \cup {Entry(e.P, i, j) : j \in 0..(NCol(e.P) - 1)}) : i \in 0..(NRow(e.P) - 1)}))
      [] e.op = "greedy" -> LET d == DTab(e.m, e.P, e.P) n == Len(d) IN Len(r) = e.k /\ SameDistinct(r, Rows(e.P), LAMBDA I : I \in Greedy(d, n, {e.i0}, e.k - 1))
      [] e.op = "hausland" -> LET d == DTab(e.m, e.P, e.P) n == Len(d) g == GreedyTo(d, n, {e.i0}, <<e.m, e.rr>>) IN SameDistinct(r, Rows(e.P), LAMBDA I : I \in g)
      [] e.op = "ghaus" ->
            LET d == DTab(e.m, e.P, e.P) n == Len(d)
            IN  /\ Len(r.inds) = (IF e.how = "k" THEN e.k ELSE n) /\ Len(r.h) = Len(r.inds) /\ r.inds[1] = e.i0 /\ GreedySeq(d, n, r.inds)
                /\ \A j \in DOMAIN r.inds : r.h[j] = Cover1(d, n, ToSet(SubSeq(r.inds, 1, j)))
      [] e.op = "randland" -> Len(r) = e.k /\ SameDistinct(r, Rows(e.P), LAMBDA I : TRUE)
      [] e.op = "center" -> LET d == DTab(e.m, e.P, e.P) IN r \in Centers(d, Len(d), e.i0, IF e.k = 0 THEN NCol(e.P) + 1 ELSE e.k)
      [] e.op = "lcover" -> LET d == DTab(e.m, e.X, e.L) IN Len(r) = NRow(e.L) /\ \A x \in DOMAIN d : KNearSet(d[x], {j - 1 : j \in {j \in DOMAIN r : x - 1 \in ToSet(r[j])}}, e.k)
      [] e.op = "ecover" -> LET d == DTab(e.m, e.X, e.L) IN Len(r) = NRow(e.L) /\ \A x \in DOMAIN d : LET lo == Min(Range(d[x])) IN
                               \A j \in DOMAIN d[x] : /\ (d[x][j] = lo \/ 2 * d[x][j] < 2 * lo + e.eps) => x - 1 \in ToSet(r[j])
                                                      /\ 2 * d[x][j] > 2 * lo + e.eps => x - 1 \notin ToSet(r[j])
      [] e.op = "icover" ->
            LET lo == Min(ToSet(e.x)) len == Max(ToSet(e.x)) - lo n == e.nsets
            IN  /\ Len(r) = n /\ \A i \in DOMAIN e.x : \E b \in DOMAIN r : i - 1 \in ToSet(r[b])
                /\ \A b \in DOMAIN r : ToSet(r[b]) \subseteq 0..(Len(e.x) - 1)
                /\ len > 0 => \A i \in DOMAIN e.x : \A b \in 0..(n - 1) :
                       IF Pow2(n) \/ ~BoundaryIn(e.x[i], lo, len, n, b) THEN (i - 1 \in ToSet(r[b + 1])) <=> HalfOpen(e.x[i], lo, len, n, b) ELSE TRUE
      [] e.op = "proj" -> r = [i \in 1..NRow(e.X) |-> Entry(e.X, i - 1, e.i)]
      [] e.op = "subset" -> r.b = [k \in DOMAIN e.v |-> Rows(e.X)[e.v[k] + 1]] /\ r.a = [k \in 1..Cardinality(ToSet(e.v)) |-> Rows(e.X)[Asc(ToSet(e.v))[k] + 1]]
      [] e.op = "nbr" -> LET d == DTab(e.m, e.X, e.Y) want == [i \in DOMAIN d |-> Asc({j - 1 : j \in {j \in DOMAIN d[i] : Below(e.m, d[i][j], e.rr)}})] IN r.one = want /\ r.all = want
      [] e.op = "knbr" -> LET d == DTab(e.m, e.X, e.Y) IN Len(r.one) = Len(d) /\ Len(r.all) = Len(d) /\ \A i \in DOMAIN d : KNearest(d[i], r.one[i], e.k) /\ KNearest(d[i], r.all[i], e.k)
      [] e.op = "pnbr" -> r = [i \in 1..NRow(e.P) |-> Asc({j \in 0..(NCol(e.P) - 1) : Entry(e.P, i - 1, j) <= e.eps})]
      [] e.op = "kdist" -> LET d == DTab(e.m, e.X, e.X) IN r = [i \in DOMAIN d |-> SortSeq(d[i], <)[e.k + 1]]
      [] e.op = "gen" -> GenOK(e, r)
      [] e.op = "zoo" /\ e.which = "refuse" -> r = (IF e.eta > e.rho THEN "refused" ELSE "accepted")
      [] e.op = "zoo" -> ZooOK(e, DTab(e.m, e.X, e.X))
      [] OTHER -> FALSE
TraceInit == TInit
TraceNext == More /\ Ok(Ev) /\ Consume
=============================================================================
