"""A22 flag/Rips, A23 nerve/Dowker/witness, A30 metrics, landmarks, covers and neighbourhoods (Metric.tla, Flag.tla, TopologyTrace.tla)."""
from itertools import combinations
from .core import Scn

METRICS = ["l1", "linf", "euc"]


def M(rows, n=None): return (len(rows), len(rows[0]) if rows else (n or 0), tuple(x for r in rows for x in r))


def dist(m, x, y):
    d = [abs(a - b) for a, b in zip(x, y)]
    return sum(d) if m == "l1" else max([0] + d) if m == "linf" else sum(a * a for a in d)


def points(r, n, dim, kind=None):
    kind = kind or r.choice(["grid", "grid", "wide", "line", "dup", "offset"])
    lim = {"grid": 2, "wide": 24, "line": 9, "dup": 1, "offset": 5}[kind]
    sc = r.choice([1, 2, 4])
    pts = []
    for i in range(n):
        x = [r.randint(-lim, lim) * sc for _ in range(dim)]
        if kind == "line": x = [x[0]] + [0] * (dim - 1)
        if kind == "offset": x = [v + 100 for v in x]
        if kind != "dup" and r.random() < .97:
            for _ in range(30):
                if x not in pts: break
                x = [r.randint(-lim, lim) * sc for _ in range(dim)]
        pts.append(x)
    return pts


def distinct(r, n, dim, **kw):
    for _ in range(60):
        p = points(r, n, dim, **kw)
        if len({tuple(x) for x in p}) == n: return p
    return [[i * (i + 1) // 2 + (7 * j * i) % 5 for j in range(dim)] for i in range(n)]


def radius(r, m, ds, tie):
    """a threshold token; with tie it may equal a distance"""
    u = 4 if m == "euc" else 2
    ds = sorted(set(ds)) or [0]
    k = r.randrange(len(ds) + 1)
    if tie and k < len(ds) and r.random() < .6: return u * ds[k]
    lo = u * ds[k - 1] if k else 0
    hi = u * ds[k] if k < len(ds) else lo + 20
    c = [x for x in range(max(lo, 0) + 1, hi)] or [lo + 1]
    x = r.choice(c)
    if not tie and any(u * d == x for d in ds): x = max(ds) * u + 1
    return x


def pick_dim(r, n): return r.choice([0, 1, 1, 2, 2, 3, 3, n - 1, n, n + 2])


def sim(**kw): return Scn({"k": "topology"}, tag=kw.pop("tag", "topology"))


def cover_of(r, n, k=None):
    k = k if k is not None else r.choice([1, 2, 3, 4, 5])
    c = [[x for x in range(n) if r.random() < r.choice([.3, .6, .9])] for _ in range(k)]
    if r.random() < .3 and c: c[r.randrange(len(c))] = []
    if r.random() < .2 and len(c) > 1: c[0] = list(c[-1])
    return c


# ------------------------------------------------------------------ A22
def flag_hist(r, es, n, weights, kinds=("simp", "light")):
    s = sim()
    d = r.choice([0, 1, 2, 2, 3, n - 1, n])
    fl = [x for (a, b, _) in es for x in ((a, b) if r.random() < .5 else (b, a))]
    s.add("flag", kind=r.choice(kinds), n=n, d=d, e=fl)
    sh = list(es); r.shuffle(sh)
    sh = [(a, b, w) if r.random() < .5 else (b, a, w) for a, b, w in sh]
    for op in ("flagf", "flagx"):
        s.add(op, kind=r.choice(kinds), n=n, d=pick_dim(r, n), t0=r.choice([0, 0, -4, 3]), es=[tuple(e) for e in sh])
    return s


def a22(ctx):
    ctx.build([("topology", "topology.cpp", ["-DOK"])])
    r, S = ctx.rng, []
    hs = ctx.behaviours("FlagMC", "CONSTANTS N = 4 D = 3 T = 1 Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANT Inv\n", "every order of edges on 4 vertices", workers=1)
    ctx.model_check("FlagMC", "CONSTANTS N = %d D = 2 T = %d Emit = FALSE\nINIT Init\nNEXT Next\nINVARIANT Inv\nVIEW View\n" % ((5, 2) if ctx.thorough else (4, 3)), "incremental flag filtration = clique filtration", expect_states=1000)
    for h in hs:
        if len(h) < 6 and not ctx.thorough and r.random() < .6: continue
        ws = sorted(r.choice([0, 1, 2, 4, 7, 9]) for _ in h) if r.random() < .7 else [r.choice([4, 8]) for _ in h]
        S.append(flag_hist(r, [(a, b, w) for (a, b, _), w in zip(h, ws)], 4, ws)); S[-1].tag = "flag-exhaustive"
    for _ in range(1200 if ctx.thorough else 300):
        n = r.choice([1, 2, 3, 5, 5, 6, 6, 7] + ([8] if ctx.thorough else []))
        al = list(combinations(range(n), 2)); r.shuffle(al)
        al = al[:int(len(al) * r.choice([.3, .6, .8, 1, 1]))]
        if r.random() < .05:
            n = r.choice([10, 14, 20]); al = list(combinations(range(n), 2)); r.shuffle(al); al = [(a, b) for a, b in al if a // 5 == b // 5 or r.random() < 2 / n]
        S.append(flag_hist(r, [(a, b, r.choice([0, 1, 2, 3, 5, 8, 13, 21, 40, 41]) + r.choice([0, 0, 2])) for a, b in al], n, None))
        s = sim()
        m = r.choice(METRICS); n = r.choice([1, 2, 4, 5, 6, 7] if r.random() < .95 else [12, 16]); P = points(r, n, r.choice([1, 2, 2, 3] if n < 12 else [2, 3, 5]), None if n < 12 else "wide")
        ds = [dist(m, a, b) for a, b in combinations(P, 2)]
        for op in ("rips", "ripsf", "ripsx"):
            s.add(op, kind=r.choice(["simp", "light"]), P=M(P), m=m, how=r.choice(["data", "pdist"]), rr=radius(r, m, ds if n < 12 else sorted(ds)[:len(ds) // 3], True), d=pick_dim(r, n) if n < 12 else r.choice([1, 2, 3]))
        c = cover_of(r, n)
        for st in (0, 1):
            s.add("ripscov", kind="simp" if not st else r.choice(["simp", "light"]), P=M(P), m=m, c=c, strict=st, rr=radius(r, m, ds if n < 12 else sorted(ds)[:len(ds) // 3], False), d=pick_dim(r, n) if n < 12 else r.choice([1, 2]))
        k = r.choice([1, 2, 3, 4, 5] if r.random() < .96 else [7, 8]); al = list(combinations(range(k), 2)); r.shuffle(al)
        t = sorted(r.choice([1, 2, 4, 6, 9]) for _ in al)
        s.add("complete", e=[x for a, b in al for x in ((a, b) if r.random() < .5 else (b, a))], t=t, n=k, d=r.choice([0, 1, 2, 3, 4]), t0=0)
        s.ops[-1] = dict(op="complete", n=k, d=s.ops[-1]["d"], t0=0, e=s.ops[-1]["e"], t=t)
        x = [r.randint(-9, 9) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]
        s.add("rips1", x=x); s.add("allpairs", n=r.choice([0, 1, 2, 3, 5, 8]))
        q = r.choice([0, 1, 3, 6, 10]); e = [r.randrange(5) for _ in range(2 * q)]
        s.add("sortedges", e=e, t=[r.choice([0, 1, 2, 3]) for _ in range(q)])
        dim = r.choice([1, 2, 3]); y = [r.randint(-5, 5) for _ in range(dim * 5)]
        s.add("pairdist", dim=dim, x=y, e=e)
        S.append(s)
    ctx.validate("TopologyTrace", S, ctx.execute("topology", S, label="topology"))


# ------------------------------------------------------------------ A23
def table(r, m, n):
    lim = r.choice([3, 9, 40])
    return [[r.randint(0, lim) for _ in range(n)] for _ in range(m)]


def a23(ctx):
    ctx.build([("topology", "topology.cpp", ["-DOK"])])
    r, S = ctx.rng, []
    ctx.model_check("NerveMC", "CONSTANTS NS = 3 NX = 3 D = 2\nINIT Init\nNEXT Next\nINVARIANT Inv\n", "nerve built set by set", expect_states=100)
    # every cover of 3 points by 3 sets (up to 8^3)
    subs = [[x for x in range(3) if k >> x & 1] for k in range(8)]
    for a in subs:
        for b in subs:
            s = sim(tag="nerve-exhaustive")
            for c in subs: s.add("nerve", c=[a, b, c], d=r.choice([0, 1, 2, 3]))
            s.add("subsets", c=[a, b]); s.add("covers", c=[b, a]); s.add("bivar", a=[a, b], b=[b, r.choice(subs)])
            S.append(s)
    for _ in range(1500 if ctx.thorough else 350):
        s = sim()
        n = r.choice([1, 2, 4, 6])
        for _ in range(2): s.add("nerve", c=cover_of(r, n, r.choice([0, 1, 2, 3, 4, 5, 6])), d=r.choice([0, 1, 2, 3, 5]))
        if r.random() < .06: s.add("nerve", c=[sorted(r.sample(range(40), r.choice([1, 3, 8]))) for _ in range(r.choice([9, 14]))], d=r.choice([1, 2, 4]))
        m, n = (r.choice([1, 2, 3, 4, 5]), r.choice([1, 2, 3, 5])) if r.random() < .9 else (r.choice([2, 7, 9]), r.choice([3, 8, 10])); P = table(r, m, n)
        s.add("dowedge", P=M(P), i=r.randrange(m), j=r.randrange(m)); s.add("dowker", P=M(P))
        w = [min(max(P[i][k], P[j][k]) for k in range(n)) for i, j in combinations(range(m), 2)]
        s.add("dowf", P=M(P), rr=radius(r, "l1", w, False), d=min(pick_dim(r, m), 4))
        s.add("dowc", P=M(P), c=cover_of(r, m), rr=radius(r, "l1", w, False), d=min(pick_dim(r, m), 4))
        s.add("getm", P=M(P), nu=r.randint(0, m))
        S.append(s)
        s = sim()
        mt = r.choice(METRICS); dim = r.choice([1, 2, 3])
        nl, nx = (r.choice([1, 2, 3, 4, 5]), r.choice([1, 2, 3, 4, 6])) if r.random() < .92 else (r.choice([2, 7, 8]), r.choice([3, 8, 10]))
        L, X = points(r, nl, dim), points(r, nx, dim)
        if r.random() < .5: X[:1] = [list(L[0])]
        D = [[dist(mt, a, b) for b in X] for a in L]
        dw = [min(max(D[i][k], D[j][k]) for k in range(nx)) for i, j in combinations(range(nl), 2)]
        s.add("dowfd", L=M(L), X=M(X), m=mt, rr=radius(r, mt, dw, False), d=pick_dim(r, nl))
        s.add("dowcd", L=M(L), X=M(X), m=mt, c=cover_of(r, nl), rr=radius(r, mt, dw, False), d=pick_dim(r, nl))
        s.add("witf", L=M(L), X=M(X), m=mt, rr=radius(r, mt, dw, False), d=pick_dim(r, nl))
        s.add("wite", L=M(L), X=M(X), m=mt, rr=radius(r, mt, [x for row in D for x in row], False))
        mt = r.choice(["l1", "linf"])       # relaxed Euclidean distances are differences of roots
        D = [[dist(mt, a, b) for b in X] for a in L]; nu = r.randint(0, min(2, nl))
        mk = [sorted(D[i][k] for i in range(nl))[nu - 1] if nu else 0 for k in range(nx)]
        R = [[max(0, D[i][k] - mk[k]) for k in range(nx)] for i in range(nl)]
        rw = [min(max(R[i][k], R[j][k]) for k in range(nx)) for i, j in combinations(range(nl), 2)] + [0]
        s.add("witp", L=M(L), X=M(X), m=mt, nu=nu)
        s.add("witlazy", L=M(L), X=M(X), m=mt, nu=nu, rr=radius(r, mt, rw, True), d=pick_dim(r, nl))
        s.add("witn", L=M(L), X=M(X), m=mt, nu=nu, rr=radius(r, mt, [x for row in R for x in row], True))
        s.add("witstrict", L=M(L), X=M(X), m=mt, nu=nu, rr=radius(r, mt, [x for row in R for x in row], True), d=pick_dim(r, nl))
        mt = r.choice(METRICS)
        keep = [b for b in X if len({dist(mt, a, b) for a in L}) == nl]     # no ties between landmarks
        if not keep:
            L = [[20 * i * i + i] * dim for i in range(nl)]
            keep = [b for b in X if len({dist(mt, a, b) for a in L}) == nl]
        if keep: s.add("wit", L=M(L), X=M(keep), m=mt, d=r.randrange(nl))
        a = [x for x in range(8) if r.random() < .4]; b = sorted(set(a) | {x for x in range(10) if r.random() < .4})
        s.add("incl", a=a, b=b)
        s.add("subsets", c=cover_of(r, 6)); s.add("covers", c=cover_of(r, 6)); s.add("bivar", a=cover_of(r, 5, r.choice([None, None, 8])), b=cover_of(r, 5, r.choice([None, None, None, 9])))
        S.append(s)
    ctx.validate("TopologyTrace", S, ctx.execute("topology", S, label="topology"))


# ------------------------------------------------------------------ A30
def a30(ctx):
    ctx.build([("topology", "topology.cpp", ["-DOK"])])
    r, S = ctx.rng, []
    ctx.model_check("MetricMC", "CONSTANTS L = %d N = 3 MM = \"linf\"\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (2 if ctx.thorough else 1), "metric laws and greedy landmarks (l-infinity)", expect_states=100)
    ctx.model_check("MetricMC", "CONSTANTS L = %d N = 3 MM = \"euc\"\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (2 if ctx.thorough else 1), "metric laws and greedy landmarks (Euclidean)", expect_states=100)
    for it in range(1200 if ctx.thorough else 320):
        s = sim()
        m = r.choice(METRICS); dim = r.choice([1, 2, 3] if r.random() < .95 else [8]); n = r.choice([1, 2, 3, 4, 5, 6] if r.random() < .93 else [8, 11]); P = points(r, n, dim)
        Q = points(r, r.choice([1, 2, 4]), dim)
        s.add("dist", P=M(P), Q=M(Q), m=m)
        D = [[dist(m, a, b) for b in P] for a in P]; ds = [x for row in D for x in row]
        for am in ("cos", "rpcos", "angle", "rpangle"):
            V = []
            while len(V) < 3:
                v = [r.randint(-3, 3) for _ in range(dim)]
                if any(v): V.append(v)
            V += [[-x for x in V[0]], [x * 2 for x in V[1]] if max(map(abs, V[1])) < 2 else list(V[1])]
            s.add("angdist", P=M([[4 * x for x in v] for v in V]), m=am)
            s.ops[-1]["_V"] = M(V)
        T = table(r, r.choice([1, 2, 4, 8]), r.choice([1, 2, 4, 9])); s.add("enclosing", P=M(T))
        i0 = r.randrange(n)
        s.add("greedy", P=M(P), m=m, k=r.randint(1, n), i0=i0)
        s.add("hausland", P=M(P), m=m, rr=radius(r, m, ds, True), i0=i0)
        for how in ("all", "k", "pdist"): s.add("ghaus", P=M(P), m=m, how=how, i0=i0, k=r.randint(1, n))
        s.add("randland", P=M(P), k=r.randint(1, n))
        s.add("center", P=M(P), m=m, k=r.choice([0, 1, 2, 3]), i0=i0)
        S.append(s)
        s = sim()
        X, L = points(r, r.choice([1, 2, 5, 9]), dim), points(r, r.choice([1, 2, 3, 5]), dim)
        thr = r.choice([1, 2, 4])
        s.add("lcover", X=M(X), L=M(L), m=m, k=r.randint(1, len(L)), th=thr)
        s.add("ecover", X=M(X), L=M(L), m=r.choice(["l1", "linf"]), eps=r.choice([0, 0, 1, 2, 4, 9, 40]))
        for _ in range(2):
            lim = r.choice([2, 9, 60])
            s.add("icover", x=[r.randint(-lim, lim) for _ in range(r.choice([1, 2, 3, 6, 9]))], nsets=r.choice([1, 2, 3, 4, 5, 6, 8]))
        s.add("proj", X=M(X), i=r.randrange(dim)); s.add("subset", X=M(X), v=r.sample(range(len(X)), r.randint(0, len(X))))
        dxl = [dist(m, a, b) for a in X for b in L]
        s.add("nbr", X=M(X), Y=M(L), m=m, rr=radius(r, m, dxl, False), th=thr)
        s.add("knbr", X=M(X), Y=M(L), m=m, k=r.randint(0, len(L)), th=thr)
        T = table(r, r.choice([1, 2, 4, 8]), r.choice([1, 2, 4, 9])); s.add("pnbr", P=M(T), eps=r.choice([0, 1, 3, 5, 9]))
        s.add("kdist", X=M(X), m=m, k=r.randrange(len(X)))
        S.append(s)
        if it % 16 == 0:                                                        # more points
            s = sim(); n = r.choice([17, 25, 32]); W = points(r, n, dim, "wide")
            s.add("dist", P=M(W), Q=M(W[:3]), m=m)
            for how in ("all", "k", "pdist"): s.add("ghaus", P=M(W), m=m, how=how, i0=r.randrange(n), k=r.randint(1, n))
            s.add("subset", X=M(W), v=r.sample(range(n), r.randint(0, n)))
            s.add("kdist", X=M(W), m=m, k=r.randrange(n))
            s.add("nbr", X=M(W), Y=M(P), m=m, rr=radius(r, m, [dist(m, a, b) for a in W for b in P], False), th=thr)
            s.add("knbr", X=M(W), Y=M(P), m=m, k=r.randint(0, len(P)), th=thr)
            S.append(s)
        if it % 5 == 0:
            s = sim(tag="generated"); z = lambda: points(r, r.choice([1, 2, 3, 7]), r.choice([1, 2, 3]))
            s.add("gen", what="prod", X=M(z()), Y=M(z()))
            s.add("gen", what="interval", a=r.randint(-9, 9), b=r.randint(-9, 9), n=r.choice([2, 3, 4, 8, 11]))
            s.add("gen", what="circle", rad=r.choice([1, 1, 2, 5]), n=r.choice([1, 2, 3, 4, 6, 8, 12, 24]))
            s.add("gen", what="cylinder", n=r.choice([2, 3, 5, 9]), k=r.choice([1, 2, 3, 4, 6, 8]), rad=r.choice([1, 3]))
            for w in ("sphere", "cube"): s.add("gen", what=w, d=r.choice([1, 2, 3, 8]), n=r.choice([1, 2, 6, 20]), seed=r.randrange(10 ** 6))
            s.add("zoo", X=M(P), m=m, which="refuse", rho=4 * r.choice([1, 2, 3]), eta=4 * r.choice([1, 2, 3, 4]), dmax=1)
            S.append(s)
        if it % 3 == 0:
            s = sim(tag="zoo"); n = r.choice([2, 3, 4, 5] if r.random() < .9 else [8, 10]); dim = r.choice([1, 2])
            P = distinct(r, n, dim) if r.random() < .8 else points(r, n, dim)
            rho = 4 * r.choice([1, 2, 3, 12]); eta = 4 * r.choice([x for x in (1, 2, 3, 12) if 4 * x <= rho])
            s.add("zoo", X=M(P), m=r.choice(METRICS), which="osc", rho=rho, eta=eta, dmax=r.choice([1, 2]))
            s.add("zoo", X=M(P), m=r.choice(["l1", "linf"]), which="dm", rho=rho, eta=eta, dmax=r.choice([1, 2]))
            S.append(s)
    ctx.validate("TopologyTrace", S, ctx.execute("topology", S, label="topology"))


CHECKS = {"A22": a22, "A23": a23, "A30": a30}
