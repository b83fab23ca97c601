"""A28: functors between diagrams (FunctorTrace.tla, FunctorMC.tla)."""
from .core import Scn


def dist(m, x, y):
    d = [abs(a - b) for a, b in zip(x, y)]
    return sum(d) if m == "l1" else max(d) if m == "linf" else sum(a * a for a in d)


def radius(r, m, P):
    """a radius in the units of Metric.tla that no distance attains in the Euclidean metric"""
    ds = sorted({dist(m, x, y) for x in P for y in P}) or [0]
    d = r.choice(ds + [ds[-1] + 3])
    if m == "euc": return 4 * d + 2
    return max(0, 2 * d + r.choice([0, 0, 1, -1]))


def pos(s, t): return [sorted(t).index(x) for x in sorted(s)]


def queries(s, r, T, dmax, n, line):
    th = lambda: r.choice(T)
    s.add("chain", th=th(), how=r.choice(["tm", "tf", "us", "api"]))
    k = r.randrange(dmax + 1)
    s.add("hom", th=th(), k=k)
    if line and n >= 2: s.add("bars", th=th(), k=k)
    if n: s.add("homs", th=th(), top=r.choice([-1, 0, 1, 1]))
    for deg in ([-1, 1] if r.random() < .7 else [0]):
        s.add("dgl", th=th(), deg=deg).add("dghom", th=th(), k=r.randrange(dmax + 1))
        if n and r.random() < .6: s.add("dghoms", th=th(), top=r.choice([-1, 0, 1, 1]))


def covers(r, p, T):
    """a diagram of covers: sources refine targets; closed under composition when there is a path of two edges"""
    s = Scn({"_p": p}, tag="nerve"); U = r.choice([3, 4, 5, 6])
    def some(lo=1): return sorted(r.sample(range(U), r.randrange(lo, min(U, 4) + 1)))
    def refine(c):                                           # a cover and its map into c
        k = r.choice([1, 2, 3, 4]); f = [r.randrange(len(c)) for _ in range(k)]
        if r.random() < .4: f = list(range(len(c))); r.shuffle(f)
        return [sorted(r.sample(c[i], r.randrange(min(1, len(c[i])), len(c[i]) + 1))) for i in f], f
    shape = r.choice(["one", "arrow", "arrow", "line", "tri", "tri", "none", "loop", "fork"])
    top = [some(0 if r.random() < .1 else 1) for _ in range(r.choice([2, 3, 4, 4]))]
    if shape == "none": cs, ed = [], []
    elif shape == "one": cs, ed = [top], []
    elif shape == "loop": cs, ed = [top], [(0, 0, list(range(len(top))))]
    elif shape == "arrow": a, f = refine(top); cs, ed = [a, top], [(0, 1, f)]
    elif shape == "fork":
        a, f = refine(top); b, g = refine(top); cs, ed = [top, a, b], [(1, 0, f), (2, 0, g), (1, 0, f)]
    elif shape == "line":
        a, f = refine(top); b, g = refine(top); c, h = refine(b)
        cs, ed = [a, top, b, c], [(0, 1, f), (2, 1, g), (3, 2, h)]
    else:
        b, g = refine(top); a, f = refine(b); cs, ed = [a, b, top], [(0, 1, f), (1, 2, g), (0, 2, [g[x] for x in f])]
        if r.random() < .5: ed.append((1, 1, list(range(len(b)))))
        r.shuffle(ed)
    d = r.choice([1, 1, 2, 2, 3])
    s.add("nerve", th=r.choice(T), c=cs, ed=ed, d=d)
    queries(s, r, T, d, len(cs), shape in ("line", "one", "arrow"))
    return s


def points(r, p, T):
    """diagrams of subsets of a point set"""
    s = Scn({"_p": p}, tag="rips"); m = r.choice(["l1", "linf", "euc"])
    d = r.choice([1, 1, 2]); n = r.choice([2, 3, 4, 5, 6, 7])
    mirror = r.random() < .25
    P = [[r.randrange(-3, 4) for _ in range(d)] for _ in range(n)]
    if mirror:                                               # closed under x -> -x, so that the reflection is an isometry of the whole set
        P = P[:3]; P = P + [[-x for x in q] for q in P]; n = len(P)
    def some(): return sorted(r.sample(range(n), r.randrange(1, min(n, 5) + 1)))
    line = False
    if mirror:
        f = [(i + n // 2) % n for i in range(n)]; U = list(range(n))
        sets, ed = [U, U, U], [(0, 1, f), (1, 2, f), (0, 2, U)]
        r.shuffle(ed)
    else:
        shape = r.choice(["union", "cap", "tri", "tri", "poset", "sweep", "sweep", "none", "alone"])
        if shape == "none": sets, ed = [], []
        elif shape in ("union", "cap"):
            S = [some() for _ in range(r.choice([1, 2, 3]))]; sets, ed = [], []
            for i, a in enumerate(S):
                if i:
                    b = sorted(set(S[i - 1]) | set(a)) if shape == "union" else sorted(set(S[i - 1]) & set(a))
                    j = len(sets); sets += [b, a]
                    for u in ((j - 1, j), (j + 1, j)): ed.append((u + (pos(sets[u[0]], sets[u[1]]),)) if shape == "union" else (u[1], u[0], pos(sets[u[1]], sets[u[0]])))
                else: sets.append(a)
            line = True
        elif shape == "sweep":                               # one point set (that may grow), larger and larger radii
            U = some(); sets = [U]
            for _ in range(r.choice([1, 2, 3])): sets.append(sets[-1] if r.random() < .7 else sorted(set(sets[-1]) | set(some())))
            ed = [(i, i + 1, pos(sets[i], sets[i + 1])) for i in range(len(sets) - 1)]
            if len(sets) == 3 and r.random() < .5: ed.append((0, 2, pos(sets[0], sets[2]))); r.shuffle(ed)
            else: line = True
        elif shape == "alone": sets, ed = [some(), some()], []
        else:
            c = some(); b = sorted(r.sample(c, r.randrange(1, len(c) + 1))); a = sorted(r.sample(b, r.randrange(0 if r.random() < .2 else 1, len(b) + 1)))
            sets = [a, b, c]; ed = [(0, 1, pos(a, b)), (1, 2, pos(b, c)), (0, 2, pos(a, c))]
            if shape == "poset": sets.append(some()); ed = ed + [(1, 1, list(range(len(b))))]     # an isolated node
            r.shuffle(ed)
    k = r.choice([0, 1, 1]) if p != 0 else r.choice([0, 1]); dmax = r.choice([k + 1, k + 1, 1, 2])
    Q = (n, d, tuple(x for q in P for x in q))
    base = dict(sets=sets, ed=ed, P=Q, m=m)
    one = radius(r, m, P)
    # one radius per node, non-decreasing along the edges
    rr = [radius(r, m, P) for _ in sets]
    for _ in range(len(sets)):
        for a, b, _f in ed: rr[b] = max(rr[a], rr[b])
    if mirror: rr = [max(rr)] * len(sets)
    if r.random() < .5: s.add("rips", th=r.choice(T), **base, rr=[one], d=dmax); use = [one] * len(sets)
    else: s.add("ripsat", th=r.choice(T), **base, rr=rr, d=dmax); use = rr
    queries(s, r, T, dmax, len(sets), line)
    # the functor that keeps only homology
    s.add("ripsat", th=r.choice(T), **base, rr=use, d=k + 1).add("chain", th=r.choice(T), how="api").add("hom", th=r.choice(T), k=k)
    for t in ([1, 8] if r.random() < .5 else [r.choice(T)]): s.add("riphom", th=t, **base, rr=use, k=k)
    proper = [e for e in ed if e[0] != e[1]]
    if proper and not mirror and r.random() < .5:            # a radius that decreases along an edge
        a, b, _f = r.choice(proper); bad = list(rr); bad[b] = bad[a] - (4 if m == "euc" else 1)
        if bad[b] >= 0: s.add(r.choice(["ripsat"]), th=r.choice(T), **base, rr=bad, d=dmax).add("riphom", th=r.choice(T), **base, rr=bad, k=k)
    return s


def a28(ctx):
    fields = [2, 3, 0]
    ctx.build([("functor%d" % p, "functor.cpp", ["-DFIELD=%d" % p]) for p in fields])
    r = ctx.rng; T = [1, 2, 4, 8]
    allS, allE = [], []
    for p in fields:
        ss = []
        for _ in range(400 if ctx.thorough else 70): ss.append(covers(r, p, T))
        for _ in range(400 if ctx.thorough else 95): ss.append(points(r, p, T))
        allE += ctx.execute("functor%d" % p, ss, label="functor%d" % p); allS += ss
    ctx.validate("FunctorTrace", allS, allE)
    for W, N, M in [(2, 3, 3), (3, 3, 3)] if ctx.thorough else [(2, 3, 3)]:
        for o in ("FALSE", "TRUE"):
            ctx.model_check("FunctorMC", "CONSTANTS W = %d\nN = %d\nM = %d\nOnePass = %s\nINIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" % (W, N, M, o),
                            "every schedule of the parallel loops gives the functor (%d workers, all graphs with %d nodes and %d edges)" % (W, N, M), expect_states=1000)


CHECKS = {"A28": a28}
