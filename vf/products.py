"""A24: products, tensor products, relative and sub complexes (Product.tla)."""
from .core import Scn, Fld
from . import gen


def cpx(r, labels, tops=(1, 1, 2, 3), dims=(1, 2, 2, 3), extra=True):
    K = set()
    for _ in range(r.choice(tops)):
        K |= gen.closure(tuple(sorted(r.sample(labels, min(len(labels), r.choice(dims))))))
    return K


def lst(K, r, extra=False):
    return gen.simp_cells(K, max((len(s) for s in K), default=1) - 1 + extra, r)


def sub(r, K):
    A = set()
    for _ in range(r.choice([0, 1, 1, 2, 3])): A |= gen.closure(r.choice(sorted(K)))
    return A


def labels(r, gaps):
    n = r.choice([1, 2, 3, 3, 4])
    return sorted(r.sample(range(7), n)) if gaps else list(range(n))


def chain(r, f, big=True):
    c = [tuple(x) for x in gen.rand_chain(r, f, [r.choice([1, 2, 3]) for _ in range(r.choice([1, 2, 2, 3]))])]
    return [(1, c[0][1], tuple([] for _ in range(c[0][1])))] + c[1:]


def enc(ms):
    return [(m, n, c) for m, n, c in ms]


SQ = [(0, 1), (1, 2), (2, 3), (0, 3)]


def a24(ctx):
    fields = [2, 3, 5, 0]
    ctx.build([("product%d" % p, "product.cpp", ["-DFIELD=%d" % p]) for p in fields])
    r = ctx.rng; N = (lambda a, b: a if ctx.thorough else b)
    allS, allE = [], []
    for p in fields:
        f = Fld(p); ss = []
        def S(tag, kind="simp"): s = Scn({"kind": kind, "_p": p}, tag=tag + "-" + kind); ss.append(s); return s
        def pair(kind):
            gaps = r.random() < .4
            X, Y = cpx(r, labels(r, gaps), dims=(1, 2, 2, 3)), cpx(r, labels(r, gaps), tops=(1, 1, 2), dims=(1, 2, 2, 3))
            k = r.random()
            if k < .12: X = {t for u in [(0, 1), (1, 2), (0, 2)] for t in gen.closure(u)}
            if .06 < k < .15: Y = {t for u in SQ for t in gen.closure(u)}
            if .15 < k < .2: X = gen.closure((0, 1, 2, 3)); Y = cpx(r, [0, 1], tops=(1,), dims=(1, 2))
            if .2 < k < .23: X = cpx(r, list(range(7)), tops=(2, 3), dims=(3, 4, 5)); Y = cpx(r, list(range(4)), tops=(1,), dims=(1, 2))
            if k > .9 and kind == "simp": (X if r.random() < .5 else Y).clear()
            if k > .95: Y = {(0,), (r.choice([1, 3]),)} | cpx(r, [0, 1, 2], tops=(1,), dims=(1, 2))
            return X, Y
        top = lambda K: max((len(s) for s in K), default=1) - 1
        for _ in range(N(400, 70)):
            kind = r.choice(["simp", "light"]); s = S("triangulated-product", kind); X, Y = pair(kind)
            x, y = lst(X, r, r.random() < .15), lst(Y, r, r.random() < .15)
            md = r.choice([-1, -1, len(x) + len(y) - 2, r.randrange(len(x) + len(y))])
            b = 1 + max((t[0] for t in X if len(t) == 1), default=0)
            s.add("tri", x=x, y=y, md=md, n=-1 if md < 0 else r.choice([-1, b, b + 2]))
        for _ in range(N(400, 70)):
            kind = r.choice(["simp", "light"]); s = S("eilenberg-zilber", kind); X, Y = pair(kind)
            x, y = lst(X, r, r.random() < .15), lst(Y, r, r.random() < .15)
            s.add("ez", x=x, y=y, md=r.choice([len(x) + len(y) - 2, len(x) + len(y) - 2, r.randrange(len(x) + len(y))]))
        for _ in range(N(300, 60)):
            s = S("relative-eilenberg-zilber"); X, Y = pair("light")
            A, B = sub(r, X), sub(r, Y)
            x, y = lst(X, r), lst(Y, r)
            s.add("ezrel", x=x, a=lst(A, r), y=y, b=lst(B, r), md=r.choice([len(x) + len(y) - 2, len(x) + len(y) - 2, r.randrange(len(x) + len(y))]))
        for _ in range(N(500, 80)):
            s = S("relative"); X = cpx(r, sorted(r.sample(range(9), 5)), tops=(1, 2, 3, 4), dims=(1, 2, 3, 4))
            s.add("relc", x=lst(X, r, r.random() < .2), a=lst(sub(r, X), r))
        for _ in range(N(400, 70)):
            s = S("mayer-vietoris"); lab = sorted(r.sample(range(9), 5))
            A = cpx(r, lab, tops=(1, 2, 3), dims=(1, 2, 3, 3)); B = cpx(r, lab, tops=(1, 2, 3), dims=(1, 2, 3, 3))
            for _ in range(r.choice([0, 1, 2])): B |= gen.closure(r.choice(sorted(A)))
            if r.random() < .05: A = {t for t in gen.closure(tuple(range(8)))}; B = {t for t in A if 7 not in t or len(t) < 3} if r.random() < .7 else set(A)
            s.add("mv", a=lst(A, r), b=lst(B, r))
        for _ in range(N(400, 70)):
            s = S("sub-quotient"); K = cpx(r, list(range(5)), tops=(1, 2, 3), dims=(1, 2, 3, 4)); A = sub(r, K); c = lst(K, r)
            D = bd(c, f); inds = []
            for q in c:
                i = [j for j, t in enumerate(q) if tuple(t) in A]; r.shuffle(i); inds.append(i)
            s.add("sub", d=D, inds=inds)
        for _ in range(N(500, 80)):
            s = S("tensor"); a, b = chain(r, f), chain(r, f)
            s.add("tens", a=a, b=b, d=r.choice([-1, -1, r.randrange(len(a) + len(b) + 1)]))
            dx, dy = r.randrange(len(a)), r.randrange(len(b))
            s.add("kronc", a=a, b=b, dx=dx, x=f.vec(r, a[dx][1], .5), dy=dy, y=f.vec(r, b[dy][1], .5))
            if r.random() < .2:                                                    # many dimensions
                t = [tuple(x) for x in gen.rand_chain(r, f, [r.choice([1, 1, 2]) for _ in range(r.choice([8, 9]))])]; t = [(1, t[0][1], tuple([] for _ in range(t[0][1])))] + t[1:]
                u, v = (t, b) if r.random() < .5 else (b, t); dx, dy = r.randrange(len(u)), r.randrange(len(v))
                s.add("tens", a=u, b=v, d=r.choice([-1, len(t) - 1])).add("kronc", a=u, b=v, dx=dx, x=f.vec(r, u[dx][1], .8), dy=dy, y=f.vec(r, v[dy][1], .8))
            s.add("mat", a=a[-1], b=b[-1]).add("mat", a=b[0], b=a[-1])
            m = r.randrange(1, 6); s.add("vec", a=f.vec(r, r.randrange(6), .5), b=f.vec(r, m, .6), m=m)
        for _ in range(N(400, 70)):
            s = S("kron-homology")
            if r.random() < .5: a, b = chain(r, f), chain(r, f)
            else: a, b = bd(lst(cpx(r, [0, 1, 2, 3], dims=(1, 2, 2)), r), f), bd(lst(cpx(r, [0, 1, 2], dims=(1, 2, 2)), r), f)
            s.add("kronh", a=a, b=b, al=r.choice(["default", "clear", "extra"]), bl=r.choice(["default", "std"]), cl=r.choice(["default", "clear", "extra"]))
        allE += ctx.execute("product%d" % p, ss, label="product%d" % p); allS += ss
    ctx.validate("ProductTrace", allS, allE)
    for P, nx, ny in [(2, 3, 2), (3, 3, 2), (3, 2, 3), (3, 3, 3)] if ctx.thorough else [(3, 3, 2)]:
        ctx.model_check("ProductMC", "CONSTANTS P = %d NX = %d NY = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (P, nx, ny),
                        "Kunneth, Eilenberg-Zilber and the long exact sequence for all complexes on %d and %d vertices over F%d" % (nx, ny, P), expect_states=90)


def bd(cells, f):
    """boundary matrices of the listed simplices"""
    out = [(1, len(cells[0]), tuple([] for _ in cells[0]))]
    for k in range(1, len(cells)):
        idx = {tuple(s): i for i, s in enumerate(cells[k - 1])}
        out.append((len(cells[k - 1]), len(cells[k]),
                    tuple(sorted((idx[tuple(s[:j] + s[j + 1:])], f.int((-1) ** j)) for j in range(len(s))) for s in cells[k])))
    return out


CHECKS = {"A24": a24}
