"""A36: strided dense matrices, shared views, dense factorisations and commutations (Strided.tla)."""
from .core import Scn, Fld

ORD = ["row", "col", "rrow", "rcol"]


def a36(ctx):
    fields = [2, 3, 5, 0, 1]
    ctx.build([("strided%d" % p, "strided.cpp", ["-DFIELD=%d" % p]) for p in fields])
    r = ctx.rng
    models(ctx)
    allS, allE = [], []
    for p in fields:
        ring = p == 1; P = 46337 if ring else p
        f = Fld(P); ss = []
        el = (lambda d=.6: r.randint(1, 3) if r.random() < d else 0) if ring else (lambda d=.6: f.rand(r) if r.random() < d else f.zero())
        nz = (lambda: r.randint(1, 3)) if ring else (lambda: f.rand(r))
        def vals(m, n, d=None):
            d = r.choice([0, .2, .5, .9]) if d is None else d
            return [el(d) for _ in range(m * n)]
        class H:
            """A history with the shapes and the memory of its registers."""
            def __init__(h, tag): h.s = Scn({"_p": P}, tag=tag); h.g = {}; h.k = 0
            def new(h, i, m, n, l): h.k += 1; h.g[i] = (h.k, m, n, l)
            def make(h, i, m, n, v=None, l=None):
                l = l or r.choice(ORD); h.s.add("make", i=i, l=l, m=m, n=n, v=vals(m, n) if v is None else v, own=r.randrange(2)); h.new(i, m, n, l)
            def seen(h, d, a, k):
                b, m, n, l = h.g[a]
                l2 = {"T": dict(row="col", col="row", rrow="rcol", rcol="rrow"), "J": dict(row="rrow", col="rcol", rrow="row", rcol="col"), "TJ": dict(row="rcol", col="rrow", rrow="col", rcol="row"), "same": {l: l}}[k][l]
                h.s.add("seen", d=d, a=a, k=k); h.g[d] = (b, m, n, l2) if k in ("J", "same") else (b, n, m, l2)
        cap = 4 if p == 0 else 6
        def tri(n, lower, unit, d=.6):
            return [(f.one() if unit else nz()) if i == j else (el(d) if (i > j) == lower else f.zero()) for i in range(n) for j in range(n)]
        def echelon(m, n):       # EL: pivots in the leading columns, rows increasing
            k = r.randint(0, min(m, n)); rw = sorted(r.sample(range(m), k)); v = [f.zero()] * (m * n)
            for j, i in enumerate(rw): v[i * n + j] = f.one()
            return v
        def J(v): return v[::-1]
        def T(v, m, n): return [v[i * n + j] for j in range(n) for i in range(m)]
        def lowrank(m, n, k):
            if p == 0: k = min(k, 1)
            X = [[r.randint(-1, 1) if p == 0 else r.randrange(p) for _ in range(k)] for _ in range(m)]
            Y = [[r.randint(-1, 1) if p == 0 else r.randrange(p) for _ in range(n)] for _ in range(k)]
            return [f.int(sum(X[i][x] * Y[x][j] for x in range(k))) for i in range(m) for j in range(n)]
        for it in range(500 if ctx.thorough else 110):
            big = p != 0 and r.random() < .08
            dim = lambda: r.choice([1, 2, 3, cap] if not big else [7, 9, 12])
            h = H("views"); s = h.s; m, n = dim(), dim()
            h.make(0, m, n); h.make(1, m, n, v=vals(m, n)); h.seen(2, 0, r.choice(["T", "J", "TJ", "same"])); h.seen(3, r.choice([0, 1, 2]), r.choice(["T", "J", "TJ"])); h.seen(4, 3, r.choice(["T", "J", "TJ"]))
            grow = lambda: sum(o["op"] in ("addr", "addc", "laxpy") for o in s.ops)       # integers stay small
            for _ in range(14):
                a = r.randrange(5); b_, m_, n_, l_ = h.g[a]
                op = r.choice(["put", "swapr", "swapc", "addr", "addc", "laxpy", "lset", "lput", "ldiv", "look", "lines", "eq", "copy", "str", "seen"])
                if op == "put": s.add(op, a=a, i=r.randrange(m_), j=r.randrange(n_), c=el())
                elif op in ("swapr", "swapc", "addr", "addc"):
                    q = m_ if op[-1] == "r" else n_; i, j = r.randrange(q), r.randrange(q)
                    if op[0] == "a":
                        if i == j: continue
                        if ring and grow() > 4: continue
                        s.add(op, a=a, i=i, j=j, c=el(.9))
                    else: s.add(op, a=a, i=i, j=j)
                elif op in ("laxpy", "lset"):
                    k = r.choice("rc"); b = r.randrange(5); q = r.choice("rc"); B_, M_, N_, L_ = h.g[b]
                    if (n_ if k == "r" else m_) != (N_ if q == "r" else M_): continue
                    i, j = r.randrange(m_ if k == "r" else n_), r.randrange(M_ if q == "r" else N_)
                    if B_ == b_ and not (a == b and k == q and i != j): continue
                    if op == "laxpy":
                        if ring and grow() > 4: continue
                        s.add(op, a=a, k=k, i=i, b=b, q=q, j=j, c=el(.9))
                    else: s.add(op, a=a, k=k, i=i, b=b, q=q, j=j)
                elif op == "lput": k = r.choice("rc"); s.add(op, a=a, k=k, i=r.randrange(m_ if k == "r" else n_), j=r.randrange(n_ if k == "r" else m_), c=el())
                elif op == "ldiv":
                    if ring: continue
                    k = r.choice("rc"); s.add(op, a=a, k=k, i=r.randrange(m_ if k == "r" else n_), c=nz() if p else f.int(r.choice([1, -1, 2])))
                elif op in ("look", "lines", "str"): s.add(op, a=a)
                elif op == "eq":
                    b = r.randrange(5)
                    if r.random() < .4: s.add("copy", d=5, a=b); h.new(5, *h.g[b][1:]); b = 5
                    s.add(op, a=a, b=b)
                elif op == "copy": d = r.randrange(5); s.add(op, d=d, a=a); h.new(d, m_, n_, l_)
                elif op == "seen": h.seen(r.randrange(5), a, r.choice(["T", "J", "TJ", "same"]))
            for a in range(5): s.add("look", a=a)
            ss.append(s)
            h = H("products"); s = h.s; m, k, n = dim(), dim(), dim()
            h.make(0, m, k); h.make(1, k, n); s.add("mul", d=2, a=0, b=1); h.make(3, m, m, v=vals(m, m)); s.add("left", a=3, b=0).add("look", a=3)
            h.make(3, k, k, v=vals(k, k)); h.seen(4, 3, r.choice(["T", "J", "TJ", "same"])); s.add("right", a=0, b=4).add("look", a=4).add("left", a=4, b=1)
            l = r.choice(ORD); s.add("zeros", i=5, l=l, m=m, n=n, fill=r.randrange(2)); l = r.choice(ORD); s.add("ident", i=2, l=l, n=n, diag=r.randrange(2)).add("mul", d=5, a=1, b=2).add("eq", a=5, b=1)
            if p == 3: s.add("norm", v=r.choice([[3, 4], [1, 2, 2], [0], [2, 3, 6], [1, 4, 8], [5], [4, 4, 7], [0, 0, 12, 5], [1, 1, 1, 1]]))
            ss.append(s)
            if ring: continue
            h = H("solve"); s = h.s; m, n = (dim(), dim()) if p else (r.choice([1, 2, 3]), r.choice([1, 2, 3]))
            for k in ("Ll", "Ul", "Lr", "Ur"):
                z = m if k[1] == "l" else n; h.make(0, z, z, v=tri(z, k[0] == "L", p == 0 or r.random() < .3)); h.make(1, m, n)
                if r.random() < .4: h.seen(1, 1, "J")
                s.add("inv", k=k, a=0, b=1).add("look", a=0)
            ss.append(s)
            h = H("exchange"); s = h.s
            for k in ("el_l", "l_elh", "euh_u", "u_eu"):
                m, n = dim(), dim(); E = echelon(m, n); X = tri(n, True, True)          # E X for the first kind
                if k == "el_l": e, x = (m, n, E), X
                elif k == "euh_u": e, x = (m, n, J(E)), J(X)
                elif k == "u_eu": e, x = (n, m, T(E, m, n)), T(X, n, n)
                else: e, x = (n, m, J(T(E, m, n))), J(T(X, n, n))
                h.make(0, *e); h.make(1, n, n, v=x); s.add("swapf", k=k, a=0, b=1)
            ss.append(s)
            h = H("factor"); s = h.s
            for k in ("LEUP", "PLEU", "UELP", "PUEL"):
                m, n = r.choice([(1, 1), (2, 2), (3, 3), (cap, cap), (2, 3), (3, 2), (1, 4), (4, 1), (3, cap), (cap, 2)] if not big else [(8, 8), (9, 5), (5, 9)])
                h.make(0, m, n, v=lowrank(m, n, r.choice([0, 1, 2, 3])) if r.random() < .4 else vals(m, n))
                if r.random() < .3: h.seen(0, 0, r.choice(["T", "J", "TJ"]))
                s.add("fact", k=k, a=0)
            ss.append(s)
        allE += ctx.execute("strided%d" % p, ss, label="strided%d" % p); allS += ss
    ctx.validate("StridedTrace", allS, allE)


def models(ctx):
    def mc(kind, P, m, n, what, z):
        ctx.model_check("StridedMC", "CONSTANTS P = %d MM = %d NN = %d KIND = \"%s\"\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (P, m, n, kind), what, expect_states=z)
    k = 6 if ctx.thorough else 4
    mc("order", 2, k, k, "every memory order, shape up to %d x %d and chain of views" % (k, k), 100)
    for P, m, n in [(2, 2, 3), (2, 3, 2), (3, 2, 2), (2, 3, 3)] + ([(3, 2, 3), (3, 3, 2), (2, 3, 4), (2, 4, 3)] if ctx.thorough else []):
        mc("fact", P, m, n, "elimination with every pivot choice for every %d x %d matrix over F_%d" % (m, n, P), 100)
    for P, m, n in [(2, 3, 3), (3, 2, 2), (2, 2, 3), (2, 3, 2)] + ([(3, 3, 3), (2, 4, 4), (3, 2, 3), (3, 3, 2)] if ctx.thorough else []):
        mc("swap", P, m, n, "exchanging every triangular with every echelon factor, %d x %d over F_%d" % (m, n, P), 10)


CHECKS = {"A36": a36}
