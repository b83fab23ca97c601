"""A35: dense matrices, LU, similarity transforms, spans, swaps and ranges (Dense.tla)."""
from .core import Scn, Fld


def a35(ctx):
    fields = [2, 3, 5, 0]
    ctx.build([("dense%d" % p, "dense.cpp", ["-DFIELD=%d" % p]) for p in fields])
    r = ctx.rng
    models(ctx)
    allS, allE = [], []
    for p in fields:
        f = Fld(p); ss = []
        el = lambda d=.6: f.rand(r) if r.random() < d else f.zero()
        def vals(m, n, d=None):
            d = r.choice([0, .2, .5, .9]) if d is None else d
            return [el(d) for _ in range(m * n)]
        def ordr(): return r.choice(["row", "col", "plain"])
        def make(s, i, m, n, o=None, v=None): s.add("make", i=i, m=m, n=n, ord=o or ordr(), v=vals(m, n) if v is None else v)
        def lowrank(m, n, k):                       # a product of thin matrices, with rows and columns in any order
            if p == 0: k = min(k, 1)
            A = [[r.randint(-1, 1) if p == 0 else r.randrange(p) for _ in range(k)] for _ in range(m)]
            B = [[r.randint(-1, 1) if p == 0 else r.randrange(p) for _ in range(n)] for _ in range(k)]
            return [f.int(sum(A[i][x] * B[x][j] for x in range(k))) for i in range(m) for j in range(n)]
        cap = 4 if p == 0 else 6
        for it in range(400 if ctx.thorough else 90):
            big = p != 0 and r.random() < .1
            dim = lambda: r.choice([1, 2, 3, cap] if not big else [7, 9, 12])
            s = Scn({"_p": p}, tag="matrices"); m, k, n = dim(), dim(), dim()
            make(s, 0, m, k); make(s, 1, k, n)
            s.add("mul", d=2, a=0, b=1, how=r.choice(["op", "mm", "gemm"])).add("T", d=3, a=2).add("mv", a=0, x=vals(1, k)).add("walk", a=0).add("walk", a=r.choice([1, 2, 3]))
            s.add("fill", i=2, m=dim(), n=dim(), ord=ordr(), c=el()).add("ident", i=2, n=dim()).add("tocol", d=1, a=0).add("walk", a=1)
            for _ in range(6):
                d = r.choice([0, 1]); c = r.choice(["swapr", "swapc", "addr", "addc", "scaler", "scalec", "appc", "delc", "view", "viewset", "viewr"])
                if c in ("swapr", "swapc", "addr", "addc"):
                    q = m if c[-1] == "r" else k
                    i, j = r.randrange(q), r.randrange(q)
                    if c[0] == "a":
                        if i == j: continue
                        one = r.random() < .3; s.add(c, d=d, i=i, j=j, c=f.one() if one else el(.9), one=int(one))
                    else: s.add(c, d=d, i=i, j=j)
                elif c in ("scaler", "scalec"): s.add(c, d=d, i=r.randrange(m if c[-1] == "r" else k), c=el(.9))
                elif c in ("view", "viewset", "viewr"):
                    if c == "viewr":
                        a, b = sorted((r.randint(0, m), r.randint(0, m))); x, y = sorted((r.randint(0, k), r.randint(0, k))); s.add("viewr", a=d, r0=a, r1=b, c0=x, c1=y)
                    else:
                        rs, cs = r.sample(range(m), r.randint(0, m)), r.sample(range(k), r.randint(0, k))
                        if c == "view" and rs and r.random() < .3: rs.append(rs[0])
                        s.add(c, a=d, rs=rs, cs=cs, **({"x": el()} if c == "viewset" else {}))
            # columns come and go
            make(s, 3, m, r.choice([0, 1, 2]), o="col"); z = 0
            for _ in range(4):
                if r.random() < .7 or z <= 0: s.add("appc", d=3, c=el()); z += 1
                else: s.add("delc", d=3); z -= 1
            s.add("walk", a=3); make(s, 3, m, m + 1, o="row"); s.add("appc", d=3, c=el())
            ss.append(s)
            s = Scn({"_p": p}, tag="lu")
            for _ in range(2):
                m, n = r.choice([(1, 1), (2, 2), (3, 3), (cap, cap), (2, 3), (3, 2), (1, 4), (4, 1), (3, cap), (cap, 2)] if not big else [(8, 8), (9, 5), (5, 9)])
                v = lowrank(m, n, r.choice([0, 1, 2, 3])) if r.random() < .4 else vals(m, n)
                make(s, 0, m, n, v=v); s.add("lu", a=0)
            for _ in range(2):
                m = dim(); n = r.randint(1, m) if p else r.randint(1, min(m, 3)); L = [f.one() if i == j else (el(.6) if i > j else f.zero()) for i in range(m) for j in range(n)]
                make(s, 1, m, n, v=L)
                for _ in range(2):
                    y = vals(1, m)
                    if r.random() < .4:           # in the span of the columns
                        c = [r.randint(-1, 1) for _ in range(n)]
                        def num(x): return x if p else x[0] / x[1]
                        if p: y = [sum(L[i * n + j] * c[j] for j in range(n)) % p for i in range(m)]
                        else:
                            j = r.randrange(n); y = [L[i * n + j] for i in range(m)]
                    s.add("lsolve", a=1, y=y)
                    s.add("lres", a=1, y=vals(1, m))
            ss.append(s)
            s = Scn({"_p": p}, tag="span"); n = r.choice([1, 2, 3, 4, cap]) if not big else 9; s.add("span", n=n); vs = []
            for _ in range(n + 2):
                v = vals(1, n)
                if vs and r.random() < .35:
                    a, b = r.choice(vs), r.choice(vs); v = [(x + y) % p for x, y in zip(a, b)] if p else list(a)
                w = vals(1, n)
                s.add("shas", v=r.choice(vs) if vs and r.random() < .3 else w).add("sadd", v=v).add("shas", v=v).add("shas", v=w); vs.append(v)
            ss.append(s)
            s = Scn({"_p": p}, tag="similarity"); n = r.choice([1, 2, 3, min(cap, 4)] if not big else [6, 8]); make(s, 0, n, n, v=vals(n, n) if p else [f.int(r.randint(-1, 1)) for _ in range(n * n)]); s.add("sim", a=0)
            for _ in range(5 if p else 3):
                i, j = r.randrange(n), r.randrange(n); c = r.choice(["swapr", "swapc", "add", "scaler", "scalec"])
                if c == "add" and i == j: continue
                x = f.rand(r) if p else f.int(r.choice([1, -1, 2]))
                s.add("simop", k=c, i=i, j=j, c=x)
            ss.append(s)
            s = Scn({"_p": p}, tag="swaps"); n = r.choice([1, 2, 4, 7]); k = r.choice([0, 1, 2, 3, 5])
            s.add("perm", **{"is": [r.randrange(n) for _ in range(k)], "js": [r.randrange(n) for _ in range(k)], "hows": [r.randrange(4) for _ in range(k)], "data": [r.randint(0, 9) for _ in range(n)]})
            b = r.randint(-3, 5); st = r.choice([1, 2, 3, -1, -2]); two = r.random() < .5
            s.add("range", b=b, e=b + (abs(st) * 0 + r.choice([0, 1, 4])) if two else b + st * r.choice([0, 1, 2, 5]), s=st, two=int(two))
            ss.append(s)
        allE += ctx.execute("dense%d" % p, ss, label="dense%d" % p); allS += ss
    ctx.validate("DenseTrace", allS, allE)


def models(ctx):
    for P, m, n in [(2, 2, 3), (2, 3, 2), (3, 2, 2)] + ([(2, 3, 3), (3, 2, 3), (3, 3, 2)] if ctx.thorough else []):
        ctx.model_check("DenseMC", "CONSTANTS P = %d MM = %d NN = %d KIND = \"lu\"\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (P, m, n),
                        "LU with every choice of pivots for every %d x %d matrix over F_%d" % (m, n, P), expect_states=100)
    for P, n in [(2, 3), (3, 2)] + ([(3, 3), (5, 2)] if ctx.thorough else []):
        ctx.model_check("DenseMC", "CONSTANTS P = %d MM = %d NN = %d KIND = \"span\"\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (P, n, n),
                        "growing a span with every sequence of vectors of F_%d^%d and every pivot" % (P, n), expect_states=10)
    for P, n in [(3, 2)] + ([(2, 3)] if ctx.thorough else []):
        ctx.model_check("DenseMC", "CONSTANTS P = %d MM = %d NN = %d KIND = \"sim\"\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (P, n, n),
                        "similarity transforms: every sequence of elementary operations on every matrix of order %d over F_%d" % (n, P), expect_states=100)


CHECKS = {"A35": a35}
