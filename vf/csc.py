"""A33: compressed-column matrices (CSC.tla)."""
from .core import Scn, Fld

NOI = 1000000001


def a33(ctx):
    fields = [2, 3, 5, 0]
    ctx.build([("csc%d" % p, "csc.cpp", ["-DFIELD=%d" % p]) for p in fields])
    r = ctx.rng
    for P, N in [(3, 2), (2, 3)] + ([(3, 3), (5, 2)] if ctx.thorough else []):
        ctx.model_check("CSCMC", "CONSTANTS P = %d N = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (P, N),
                        "back substitution and accumulation for every triangular system of order %d over F_%d" % (N, P), expect_states=100)
    allS, allE = [], []
    for p in fields:
        f = Fld(p); ss = []
        def make(s, i, m, n, tri=False, how="full"):
            cp, ri, v = [0], [], []
            dens = r.choice([0, .2, .5, .9])
            for j in range(n):
                rows = [i_ for i_ in range(m if not tri else j) if r.random() < dens]
                if tri: rows.append(j)
                r.shuffle(rows)
                ri += rows; v += [f.rand(r) for _ in rows]; cp.append(len(ri))
            if how == "infer": m = max(ri, default=-1) + 1
            s.add("make", i=i, m=m, n=n, how=how, cp=cp, ri=ri, v=v)
        for _ in range(500 if ctx.thorough else 100):
            s = Scn({"_p": p}, tag="csc")
            big = r.random() < .1
            dim = lambda: r.choice([0, 1, 2, 3, 4, 6] if not big else [8, 12, 17])
            m, k, n = dim(), dim(), dim()
            make(s, 3, 2, 2)                  # results are written over an old matrix
            make(s, 0, m, k); make(s, 1, k, n); s.add("mul", d=2, a=0, b=1, how=r.choice(["op", "gemm"]))
            s.add("sub", d=2, a=0, rs=r.sample(range(m), r.randint(0, m)), cs=r.sample(range(k), r.randint(0, k)) + ([r.randrange(k)] if k and r.random() < .3 else []))
            def place(m):
                keep = r.sample(range(m), r.randint(0, m)); pl = [NOI] * m
                for x, i in enumerate(keep): pl[i] = x
                return pl, len(keep)
            pl, mm = place(m); cs = r.sample(range(k), r.randint(0, k))
            s.add("block", d=2, a=0, cs=cs, pl=pl, m=mm)
            side = [r.randrange(3) for _ in range(m)]; pls = []
            for w in (0, 1):
                own = [i for i in range(m) if side[i] == w]; q = list(range(len(own))); r.shuffle(q); pl = [NOI] * m
                for i, x in zip(own, q): pl[i] = x
                pls += [(pl, len(own))]
            s.add("block2", d=2, a=0, cs=cs, p1=pls[0][0], p2=pls[1][0], m1=pls[0][1], m2=pls[1][1])
            make(s, 1, m, k); s.add("sum", d=2, a=0, b=1); s.add("axpy", d=2, a=0, b=1, al=f.rand(r, nz=False))
            s.add("copy", d=1, a=0).add("axpy", d=2, a=0, b=1, al=f.int(-1))       # cancels
            n2 = r.choice([1, 2, 3, 4, 5] if p == 0 else [1, 2, 3, 4, 6, 9])
            make(s, 0, n2, n2, tri=True); make(s, 1, n2, r.choice([0, 1, 2, 4])); s.add("solve", d=2, a=0, b=1).add("mul", d=1, a=0, b=2, how="op")
            make(s, 0, dim(), dim(), how="infer")
            ss.append(s)
        allE += ctx.execute("csc%d" % p, ss, label="csc%d" % p); allS += ss
    ctx.validate("CSCTrace", allS, allE)


CHECKS = {"A33": a33}
