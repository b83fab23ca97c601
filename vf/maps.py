"""A19: cell maps, chain maps and induced maps (Maps.tla)."""
from .core import Scn, Fld
from . import gen

OPTS = [("default", "none")] + [(a, o) for a in ("standard", "extra", "dq") for o in ("none", "clear")]


def image(K, f): return {tuple(sorted({f[v] for v in s})) for s in K}


def rel_sub(r, K):
    A = set()
    for _ in range(r.choice([0, 1, 1, 2])): A |= gen.closure(r.choice(sorted(K)))
    return A


def listing(K, r, extra=0):
    D = max((len(s) for s in K), default=1) - 1 + extra
    return gen.simp_cells(K, D, r)


def a19(ctx):
    fields = [2, 3, 0]
    ctx.build([("maps%d" % p, "maps.cpp", ["-DFIELD=%d" % p]) for p in fields])
    r = ctx.rng
    allS, allE = [], []
    for p in fields:
        f = Fld(p); ss = []
        for _ in range(350 if ctx.thorough else 60):
            kind = r.choice(["simp", "simp", "light"])
            s = Scn({"kind": kind, "_p": p}, tag="vertex-maps-" + kind); nv = r.choice([2, 3, 4, 5, 6]); big = r.random() < .06
            if big: nv = 9
            s.h = {"kind": kind, "_p": p}
            def cpx(i, K): 
                c = listing(K, r, extra=r.random() < .2); s.add("cpx", i=i, nv=nv, cells=c); return len(c) - 1
            K = set()
            for _ in range(r.choice([1, 2, 3, 4])):
                K |= gen.closure(tuple(sorted(r.sample(range(nv), min(nv, r.choice([1, 2, 3, 3, 4] if not big else [3, 4, 5]))))))
            if r.random() < .25 and nv >= 4: K = {t for t in gen.closure((0, 1, 2, 3)) if len(t) < 4}
            if r.random() < .15 and nv >= 6: K = {t for u in gen.RP2 for t in gen.closure(u)}
            mode = r.choice(["any", "any", "perm", "perm", "near"])
            def vm():
                if mode == "perm": q = list(range(nv)); r.shuffle(q); return q
                if mode == "near":
                    q = list(range(nv)); r.shuffle(q); q[r.randrange(nv)] = r.randrange(nv); return q
                return [r.randrange(nv) for _ in range(nv)]
            def extra(L):
                L = set(L)
                for _ in range(r.choice([0, 0, 1, 2])): L |= gen.closure(tuple(sorted(r.sample(range(nv), min(nv, r.choice([1, 2, 3]))))))
                return L
            f0, g0 = vm(), vm()
            Y = extra(image(K, f0)); Z = extra(image(Y, g0))
            d = [cpx(0, K), cpx(1, Y), cpx(2, Z)]
            h0 = [g0[x] for x in f0]
            s.add("map", i=0, how="vert", a=0, b=1, f0=f0).add("map", i=1, how="vert", a=1, b=2, f0=g0)
            s.add("map", i=2, how="vert", a=0, b=2, f0=h0, _of=[0, 1])
            s.add("map", i=3, how="id", a=0, b=0)
            o = list(range(d[0] + 1)); r.shuffle(o)
            if r.random() < .3: s.add("assign", m=2, order=o)
            for i in range(3): a, o = r.choice(OPTS); s.add("red", i=i, alg=a, opt=o)
            for k in range(d[0] + 1):
                if k <= d[1]: s.add("induced", m=0, a=0, b=1, k=k, _id=0)
                if k <= d[2] and k <= d[1]: s.add("induced", m=1, a=1, b=2, k=k, _id=0)
                if k <= d[2]:
                    e = dict(m=2, a=0, b=2, k=k, _id=0)
                    if k <= d[1]: e["_of"] = [0, 1]
                    s.add("induced", **e)
                s.add("induced", m=3, a=0, b=0, k=k, _id=1)
            dgs(r, s, d, f, p)
            ss.append(s)
        for n in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3): ss.append(Scn({"kind": "simp", "_p": p}, tag="subdivided-triangle").add("serp", n=n))
        for _ in range(200 if ctx.thorough else 35):
            kind = r.choice(["simp", "cube", "light"]); s = Scn({"kind": kind, "_p": p}, tag="inclusion-" + kind)
            if kind == "cube":
                n = r.choice([1, 2, 3]); c = gen.cube_random(r, n=n, ntop=r.choice([1, 2, 3]))
                K = {tuple(x) for q in c for x in q}
                def lst(K):
                    out = [[] for _ in range(n + 1)]
                    for x in sorted(K): out[gen.cube_dim(x)].append(list(x))
                    for q in out: r.shuffle(q)
                    return out
                def clo(x):
                    o, todo = set(), [x]
                    while todo:
                        y = todo.pop()
                        if y not in o: o.add(y); todo += gen.cube_faces(y)
                    return o
            else:
                lab = sorted(r.sample(range(9), r.choice([2, 3, 4, 5]))) if kind == "simp" else list(range(r.choice([2, 3, 4, 5])))
                K = set()
                for _ in range(r.choice([1, 2, 3, 4])): K |= gen.closure(tuple(sorted(r.sample(lab, min(len(lab), r.choice([1, 2, 3, 4]))))))
                lst = lambda K: listing(K, r)
                clo = gen.closure
            def sub(K):
                A = set()
                for _ in range(r.choice([1, 1, 2, 3])): A |= clo(r.choice(sorted(K)))
                return A
            Y = sub(K); X = sub(Y)
            d = []
            for i, q in enumerate((X, Y, K)): c = lst(q); s.add("cpx", i=i, nv=9, cells=c); d.append(len(c) - 1)
            s.add("map", i=0, how="incl", a=0, b=1).add("map", i=1, how="incl", a=1, b=2).add("map", i=2, how="incl", a=0, b=2, _of=[0, 1]).add("map", i=3, how="id", a=1, b=1)
            for i in range(3): a, o = r.choice(OPTS); s.add("red", i=i, alg=a, opt=o)
            for k in range(min(d) + 1):
                s.add("induced", m=0, a=0, b=1, k=k, _id=0).add("induced", m=1, a=1, b=2, k=k, _id=0).add("induced", m=2, a=0, b=2, k=k, _id=0, _of=[0, 1]).add("induced", m=3, a=1, b=1, k=k, _id=1)
            dgs(r, s, d, f, p)
            ss.append(s)
        for _ in range(400 if ctx.thorough else 80):                # complexes and chain maps given by their matrices
            s = Scn({"kind": "raw", "_p": p}, tag="raw"); top = r.choice([1, 2, 2, 3]); hid = r.random() < .8
            big = r.random() < .6; Cs = [gen.split_complex(r, p, top, big) for _ in range(3)]
            if hid and r.random() < .3: Cs[2] = Cs[0]
            for i, C in enumerate(Cs): s.add("rawcpx", i=i, D=[gen.sparse(f, M, 1 if k == 0 else C["n"][k - 1], C["n"][k]) for k, M in enumerate(C["D"])])
            F, G = gen.split_map(r, Cs[0], Cs[1]), gen.split_map(r, Cs[1], Cs[2])
            H = [gen._mul(p, G[k], F[k], Cs[2]["n"][k], Cs[0]["n"][k]) for k in range(top + 1)]
            N = [C["n"] for C in Cs]; sm = lambda M, a, b: [gen.sparse(f, M[k], N[b][k], N[a][k]) for k in range(top + 1)]
            s.add("rawmap", i=0, a=0, b=1, F=sm(F, 0, 1)).add("rawmap", i=1, a=1, b=2, F=sm(G, 1, 2)).add("rawmap", i=2, a=0, b=2, F=sm(H, 0, 2))
            s.add("rawmap", i=3, a=0, b=0, F=[gen.sparse(f, [[int(i == j) for j in range(n)] for i in range(n)], n, n) for n in N[0]])
            for i in range(3): a, o = r.choice(OPTS); s.add("red", i=i, alg=a, opt=o)
            for k in range(top + 1):
                s.add("induced", m=0, a=0, b=1, k=k, _id=0).add("induced", m=1, a=1, b=2, k=k, _id=0).add("induced", m=2, a=0, b=2, k=k, _id=0, _of=[0, 1]).add("induced", m=3, a=0, b=0, k=k, _id=1)
            dgs(r, s, [top] * 3, f, p, N[0])
            ss.append(s)
        for _ in range(200 if ctx.thorough else 30):
            s = Scn({"kind": "simp", "_p": p}, tag="relative-map"); nv = r.choice([3, 4, 5])
            K = set()
            for _ in range(r.choice([1, 2, 3])): K |= gen.closure(tuple(sorted(r.sample(range(nv), min(nv, r.choice([2, 3, 4]))))))
            f0 = list(range(nv)); r.shuffle(f0)
            if r.random() < .5: f0[r.randrange(nv)] = r.randrange(nv)
            Y = image(K, f0) | gen.closure(tuple(sorted(r.sample(range(nv), 2))))
            A = rel_sub(r, K); B = image(A, f0) | (rel_sub(r, Y) if r.random() < .5 else set())
            cells = [listing(q, r) for q in (K, A, Y, B)]
            for i, c in enumerate(cells): s.add("cpx", i=i, nv=nv, cells=c if any(c) else [[]])
            s.add("map", i=0, how="vert", a=0, b=2, f0=f0).add("relmap", m=0, a=0, sa=1, b=2, sb=3)
            s.add("relcpx", i=4, a=0, s=1).add("relcpx", i=5, a=2, s=3)
            for i in (4, 5): a, o = r.choice(OPTS); s.add("red", i=i, alg=a, opt=o)
            for k in range(min(len(cells[0]), len(cells[2]))): s.add("relinduced", m=0, a=0, sa=1, b=2, sb=3, ra=4, rb=5, k=k)
            rows = [[i for i in range(len(cells[2][k]) if k < len(cells[2]) else 0) if r.random() < .4] for k in range(len(cells[0]))]
            cols = [[i for i in range(len(cells[0][k])) if r.random() < .4] for k in range(len(cells[0]))]
            for l in rows + cols: r.shuffle(l)
            s.add("relidx", m=0, rows=rows, cols=cols)
            ss.append(s)
        allE += ctx.execute("maps%d" % p, ss, label="maps%d" % p); allS += ss
    ctx.validate("MapsTrace", allS, allE)
    for P, nv, md in [(2, 3, 1), (3, 3, 2)] if ctx.thorough else [(2, 3, 1)]:
        ctx.model_check("MapsMC", "CONSTANTS P = %d NV = %d MD = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (P, nv, md),
                        "functoriality of chain maps and induced maps for all pairs of vertex maps on %d vertices" % nv, expect_states=100)


def dgs(r, s, d, f, p, dims=None):
    for deg, via in ((-1, "dg"), (1, "dg"), (1, "coch")):
        aug = r.choice([0, 0, 1]) if via == "dg" and not dims else 0
        if via == "dg": s.add("dgmap", m=0, deg=deg)
        for i in (0, 1): a, o = r.choice(OPTS); s.add("dgred", i=i, via=via, deg=deg, aug=aug, alg=a, opt=o)
        for k in range(min(d[0], d[1]) + 1): s.add("dginduced", m=0, via=via, a=0, b=1, deg=deg, k=k)
        nk = dims or [len(c) for c in s.ops[0]["cells"]]
        for _ in range(2):
            k = r.randrange(d[0] + 1); n = nk[k]
            if n: s.add("dgpref", i=0, via=via, k=k, c=f.vec(r, n, .5))


CHECKS = {"A19": a19}
