"""A08-A14: homology, generators, persistence, updates, cohomology, union-find (Homology.tla and its trace specifications)."""
import itertools
from .core import Scn, Fld
from . import gen

VIA = ["flags", "flags", "api", "chain"]
OPTS = [("default", "none", 1)] + [(a, o, b) for a in ("standard", "extra", "dq") for o in ("none", "clear", "comp") for b in (0, 1)]


def build(ctx, fields, src="homology.cpp", nm="hom"): ctx.build([("%s%d" % (nm, p), src, ["-DFIELD=%d" % p]) for p in fields])


def go(ctx, by, module="HomologyTrace", nm="hom", env=None):
    scns, evs = [], []
    for p, ss in by.items():
        if ss: evs += ctx.execute("%s%d" % (nm, p), ss, label="%s%d" % (nm, p), env=env); scns += ss
    ctx.validate(module, scns, evs)


def mc(ctx):
    for P, nv, mv in [(2, 3, 1)] + ([(3, 3, 2), (2, 4, 1)] if ctx.thorough else []):
        ctx.model_check("HomMC", "CONSTANTS P = %d NV = %d MaxVal = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (P, nv, mv),
                        "all filtered complexes on %d vertices with values 0..%d over F_%d and all updates" % (nv, mv, P), expect_states=100)


def scn(p, tag, ranks=0): return Scn({"p": p, "_ranks": ranks}, tag=tag)


def all_simp(n):
    V = list(range(n)); S = [s for k in range(1, n + 1) for s in itertools.combinations(V, k)]
    out = []
    for bits in range(1, 1 << len(S)):
        K = {s for i, s in enumerate(S) if bits >> i & 1}
        if all(t in K for s in K for t in itertools.combinations(s, len(s) - 1) if t): out.append(K)
    return out


def pick_complex(r, f, s, op="complex", kind=None, how=None, top=False):
    """adds one complex (or filtered complex) to s; returns (kind, cells)"""
    p = f.p
    kind = kind or r.choice(["simp", "simp", "simp", "cube", "cell"] + (["mat", "mat"] if op == "complex" else []))
    if kind == "simp":
        big = r.random() < .1
        c = (gen.wide(r) if r.random() < .5 else gen.named(r)) if big and p else gen.simp_random(r, nv=r.choice([1, 2, 3, 4, 5]), maxdim=r.choice([0, 1, 2, 3]), gaps=r.random() < .3)
    elif kind == "cube": c = gen.cube_random(r, ntop=r.choice([1, 1, 2, 3])) if r.random() < .95 else gen.cube_random(r, n=4, ntop=1, size=9)
    elif kind == "cell": n, c = gen.cells_random(r, p, f)
    else: c = gen.rand_chain(r, f)
    kw = dict(kind=kind)
    if op == "filt": kw["how"] = how or r.choice(["whole", "add"] + (["top"] if kind == "simp" and top else []))
    elif kind == "simp": kw["how"] = r.choice(["add", "add", "rec"] + (["top"] if top else []))
    if kind == "simp": kw["cont"] = r.choice(["simp", "simp", "light"])
    if kind == "cell": kw["n"] = n
    kw["cells"] = c
    if op == "filt": kw["vals"] = gen.vals_monotone(r, c if kind != "cell" else [[0] * n[0]] + c[1:] , gen.faces_of(kind, c))
    s.add(op, **kw)
    return kind, (c if kind != "cell" else [[[]] * n[0]] + c[1:])


def sub_closed(r, c):
    """a random subcomplex of a simplicial complex given by cells: indices per dimension and its cells"""
    K = {tuple(x) for d in c for x in d}
    A = set()
    for _ in range(r.choice([0, 1, 1, 2, 3])): A |= gen.closure(r.choice(sorted(K)))
    inds = [[i for i, x in enumerate(d) if tuple(x) in A] for d in c]
    for l in inds: r.shuffle(l)
    dim = max([len(x) for x in A], default=1)
    # A lists its own cells in its own order; trailing empty dimensions may be present or not
    ac = [[c[k][i] for i in inds[k]] for k in range(len(c))]
    return inds, ac


def a08(ctx):
    fields = [2, 3, 5, 0]
    build(ctx, fields)
    r, by = ctx.rng, {}
    for p in fields:
        f = Fld(p); ss = []
        def reds(s, n=None):
            for a, o, b in (OPTS if n is None else r.sample(OPTS, n)): s.add("reduce", alg=a, opt=o, basis=b)
            s.add("reduce", alg="api", opt="plain", basis=1).add("apparent")
        for _ in range(400 if ctx.thorough else 100):
            s = scn(p, "betti"); pick_complex(r, f, s, top=True); reds(s, None if r.random() < .4 else 8); ss.append(s)
        for _ in range(200 if ctx.thorough else 60):
            s = scn(p, "betti-relative"); k, c = pick_complex(r, f, s, kind="simp")
            inds, ac = sub_closed(r, c)
            how = r.choice(["index", "simp", "sub"])
            if how == "simp": s.ops[-1]["cont"] = "simp"
            if how == "sub": s.add("subcomplex", how="index", inds=inds)
            elif how == "index": s.add("relative", how="index", inds=inds)
            else: s.add("relative", how="simp", inds=inds, x=c, a=ac)
            reds(s, 5); ss.append(s)
        if p == 2 or ctx.thorough:
            for K in all_simp(3) + r.sample(all_simp(4), 120 if ctx.thorough else 40):
                s = scn(p, "betti-all-small"); c = gen.simp_list(K, r)
                s.add("complex", kind="simp", how=r.choice(["add", "rec", "top"]), cont=r.choice(["simp", "light"]), cells=c); reds(s, 4); ss.append(s)
        by[p] = ss
    go(ctx, by)
    mc(ctx)


def a09(ctx):
    fields = [2, 3, 5, 0]
    build(ctx, fields)
    r, by = ctx.rng, {}
    for p in fields:
        f = Fld(p); ss = []
        for _ in range(300 if ctx.thorough else 140):
            s = scn(p, "generators"); kind, c = pick_complex(r, f, s)
            D = boundary(f, kind, c)
            for a, o, b in [OPTS[0]] + r.sample([x for x in OPTS if x[2]], 3):
                s.add("reduce", alg=a, opt=o, basis=1)
                if r.random() < .3: s.add("tidy", how=r.choice(["cycles", "sparse"]))
                for _ in range(3):
                    k = r.randrange(len(D)); n = D[k][1]
                    if n == 0: continue
                    # a cycle plus boundaries, or an arbitrary chain
                    x = [0] * n
                    if r.random() < .8:
                        Z = gen.kernel(D[k][0], p) if D[k][0] else []
                        for z in Z:
                            a_ = r.choice([0, 1, -1, 2]) if p != 0 else r.choice([0, 1, -1])
                            x = [u + a_ * w for u, w in zip(x, z)]
                    else: x = [r.choice([0, 1, -1]) for _ in range(n)]
                    if p == 0 and max(map(abs, x), default=0) > 30: continue
                    s.add("prefrep", k=k, c=[(i, f.int(v)) for i, v in enumerate(x) if (v % p if p else v)])
            ss.append(s)
        by[p] = ss
    go(ctx, by)
    mc(ctx)


def boundary(f, kind, c):
    """dense integer boundary matrices (rows), only used to choose interesting inputs"""
    p, out = f.p, []
    for k in range(len(c)):
        if kind == "mat":
            m, n, cols = c[k]
            A = [[0] * n for _ in range(m)]
            for j, col in enumerate(cols):
                for i, v in col: A[i][j] = v[0] if isinstance(v, tuple) else v
            out.append((A, n)); continue
        n = len(c[k])
        if k == 0: out.append(([[0] * n], n)); continue
        A = [[0] * n for _ in range(len(c[k - 1]))]
        if kind == "simp":
            idx = {tuple(s): i for i, s in enumerate(c[k - 1])}
            for j, s in enumerate(c[k]):
                for i in range(k + 1): A[idx[tuple(s[:i] + s[i + 1:])]][j] += (-1) ** i
        elif kind == "cube":
            idx = {tuple(s): i for i, s in enumerate(c[k - 1])}
            for j, s in enumerate(c[k]):
                for t, g in enumerate(gen.cube_faces(tuple(s))): A[idx[g]][j] += (-1) ** (t // 2) * (1 if t % 2 == 0 else -1)
        else:
            for j, l in enumerate(c[k]):
                for a, b in l: A[a][j] += b
        out.append((A, n))
    return out


def a10(ctx):
    fields = [2, 3, 0]
    build(ctx, fields)
    r, by = ctx.rng, {}
    for p in fields:
        f = Fld(p); ss = []
        for _ in range(300 if ctx.thorough else 140):
            s = scn(p, "persistence", ranks=0); 
            if r.random() < .2:
                n = r.choice([1, 3, 4, 5, 6, 7]); M = r.choice([3, 9, 20]); d = [[0] * n for _ in range(n)]
                for i in range(n):
                    for j in range(i): d[i][j] = d[j][i] = r.randint(1, M)
                s.add("rips", cont=r.choice(["simp", "light"]), P=d, rr=r.choice([M, M, M // 2]), d=r.choice([1, 2, 2, 3]), _kind="simp"); s.h["_ranks"] = int(n <= 4)
            else:
                k, c = pick_complex(r, f, s, op="filt", top=True); s.h["_ranks"] = 1 if sum(map(len, c)) <= 24 else 0
            for a, o, b in (OPTS if r.random() < .25 else r.sample(OPTS, 5)):
                s.add("freduce", alg=a, opt=o, basis=b, via=r.choice(VIA))
                if b and r.random() < .5: a2, o2, _ = r.choice([x for x in OPTS if x[2]]); s.add("again", alg=a2, opt=o2)
            def bar(): b_ = r.randrange(3); return [r.randrange(2), b_, b_ + r.randrange(3)]
            for _ in range(2):
                A_ = [bar() for _ in range(r.randrange(5))]; B_ = [list(x) for x in r.sample(A_, len(A_))] if r.random() < .7 else [bar() for _ in range(r.randrange(5))]
                if B_ and r.random() < .4: B_[r.randrange(len(B_))] = list(r.choice(B_)) if r.random() < .6 else bar()
                s.add("bars", a=A_, b=B_)
            if r.random() < .3: s.add("freduce", alg="default", opt="none", basis=1, via=r.choice(VIA)).add("ftidy", how=r.choice(["cycles", "sparse"]))
            ss.append(s)
        by[p] = ss
    go(ctx, by)
    mc(ctx)


def newvals(r, kind, c, old):
    faces = gen.faces_of("simp" if kind == "light" else kind, c)
    v = gen.vals_monotone(r, c, faces)
    return v


def a11(ctx):
    fields = [2, 3, 0]
    build(ctx, fields)
    r, by = ctx.rng, {}
    for p in fields:
        f = Fld(p); ss = []
        for _ in range(300 if ctx.thorough else 140):
            s = scn(p, "update"); kind, c = pick_complex(r, f, s, op="filt")
            s.h["_ranks"] = 1 if sum(map(len, c)) <= 20 else 0
            a, o, b = r.choice([x for x in OPTS if x[2]])
            s.add("freduce", alg=a, opt=o, basis=1, via=r.choice(VIA))
            for _ in range(r.choice([1, 2, 4])):
                s.add("fupdate", vals=newvals(r, kind, c, None))
            if r.random() < .3: s.add("ftidy", how=r.choice(["cycles", "sparse"])).add("fupdate", vals=newvals(r, kind, c, None))
            ss.append(s)
            s = scn(p, "update-chain"); kind, c = pick_complex(r, f, s, op="filt")
            for _ in range(r.choice([1, 2, 3])): s.add("cupdate", vals=newvals(r, kind, c, None))
            a, o, b = r.choice(OPTS); s.add("freduce", alg=a, opt=o, basis=b, via="flags")
            ss.append(s)
        by[p] = ss
    go(ctx, by)
    mc(ctx)
    vine(ctx)


def vine(ctx):
    for p, m, n in [(2, 3, 3)] + ([(3, 2, 3), (2, 3, 4)] if ctx.thorough else []):
        ctx.model_check("VineMC", "CONSTANTS P = %d NR = %d NC = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (p, m, n), "decompositions kept under insertion, deletion and swaps of rows and columns, up to %d x %d over F_%d" % (m, n, p), expect_states=100)


CHECKS = {"A08": a08, "A09": a09, "A10": a10, "A11": a11}


DGOPTS = [("default", "none", 1)] + [(a, o, b) for a in ("standard", "extra", "dq") for o, b in (("none", 0), ("none", 1), ("clear", 0), ("clear", 1), ("comp", 0))]


def filt_dg(r, s, kind=None):
    kind = kind or r.choice(["simp", "simp", "light", "cube"])
    if kind != "cube": c = gen.wide(r) if r.random() < .04 else gen.simp_random(r, nv=r.choice([1, 2, 3, 4, 5]), maxdim=r.choice([0, 1, 2, 3]), gaps=r.random() < .3)
    else: c = gen.cube_random(r, ntop=r.choice([1, 1, 2, 3]))
    s.add("filt", kind=kind, cells=c, vals=gen.vals_monotone(r, c, gen.faces_of("simp" if kind == "light" else kind, c)))
    return kind, c


def a12(ctx):
    fields = [2, 3, 5, 0]
    build(ctx, fields, "dgvs.cpp", "dg")
    r, by = ctx.rng, {}
    for p in fields:
        ss = []
        for _ in range(200 if ctx.thorough else 80):
            s = Scn({"p": p}, tag="dg"); kind, c = filt_dg(r, s)
            for deg in (-1, 1):
                for aug in (0, 1):
                    s.add("dg", deg=deg, aug=aug)
                    for a, o, b in r.sample(DGOPTS, 3): s.add("dgreduce", alg=a, opt=o, basis=b)
                    for _ in range(r.choice([0, 1, 2])):
                        s.add("dgperm", ip=[r.randrange(2) for _ in c], q=[r.sample(range(len(d)), len(d)) for d in c], all=r.randrange(2))
                    s.add("rdgperm", q=[r.sample(range(len(d)), len(d)) for d in c])
                    if r.random() < .5: a, o, b = r.choice(DGOPTS); s.add("dgreduce", alg=a, opt=o, basis=b)
            f = Fld(p)
            for _ in range(2):
                n = [r.choice([0, 1, 2, 3]) for _ in range(r.choice([3, 4, 5]))]; deg = r.choice([-1, 1])
                # maps n[k+1] -> n[k]; some compose to zero
                ms = [f.mat(r, n[k], n[k + 1], r.choice([.1, .3, .7])) for k in range(len(n) - 1)]
                if deg == 1: ms = [f.mat(r, n[k + 1], n[k], r.choice([.1, .3, .7])) for k in range(len(n) - 1)]
                s.add("dgraw", deg=deg, ms=ms)
            ss.append(s)
            for _ in range(3):
                q = [r.sample(range(len(d)), len(d)) for d in c]
                a, o, b = r.choice(DGOPTS)
                s.add("cochain", alg=a, opt=o, basis=b, ip=[r.randrange(2) for _ in c], q=q, all=r.randrange(2))
            s = Scn({"p": p}, tag="dg-persistence"); kind, c = filt_dg(r, s)
            for deg in (-1, 1):
                for aug in (0, 1):
                    s.add("fdg", deg=deg, aug=aug, how=r.choice(["cpx", "cpx", "diff"]))
                    for a, o, b in (DGOPTS if r.random() < .15 else r.sample(DGOPTS, 3)):
                        s.add("fdgreduce", alg=a, opt=o, basis=b)
                        if b and r.random() < .5: s.add("rdgupdate", vals=newvals(r, kind, c, None))
                    if r.random() < .4:
                        s.add("fdgupdate", vals=newvals(r, kind, c, None)); a, o, b = r.choice(DGOPTS); s.add("fdgreduce", alg=a, opt=o, basis=b)
            ss.append(s)
        by[p] = ss
    go(ctx, by, "DGTrace", "dg")
    for p, nv, mv in [(2, 3, 1)] + ([(3, 3, 1), (2, 3, 2)] if ctx.thorough else []):
        ctx.model_check("DualMC", "CONSTANTS P = %d NV = %d MaxVal = %d\nINIT Init\nNEXT Next\nINVARIANT DualInv\n" % (p, nv, mv),
                        "cohomology pairs what homology pairs: all filtered complexes on %d vertices, values 0..%d over F_%d, every order" % (nv, mv, p), expect_states=100)


def a13(ctx):
    fields = [2, 3, 0]
    build(ctx, fields, "dgvs.cpp", "dg")
    r, by = ctx.rng, {}
    for p in fields:
        ss = []
        for _ in range(2500 if ctx.thorough else 400):
            target = r.choice(["chain", "chainf", "dg", "dgc", "fcc", "dg2", "dg2"] if p == 2 else ["dg2"])
            s = Scn({"p": p}, tag="update-" + target)
            nv, maxdim = (r.choice([2, 3, 4, 5]), r.choice([0, 1, 2, 2, 3])) if r.random() < .93 else (8, 4)
            labels = list(range(nv)) if r.random() < .7 else sorted(r.sample(range(12), nv))
            K = gen.simp_modify(gen.closure((r.choice(labels),)), r, maxdim, labels)
            for _ in range(3): K = gen.simp_modify(K, r, maxdim, labels)
            lk = r.choice(["simp", "simp", "light"])
            def fl(op, **kw):
                c = gen.simp_cells(K, maxdim, r)
                s.add(op, kind=lk, **kw, cells=c, vals=gen.vals_monotone(r, c, gen.faces_of("simp", c)))
            fl("filt")
            deg = r.choice([-1, 1])
            if target.startswith("chain"): s.add("chain")
            elif target != "fcc":
                s.add("fdg", deg=deg, aug=0, how="cpx")
                a, o, b = r.choice([x for x in DGOPTS if x[2]])
                s.add("fdgreduce", alg=a, opt=o, basis=b)
            for _ in range(r.choice([1, 2, 3])):
                if nv == 8 and r.random() < .5: K = {t for _ in range(4) for t in gen.closure(tuple(sorted(r.sample(labels, r.choice([3, 4, 5])))))}; K |= {(x,) for x in r.sample(labels, 5)}
                if r.random() < .9: K = gen.simp_modify(K, r, maxdim, labels)
                fl("gen", target=target)
            ss.append(s)
        by[p] = ss
    go(ctx, by, "DGTrace", "dg")
    vine(ctx)


def a14(ctx):
    fields = [2, 3]
    build(ctx, fields, "dgvs.cpp", "dg")
    r, by = ctx.rng, {}
    for p in fields:
        ss = []
        for _ in range(600 if ctx.thorough else 300):
            s = Scn({"p": p}, tag="union-find")
            nv = r.choice([1, 2, 3, 5, 8]) if r.random() < .93 else 30
            E = [e for e in itertools.combinations(range(nv), 2) if r.random() < (r.choice([.2, .5, .9]) if nv < 30 else .06)]
            K = {(i,) for i in range(nv)} | set(E)
            if r.random() < .3 and nv > 2: K |= gen.closure(tuple(sorted(r.sample(range(nv), 3))))
            c = gen.simp_cells(K, max(len(x) for x in K) - 1 if r.random() < .8 else 1 + (max(len(x) for x in K) > 2), r)
            s.add("filt", kind=r.choice(["simp", "light"]), cells=c, vals=gen.vals_monotone(r, c, gen.faces_of("simp", c))).add("uf")
            n = r.choice([1, 2, 3, 4, 5, 7] + ([16] if r.random() < .1 else [])); m = n * (n - 1) // 2
            v = [r.randrange(0, r.choice([1, 3, 30])) for _ in range(m)]; ind = sorted(range(m), key=lambda i: (v[i], r.random()))
            s.add("ufrips", inds=ind, vals=v, _n=n)
            if r.random() < .3:
                N = r.choice([2, 3, 9, 100, 2500, 9000, 40000]) + (r.randrange(0, 50) if r.random() < .5 else 0); M = N * (N - 1) // 2
                start = lambda i: i * N - i * (i + 1) // 2
                ks = [k for i in {0, 1, N - 2, N - 3, r.randrange(N), r.randrange(N), r.randrange(N)} for k in (start(i), start(i) - 1)] + [r.randrange(M) for _ in range(4)]
                s.add("binom", k=[k for k in ks if 0 <= k < M], N=N)
            ss.append(s)
        by[p] = ss
    go(ctx, by, "DGTrace", "dg")
    for nv, mv in [(3, 2)] + ([(4, 1)] if ctx.thorough else []):
        ctx.model_check("UnionFindMC", "CONSTANTS NV = %d MaxVal = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (nv, mv),
                        "elder-rule merging = reduction pairing for all filtered graphs on %d vertices, values 0..%d" % (nv, mv), expect_states=100)


CHECKS.update({"A12": a12, "A13": a13, "A14": a14})
