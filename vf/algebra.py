"""A01-A05: fields, vectors, matrices, solves, factorisations (Algebra.tla)."""
import itertools
from .core import Scn, Fld

FIELDS = {2: 2, 3: 3, 5: 5, 7: 7, 13: 13, 0: 0}
NREG = 6
CONSTS = " NReg = %d" % NREG


def build(ctx, fields):
    ctx.build([("alg%d" % p, "algebra.cpp", ["-DFIELD=%d" % p]) for p in fields])


def go(ctx, by_field):
    """by_field: {p: [scenarios]}"""
    scns, evs = [], []
    for p, ss in by_field.items():
        if not ss: continue
        e = ctx.execute("alg%d" % p, ss, label="alg%d" % p)
        scns += ss; evs += e
    ctx.validate("AlgebraTrace", scns, evs, consts=CONSTS)


# ------------------------------------------------------------------------------------------ A01
def a01(ctx):
    fields = [2, 3, 5, 7, 13, 0, 101, 46337]            # 46337: the largest prime whose products fit an int
    build(ctx, fields)
    r, by = ctx.rng, {}
    for p in fields:
        ss = []
        big = p > 100
        edge = sorted({x % p for x in (0, 1, 2, 3, p // 2, p // 2 + 1, p - 2, p - 1, *(r.randrange(p) for _ in range(8)))}) if big else []
        ints = sorted({a + b * p for a in edge for b in (-2, -1, 0, 1, 3)}) if big else list(range(-2 * p - 3, 3 * p + 4)) if p else list(range(-5, 6))
        # every residue / small fraction against every other, under every operation
        elems = [("i", k) for k in (edge if big else range(p))] if p else [("q", n, d) for n in range(-3, 4) for d in (1, 2, 3, -2)]
        def mk(s, reg, el):
            if el[0] == "i": s.add("fint", d=reg, k=el[1])
            else: s.add("ffrac", d=reg, n=el[1], den=el[2])
        for k in ints:
            s = Scn({"p": p}, tag="int")
            s.add("fint", d=0, k=k)
            s.add("fint_of", d=0)
            for j in ints: s.add("fcmpi", d=0, k=j)
            s.add("fint", d=1, k=3).add("fassign", d=1, k=k).add("fneg", d=2, a=0).add("fadd", d=3, a=0, b=2).add("fcmpi", d=3, k=0)
            if (k % p if p else k) != 0: s.add("finv", d=4, a=0).add("fmul", d=5, a=4, b=0).add("fcmpi", d=5, k=1)
            ss.append(s)
        for a in elems:
            s = Scn({"p": p}, tag="pairs")
            for b in elems:
                mk(s, 0, a); mk(s, 1, b)
                for op in ("fadd", "fsub", "fmul"): s.add(op, d=2, a=0, b=1).add(op, d=3, a=1, b=0).add("fcmp", d=2, b=3)
                bz = b[1] % p == 0 if p else b[1] == 0
                if not bz: s.add("fdiv", d=4, a=0, b=1).add("fmul", d=5, a=4, b=1).add("fcmp", d=5, b=0).add("finv", d=5, a=1)
                s.add("fcmp", d=0, b=1)
                for op in ("fadde", "fsube", "fmule") + (() if bz else ("fdive",)):
                    mk(s, 2, a); s.add(op, d=2, b=1)
            ss.append(s)
        # long random histories (rationals are re-seeded to stay within int)
        for t in range(60 if ctx.thorough else 12):
            s = Scn({"p": p}, tag="history"); val = {}
            from fractions import Fraction
            cur = [Fraction(0)] * NREG
            for _ in range(60):
                op = r.choice(["fint", "fadd", "fsub", "fmul", "fdiv", "fneg", "finv", "fadde", "fsube", "fmule", "fdive", "fcmp", "fcmpi", "fassign"])
                d, a, b = r.randrange(NREG), r.randrange(NREG), r.randrange(NREG)
                iz = (lambda x: x % p == 0) if p else (lambda x: x == 0)
                def inv(x): return Fraction(pow(int(x), -1, p)) if p else 1 / x
                if op in ("fint", "fassign"): k = r.choice(ints); v = Fraction(k); s.add(op, d=d, k=k)
                elif op == "fcmp": s.add(op, d=d, b=b); continue
                elif op == "fcmpi": s.add(op, d=d, k=r.choice(ints)); continue
                else:
                    if op in ("fadde", "fsube", "fmule", "fdive"): a = d
                    if op in ("fdiv", "fdive") and iz(cur[b]): continue
                    if op == "finv" and iz(cur[a]): continue
                    x, y = cur[a], cur[b]
                    v = {"fadd": x + y, "fsub": x - y, "fmul": x * y, "fneg": -x}.get(op[:4])
                    if op[:4] == "fdiv": v = x * inv(y)
                    if op == "finv": v = inv(x)
                    if p: v = Fraction(int(v) % p)
                    elif abs(v.numerator) > 300 or v.denominator > 300: continue
                    kw = {"d": d}
                    if op in ("fneg", "finv"): kw["a"] = a
                    elif op in ("fadde", "fsube", "fmule", "fdive"): kw["b"] = b
                    else: kw["a"] = a; kw["b"] = b
                    s.add(op, **kw)
                cur[d] = v % p if p else v
            ss.append(s)
        by[p] = ss
    go(ctx, by)
    ctx.model_check("FieldMC", "INIT Init\nNEXT Next\nINVARIANT Laws\n", "field axioms of the specification, p in {2,3,5,7} and small rationals", expect_states=20)


# ------------------------------------------------------------------------------------------ A02
def vec_history(r, p, nops, N=7, dens=.5):
    """A random legal history; a shadow support is kept so that every call is within its contract."""
    f = Fld(p)
    s = Scn({"p": p}, tag="vec-history")
    from .shadow import Sh
    sh = Sh(p)
    R = [dict() for _ in range(NREG)]
    for d in range(NREG):
        v = f.vec(r, N, dens); s.add("vset", d=d, v=v); R[d] = dict(v)
    size = [N] * NREG     # upper bound on indices
    for _ in range(nops):
        d, a, b = r.randrange(NREG), r.randrange(NREG), r.randrange(NREG)
        op = r.choice(["vaxpy", "vaxpy", "vaxpyt", "vaxpyr", "vaxpyc", "vadd", "vcopy", "vscale", "vscalev", "vscalei", "vmul", "vscaled", "vdot", "vget",
                       "vgetall", "vperm", "viperm", "vJ", "vrev", "vswap", "vmix", "vblock", "vsetblock", "vshift", "vkron", "vindset", "vsubv", "verase", "veraselast",
                       "veraselasts", "veraseafter", "verasefirst", "vinsert", "vinsertz", "vclearinds", "vclearindst", "vnnzint", "vcoeffint", "veq", "vquery",
                       "vends", "vbounds", "vio", "vset", "vunit", "vtup", "vdense", "vpush"])
        y, n = R[d], size[d]
        mx = max(y) + 1 if y else 0
        c = f.rand(r)
        if op in ("vaxpy", "vaxpyt"):
            if r.random() < .1: c = f.zero()
            if r.random() < .3 and y and R[a]:   # force cancellation of a common entry
                k = sorted(set(y) & set(R[a]))
                if k: c = sh.neg(sh.div(y[k[0]], R[a][k[0]]))
            s.add(op, d=d, a=c, s=a); R[d] = sh.axpy(c, R[a], y)
        elif op == "vaxpyr":
            lo = r.randrange(0, N); hi = r.randrange(lo, N + 3)
            s.add(op, d=d, a=c, s=a, f=lo, l=hi); R[d] = sh.axpy(c, {i: x for i, x in R[a].items() if lo <= i < hi}, y)
        elif op == "vaxpyc":
            base = set(R[a]); inds = sorted(base | {i for i in range(N) if r.random() < .3})
            co = [f.rand(r) if r.random() < .8 else f.zero() for _ in inds]
            s.add(op, d=d, s=a, c=co, inds=inds)
            for k, i in enumerate(inds):
                if i in R[a]: y = sh.axpy(sh.mul(co[k], R[a][i]), {k: f.one()}, y)
            R[d] = y
        elif op == "vadd": s.add(op, d=d, a=a, b=b); R[d] = sh.axpy(f.one(), R[b], R[a])
        elif op == "vcopy": s.add(op, d=d, s=a); R[d] = dict(R[a])
        elif op == "vscale": s.add(op, d=d, a=c); R[d] = {i: sh.mul(c, x) for i, x in y.items()}
        elif op == "vscalev":
            co = [f.rand(r) for _ in range(max(mx, N))]; s.add(op, d=d, c=co); R[d] = {i: sh.mul(co[i], x) for i, x in y.items()}
        elif op == "vscalei":
            i = r.randrange(N + 1)
            if r.random() < .3: c = f.zero()
            s.add(op, d=d, i=i, a=c)
            if i in y:
                y = dict(y); y[i] = sh.mul(c, y[i])
                if f.is0(y[i]): del y[i]
            R[d] = y
        elif op in ("vmul", "vscaled"):
            if op == "vmul" and r.random() < .2: c = f.zero()
            s.add(op, d=d, a=c, s=a); R[d] = {} if f.is0(c) else {i: sh.mul(c, x) for i, x in R[a].items()}
        elif op == "vdot": s.add(op, d=d, s=a)
        elif op == "vget": s.add(op, d=d, i=r.randrange(N + 3))
        elif op == "vgetall": s.add(op, d=d, n=N + 2)
        elif op in ("vperm", "viperm"):
            m = max(mx, r.randrange(1, N + 2)); pm = list(range(m)); r.shuffle(pm)
            s.add(op, d=d, perm=pm if op == "vperm" else [pm.index(i) for i in range(m)]); R[d] = {pm[i]: x for i, x in y.items()}
        elif op in ("vJ", "vrev"):
            m = max(mx, N); s.add(op, d=d, m=m); R[d] = {m - (op == "vJ") - i: x for i, x in y.items()}
        elif op == "vswap":
            i, j = r.randrange(N + 1), r.randrange(N + 1); g = {i: j, j: i}
            s.add(op, d=d, i=i, j=j); R[d] = {g.get(k, k): x for k, x in y.items()}
        elif op == "vmix":
            i, j = r.sample(range(N + 1), 2)
            co = [f.rand(r, nz=False) for _ in range(4)]
            s.add(op, d=d, i=i, j=j, a=co[0], b=co[1], c=co[2], dd=co[3])
            z = f.zero(); xi, xj = y.get(i, z), y.get(j, z)
            y = dict(y)
            for k, v in ((i, sh.add(sh.mul(co[0], xi), sh.mul(co[1], xj))), (j, sh.add(sh.mul(co[2], xi), sh.mul(co[3], xj)))):
                if f.is0(v): y.pop(k, None)
                else: y[k] = v
            R[d] = y
        elif op == "vblock":
            lo = r.randrange(0, N + 1); hi = r.randrange(lo, N + 2)
            s.add(op, d=d, s=a, i=lo, j=hi); R[d] = {k - lo: x for k, x in R[a].items() if lo <= k < hi}
        elif op == "vsetblock":
            lo = r.randrange(0, N); hi = r.randrange(lo + 1, N + 2)
            src = {k: x for k, x in R[a].items() if k < hi - lo}
            e = (a + 1) % NREG if (a + 1) % NREG != d else (a + 2) % NREG
            if e == d: continue
            s.add("vblock", d=e, s=a, i=0, j=hi - lo); R[e] = dict(src); y = R[d]
            s.add(op, d=d, i=lo, j=hi, s=e)
            y = {k: x for k, x in y.items() if not lo <= k < hi}
            for k, x in R[e].items(): y[k + lo] = x
            R[d] = y
        elif op == "vshift":
            k = r.randrange(0, 3); s.add(op, d=d, s=a, sh=k); R[d] = {i + k: x for i, x in R[a].items()}
        elif op == "vkron":
            if len(R[a]) * len(R[b]) > 12 or (R[a] and max(R[a]) > 8): continue
            m = (max(R[b]) + 1 if R[b] else 1) + r.randrange(2)
            s.add(op, d=d, a=a, b=b, m=m); R[d] = {m * i + j: sh.mul(x, z) for i, x in R[a].items() for j, z in R[b].items()}
        elif op == "vindset":
            ix = sorted(i for i in range(max(N, mx)) if r.random() < .5); s.add(op, d=d, s=a, ix=ix)
            R[d] = {k: R[a][i] for k, i in enumerate(ix) if i in R[a]}
        elif op == "vsubv":
            m = max(N, max(R[a]) + 1 if R[a] else 0); ix = [i for i in range(m) if r.random() < .5]; r.shuffle(ix)
            s.ops.append(dict(op=op, d=d, s=a, n=m, ix=ix)); R[d] = {k: R[a][i] for k, i in enumerate(ix) if i in R[a]}
        elif op == "verase":
            i = r.randrange(N + 1); s.add(op, d=d, i=i); R[d] = {k - (k > i): x for k, x in y.items() if k != i}
        elif op == "veraselast":
            i = max(mx - 1, 0) + r.randrange(2); s.add(op, d=d, i=i); R[d] = {k: x for k, x in y.items() if k != i}
        elif op == "veraselasts":
            i = max(mx - 1, 0) + r.randrange(2); k = r.randrange(0, min(4, i + 1)); s.add(op, d=d, i=i, n=k)
            R[d] = {q: x for q, x in y.items() if not i - k + 1 <= q <= i}
        elif op == "veraseafter":
            i = r.randrange(N + 1); s.add(op, d=d, i=i); R[d] = {k: x for k, x in y.items() if k <= i}
        elif op == "verasefirst":
            k = r.randrange(0, 4); s.add(op, d=d, n=k); R[d] = {i - k: x for i, x in y.items() if i >= k}
        elif op in ("vinsert", "vinsertz"):
            ix = sorted(r.sample(range(N + 1), r.randrange(0, 4)))
            if op == "vinsertz" and ix and ix[0] == 0 and False: continue
            old = {}
            for i, x in y.items():
                for q in ix:
                    if q <= i: i += 1
                old[i] = x
            if op == "vinsert":
                co = [f.rand(r) for _ in ix]; s.add(op, d=d, ix=ix, c=co)
                for q, x in zip(ix, co): old[q] = x
            else: s.add(op, d=d, ix=ix)
            R[d] = old
        elif op in ("vclearinds", "vclearindst"):
            mask = [r.randrange(2) for _ in range(max(mx, N))]; s.add(op, d=d, mask=mask); R[d] = {k: x for k, x in y.items() if not mask[k]}
        elif op in ("vnnzint", "vcoeffint", "veq"):
            s.add(op, d=d, s=a)
        elif op == "vquery": s.add(op, d=d)
        elif op == "vends":
            if y: s.add(op, d=d)
        elif op == "vbounds": s.add(op, d=d, i=r.randrange(N + 2))
        elif op == "vio":
            if p: s.add(op, d=d)
        elif op == "vset":
            v = f.vec(r, N, r.choice([.0, .2, .5, .9])); s.add(op, d=d, v=v); R[d] = dict(v)
        elif op == "vunit": i = r.randrange(N); s.add(op, d=d, i=i); R[d] = {i: f.one()}
        elif op == "vtup":
            ii = r.sample(range(N), r.randrange(0, N)); vv = [(i, r.randrange(1, p) if p else r.choice([-2, -1, 1, 2])) for i in ii]
            s.add(op, d=d, v=vv); R[d] = {i: f.int(x) for i, x in vv}
        elif op == "vdense": m = r.randrange(0, N); s.add(op, d=d, a=c, m=m); R[d] = {i: c for i in range(m)}
        elif op == "vpush":
            i = mx + r.randrange(2)
            if i <= N + 2: s.add(op, d=d, i=i, a=c); R[d] = dict(y); R[d][i] = c
        if R[d] and max(R[d]) > N + 3:    # keep supports small
            s.add("verasefirst", d=d, n=4); R[d] = {i - 4: x for i, x in R[d].items() if i >= 4}
            s.add("veraseafter", d=d, i=N); R[d] = {i: x for i, x in R[d].items() if i <= N}
        if p == 0 and any(abs(x[0]) > 60 or x[1] > 60 for x in R[d].values()):
            s.add("vset", d=d, v=[]); R[d] = {}
    return s


def set_history(r, p, nops, N=7, dens=.5):
    """A history of vectors held in a SetVector."""
    from .shadow import Sh
    f = Fld(p); sh = Sh(p); s = Scn({"p": p}, tag="set-vector"); s.add("impl", kind="set")
    R = [dict() for _ in range(NREG)]
    for d in range(NREG):
        v = f.vec(r, N, dens); s.add("vset", d=d, v=v); R[d] = dict(v)
    for _ in range(nops):
        d, a = r.randrange(NREG), r.randrange(NREG); y = R[d]; c = f.rand(r)
        op = r.choice(["vaxpy", "vaxpy", "vaxpyt", "vaxpyr", "vaxpyr", "vaxpyr", "vcopy", "vput", "vrepl", "vperm", "vget", "vgetall", "veq", "vquery", "vends", "vbounds", "vset", "vunit", "vtup"])
        if op in ("vaxpy", "vaxpyt"):
            k = sorted(set(y) & set(R[a]))
            if k and r.random() < .4: q = r.choice(k); c = sh.neg(sh.div(y[q], R[a][q]))
            s.add(op, d=d, a=c, s=a); R[d] = sh.axpy(c, R[a], y)
        elif op == "vaxpyr":
            lo = r.randrange(0, N); hi = r.randrange(lo, N + 3)
            if r.random() < .3 and y: s.add("vcopy", d=d, s=d)
            s.add(op, d=d, a=c, s=a, f=lo, l=hi); R[d] = sh.axpy(c, {i: x for i, x in R[a].items() if lo <= i < hi}, y)
        elif op == "vcopy": s.add(op, d=d, s=a); R[d] = dict(R[a])
        elif op == "vput": i = r.randrange(N); s.add(op, d=d, i=i, a=c); R[d] = {**y, i: c}
        elif op == "vrepl":
            if not y: continue
            i = r.choice(sorted(y)); j = r.choice([i] + [k for k in range(N) if k not in y]); s.add(op, d=d, i=i, j=j, a=c); R[d] = {k: x for k, x in y.items() if k != i}; R[d][j] = c
        elif op == "vperm":
            q = list(range(N)); r.shuffle(q); s.add(op, d=d, perm=q); R[d] = {q[i]: x for i, x in y.items()}
        elif op == "vget": s.add(op, d=d, i=r.randrange(N + 2))
        elif op == "vgetall": s.add(op, d=d, n=N)
        elif op == "veq":
            if r.random() < .3: s.add("vcopy", d=d, s=a); R[d] = dict(R[a])
            s.add(op, d=d, s=a)
        elif op == "vquery": s.add(op, d=d)
        elif op == "vends":
            if y: s.add(op, d=d)
        elif op == "vbounds": s.add(op, d=d, i=r.randrange(N + 2))
        elif op == "vset": v = f.vec(r, N, r.choice([0, .2, .5, .9])); s.add(op, d=d, v=v); R[d] = dict(v)
        elif op == "vunit": i = r.randrange(N); s.add(op, d=d, i=i); R[d] = {i: f.one()}
        elif op == "vtup":
            ii = r.sample(range(N), r.randrange(0, N)); vv = [(i, r.randrange(1, p) if p else r.choice([-2, -1, 1, 2])) for i in ii]
            s.add(op, d=d, v=vv); R[d] = {i: f.int(x) for i, x in vv}
        if p == 0 and any(abs(x[0]) > 60 or x[1] > 60 for x in R[d].values()): s.add("vset", d=d, v=[]); R[d] = {}
    return s


def a02(ctx):
    fields = [2, 3, 5, 0]
    build(ctx, fields)
    n = 400 if ctx.thorough else 120
    by = {p: [vec_history(ctx.rng, p, 60) for _ in range(n)] + [vec_history(ctx.rng, p, 40, *ctx.rng.choice([(40, .8), (25, .5), (90, .2)])) for _ in range(n // 7)]
             + [set_history(ctx.rng, p, 40) for _ in range(n // 4)] + [set_history(ctx.rng, p, 30, 30, .4) for _ in range(n // 10)] for p in fields}
    # exhaustive behaviours of the specification on tiny vectors
    for p, L in ((2, 3), (3, 2)):
        bs = ctx.behaviours("VecGen", "CONSTANTS NReg = 6 P = %d L = %d\nINIT Init\nNEXT Next\nINVARIANT Canonical\n" % (p, L), "all vector pairs of length %d over F_%d under every binary/index operation" % (L, p))
        for b in bs:
            s = Scn({"p": p}, tag="vec-exhaustive")
            for o in b: s.ops.append(fix(o))
            by[p].append(s)
    go(ctx, by)


ORDER = {"vset": ["d", "v"], "vaxpy": ["d", "a", "s"], "vaxpyt": ["d", "a", "s"], "vaxpyr": ["d", "a", "s", "f", "l"], "vswap": ["d", "i", "j"],
         "vsetblock": ["d", "i", "j", "s"], "vblock": ["d", "s", "i", "j"], "verase": ["d", "i"], "vinsertz": ["d", "ix"], "vinsert": ["d", "ix", "c"],
         "vmix": ["d", "i", "j", "a", "b", "c", "dd"], "vdot": ["d", "s"], "vnnzint": ["d", "s"], "vadd": ["d", "a", "b"], "vquery": ["d"], "veq": ["d", "s"],
         "vkron": ["d", "a", "b", "m"], "verasefirst": ["d", "n"]}


def fix(o):
    """A behaviour step printed by TLC, in driver argument order."""
    r = {"op": o["op"]}
    for k in ORDER[o["op"]]:
        v = o[k]
        if k == "v": v = [tuple(x) for x in v]
        r[k] = v
    return r


# ------------------------------------------------------------------------------------------ A03
MORDER = {"mset": "d A", "mT": "d a", "mTT": "d a", "mJr": "d a", "mJl": "d a", "mJc": "d a", "mscal": "d a c", "mpermr": "d perm", "mipermr": "d perm", "mpermc": "d perm",
          "mipermc": "d perm", "mpermrc": "d rperm cperm", "mswapr": "d i j", "mswapc": "d i j", "mmixr": "d i j a b c dd", "mmixc": "d i j a b c dd", "mrowscale": "d c",
          "mcolinv": "d c", "msubm": "d a rix cix", "mblock": "d a i0 i1 j0 j1", "mclearr": "d mask", "mclearc": "d mask", "mappc": "d v", "mappcz": "d", "mapprz": "d",
          "mio": "d", "minsc": "d i v", "minscz": "d i", "minscs": "d ix vs", "mappr": "d row", "mapprs": "d v", "minsr": "d i row", "minsrz": "d i", "minsrsz": "d ix",
          "minsrs": "d ix vs", "minssp": "d ix vs", "merc": "d i", "merr": "d i", "mercl": "d", "merrl": "d", "merfc": "d k", "meric": "d k", "merrs": "d k", "merir": "d k",
          "madd": "d a b", "msub": "d a b", "mdsum": "d a b", "mmul": "d a b", "madde": "d b", "meq": "d s", "mrows": "d", "mtests": "d", "mupinv": "d"}


def mfix(o):
    """A matrix step printed by TLC, in driver argument order."""
    vec = lambda v: [tuple(x) for x in v]
    r = {"op": o["op"]}
    for k in MORDER[o["op"]].split():
        v = o[k]
        if k == "v": v = vec(v)
        elif k == "vs": v = [vec(x) for x in v]
        elif k == "A": v = (v[0], v[1], tuple(vec(c) for c in v[2]))
        r[k] = v
    return r


def shapes(r, p=0):
    if p and r.random() < .07: return r.choice([(12, 9), (9, 12), (1, 20), (20, 1), (17, 17), (33, 3)])
    return r.choice([(3, 3), (2, 4), (4, 2), (5, 3), (1, 4), (4, 1), (1, 1), (0, 3), (3, 0), (3, 5), (5, 5)])


def mat_history(r, p, nops):
    f = Fld(p); s = Scn({"p": p}, tag="mat-history")
    sz = [None] * NREG
    mag = [1] * NREG
    def setm(d, m, n):
        s.add("mset", d=d, A=f.mat(r, m, n, r.choice([.2, .4, .7]))); sz[d] = (m, n); mag[d] = 2
    for d in range(NREG): setm(d, *shapes(r, p))
    ops = ["madd", "madde", "msub", "mmul", "mscal", "mT", "mTT", "mgemv", "mvtm", "mget", "mrows", "mpermr", "mipermr", "mpermc", "mipermc", "mpermrc", "mswapr", "mswapc",
           "mmixr", "mmixc", "mrowscale", "mcolinv", "msubm", "mblock", "msetblock", "mclearr", "mclearc", "mappc", "mappcz", "minsc", "minscz", "minscs", "mappr",
           "mapprs", "mapprz", "minsr", "minsrz", "minsrsz", "minsrs", "minssp", "merc", "mercl", "merfc", "meric", "merr", "merrl", "merrs", "merir", "mJr", "mJl",
           "mJc", "mdsum", "mio", "mtests", "meq", "mzero", "mident", "mcopy", "mset", "mcsc", "mfill", "mupinv"]
    for _ in range(nops):
        op = r.choice(ops); d, a, b = (r.randrange(NREG) for _ in range(3))
        m, n = sz[d]
        c = f.rand(r)
        if op in ("madd", "msub", "mmul", "madde"):
            x = d if op == "madde" else a
            if op == "mmul":
                if sz[b][0] != sz[a][1]:
                    setm(b, sz[a][1], r.randrange(0, 5))
                    if a == b and sz[b][0] != sz[a][1]: continue
                s.add(op, d=d, a=a, b=b); sz[d] = (sz[a][0], sz[b][1])
            else:
                if sz[b] != sz[x]:
                    if b == x: continue
                    setm(b, *sz[x])
                if op == "madde":
                    if b == d: continue
                    s.add(op, d=d, b=b)
                else: s.add(op, d=d, a=a, b=b); sz[d] = sz[a]
            if p == 0: setm(d, *shapes(r, p)) if r.random() < .5 else None
        elif op == "mscal":
            if r.random() < .15: c = f.zero()
            s.add(op, d=d, a=a, c=c); sz[d] = sz[a]
        elif op in ("mT", "mTT"): s.add(op, d=d, a=a); sz[d] = sz[a][::-1]
        elif op == "mgemv":
            s.add("vset", d=0, v=f.vec(r, n, .6)); s.add(op, d=d, s=0)
        elif op == "mvtm":
            s.add("vset", d=0, v=f.vec(r, m, .6)); s.add(op, d=d, s=0)
        elif op == "mget":
            if m and n: s.add(op, d=d, i=r.randrange(m), j=r.randrange(n))
        elif op in ("mrows", "mtests", "mupinv"):
            if op == "mupinv" and m != n: continue
            if op == "mupinv":   # asked of triangular candidates
                e = [[(i, f.rand(r)) for i in range(j) if r.random() < .4] + ([(j, f.rand(r))] if r.random() < .85 else []) for j in range(n)]
                s.add("mset", d=d, A=(n, n, tuple(e))); sz[d] = (n, n)
            elif op == "mtests" and r.random() < .6:   # structured inputs so that the predicates are not vacuous
                kind = r.choice(["L", "U", "piv", "EL", "EU", "ELH", "EUH"])
                s.add("mset", d=d, A=structured(r, f, m, n, kind))
            s.add(op, d=d)
        elif op in ("mpermr", "mipermr", "mpermc", "mipermc"):
            k = m if op in ("mpermr", "mipermr") else n; q = list(range(k)); r.shuffle(q); s.add(op, d=d, perm=q)
        elif op == "mpermrc":
            q = list(range(m)); r.shuffle(q); w = list(range(n)); r.shuffle(w); s.add(op, d=d, rperm=q, cperm=w)
        elif op == "mswapr":
            if m: s.add(op, d=d, i=r.randrange(m), j=r.randrange(m))
        elif op == "mswapc":
            if n: s.add(op, d=d, i=r.randrange(n), j=r.randrange(n))
        elif op in ("mmixr", "mmixc"):
            k = m if op == "mmixr" else n
            if k < 2: continue
            i, j = r.sample(range(k), 2); co = [f.rand(r, nz=False) for _ in range(4)]
            s.add(op, d=d, i=i, j=j, a=co[0], b=co[1], c=co[2], dd=co[3])
        elif op == "mrowscale": s.add(op, d=d, c=[f.rand(r) for _ in range(m)])
        elif op == "mcolinv": s.add(op, d=d, c=[f.rand(r) for _ in range(n)])
        elif op == "msubm":
            am, an = sz[a]; ri = [i for i in range(am) if r.random() < .6]; ci = [i for i in range(an) if r.random() < .6]
            r.shuffle(ri); r.shuffle(ci); s.add(op, d=d, a=a, rix=ri, cix=ci); sz[d] = (len(ri), len(ci))
        elif op == "mblock":
            am, an = sz[a]; i0 = r.randint(0, am); i1 = r.randint(i0, am); j0 = r.randint(0, an); j1 = r.randint(j0, an)
            s.add(op, d=d, a=a, i0=i0, i1=i1, j0=j0, j1=j1); sz[d] = (i1 - i0, j1 - j0)
        elif op == "msetblock":
            i0 = r.randint(0, m); i1 = r.randint(i0, m); j0 = r.randint(0, n); j1 = r.randint(j0, n)
            e = (d + 1) % NREG; s.add("mset", d=e, A=f.mat(r, i1 - i0, j1 - j0, .5)); sz[e] = (i1 - i0, j1 - j0)
            s.add(op, d=d, i0=i0, i1=i1, j0=j0, j1=j1, b=e)
        elif op == "mclearr": s.add(op, d=d, mask=[r.randrange(2) for _ in range(m)])
        elif op == "mclearc": s.add(op, d=d, mask=[r.randrange(2) for _ in range(n)])
        elif op in ("mappc", "mappcz", "minsc", "minscz", "minscs"):
            if n > 6: continue
            if op == "mappc": s.add(op, d=d, v=f.vec(r, m)); sz[d] = (m, n + 1)
            elif op == "mappcz": s.add(op, d=d); sz[d] = (m, n + 1)
            elif op == "minsc": s.add(op, d=d, i=r.randint(0, n), v=f.vec(r, m)); sz[d] = (m, n + 1)
            elif op == "minscz": s.add(op, d=d, i=r.randint(0, n)); sz[d] = (m, n + 1)
            else:
                k = r.randrange(0, 4); ix = sorted(r.sample(range(n + k), k)); s.add(op, d=d, ix=ix, vs=[f.vec(r, m) for _ in ix]); sz[d] = (m, n + k)
        elif op in ("mappr", "mapprs", "mapprz", "minsr", "minsrz", "minsrsz", "minsrs", "minssp"):
            if m > 6: continue
            row = [f.rand(r) if r.random() < .5 else f.zero() for _ in range(n)]
            if op == "mappr": s.add(op, d=d, row=row)
            elif op == "mapprs": s.add(op, d=d, v=f.vec(r, n))
            elif op == "mapprz": s.add(op, d=d)
            elif op == "minsr": s.add(op, d=d, i=r.randint(0, m), row=row)
            elif op == "minsrz": s.add(op, d=d, i=r.randint(0, m))
            else:
                k = r.randrange(0, 4); ix = sorted(r.sample(range(m + k), k))
                if op == "minsrsz": s.add(op, d=d, ix=ix)
                else: s.add(op, d=d, ix=ix, vs=[f.vec(r, n) for _ in ix])
                sz[d] = (m + k, n); continue
            sz[d] = (m + 1, n)
        elif op in ("merc", "mercl"):
            if n: s.add(op, d=d, **({"i": r.randrange(n)} if op == "merc" else {})); sz[d] = (m, n - 1)
        elif op in ("merfc", "meric"): k = r.randint(0, n); s.add(op, d=d, k=k); sz[d] = (m, n - k)
        elif op in ("merr", "merrl"):
            if m: s.add(op, d=d, **({"i": r.randrange(m)} if op == "merr" else {})); sz[d] = (m - 1, n)
        elif op in ("merrs", "merir"): k = r.randint(0, m); s.add(op, d=d, k=k); sz[d] = (m - k, n)
        elif op in ("mJr", "mJl", "mJc", "mcopy"):
            if op == "mcopy": s.add(op, d=d, s=a)
            else: s.add(op, d=d, a=a)
            sz[d] = sz[a]
        elif op == "mdsum":
            if sz[a][0] + sz[b][0] < 8 and sz[a][1] + sz[b][1] < 8: s.add(op, d=d, a=a, b=b); sz[d] = (sz[a][0] + sz[b][0], sz[a][1] + sz[b][1])
        elif op == "mio":
            if p: s.add(op, d=d)
        elif op == "meq":
            if r.random() < .5: s.add("mcopy", d=d, s=a); sz[d] = sz[a]
            s.add(op, d=d, s=a)
        elif op == "mzero": m, n = shapes(r, p); s.add(op, d=d, m=m, n=n); sz[d] = (m, n)
        elif op == "mfill": m, n = shapes(r, p); s.add(op, d=d, m=m, n=n, a=c); sz[d] = (m, n)
        elif op == "mident": k = r.randrange(0, 5); s.add(op, d=d, n=k); sz[d] = (k, k)
        elif op == "mset": setm(d, *shapes(r, p))
        elif op == "mcsc":
            m, n = shapes(r, p); cp, ri, va = [0], [], []
            for j in range(n):
                for i in sorted(i for i in range(m) if r.random() < .4):
                    ri.append(i); va.append(r.choice([-1, 1]))
                cp.append(len(ri))
            s.add(op, d=d, m=m, cp=cp, ri=ri, va=va); sz[d] = (m, n)
        mag[d] += 1
        if p == 0 and mag[d] > 4: setm(d, *sz[d])
    return s


def structured(r, f, m, n, kind):
    cols = [dict() for _ in range(n)]
    k = min(m, n)
    if kind == "L":
        for j in range(n):
            for i in range(j, m):
                if i == j or r.random() < .4: cols[j][i] = f.rand(r)
    elif kind == "U":
        for j in range(n):
            for i in range(0, min(j + 1, m)):
                if i == j or r.random() < .4: cols[j][i] = f.rand(r)
    else:
        rk = r.randint(0, k)
        if kind == "piv":
            for i, j in zip(r.sample(range(m), rk), r.sample(range(n), rk)): cols[j][i] = f.rand(r)
        elif kind == "EL":
            for j, i in enumerate(sorted(r.sample(range(m), rk))): cols[j][i] = f.rand(r)
        elif kind == "EU":
            for i, j in enumerate(sorted(r.sample(range(n), rk))): cols[j][i] = f.rand(r)
        elif kind == "EUH":   # J EL J
            for j, i in enumerate(sorted(r.sample(range(m), rk))): cols[n - 1 - j][m - 1 - i] = f.rand(r)
        elif kind == "ELH":   # J EU J
            for i, j in enumerate(sorted(r.sample(range(n), rk))): cols[n - 1 - j][m - 1 - i] = f.rand(r)
    if r.random() < .2 and m and n: cols[r.randrange(n)][r.randrange(m)] = f.rand(r)   # sometimes perturb
    return (m, n, tuple(sorted(c.items()) for c in cols))


def a03(ctx):
    fields = [2, 3, 5, 0]
    build(ctx, fields)
    n = 300 if ctx.thorough else 150
    by = {p: [mat_history(ctx.rng, p, 60) for _ in range(n)] for p in fields}
    # exhaustive behaviours of the specification on tiny matrices
    for p, m, k in [(2, 2, 2), (2, 1, 2), (2, 2, 1), (2, 0, 2), (2, 2, 0), (2, 0, 0), (3, 1, 2)] + ([(2, 2, 3), (2, 3, 2), (3, 2, 2)] if ctx.thorough else []):
        bs = ctx.behaviours("MatGen", "CONSTANTS NReg = 6 P = %d M = %d N = %d\nINIT Init\nNEXT Next\nINVARIANT Sound Laws\n" % (p, m, k), "all %d x %d matrices over F_%d under every matrix operation" % (m, k, p))
        for b in bs:
            s = Scn({"p": p}, tag="mat-exhaustive")
            for o in b: s.ops.append(mfix(o))
            by[p].append(s)
    go(ctx, by)


# ------------------------------------------------------------------------------------------ A04
def tri(r, f, n, lower, unit=False, dens=.5):
    cols = []
    for j in range(n):
        c = [(i, f.rand(r)) for i in (range(j + 1, n) if lower else range(j)) if r.random() < dens] + [(j, f.one() if unit else f.rand(r))]
        cols.append(sorted(c))
    return (n, n, tuple(cols))


def a04(ctx):
    fields = [2, 3, 5, 0]
    build(ctx, fields)
    r, by = ctx.rng, {}
    for p in fields:
        f = Fld(p); ss = []
        for t in range(500 if ctx.thorough else 200):
            s = Scn({"p": p}, tag="solve"); n = r.randrange(1, 7 if p else 5) if not p or r.random() < .9 else r.choice([9, 12, 18]); d = r.choice([.2, .5, .9])
            k = r.randrange(0, 5)
            s.add("mset", d=0, A=tri(r, f, n, False, dens=d)).add("mset", d=1, A=tri(r, f, n, True, dens=d)).add("mset", d=2, A=f.mat(r, n, k, .6))
            s.add("vset", d=0, v=f.vec(r, n, r.choice([0, .3, .8])))
            s.add("usolvev", d=0, s=0).add("lsolvev", d=1, s=0).add("usolve", d=0, b=2).add("lsolve", d=1, b=2).add("uinv", d=0).add("linv", d=1)
            for i in range(n):
                s.add("vunit", d=1, i=i).add("usolvev", d=0, s=1).add("lsolvev", d=1, s=1)
            # a general invertible matrix as a shuffled product
            q = list(range(n)); r.shuffle(q)
            s.add("mmul", d=3, a=1, b=0).add("mpermr", d=3, perm=q)
            q = list(range(n)); r.shuffle(q); s.add("mpermc", d=3, perm=q)
            s.add("inv", d=3).add("inv", d=0).add("inv", d=1)
            ss.append(s)
        if p == 2:     # every invertible triangular matrix of size 3 over F_2, every right-hand side
            for bits in itertools.product((0, 1), repeat=3):
                for lower in (0, 1):
                    pos = [(1, 0), (2, 0), (2, 1)] if lower else [(0, 1), (0, 2), (1, 2)]
                    cols = [{j: 1} for j in range(3)]
                    for (i, j), v in zip(pos, bits):
                        if v: cols[j][i] = 1
                    s = Scn({"p": p}, tag="solve-exhaustive"); s.add("mset", d=0, A=(3, 3, tuple(sorted(c.items()) for c in cols)))
                    for rhs in itertools.product((0, 1), repeat=3):
                        s.add("vset", d=0, v=[(i, 1) for i in range(3) if rhs[i]]).add("lsolvev" if lower else "usolvev", d=0, s=0)
                    s.add("linv" if lower else "uinv", d=0).add("inv", d=0)
                    ss.append(s)
        by[p] = ss
    go(ctx, by)
    factmc(ctx)


def factmc(ctx):
    for p, m, n in [(2, 3, 3), (3, 2, 2)] + ([(3, 2, 3), (2, 4, 3), (2, 3, 4)] if ctx.thorough else []):
        ctx.model_check("FactMC", "CONSTANTS P = %d NR = %d NC = %d\nINIT Init\nNEXT Next\nINVARIANT Inv Solve\n" % (p, m, n), "elimination with every order of pivots and substitution, all %d x %d matrices over F_%d" % (m, n, p), expect_states=100)


# ------------------------------------------------------------------------------------------ A05
FACTS = ["LEUP", "PLEU", "UELP", "PUEL", "LQU", "UQL"]


def a05(ctx):
    fields = [2, 3, 5, 0]
    build(ctx, fields)
    r, by = ctx.rng, {}
    for p in fields:
        f = Fld(p); ss = []
        for t in range(500 if ctx.thorough else 160):
            m, n = r.choice([(3, 3), (4, 4), (2, 5), (5, 2), (4, 3), (3, 4), (1, 3), (3, 1), (1, 1), (6, 6), (5, 7), (0, 2), (2, 0)] if p else [(3, 3), (2, 4), (4, 2), (3, 2), (4, 4), (1, 3)])
            if p and r.random() < .08: m, n = r.choice([(9, 9), (12, 7), (7, 12), (16, 16), (20, 2), (2, 20)])
            s = Scn({"p": p}, tag="factor")
            if r.random() < .5: A = f.mat(r, m, n, r.choice([.15, .3, .6, .9]))
            else: A = structured(r, f, m, n, r.choice(["L", "U", "piv", "EL", "EU", "ELH", "EUH"]))
            s.add("mset", d=0, A=A)
            for op in FACTS: s.add(op, d=0)
            for kind, e, tri_lower, right in (("EL_L", "EL", True, True), ("L_EL", "ELH", True, False), ("U_EU", "EU", False, False), ("EU_U", "EUH", False, True)):
                E = clean(r, f, m, n, e); T = tri(r, f, n if right else m, tri_lower, dens=r.choice([.3, .8]))
                s.add("mset", d=1, A=E).add("mset", d=2, A=T)
                s.add("comm", d=1 if right else 2, kind=kind, a=2 if right else 1)
            ss.append(s)
        if p == 2:
            dims = [(2, 2), (2, 3), (3, 2)] + ([(3, 3)] if True else [])
            for m, n in dims:
                for bits in itertools.product((0, 1), repeat=m * n):
                    s = Scn({"p": p}, tag="factor-exhaustive")
                    s.add("mset", d=0, A=(m, n, tuple([(i, 1) for i in range(m) if bits[j * m + i]] for j in range(n))))
                    for op in FACTS: s.add(op, d=0)
                    ss.append(s)
        if p == 3:
            for e in itertools.product(range(3), repeat=4):
                s = Scn({"p": p}, tag="factor-exhaustive")
                s.add("mset", d=0, A=(2, 2, tuple([(i, e[2 * j + i]) for i in range(2) if e[2 * j + i]] for j in range(2))))
                for op in FACTS: s.add(op, d=0)
                ss.append(s)
        by[p] = ss
    go(ctx, by)
    factmc(ctx)


def clean(r, f, m, n, kind):
    st = r.getstate()
    while True:
        A = structured(r, f, m, n, kind)
        # structured() perturbs sometimes; keep only exact shapes
        if all(len(c) <= 1 for c in A[2]) and shape_ok(A, kind): return A


def shape_ok(A, kind):
    m, n, cols = A
    piv = [(c[0][0], j) for j, c in enumerate(cols) if c]
    if kind in ("EUH", "ELH"): piv = sorted((m - 1 - i, n - 1 - j) for i, j in piv)
    if kind in ("EU", "ELH"): piv = [(j, i) for i, j in piv]
    piv.sort(key=lambda t: t[1])
    return all(j == k for k, (i, j) in enumerate(piv)) and all(piv[k][0] < piv[k + 1][0] for k in range(len(piv) - 1))


CHECKS = {"A01": a01, "A02": a02, "A03": a03, "A04": a04, "A05": a05}
