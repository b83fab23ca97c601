"""A29: polynomials, Smith normal forms and rational canonical forms (Poly.tla)."""
from .core import Scn, Fld


def a29(ctx):
    ps = [2, 3, 5, 0]
    ctx.build([("poly%d" % p, "poly.cpp", ["-DFIELD=%d" % p]) for p in ps])
    r = ctx.rng; N = (lambda a, b: a if ctx.thorough else b)
    allss, allev = [], []
    for p in ps:
        f = Fld(p); ss = []
        def S(tag): s = Scn({"_p": p}, tag=tag); ss.append(s); return s
        def sc(): return f.rand(r, nz=r.random() < .6)
        def pol(d=None, lead=True):
            d = r.choice([-1, 0, 0, 1, 1, 2, 2, 3, 4]) if d is None else d
            c = [sc() for _ in range(d + 1)]
            if c and lead: c[-1] = f.rand(r)
            return c
        def nz(d=None):
            while True:
                q = pol(d)
                if q and not f.is0(q[-1]): return q
        def mul(a, b): return [] if not a or not b else [sum(a[i] * b[k - i] for i in range(len(a)) if 0 <= k - i < len(b)) % p for k in range(len(a) + len(b) - 1)]
        def top(): return r.choice([-1, 0, 1, 1, 2]) if p == 0 else None
        for _ in range(N(1000, 150)):
            s = S("polynomials")
            for how in r.sample(["list", "mono", "const", "one", "zero", "vec"], 3):
                if how == "mono": s.add("new", how=how, d=r.randrange(4), c=[sc()])
                else: s.add("new", how=how, c=[sc()] if how in ("const", "one", "zero") else [sc() for _ in range(r.randrange(5))] + [f.zero()] * r.choice([0, 0, 1, 2][: 4]) if how != "list" else [sc() for _ in range(r.randrange(5))])
            for _ in range(3):
                a, b = pol(top()), pol(top(), lead=r.random() < .9)
                if r.random() < .2: b = a
                elif r.random() < .2 and a: b = [f.rand(r, nz=False)] * (len(a) - 1) + [a[-1]]        # leading terms that cancel
                s.add("arith", a=a, b=b)
                if p and r.random() < .4:
                    c = nz(r.choice([0, 1, 2])); a, b = mul(a, c), mul(nz(r.choice([0, 1, 2])), c)    # a common factor
                q = nz(r.choice([0, 1]) if p == 0 else None)
                s.add("div", a=a, b=q); s.add("gcd", a=a, b=b)
                if a or b: s.add("bez", a=a, b=b)
                s.add("eval", a=a, v=[sc() for _ in range(3)])
                n = r.choice([1, 2, 3] if p == 0 else [1, 2, 3, 4])
                s.add("meval", a=pol(r.choice([-1, 0, 1, 2])) if p == 0 else a, A=f.mat(r, n, n, .5), v=f.vec(r, n, .6))
                m = pol(r.choice([-1, 0, 1, 1, 2, 3, 4]))
                if m and r.random() < .85: m[-1] = f.one()
                s.add("comp", a=m)
                n2 = n if r.random() < .9 else n + 1
                s.add("charm", A=f.mat(r, n, n2, r.choice([.2, .5, .9])))
            if p and r.random() < .25:                                                    # higher degrees, larger matrices
                a, b = nz(r.choice([7, 9])), nz(r.choice([3, 6, 8])); c = nz(r.choice([2, 4]))
                s.add("arith", a=a, b=b).add("div", a=a, b=b).add("gcd", a=mul(a, c), b=mul(b, c)).add("bez", a=a, b=b).add("eval", a=a, v=[sc()])
                m = nz(r.choice([7, 8])); m[-1] = f.one(); s.add("comp", a=m)
                n = r.choice([7, 8]); s.add("charm", A=f.mat(r, n, n, .4)); s.add("meval", a=a, A=f.mat(r, 3, 3, .6), v=f.vec(r, 3, .6))
        if p == 2:
            for _ in range(N(800, 150)):
                s = S("integers")
                for _ in range(8):
                    w = r.choice([3, 12, 1000]); a, b = r.randrange(-w, w + 1), r.randrange(-w, w + 1)
                    if r.random() < .2: b = r.choice([a, -a, 2 * a, 0])
                    if a or b: s.add("zbez", a=a, b=b)
            for _ in range(N(3000, 400)):
                s = S("smith-z")
                for _ in range(3):
                    m, n = r.choice([0, 1, 2, 2, 3, 3, 4]), r.choice([0, 1, 2, 2, 3, 3, 4]); w = r.choice([1, 1, 2, 3] if max(m, n) > 3 else [1, 2, 4, 6]); dens = r.choice([.3, .6, 1])
                    c = [[r.randrange(-w, w + 1) if r.random() < dens else 0 for _ in range(m)] for _ in range(n)]
                    if n > 1 and r.random() < .3: c[1] = [x * r.choice([1, -1, 2]) for x in c[0]]
                    s.add("zsmith", how=r.choice(["form", "rows", "fact", "fact"]), A=(m, n, tuple([(i, x) for i, x in enumerate(q) if x] for q in c)))
            for _ in range(N(1500, 150)):                                         # pivots that do not divide each other
                s = S("smith-z")
                for _ in range(2):
                    n = r.choice([2, 3, 3, 4]); m = n + r.choice([0, 0, 0, 1]) if n < 4 else n
                    d = [r.choice([1, -1]) * r.choice([2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 18, 20, 0] if n > 3 else [2, 3, 4, 5, 6, 8, 9, 10, 12, 14, 15, 18, 20, 21, 30, 35, 0]) for _ in range(n)]
                    rows = r.sample(range(m), n) if r.random() < .6 else list(range(n))
                    c = [{rows[j]: d[j]} if d[j] else {} for j in range(n)]
                    if n < 4 and r.random() < .3:
                        i, j = r.sample(range(n), 2); k = r.choice([1, -1, 2])
                        for a, x in list(c[i].items()): c[j][a] = c[j].get(a, 0) + k * x
                    s.add("zsmith", how=r.choice(["form", "rows", "fact", "fact"]), A=(m, n, tuple([(i, x) for i, x in sorted(q.items()) if x] for q in c)))
            for _ in range(N(150, 25)):                                                  # larger, sparse
                m, n = r.choice([(7, 7), (8, 7), (7, 9), (9, 3), (2, 8), (8, 8)]); s = S("smith-z"); k = min(m, n)
                c = [dict() for _ in range(n)]
                for i, j in zip(r.sample(range(m), k), r.sample(range(n), k)): c[j][i] = r.choice([1, 1, 1, -1, 1, 2, 3] if k > 3 else [1, -1, 2, 3, 4])
                if r.random() < .5:
                    i, j = r.sample(range(n), 2)
                    for a, x in list(c[i].items()): c[j][a] = c[j].get(a, 0) + x
                s.add("zsmith", how=r.choice(["form", "rows", "fact"]), A=(m, n, tuple([(i, x) for i, x in sorted(q.items()) if x] for q in c)))
        for _ in range(N(100, 15) if p else 0):
            s = S("smith-poly"); m, n = r.choice([(7, 7), (7, 8), (8, 3), (2, 8)]); k = min(m, n); c = [[] for _ in range(n)]
            for i, j in zip(r.sample(range(m), k), r.sample(range(n), k)): c[j].append((i, nz(r.choice([0, 0, 0, 1]))))
            s.add("psmith", how=r.choice(["form", "rows", "fact"]), A=(m, n, tuple(c)))
            s = S("rcf"); n = r.choice([7, 8]); s.add("rcf", A=f.mat(r, n, n, r.choice([.1, .15, .3])))
        for _ in range(N(800, 80) if p else 0):                                   # the same over polynomials
            s = S("smith-poly")
            n = r.choice([2, 3, 3, 4]); lin = [[x, f.one()] for x in range(p)]
            if p == 2: lin.append([1, 1, 1])
            def prod(k):
                q = [f.rand(r)]
                for _ in range(k): q = mul(q, r.choice(lin))
                return q
            d = [prod(r.choice([0, 1, 1, 2, 2, 3] if n < 4 else [0, 1, 1, 2])) if r.random() < .93 else [] for _ in range(n)]
            rows = r.sample(range(n), n) if r.random() < .6 else list(range(n))
            s.add("psmith", how=r.choice(["form", "rows", "fact", "fact"]), A=(n, n, tuple([(rows[j], d[j])] if d[j] else [] for j in range(n))))
        for _ in range(N(1500, 250) if p else N(300, 60)):
            s = S("smith-poly")
            for _ in range(2):
                m, n = (r.choice([1, 2]), r.choice([1, 2])) if p == 0 else (r.choice([0, 1, 2, 2, 3, 3]), r.choice([0, 1, 2, 2, 3, 3, 4])); dens = r.choice([.3, .6, 1]); dm = r.choice([0, 1, 1]) if p == 0 else r.choice([0, 1, 1, 2])
                c = [[(i, nz(r.randrange(dm + 1))) for i in range(m) if r.random() < dens] for _ in range(n)]
                if n > 1 and r.random() < .3: c[1] = c[0]
                if p and r.random() < .4:
                    q = nz(1); c = [[(i, mul(x, q)) for i, x in col] if r.random() < .7 else col for col in c]
                s.add("psmith", how=r.choice(["form", "rows", "fact", "fact"]), A=(m, n, tuple(c)))
        for _ in range(N(1500, 250) if p else N(150, 40)):
            s = S("rcf")
            n = r.choice([1, 2, 2]) if p == 0 else r.choice([0, 1, 2, 3, 3, 4])
            A = f.mat(r, n, n, r.choice([0, .25, .5, .9]))
            if r.random() < .4 and n and p:                                       # equal blocks: several non-trivial invariant factors
                k = r.choice([1, 1, 2]) if n > 1 else 1; a = f.mat(r, k, k, .7)
                cols = [[] for _ in range(n)]
                for b in range(n // k):
                    for j in range(k): cols[b * k + j] = [(i + b * k, x) for i, x in a[2][j]]
                if r.random() < .5 and n > 2: cols[n - 1] = cols[n - 1] + [] if any(i == n - 1 for i, _ in cols[n - 1]) else cols[n - 1] + [(n - 1, f.rand(r))]
                A = (n, n, tuple(cols))
            s.add("rcf", A=A)
        ev = ctx.execute("poly%d" % p, ss, label="poly%d" % p)
        allss += ss; allev += ev
    ctx.validate("PolyTrace", allss, allev)
    for P, B in [(2, 4), (3, 3)] if ctx.thorough else [(2, 3), (3, 2)]:
        ctx.model_check("PolyMC", "CONSTANTS P = %d\nB = %d\nSPECIFICATION Spec\nINVARIANTS Euclid Laws\nPROPERTY Ends\n" % (P, B),
                        "ring laws, division, companion matrices and Euclid's algorithm (with termination) for all polynomials of degree < %d over F_%d" % (B, P), expect_states=160)
    runs = [("z", 0, 2, 2, 2), ("p", 2, 2, 2, 2), ("z", 0, 2, 3, 1), ("z", 0, 3, 2, 1)]
    if ctx.thorough: runs += [("z", 0, 2, 2, 4), ("p", 3, 2, 2, 2), ("p", 2, 3, 2, 2), ("z", 0, 3, 3, 1)]
    for K, P, M, n, B in runs:
        ctx.model_check("SmithMC", 'CONSTANTS K = "%s"\nP = %d\nM = %d\nN = %d\nB = %d\nSPECIFICATION Spec\nINVARIANTS Kept Diag Final\nPROPERTY Ends\n' % (K, P, M, n, B),
                        "Smith reduction of every %dx%d matrix over %s, every choice of pivots: factorization kept, ends in the Smith form" % (M, n, "Z, entries up to %d" % B if K == "z" else "F_%d[x], degree < %d" % (P, B)), expect_states=5000)


CHECKS = {"A29": a29}
