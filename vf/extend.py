"""A27: lower-star and level-set extensions (Ext.tla).  A34: grid complexes."""
from .core import Scn
from . import gen


def _lists(K):
    return gen.simp_list(K) if not isinstance(K, list) else K


def a27(ctx):
    ctx.build([("ext", "ext.cpp", [])])
    r = ctx.rng; N = (lambda a, b: a if ctx.thorough else b)
    ss = []
    def S(tag): s = Scn({"_p": 0}, tag=tag); ss.append(s); return s
    def simp():
        c = gen.named(r) if r.random() < .15 else gen.wide(r) if r.random() < .04 else gen.simp_random(r, nv=r.choice([2, 3, 5, 6]), maxdim=r.choice([0, 1, 2, 3]), gaps=r.random() < .3)
        return c, max(v for d in c for s in d for v in s) + 1
    def vals(n, spread=None):
        w = spread or r.choice([1, 2, 6, 40]); base = r.choice([0, 0, -100, -4 * w, 80])
        return [base + r.randrange(-w, w + 1) for _ in range(n)]
    def image(n): w = r.choice([1, 3, 12]); b = r.choice([0, -50, 20]); return [[[b + r.randrange(-w, w + 1) for _ in range(n[2])] for _ in range(n[1])] for _ in range(n[0])]
    def look(s, lo, hi, big):
        for _ in range(r.choice([1, 2, 4])):
            a = r.randrange(lo - 3, hi + 4); s.add("level", s0=a, s1=a + r.choice([0, 0, 1, 2, 8, 100]))
        if r.random() < .7:
            e = r.choice([1, 2, 4, 7, 30]); a = r.randrange(lo - 3, hi + 2); s.add("levels", eps=e, t0=a, t1=a + e * r.randrange(0, 3 if big else 5) + r.choice([0, 1]))
    def cubes(n, size=3):
        c = gen.cube_random(r, n=n, size=size); m = max([1] + [x for d in c for s in d for x in s]) + 1
        return c, m
    for _ in range(N(1200, 260)):
        s = S("lower star")
        for _ in range(2):
            c, n = simp(); s.add("lower", kind=r.choice(["simp", "light"]), nv=n, c=c, f=vals(n))
        n = r.choice([2, 3, 3]); c, m = cubes(n, r.choice([3] * 9 + [9]))
        s.add("lowerc", n=n, c=c, f=[vals(m) if n == 2 else [vals(m) for _ in range(m)] for _ in range(m)])
    for _ in range(N(600, 120)):
        s = S("gradients")
        for _ in range(3):
            nd = r.choice([1, 2, 3]); nv = r.choice([1, 3, 5]); sz = [nv] + [r.choice([1, 2, 4]) for _ in range(nd)]
            im = [[r.randrange(nv) for _ in range(k)] for k in sz]; npair = [r.choice([0, 1, 3]) for _ in range(nd)]
            s.add("back", g=[[r.randrange(-9, 10) for _ in range(2 * k)] for k in npair],
                  bd=[[(-1 if r.random() < .2 else r.randrange(sz[d + (j % 2)])) for j in range(2 * k)] for d, k in enumerate(npair)], imap=im)
    for _ in range(N(1500, 300)):
        s = S("zigzag of a simplicial function")
        c, n = simp(); f = vals(n); w = max(f) - min(f); kind = r.choice(["simp", "light"])
        s.add("extz", kind=kind, nv=n, c=c, f=f, eps=r.choice([w // 2, (w + 1) // 2, w, w + 3, 0]))
        if s.ops[-1]["eps"] * 2 >= w: look(s, min(f) - w, max(f) + w, len(c) > 3)
    for _ in range(N(600, 100)):
        s = S("zigzag of a cubical function")
        c, m = cubes(3, r.choice([3] * 19 + [7])); f = vals(m ** 3); w = max(f) - min(f)
        s.add("extc", n=m, c=c, f=f, eps=r.choice([0, w // 4, w // 2, w])); look(s, min(f), max(f), True)
        s.add("extl", n=m, c=c, f=f, eps=r.choice([0, w // 2, (w + 1) // 2, w])); look(s, min(f), max(f), True)
    for _ in range(N(400, 60)):
        s = S("voxel image"); img = image([r.choice([1, 2, 2, 3]), r.choice([1, 2]), r.choice([1, 2, 3])] if r.random() < .85 else r.sample([1, 1, 8], 3))
        s.add("toplex", img=img); v = [x for a in img for b in a for x in b]; look(s, min(v), max(v), True)
    for _ in range(N(600, 120)):
        s = S("several intervals per cell"); c = gen.simp_random(r, nv=r.choice([3, 4]), maxdim=2); iv = {}; v = []
        for d in c:
            row = []
            for x in d:
                if len(x) == 1:
                    t, xs = r.randrange(-6, 3), []
                    for _ in range(r.choice([1, 2, 3])): b = t + r.randrange(0, 5); xs.append([t, b]); t = b + r.randrange(1, 4)
                else:          # present exactly while every facet is
                    xs = None
                    for k in range(len(x)):
                        g = iv[tuple(x[:k] + x[k + 1:])]
                        xs = g if xs is None else [[max(a[0], b[0]), min(a[1], b[1])] for a in xs for b in g if max(a[0], b[0]) <= min(a[1], b[1])]
                iv[tuple(x)] = xs; row.append(xs)
            v.append(row)
        if any(not xs for row in v for xs in row):
            keep = [[x for x in d if iv[tuple(x)]] for d in c]; c = [d for d in keep if d]; v = [[iv[tuple(x)] for x in d] for d in c]
        s.add("zset", c=c, v=v); look(s, -6, 14, False)
    ev = ctx.execute("ext", ss, label="ext")
    ctx.validate("ExtTrace", ss, ev)
    for n in ([3, 4] if ctx.thorough else [3]):
        ctx.model_check("ExtMC", "CONSTANTS N = %d\nMaxF = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\nVIEW View\n" % (n, 3 if n == 3 else 2), "every extension of a function is a filtration by complexes", expect_states=50)


def a34(ctx):
    ctx.build([("ext", "ext.cpp", [])])
    r = ctx.rng; N = (lambda a, b: a if ctx.thorough else b)
    ss = []
    def S(tag): s = Scn({"_p": 0}, tag=tag); ss.append(s); return s
    def grid(s, k, cubes, sub, n, lo, hi): s.add("grid", kind=k, cubes=cubes, sub=sub, n=n, lo=lo, hi=hi)
    for k in ("simp", "light"):
        for n in [(a, b) for a in range(2, 6) for b in range(2, 6)]:
            s = S("plane grid"); grid(s, k, 0, 0, n_(n), [0, 0], [n[0] - 1, n[1] - 1]); grid(s, k, 1, 0, n_(n), [0, 0], [n[0] - 1, n[1] - 1])
        for n in [(a, b, c) for a in range(2, 5) for b in range(2, 5) for c in range(2, 5)]:
            if not ctx.thorough and r.random() < .6: continue
            s = S("solid grid"); grid(s, k, 0, 0, n_(n), [0] * 3, [x - 1 for x in n]); grid(s, k, 1, 0, n_(n), [0] * 3, [x - 1 for x in n])
    for n in [(2, 9), (9, 2), (8, 8), (2, 2, 8), (2, 8, 2), (8, 2, 2), (3, 2, 9)]:
        s = S("long grid"); k = r.choice(["simp", "light"]); z = [0] * len(n)
        for q in (0, 1): grid(s, k, q, 0, n_(n), z, [x - 1 for x in n])
    for _ in range(N(500, 120)):
        n = [r.choice([2, 3, 4, 5]) for _ in range(3)] if r.random() < .8 else r.sample([2, 3, 9], 3); s = S("box in a grid")
        for _ in range(3):
            while True:
                lo = [r.randrange(0, x) for x in n]; hi = [min(x - 1, a + r.choice([0, 1, 1, 2, 3])) for a, x in zip(lo, n)]
                if sum(a < b for a, b in zip(lo, hi)) >= 2: break
            grid(s, r.choice(["simp", "light"]), int(r.random() < .3), 1, n, lo, hi)
    for _ in range(N(500, 120)):
        s = S("cubical complex"); c = gen.cube_random(r, n=3, size=3); m = max([1] + [x for d in c for q in d for x in q]) + 1
        s.add("gridc", kind=r.choice(["simp", "light"]), n=[m + r.choice([0, 1, 2]), m + r.choice([0, 3]), m + r.choice([0, 1])], c=c)
    ev = ctx.execute("ext", ss, label="ext")
    ctx.validate("ExtTrace", ss, ev)
    ctx.model_check("GridMC", "CONSTANTS Big = %s\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % ("TRUE" if ctx.thorough else "FALSE"),
                    "the Freudenthal simplices of every cubical set form a complex with its Euler characteristic", expect_states=20)


def n_(t): return list(t)


CHECKS = {"A27": a27, "A34": a34}
