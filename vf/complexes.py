"""A15-A18: complexes, boundaries and filtrations (Complex.tla and its trace specification)."""
import itertools
from .core import Scn, Fld
from . import gen


def build(ctx, fields): ctx.build([("cx%d" % p, "complexes.cpp", ["-DFIELD=%d" % p]) for p in fields])


def go(ctx, by):
    scns, evs = [], []
    for p, ss in by.items():
        if ss: evs += ctx.execute("cx%d" % p, ss, label="cx%d" % p); scns += ss
    ctx.validate("ComplexTrace", scns, evs)


def mc(ctx, kind, nv, n, pr):
    cfg = "CONSTANTS Kind = \"%s\" NV = %d N = %d Emit = %s\nINIT Init\nNEXT Next\nINVARIANT Inv\nPROPERTY Stable\nPROPERTY AddExact\n" % (kind, nv, n, "TRUE" if pr else "FALSE")
    return ctx.behaviours("ComplexMC", cfg, "all histories of %d additions to a %s complex (%d)" % (n, kind, nv), workers=1 if pr else 8)


def replay(ctx, kind, nv, n):
    """spec behaviours as scenarios"""
    out = []
    for h in mc(ctx, kind, nv, n, True):
        s = Scn({"p": 3}, tag="model-" + kind).add("new", kind=kind, d=0, a=[nv] if kind == "cube" else [])
        for o in h: s.add(o["op"], kind=kind, d=0, s=o["s"])
        out.append(s)
    return out


class Sim:
    """the cells a complex should contain, only to draw useful inputs"""
    def __init__(self, kind, labels, maxdim, amb=0, size=3):
        self.kind, self.labels, self.maxdim, self.amb, self.size = kind, labels, maxdim, amb, size
        self.K = set()

    def draw(self, r, known=False):
        if known and self.K and r.random() < .5: return r.choice(sorted(self.K))
        if self.kind == "cube":
            c = []
            for _ in range(self.amb):
                a = r.randrange(self.size); c += [a, a + r.choice([0, 1, 1])]
            return tuple(c)
        d = min(r.randrange(self.maxdim + 1), len(self.labels) - 1)
        return tuple(sorted(r.sample(self.labels, d + 1)))

    def faces(self, s):
        return [tuple(f) for f in gen.cube_faces(s)] if self.kind == "cube" else [s[:i] + s[i + 1:] for i in range(len(s)) if len(s) > 1]

    def ok(self, s): return all(f in self.K for f in self.faces(s))

    def close(self, s):
        todo = [s]
        while todo:
            t = todo.pop()
            if t not in self.K: self.K.add(t); todo += self.faces(t)

    def clone(self):
        x = Sim(self.kind, self.labels, self.maxdim, self.amb, self.size); x.K = set(self.K); return x


def addable(r, m):
    """a cell with all its faces present"""
    for _ in range(20):
        s = m.draw(r)
        if m.ok(s): return s
    return (r.choice(m.labels),) if m.kind != "cube" else tuple(x for a in [r.randrange(m.size) for _ in range(m.amb)] for x in (a, a))


def partial(r, m):
    """a cell with some but not all of its faces present, if there is one"""
    best, score = None, 0
    for _ in range(12):
        s = m.draw(r); f = m.faces(s); k = sum(x in m.K for x in f)
        if s not in m.K and k < len(f) and k + r.random() > score: best, score = s, k + r.random()
    return best


def bad_cube(r, m):
    s = list(m.draw(r)); k = r.randrange(4); i = r.randrange(m.amb)
    if k == 0: s = s + [0, 0]
    elif k == 1: s = s[:-2] if m.amb > 1 else []
    elif k == 2: s[2 * i + 1] = s[2 * i] + 2
    else: s[2 * i] = s[2 * i + 1] + 1
    return s


def shuf(r, m, s):
    s = list(s)
    if m.kind == "simp": r.shuffle(s)
    return s


def fresh_wide(r, kind):
    """higher-dimensional cells, more of them, labels far apart"""
    if kind == "cube":
        amb = r.choice([3, 4, 4, 5]); return Sim(kind, [], amb, amb, r.choice([2, 3, 40, 200000])), [amb]
    nv = r.choice([7, 9, 12, 20]); maxdim = r.choice([3, 4, 4, 5])
    labels = sorted(r.sample(range(r.choice([v for v in (nv, 70, 200) if v >= nv])), nv))
    if r.random() < .2: maxdim = r.choice([1, 2]); labels = sorted(r.sample(range(200000), nv))
    if kind == "light": return Sim(kind, labels, maxdim), [max(labels) + 1 + r.choice([0, 0, 5]), maxdim + r.choice([0, 1])]
    return Sim(kind, labels, maxdim), r.choice([[], [maxdim], [2]])


def fresh(r, kind):
    if r.random() < .12: return fresh_wide(r, kind)
    nv = r.choice([1, 2, 3, 4, 5, 6]); maxdim = r.choice([0, 1, 2, 3])
    labels = list(range(nv)) if r.random() < .6 else sorted(r.sample(range(14 if kind == "light" else 40), nv))
    if kind == "cube":
        amb = r.choice([1, 2, 2, 3]); return Sim(kind, [], amb, amb, r.choice([1, 2, 3, 12])), [amb] if r.random() < .6 else [r.choice([0, 4]), amb]
    if kind == "light": return Sim(kind, labels, maxdim), [max(labels) + 1 + r.choice([0, 0, 1, 30]), maxdim + r.choice([0, 0, 1])]
    return Sim(kind, labels, maxdim), r.choice([[], [maxdim], [maxdim + 1], [nv, maxdim]])


def history(r, s, kind, d, n, m=None, probes=True):
    """random additions to register d"""
    if m is None:
        m, a = fresh(r, kind)
        if kind == "cube" and r.random() < .15:
            s.add("new", kind=kind, d=d, a=[]).add("setdim", kind=kind, d=d, k=m.amb)
        elif kind == "simp" and r.random() < .15: s.add("newdims", kind=kind, d=d, dims=[r.randrange(5) for _ in range(r.choice([1, 2, 3]))])
        else: s.add("new", kind=kind, d=d, a=a)
    for _ in range(n):
        k = r.random()
        if k < .35:
            x = addable(r, m); m.K.add(x); s.add("add", kind=kind, d=d, s=shuf(r, m, x))
        elif k < .5 and kind != "light":
            x = partial(r, m) or m.draw(r); s.add("add", kind=kind, d=d, s=shuf(r, m, x))
            if m.ok(x): m.K.add(x)
            elif r.random() < .6:       # now complete it, one face after the other, and try again
                for y in sorted({y for z in [x] + m.faces(x) for y in m.faces(z)} | set(m.faces(x)), key=lambda c: (gen.cube_dim(c) if kind == "cube" else len(c), c)):
                    if r.random() < .9: s.add("addrec", kind=kind, d=d, s=shuf(r, m, y)); m.close(y)
                s.add("add", kind=kind, d=d, s=shuf(r, m, x))
                if m.ok(x): m.K.add(x)
        elif k < .6 and m.K:
            x = r.choice(sorted(m.K)); s.add(r.choice(["add", "addrec"]), kind=kind, d=d, s=shuf(r, m, x))
        elif k < .65 and kind == "cube": s.add(r.choice(["add", "addrec"]), kind=kind, d=d, s=bad_cube(r, m))
        elif k < .68 and kind == "cube": s.add("setdim", kind=kind, d=d, k=m.amb) if m.K else None
        else:
            x = m.draw(r); m.close(x); s.add("addrec", kind=kind, d=d, s=shuf(r, m, x))
    if probes:
        q = [list(m.draw(r, True)) for _ in range(4)]
        if kind == "simp": q += [[r.randrange(60) for _ in range(2)]]
        s.add("find", kind=kind, d=d, q=q)
    return m


def a15(ctx):
    build(ctx, [3]); r = ctx.rng; ss = []
    ss += replay(ctx, "simp", 3, 4 if ctx.thorough else 3)
    if ctx.thorough:
        ss += replay(ctx, "simp", 4, 3)[:6000]; mc(ctx, "simp", 3, 7, False)
    for _ in range(4000 if ctx.thorough else 500):
        kind = r.choice(["simp", "simp", "light"])
        s = Scn({"p": 3}, tag="complex-" + kind)
        ms = {}
        for d in range(r.choice([1, 2, 2])): ms[d] = history(r, s, kind, d, r.choice([2, 4, 8]))
        for _ in range(r.choice([2, 4, 6])):
            k = r.random(); d, a = r.choice(sorted(ms)), r.choice(sorted(ms))
            if k < .25: ms[d] = history(r, s, kind, d, r.choice([1, 2, 4]), ms[d])
            elif k < .45:
                t = r.choice([0, 1, 2]); o = r.choice(["copy", "assign", "move", "mover"]) if t in ms else r.choice(["copy", "mover"])
                ms[t] = ms[a].clone(); s.add(o, kind=kind, d=t, s=a)
            elif k < .8 and kind == "simp":
                o = r.choice(["union", "inter", "uadd", "inds"]); b = r.choice(sorted(ms)); t = r.choice([0, 1, 2])
                if o == "uadd": ms[d].K |= ms[a].K; ms[d].labels = sorted(set(ms[d].labels) | set(ms[a].labels)); s.add(o, kind=kind, d=d, s=a)
                elif o == "inds": s.add(o, kind=kind, d=d, s=a)
                else:
                    x = ms[a].clone(); x.K = ms[a].K | ms[b].K if o == "union" else ms[a].K & ms[b].K
                    x.maxdim = max(ms[a].maxdim, ms[b].maxdim)
                    s.add(o, kind=kind, d=t, a=a, b=b); ms[t] = x
            else: s.add("dump", kind=kind, d=d)
        for d in sorted(ms): s.add("dump", kind=kind, d=d).add("bds", kind=kind, d=d)
        ss.append(s)
    for _ in range(60 if ctx.thorough else 8):                                    # many vertices per simplex
        kind = r.choice(["simp", "light"]); s = Scn({"p": 3}, tag="tall-" + kind)
        for d in (0, 1):
            V = sorted(r.sample(range(14), 9)); md = r.choice([6, 7, 8]); s.add("new", kind=kind, d=d, a=[14, md])
            for n in (r.choice([1, 2, 3]), md + 1, r.choice([2, 3, 4])):
                t = sorted(r.sample(V, n)); s.add("addrec", kind=kind, d=d, s=t)
            s.add("add" if kind == "simp" else "addrec", kind=kind, d=d, s=sorted(r.sample(V, r.choice([2, 3]))))
        if kind == "simp": s.add(r.choice(["union", "inter"]), kind=kind, d=2, a=0, b=1).add("inds", kind=kind, d=2, s=0).add("dump", kind=kind, d=2)
        for d in (0, 1): s.add("dump", kind=kind, d=d).add("bds", kind=kind, d=d)
        ss.append(s)
    go(ctx, {3: ss})


def whole(r, s, kind):
    """a complex built in index order, register 0"""
    if kind == "cell": return
    if kind == "cube":
        c = gen.cube_random(r, size=r.choice([2, 3, 12])) if r.random() < .9 else gen.cube_tall(r); s.add("new", kind=kind, d=0, a=[len(c) - 1])
    else:
        c = gen.named(r) if r.random() < .04 else gen.tall(r) if r.random() < .03 else gen.simp_random(r, nv=r.choice([1, 2, 3, 4, 5, 6]), maxdim=r.choice([0, 1, 2, 3]), gaps=r.random() < .4)
        s.add("new", kind=kind, d=0, a=[max(x[0] for x in c[0]) + 1 + r.choice([0, 3, 1000 if len(c) < 4 else 0]), len(c) - 1])
    if r.random() < .5:
        for d in c:
            for x in d: s.add("add", kind=kind, d=0, s=x)
    else:
        top = [x for d in c for x in d]; r.shuffle(top); top = top[:max(1, len(top) // r.choice([1, 2, 4]))]
        for x in top: s.add("addrec", kind=kind, d=0, s=x)


def a16(ctx):
    fields = [2, 3, 5, 0]
    build(ctx, fields); r, by = ctx.rng, {}
    for kind, nv, n in [("simp", 3, 4), ("cube", 2, 3)] + ([("simp", 4, 4), ("cube", 2, 4)] if ctx.thorough else []): mc(ctx, kind, nv, n, False)
    for p in fields:
        ss = []
        for _ in range(1500 if ctx.thorough else 250):
            kind = r.choice(["simp", "light", "cube", "cell"])
            s = Scn({"p": p}, tag="boundary-" + kind)
            if kind == "cell":
                n, c = gen.cells_random(r, p, Fld(p))
                s.add("new", kind=kind, d=0, a=r.choice([[], [len(n) - 1]]))
                if r.random() < .5: s.add("cverts", kind=kind, d=0, k=n[0])
                else:
                    for _ in range(n[0]): s.add("cvert", kind=kind, d=0) if r.random() < .7 else s.add("cadd", kind=kind, d=0, k=0, b=[])
                for k in range(1, len(c)):
                    for b in c[k]: s.add("cadd", kind=kind, d=0, k=k, b=[tuple(x) for x in b])
            elif r.random() < .6:
                m = history(r, s, kind, 0, r.choice([3, 6, 10]), probes=False)
                if r.random() < .3: s.add("bds", kind=kind, d=0); history(r, s, kind, 0, r.choice([2, 5]), m, probes=False)
            else: whole(r, s, kind)
            s.add("bds", kind=kind, d=0)
            ss.append(s)
        by[p] = ss
    go(ctx, by)


def a17(ctx):
    build(ctx, [3]); r = ctx.rng; ss = []
    kind = "cube"
    ss += replay(ctx, kind, 1, 4)
    ss += replay(ctx, kind, 2, 3)[::1 if ctx.thorough else 8]
    for n in ([2, 3, 4, 5] if ctx.thorough else [2, 3]):
        s = Scn({"p": 3}, tag="cube-grid").add("grid", kind=kind, d=0, n=n)
        for k in range(4): s.add("skel", kind=kind, d=1, s=0, k=k)
        ss.append(s)
    for _ in range(3000 if ctx.thorough else 400):
        s = Scn({"p": 3}, tag="cubical")
        m = history(r, s, kind, 0, r.choice([2, 4, 8]))
        ms = {0: m}
        for _ in range(r.choice([2, 4])):
            k = r.random(); a = r.choice(sorted(ms)); t = r.choice([0, 1, 2])
            if k < .3: ms[a] = history(r, s, kind, a, r.choice([1, 3]), ms[a])
            elif k < .5:
                o = r.choice(["copy", "assign", "move", "mover"]) if t in ms else r.choice(["copy", "mover"])
                ms[t] = ms[a].clone(); s.add(o, kind=kind, d=t, s=a)
            elif k < .75:
                q = r.randrange(ms[a].amb + 1); x = ms[a].clone(); x.K = {c for c in x.K if gen.cube_dim(c) <= q}
                s.add("skel", kind=kind, d=t, s=a, k=q); ms[t] = x
            else:
                x = ms[a]; cs = []
                for _ in range(r.choice([0, 1, 3, 6])):
                    c = addable(r, x) if r.random() < .7 else x.draw(r)
                    if x.ok(c): x.K.add(c)
                    cs.append(list(c))
                s.add("load", kind=kind, d=a, cs=cs)
        for d in sorted(ms): s.add("dump", kind=kind, d=d).add("bds", kind=kind, d=d)
        ss.append(s)
    for _ in range(100 if ctx.thorough else 12):
        s = Scn({"p": 3}, tag="cube-tall"); c = gen.cube_tall(r); n = len(c) - 1; s.add("new", kind=kind, d=0, a=[n])
        top = [x for q in c for x in q]
        if r.random() < .5: s.add("load", kind=kind, d=0, cs=top)
        else:
            r.shuffle(top)
            for x in top[:max(1, len(top) // 2)]: s.add("addrec", kind=kind, d=0, s=x)
        s.add("skel", kind=kind, d=1, s=0, k=r.choice([1, 2, n - 1])).add("copy", kind=kind, d=2, s=0)
        for d in (0, 1, 2): s.add("dump", kind=kind, d=d).add("bds", kind=kind, d=d)
        ss.append(s)
    go(ctx, {3: ss})


def a18(ctx):
    build(ctx, [3]); r = ctx.rng; ss = []
    mc(ctx, "simp", 3, 5 if ctx.thorough else 4, False)
    for _ in range(6000 if ctx.thorough else 800):
        kind = r.choice(["simp", "simp", "light", "cube"])
        s = Scn({"p": 3}, tag="filtration-" + kind)
        m, a = fresh(r, kind); mode = r.choice(["mono", "mono", "any"])
        if r.random() < .25:
            s.add("new", kind=kind, d=0, a=a); history(r, s, kind, 0, r.choice([1, 3, 5]), m, probes=False)
            s.add("ffrom", kind=kind, d=0, s=0)
            if mode == "mono": mode = "any0"
        else: s.add("fnew", kind=kind, d=0, a=a if kind != "simp" or r.random() < .6 else [])
        t, clean = 0, mode == "mono"          # with increasing parameters every history is a filtration
        for _ in range(r.choice([2, 4, 8, 12])):
            t = t + r.choice([0, 0, 1, 4]) if mode == "mono" else r.randrange(-8, 30)
            k = r.random()
            if k < .4:
                x = addable(r, m)
                if x in m.K and clean and r.random() < .9: continue
                clean = clean and x not in m.K; m.K.add(x); s.add("fadd", kind=kind, d=0, t=t, s=shuf(r, m, x))
            elif k < .5 and kind != "light":
                x = m.draw(r)
                if x in m.K and clean: continue
                s.add("fadd", kind=kind, d=0, t=t, s=shuf(r, m, x))
                if m.ok(x): m.K.add(x)
            else:
                x = m.draw(r); m.close(x); s.add("faddrec", kind=kind, d=0, t=t, s=shuf(r, m, x))
            if r.random() < .25: s.add("sub", kind=kind, d=3, s=0, t=r.choice([t, t - 1, t + 1, -1, 3, 1000]))
        s.add("fsort", kind=kind, d=0)
        for _ in range(r.choice([0, 1, 2])): s.add("sub", kind=kind, d=3, s=0, t=r.randrange(-1, t + 3) if t >= 0 else t)
        if r.random() < .3:
            s.add(r.choice(["fcopy"]), kind=kind, d=1, s=0)
            x = m.draw(r); m2 = m.clone(); m2.close(x); s.add("faddrec", kind=kind, d=1, t=t + 5, s=list(x)).add("fcopy", kind=kind, d=2, s=0)
            if r.random() < .5: s.add("fassign", kind=kind, d=0, s=1)
            elif kind == "simp": s.add("funion", kind=kind, d=0, s=1)
        ss.append(s)
    # replacing all values: the complex is built in index order, so the values are known per cell
    for _ in range(1500 if ctx.thorough else 120):
        kind = r.choice(["simp", "light", "cube"])
        s = Scn({"p": 3}, tag="revalue-" + kind)
        c = gen.cube_random(r, ntop=r.choice([1, 2])) if kind == "cube" else gen.simp_random(r, nv=r.choice([1, 3, 4]), maxdim=2, gaps=r.random() < .4)
        s.add("new", kind=kind, d=0, a=[len(c) - 1] if kind == "cube" else [max(x[0] for x in c[0]) + 1, len(c) - 1])
        for d in c:
            for x in d: s.add("add", kind=kind, d=0, s=x)
        V = lambda: gen.vals_monotone(r, c, gen.faces_of("cube" if kind == "cube" else "simp", c), lo=r.choice([0, -6]))
        s.add("fval", kind=kind, d=0, s=0, v=V())
        for _ in range(r.choice([1, 2])):
            v = V(); s.add("fupd", kind=kind, d=0, v=v).add("fsort", kind=kind, d=0)
            for _ in range(2): s.add("sub", kind=kind, d=1, s=0, t=r.choice([x for d in v for x in d]) - r.choice([0, 0, 1]))
        ss.append(s)
    go(ctx, {3: ss})


CHECKS = {"A15": a15, "A16": a16, "A17": a17, "A18": a18}
