"""A25: saved objects load back equal (Serial.tla)."""
from .core import Scn, Fld
from . import gen


def a25(ctx):
    fields = [2, 3, 5, 0]
    ctx.build([("serial%d" % p, "serial.cpp", ["-DFIELD=%d" % p]) for p in fields])
    r = ctx.rng; N = (lambda a, b: a if ctx.thorough else b)
    allS, allE = [], []
    for p in fields:
        f = Fld(p); ss = []
        def S(tag): s = Scn({"_p": p}, tag=tag); ss.append(s); return s
        def mat():
            m, n = r.choice([0, 1, 1, 2, 3, 5, 40]), r.choice([0, 1, 2, 3, 5])
            return f.mat(r, m, n, r.choice([.1, .4, .9, 0]))
        def imat():
            m, n = r.choice([0, 1, 2, 4]), r.choice([0, 1, 2, 4])
            return (m, n, tuple([(i, r.choice([1, -1, 1, -1, 7, -12])) for i in range(m) if r.random() < .4] for _ in range(n)))
        def cells(small=False):
            k = r.random()
            if k < .1: return [[]]
            if k < .2 and not small: return gen.named(r) if r.random() < .7 else gen.wide(r)
            return gen.simp_random(r, nv=r.choice([2, 4, 6]), maxdim=r.choice([0, 1, 2, 3]), gaps=r.random() < .3)
        for _ in range(N(400, 80)):
            s = S("matrix-files"); slots = ["a", "b"]; live = set()
            for _ in range(r.choice([2, 4, 7])):
                g = r.choice(slots)
                if g not in live or r.random() < .5: s.add("smat", f=g, a=mat()); live.add(g)
                else: s.add("lmat", f=g)
            for g in sorted(live): s.add("lmat", f=g)
            s.add("stream", l=[mat() for _ in range(r.choice([0, 1, 2, 3]))]).add("mstr", a=mat())
            for _ in range(3): s.add("vec", v=f.vec(r, r.choice([0, 1, 5, 30]), .5))
        for _ in range(N(300, 60)):
            s = S("complex-files"); live = {}
            for _ in range(r.choice([1, 2, 4])):
                g = r.choice("xy"); b = r.choice(["0", "0", "1000000", "2147483640", "4294967290", "1000000000000"])
                s.add("ssimp", f=g, base=b, c=cells()); live[g] = b
                if r.random() < .5: s.add("lsimp", f=g, base=b)
            for g in sorted(live): s.add("lsimp", f=g, base=live[g])
        for _ in range(N(300, 60)):
            s = S("map-files"); live = set()
            for _ in range(r.choice([1, 2, 4])):
                g = r.choice("uv"); s.add("smap", f=g, l=[imat() for _ in range(r.choice([0, 1, 1, 2, 3]))]); live.add(g)
            for g in sorted(live): s.add("lmap", f=g)
        for _ in range(N(150, 30)):
            s = S("diagram-files")
            for rep in range(r.choice([1, 2])):
                kind = r.choice(["simp", "mat"]); n = r.choice([0, 1, 2, 12]); m = r.choice([0, 1, 3, 11]) if n else 0
                ns = [cells(True) if kind == "simp" else mat() for _ in range(n)]
                es = [(r.randrange(n), r.randrange(n), [imat() for _ in range(r.choice([1, 2]))] if kind == "simp" else mat()) for _ in range(m)]
                s.add("sdiag", f="d", kind=kind, ns=ns, es=es).add("ldiag", f="d", kind=kind, n=n, m=m)
        if p == fields[0]:
            for _ in range(N(300, 80)):
                s = S("points"); n, d = r.choice([0, 1, 2, 3, 7]), r.choice([1, 2, 3, 5])
                s.add("pts", f="p", h=int(r.random() < .4), style=r.choice(["plain", "space", "exp", "trail"]), n=n, d=d,
                      x=tuple(r.choice([0, 1, -1, 4, r.randrange(-4000, 4000)]) for _ in range(n * d)))
            for _ in range(N(200, 50)):
                s = S("cube-files"); c = gen.cube_random(r); n = len(c) - 1; flat = [x for d in c for x in d]
                s.add("cubes", f="q", n=n, base=r.choice(["0", "0", "5", "2147483640", "4294967296"]), c=flat)
            for _ in range(N(200, 40)):
                s = S("arguments"); keys = ["n", "nn", "name", "x"]
                kv = [(r.choice(keys), r.randrange(-50, 50)) for _ in range(r.choice([0, 1, 2, 4]))]
                s.add("argv", a=["%s=%d" % q for q in kv], key=r.choice(keys), _kv=[[k, v, str(v)] for k, v in kv])
                s.ops[-1].update({"def": r.randrange(0, 9)})
        allE += ctx.execute("serial%d" % p, ss, label="serial%d" % p); allS += ss
    ctx.validate("SerialTrace", allS, allE)
    for P, m, n in [(0, 2, 2), (2, 3, 2), (3, 2, 3)] if ctx.thorough else [(0, 2, 2), (2, 2, 2)]:
        ctx.model_check("SerialMC", "CONSTANTS P = %d M = %d N = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\nVIEW View\n" % (P, m, n),
                        "reading inverts writing for every matrix up to %d x %d, every map and every complex on 3 vertices" % (m, n), expect_states=300)


CHECKS = {"A25": a25}
