"""A06, A07: column reduction (Reduction.tla, ReduceMC.tla, ParReduce.tla)."""
import itertools
from .core import Scn, Fld

ALGS = ["default", "standard", "extra", "dq", "sparsecol", "extracol"]


def build(ctx, fields): ctx.build([("red%d" % p, "reduce.cpp", ["-DFIELD=%d" % p]) for p in fields])


def go(ctx, by, env=None, label="red"):
    scns, evs = [], []
    for p, ss in by.items():
        if ss: evs += ctx.execute("red%d" % p, ss, label="%s%d" % (label, p), env=env); scns += ss
    ctx.validate("ReductionTrace", scns, evs)


def calls(s, sparsify=True):
    for a in ALGS:
        s.add("reduce", alg=a, u=0)
        if a not in ("sparsecol", "extracol"):
            s.add("reduce", alg=a, u=1)
            if a == "default" and sparsify: s.add("compinds").add("rmcycles").add("sparsify").add("rmcycles")
            if a == "extra" and sparsify: s.add("sparsify").add("sparsify")


def rand_mat(r, f):
    k = r.random()
    m, n = r.choice([(1, 1), (1, 4), (4, 1), (3, 3), (3, 6), (6, 3), (5, 5), (6, 8), (0, 3), (3, 0), (8, 6), (2, 11)])
    if f.p and r.random() < .05: m, n = r.choice([(20, 30), (30, 20), (16, 40), (40, 40)]); return f.mat(r, m, n, r.choice([.04, .08, .15]))
    if k < .35: return f.mat(r, m, n, r.choice([.1, .25, .5, .8]))
    if k < .55:   # duplicated and single-entry columns
        base = [f.vec(r, m, .3) for _ in range(2)] + [[(r.randrange(m), f.rand(r))] if m else [] for _ in range(2)]
        return (m, n, tuple(list(r.choice(base)) for _ in range(n)))
    if k < .8:    # boundary-like
        return (m, n, tuple(sorted([(i, f.int(1 if t % 2 else -1)) for t, i in enumerate(r.sample(range(m), min(m, r.choice([1, 2, 3]))))]) for _ in range(n)))
    return f.mat(r, m, n, 1)


def a06(ctx):
    fields = [2, 3, 5, 0]
    build(ctx, fields)
    r, by = ctx.rng, {}
    for p in fields:
        f = Fld(p); ss = []
        for _ in range(1500 if ctx.thorough else (320 if p else 90)):
            A = rand_mat(r, f)
            if p == 0: A = (min(A[0], 4), min(A[1], 4), tuple([e for e in c if e[0] < min(A[0], 4)] for c in A[2][:4]))
            s = Scn({"p": p, "big": 0}, tag="reduce"); s.add("input", A=A); calls(s)
            p2c = [r.choice([1000000001, r.randrange(9)]) for _ in range(r.randrange(6))]
            s.add("clearinds", p2c=p2c)
            ss.append(s)
        if p == 2:
            for m, n in ((2, 3), (3, 3), (3, 2)):
                for bits in itertools.product((0, 1), repeat=m * n):
                    s = Scn({"p": p, "big": 0}, tag="reduce-exhaustive")
                    s.add("input", A=(m, n, tuple([(i, 1) for i in range(m) if bits[j * m + i]] for j in range(n)))); calls(s); ss.append(s)
        if p == 3:
            for bits in itertools.product((0, 1, 2), repeat=6):
                s = Scn({"p": p, "big": 0}, tag="reduce-exhaustive")
                s.add("input", A=(2, 3, tuple([(i, bits[j * 2 + i]) for i in range(2) if bits[j * 2 + i]] for j in range(3)))); calls(s); ss.append(s)
        by[p] = ss
    go(ctx, by)
    mc(ctx)


def mc(ctx):
    for P, nr, nc in [(2, 3, 3), (3, 2, 2)] + ([(2, 3, 4), (3, 2, 3)] if ctx.thorough else []):
        ctx.model_check("ReduceMC", "CONSTANTS P = %d NR = %d NC = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (P, nr, nc),
                        "every order of column additions on every %dx%d matrix over F_%d" % (nr, nc, P), expect_states=50)


def big_mat(r, f, m, n):
    cols = []
    for _ in range(n):
        k = r.choice([1, 2, 2, 2, 2, 3])
        cols.append(sorted([(i, f.int(1 if t % 2 else -1)) for t, i in enumerate(r.sample(range(m), k))]))
    return (m, n, tuple(cols))


def a07(ctx):
    fields = [2, 3, 5]
    build(ctx, fields)
    r = ctx.rng
    for P, nr, nc in [(2, 2, 4), (2, 3, 3)] + ([(2, 2, 5), (3, 2, 4)] if ctx.thorough else []):
        ctx.model_check("ParReduce", "CONSTANTS P = %d NR = %d NC = %d\nINIT Init\nNEXT Next\nINVARIANT Disjoint Fresh Right Live\n" % (P, nr, nc),
                        "all interleavings of block tasks on every %dx%d matrix over F_%d" % (nr, nc, P), expect_states=100)
    for th in (1, 2, 4, 8):
        by = {}
        for p in fields:
            f = Fld(p); ss = []
            for _ in range(300 if ctx.thorough else 45):
                A = rand_mat(r, f)
                s = Scn({"p": p, "big": 0}, tag="dq"); s.add("input", A=A)
                for bs in r.sample([2, 3, 4, 7], 2):
                    s.add("block", bs=bs, depth=r.choice([0, 1, 3, 100]), u=0).add("block", bs=bs, depth=0, u=1)
                    for u in (0, 1): s.add("partial", bs=bs, u=u).add("finish")
                s.add("reduce", alg="dq", u=0).add("reduce", alg="dq", u=1)
                ss.append(s)
            by[p] = ss
        go(ctx, by, env={"OMP_NUM_THREADS": str(th), "OMP_MAX_ACTIVE_LEVELS": str(r.choice([1, 4])), "OMP_WAIT_POLICY": "passive"}, label="dq%d" % th)
    sizes = [255, 256, 257, 511, 600, 1023, 1025, 1300] + ([2049, 2500] if ctx.thorough else [])
    for th in (1, 8):
        by = {}
        for p in (2, 3):
            f = Fld(p); ss = []
            for n in sizes:
                s = Scn({"p": p, "big": 1}, tag="dq-large"); s.add("input", A=big_mat(r, f, n // 3, n))
                s.add("reduce", alg="dq", u=0)
                if n <= 600: s.add("reduce", alg="dq", u=1)
                s.add("partial", bs=64, u=0).add("finish")
                ss.append(s)
            by[p] = ss
        go(ctx, by, env={"OMP_NUM_THREADS": str(th), "OMP_WAIT_POLICY": "passive"}, label="big%d" % th)


CHECKS = {"A06": a06, "A07": a07}
