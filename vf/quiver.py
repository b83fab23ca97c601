"""A20: interval decomposition of line quivers (Quiver.tla)."""
from .core import Scn, Fld

ALGS = ["dq", "right", "left", "api"]


def dense_mul(A, B, p): return [[sum(A[i][k] * B[k][j] for k in range(len(B))) % p if p else sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]) if B else 0)] for i in range(len(A))]


def inv_pair(r, n, p):
    """a random invertible matrix and its inverse (products of elementary integer operations)"""
    A = [[int(i == j) for j in range(n)] for i in range(n)]; B = [[int(i == j) for j in range(n)] for i in range(n)]
    for _ in range(r.choice([0, 2, 3, 5] + ([2 * n, 4 * n] if p else [])) if n > 1 else 0):
        i, j = r.sample(range(n), 2); c = r.choice([1, -1])
        if r.random() < .3:
            A[i], A[j] = A[j], A[i]
            for row in B: row[i], row[j] = row[j], row[i]
        else:                                                # A <- E A, B <- B E^-1 with E = I + c e_ij
            A[i] = [a + c * b for a, b in zip(A[i], A[j])]
            for row in B: row[j] -= c * row[i]
    return A, B


def sparse(M, m, n, f): return (m, n, tuple([(i, f.int(M[i][j])) for i in range(m) if (M[i][j] % f.p if f.p else M[i][j])] for j in range(n)))


def planted(r, n, f, dirs, nb):
    """a sum of intervals written in random bases"""
    bars = []
    for _ in range(nb):
        a = r.randrange(n); b = min(n - 1, a + r.choice([0, 1, 2, n]))
        bars.append((a, b))
    act = [[k for k, (a, b) in enumerate(bars) if a <= i <= b] for i in range(n)]
    for x in act: r.shuffle(x)
    dims = [len(x) for x in act]
    P = [inv_pair(r, d, f.p) for d in dims]
    ms = []
    for i, d in enumerate(dirs):
        s, t = (i, i + 1) if d == 1 else (i + 1, i)
        E = [[int(act[t][u] == act[s][v]) for v in range(dims[s])] for u in range(dims[t])]
        M = dense_mul(dense_mul(P[t][0], E, f.p) if E and E[0:1] and dims[s] else E, P[s][1], f.p) if dims[s] and dims[t] else []
        ms.append(sparse(M if dims[s] and dims[t] else [[0] * dims[s]] * dims[t], dims[t], dims[s], f))
    return dims, ms


def random_rep(r, n, f, dirs, big):
    dims = [r.choice([0, 1, 1, 2, 2, 3] + ([4, 5] if big and f.p else [])) for _ in range(n)]
    dens = r.choice([.2, .4, .7])
    return dims, [f.mat(r, *((dims[i + 1], dims[i]) if d == 1 else (dims[i], dims[i + 1])), dens) for i, d in enumerate(dirs)]


def dense_rep(r, n, f, dirs):
    """dimensions 1..5 and dense maps, most of them of full rank"""
    dims = [r.choice([1, 2, 3, 4]) for _ in range(n)] if r.random() < .6 else [r.choice([2, 3, 4, 5])] * n
    dens = r.choice([.5, .7, .9, 1])
    return dims, [f.mat(r, *((dims[i + 1], dims[i]) if d == 1 else (dims[i], dims[i + 1])), dens) for i, d in enumerate(dirs)]


def queries(s, r, K, full):
    for k in range(K):
        for alg in ALGS:
            for t in ([1, 4, 8] if alg in ("dq", "api") and full else [r.choice([1, 2, 4, 8]) if alg in ("dq", "api") else 1]):
                s.add("bars", k=k, hdim=r.choice([0, 1, 5]), alg=alg, threads=t)
        s.add("form", k=k, alg=r.choice(["dq", "right", "left"]), threads=r.choice([1, 4, 8]))
    for alg in r.sample(ALGS, 2): s.add("allbars", alg=alg, threads=r.choice([1, 4, 8]))


def a20(ctx):
    fields = [2, 3, 5, 0]
    ctx.build([("quiver%d" % p, "quiver.cpp", ["-DFIELD=%d" % p]) for p in fields])
    r = ctx.rng
    S, E = [], []
    for p in fields:
        f = Fld(p); ss = []
        for q in range(500 if ctx.thorough else 70):
            n = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 18] if p else [2, 3, 4, 5, 6, 7, 9])
            if p and r.random() < (.1 if ctx.thorough else .04): n = r.choice([20, 25, 33])
            m = r.random()
            dirs = [r.choice([1, -1]) if m < .6 else (1 if m < .75 else -1 if m < .9 else (1 if i % 2 else -1)) for i in range(n - 1)]
            K = r.choice([1, 1, 2]) if n < 9 else 1
            if n < 5 and r.random() < .1: K = 8
            nb = [1, 2, 3, 5, 8] if n > 4 or not p or r.random() < .85 else [12, 16]
            layers = [dense_rep(r, n, f, dirs) if p and n > 5 and r.random() < .4 else planted(r, n, f, dirs, r.choice(nb if K < 8 else [1, 2])) if r.random() < .65 or (p == 0 and n > 4) else random_rep(r, n, f, dirs, n < 6) for _ in range(K)]
            s = Scn({"p": p}, tag="quiver")
            s.add("dgm", dims=[x[0] for x in layers], dir=dirs, M=[x[1] for x in layers]); s.ops[-1]["M"] = [list(x[1]) for x in layers]
            queries(s, r, K, r.random() < .4)
            ss.append(s)
        if p in (2, 3):
            n, d = (3, 2) if p == 2 else (3, 1)
            for b in ctx.behaviours("QuiverMC", "CONSTANTS P = %d MaxN = %d MaxD = %d Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (p, n, d), "all representations of lines with %d nodes, dimensions up to %d, over F_%d" % (n, d, p)):
                s = Scn({"p": p}, tag="quiver-exhaustive")
                s.add("dgm", dims=[b["dims"]], dir=b["dir"], M=[[(m, n_, tuple([tuple(x) for x in c] for c in cs)) for m, n_, cs in b["M"]]])
                for alg in ALGS[:3]: s.add("bars", k=0, hdim=0, alg=alg, threads=4)
                ss.append(s)
        E += ctx.execute("quiver%d" % p, ss, label="quiver%d" % p); S += ss
    ctx.validate("QuiverTrace", S, E)
    if ctx.thorough:
        ctx.model_check("QuiverMC", "CONSTANTS P = 2 MaxN = 4 MaxD = 2 Emit = FALSE\nINIT Init\nNEXT Next\nINVARIANT Inv\n", "rank tables of all representations with 4 nodes", expect_states=1000)


CHECKS = {"A20": a20}
