"""Generators of complexes and filtrations (inputs only; every judgement is made by the specification)."""
import itertools


def closure(s):
    return {t for k in range(1, len(s) + 1) for t in itertools.combinations(s, k)}


def simp_random(r, nv=6, maxdim=3, ntop=None, gaps=False, min_cells=1):
    """list of cells per dimension in a random order; vertex labels may have gaps"""
    labels = list(range(nv)) if not gaps else sorted(r.sample(range(3 * nv + 2), nv))
    K = set()
    for _ in range(ntop if ntop is not None else r.choice([1, 2, 3, 4, 6])):
        d = r.choice([0, 1, 1, 2, 2, 3][:2 * maxdim]) if maxdim else 0
        d = min(d, maxdim, nv - 1)
        K |= closure(tuple(sorted(r.sample(labels, d + 1))))
    return simp_list(K, r, maxdim)


def simp_list(K, r=None, maxdim=None):
    D = max(len(s) for s in K) - 1
    if maxdim is not None and r is not None and r.random() < .15: D = min(maxdim, D + 1)        # an empty top dimension
    out = []
    for k in range(D + 1):
        c = sorted(s for s in K if len(s) == k + 1)
        if r: r.shuffle(c)
        out.append([list(s) for s in c])
    return out


SPHERE = lambda k: [s for n in range(1, k + 2) for s in itertools.combinations(range(k + 2), n)]
RP2 = [(0, 1, 4), (0, 1, 5), (0, 2, 3), (0, 2, 5), (0, 3, 4), (1, 2, 3), (1, 2, 4), (1, 3, 5), (2, 4, 5), (3, 4, 5)]


def torus():
    T = []
    for i in range(3):
        for j in range(3):
            a = 3 * i + j; b = 3 * ((i + 1) % 3) + j; c = 3 * i + (j + 1) % 3; d = 3 * ((i + 1) % 3) + (j + 1) % 3
            T += [tuple(sorted((a, b, d))), tuple(sorted((a, c, d)))]
    return T


def klein():
    T = []
    for i in range(3):
        for j in range(3):
            def v(x, y):
                if x == 3: x, y = 0, (-y) % 3
                return 3 * x + y % 3
            a, b, c, d = v(i, j), v(i + 1, j), v(i, j + 1), v(i + 1, j + 1)
            T += [tuple(sorted((a, b, d))), tuple(sorted((a, c, d)))]
    return T


def named(r):
    which = r.choice(["rp2", "s2", "s1", "torus", "klein"])
    top = {"rp2": RP2, "s2": SPHERE(2), "s1": SPHERE(1), "torus": torus(), "klein": klein()}[which]
    K = set()
    for s in top: K |= closure(s)
    return simp_list(K, r)


def wide(r):
    """higher-dimensional simplices, many of them, graphs with many components, labels far apart"""
    k = r.randrange(5)
    if k == 0: top = [tuple(range(n)) for n in [r.choice([5, 6])]]                                   # a full simplex
    elif k == 1: top = [s for s in SPHERE(r.choice([3, 4]))]                                          # a sphere
    elif k == 2: n = r.choice([15, 24, 40]); top = [(i,) for i in range(n)] + [tuple(sorted(r.sample(range(n), 2))) for _ in range(r.choice([n // 3, n, n + 8]))]
    elif k == 3: n = r.choice([8, 10]); top = [tuple(sorted(r.sample(range(n), r.choice([1, 2, 3, 4, 5])))) for _ in range(4)]
    else: n = r.choice([6, 7]); V = sorted(r.sample(range(300), n)); top = [s for s in itertools.combinations(V, 3) if r.random() < .6] or [tuple(V[:3])]
    K = set()
    for s in top: K |= closure(tuple(s))
    return simp_list(K, r)


def cube_faces(c):
    return [c[:2 * i] + (x, x) + c[2 * i + 2:] for i in range(len(c) // 2) if c[2 * i] != c[2 * i + 1] for x in (c[2 * i + 1], c[2 * i])]


def cube_dim(c): return sum(c[2 * i] != c[2 * i + 1] for i in range(len(c) // 2))


def cube_random(r, n=None, size=3, ntop=None):
    n = n or r.choice([1, 2, 2, 3])
    K, todo = set(), []
    for _ in range(ntop or r.choice([1, 2, 3, 5])):
        c = []
        for _ in range(n):
            a = r.randrange(size); c += [a, a + r.choice([0, 1, 1])]
        todo.append(tuple(c))
    while todo:
        c = todo.pop()
        if c in K: continue
        K.add(c); todo += cube_faces(c)
    out = [[] for _ in range(n + 1)]
    for c in sorted(K): out[cube_dim(c)].append(list(c))
    for d in out: r.shuffle(d)
    return out


def cube_tall(r):
    """cubes of few dimensions in a space of many"""
    n = r.choice([6, 7, 8, 9]); K, todo = set(), []
    for _ in range(r.choice([1, 2, 3])):
        c = []
        ax = r.sample(range(n), r.choice([1, 2, 3])) if r.random() < .6 else [n - 1, n - 2]
        for i in range(n):
            a = r.randrange(2); c += [a, a + (i in ax)]
        todo.append(tuple(c))
    while todo:
        c = todo.pop()
        if c in K: continue
        K.add(c); todo += cube_faces(c)
    out = [[] for _ in range(n + 1)]
    for c in sorted(K): out[cube_dim(c)].append(list(c))
    for d in out: r.shuffle(d)
    return out


def tall(r):
    """a simplex of many vertices and its faces, with a few other simplices"""
    n = r.choice([7, 8]); V = sorted(r.sample(range(12), n + 1)); K = closure(tuple(r.sample(V, n)))
    K = {tuple(sorted(s)) for s in K}
    if r.random() < .5: K = {s for s in K if len(s) <= n - 1}
    K |= closure(tuple(sorted(r.sample(V, 3))))
    return simp_list(K, r)


def cells_random(r, p, f):
    """CellComplex as integer boundary lists: a simplicial complex with a random change of basis, plus CW-style examples"""
    k = r.random()
    if k < .5:
        # CW examples with integer coefficients: RP^n, lens-like, wedge of circles, torus
        ex = r.choice([
            ([1, 1, 1], [[[]], [[(0, 2)]]]),                                   # RP2
            ([1, 1, 1, 1], [[[]], [[(0, 2)]], [[]]]),                          # RP3
            ([1, 1, 1, 1], [[[]], [[(0, 3)]], [[]]]),                          # lens space L(3,1)
            ([1, 2, 1], [[[], []], [[]]]),                                     # torus
            ([1, 2, 1], [[[], []], [[(1, 2)]]]),                               # Klein bottle
            ([2, 3], [[[(0, -1), (1, 1)], [(0, -1), (1, 1)], [(0, -1), (1, 1)]]]),
            ([3, 0, 0], [[], []]),
            ([1, 1, 2], [[[]], [[(0, 5)], [(0, 2)]]]),
        ])
        n, cs = ex
        return n, [[] for _ in range(1)] + [list(map(list, c)) for c in cs]
    c = simp_random(r, nv=5, maxdim=2)
    idx = [{tuple(s): i for i, s in enumerate(d)} for d in c]
    out, sgn = [[]], {tuple(s): 1 for s in c[0]}
    for k in range(1, len(c)):
        d = []
        for s in c[k]:
            sg = sgn[tuple(s)] = r.choice([1, -1])
            l = [(idx[k - 1][tuple(s[:i] + s[i + 1:])], sg * sgn[tuple(s[:i] + s[i + 1:])] * (1 if i % 2 == 0 else -1)) for i in range(len(s))]
            r.shuffle(l)
            d.append(l)
        out.append(d)
    return [len(d) for d in c], out


def vals_monotone(r, cells, faces, lo=None, hi=6, mode=None):
    """values (in quarter units) with each cell at or after its faces; faces(k, i) lists indices of faces in dimension k - 1"""
    mode = mode or r.choice(["few", "many", "const", "max"])
    if lo is None: lo = r.choice([0, 0, -2, -25])
    top = {"few": 2, "many": 40, "const": 0, "max": hi}[mode]
    v = []
    for k, d in enumerate(cells):
        row = []
        for i in range(len(d)):
            base = max([v[k - 1][j] for j in faces(k, i)], default=lo) if k else lo
            row.append(base if (k and mode == "max") else base + r.randrange(0, top + 1))
        v.append(row)
    return v


def faces_of(kind, cells):
    if kind == "simp":
        idx = [{tuple(s): i for i, s in enumerate(d)} for d in cells]
        return lambda k, i: [idx[k - 1][tuple(cells[k][i][:j] + cells[k][i][j + 1:])] for j in range(k + 1)]
    if kind == "cube":
        idx = [{tuple(s): i for i, s in enumerate(d)} for d in cells]
        return lambda k, i: [idx[k - 1][c] for c in cube_faces(tuple(cells[k][i]))]
    return lambda k, i: [a for a, b in cells[k][i]]


def rand_chain(r, f, dims=None):
    """matrices of a random chain complex over the field f: D_k D_{k+1} = 0 by taking columns in the kernel (over F_p by search)"""
    p = f.p
    dims = dims or [r.choice([1, 2, 3, 4]) for _ in range(r.choice([1, 2, 3]))]
    mats = [(1, dims[0], tuple([] for _ in range(dims[0])))]
    # dense integer/mod matrices
    prev = [[0] * dims[0]]
    if r.random() < .25:
        prev = [[1] * dims[0]]; mats = [(1, dims[0], tuple([(0, f.int(1))] for _ in range(dims[0])))]
    for n in dims[1:]:
        K = kernel(prev, p)
        cols = []
        for _ in range(n):
            v = [0] * len(prev[0])
            for z in K:
                c = r.choice([0, 1, 1, -1] if p != 2 else [0, 1])
                v = [(a + c * b) if p == 0 else (a + c * b) % p for a, b in zip(v, z)]
            cols.append(v)
        mats.append((len(prev[0]), n, tuple([(i, f.int(x)) for i, x in enumerate(c) if (x % p if p else x)] for c in cols)))
        prev = [[c[i] for c in cols] for i in range(len(cols[0]) if cols else 0)]
        if not cols or not prev: break
    return mats


def kernel(A, p):
    from fractions import Fraction
    m, n = len(A), len(A[0]) if A else 0
    M = [[Fraction(x) if p == 0 else x % p for x in row] for row in A]
    piv, r0 = [], 0
    for j in range(n):
        k = next((i for i in range(r0, m) if M[i][j] != 0), None)
        if k is None: continue
        M[r0], M[k] = M[k], M[r0]
        inv = (1 / M[r0][j]) if p == 0 else pow(int(M[r0][j]), -1, p)
        M[r0] = [x * inv if p == 0 else x * inv % p for x in M[r0]]
        for i in range(m):
            if i != r0 and M[i][j] != 0:
                c = M[i][j]
                M[i] = [a - c * b if p == 0 else (a - c * b) % p for a, b in zip(M[i], M[r0])]
        piv.append(j); r0 += 1
    out = []
    for j in range(n):
        if j in piv: continue
        z = [Fraction(0) if p == 0 else 0] * n
        z[j] = Fraction(1) if p == 0 else 1
        for i, q in enumerate(piv): z[q] = -M[i][j] if p == 0 else (-M[i][j]) % p
        if p == 0:
            d = 1
            for x in z: d = d * x.denominator // __import__("math").gcd(d, x.denominator)
            z = [int(x * d) for x in z]
        out.append(z)
    return out


def simp_cells(K, maxdim, r):
    """cells per dimension 0..maxdim of the closed set K in a random order"""
    out = []
    for k in range(maxdim + 1):
        c = sorted(s for s in K if len(s) == k + 1); r.shuffle(c)
        out.append([list(s) for s in c])
    return out


def simp_modify(K, r, maxdim, labels):
    """another complex overlapping K: some cells removed, some added (never empty)"""
    K = set(K)
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        if len(K) <= 1: break
        s = r.choice(sorted(K)); T = {t for t in K if set(s) <= set(t)}
        if len(T) < len(K): K -= T
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        d = min(r.randrange(maxdim + 1), len(labels) - 1)
        K |= closure(tuple(sorted(r.sample(labels, d + 1))))
    return K


# ------------------------------------------------------------ complexes and chain maps by matrices (rows of ints, or Fractions for p = 0)
def _mul(p, A, B, m, n):
    k = len(B)
    return [[(lambda x: x % p if p else x)(sum(A[i][t] * B[t][j] for t in range(k))) for j in range(n)] for i in range(m)]


def _basis_change(r, p, n):
    """an invertible matrix and its inverse, as products of elementary operations"""
    P = [[int(i == j) for j in range(n)] for i in range(n)]; Q = [[int(i == j) for j in range(n)] for i in range(n)]
    for _ in range(r.choice([0, n, 2 * n]) if p else r.choice([0, 1, 2, n])):
        if n < 2: break
        i, j = r.sample(range(n), 2)
        if r.random() < .25:
            P[i], P[j] = P[j], P[i]
            for q in Q: q[i], q[j] = q[j], q[i]
            continue
        c = r.randrange(1, p) if p else r.choice([1, -1])
        for t in range(n): P[i][t] += c * P[j][t]                # row operation on P, inverse column operation on Q
        for t in range(n): Q[t][j] -= c * Q[t][i]
        if p: P = [[x % p for x in q] for q in P]; Q = [[x % p for x in q] for q in Q]
    return P, Q


def split_complex(r, p, top, big=False):
    """h homology classes, b boundaries and their killers per dimension, hidden by a change of basis"""
    h = [r.choice([0, 1, 1, 2, 3] if not big else [2, 3, 4]) for _ in range(top + 1)]; b = [r.choice([0, 1, 1, 2, 3]) for _ in range(top)] + [0]
    n = [h[k] + b[k] + (b[k - 1] if k else 0) for k in range(top + 1)]
    for k in range(top + 1):
        if n[k] == 0: h[k] = 1; n[k] = 1
    ch = [_basis_change(r, p, n[k]) for k in range(top + 1)]
    D = [[[0] * n[0]]]
    for k in range(1, top + 1):
        M = [[0] * n[k] for _ in range(n[k - 1])]
        for i in range(b[k - 1]): M[h[k - 1] + i][h[k] + b[k] + i] = 1
        D.append(_mul(p, _mul(p, ch[k - 1][0], M, n[k - 1], n[k]), ch[k][1], n[k - 1], n[k]))
    return dict(h=h, b=b, n=n, ch=ch, D=D, p=p)


def split_map(r, C, E):
    """a chain map C -> E: anything on killers and into cycles on classes; what it does on boundaries is forced"""
    p = C["p"]; top = len(C["n"]) - 1; F = []; up = None
    rnd = lambda: (r.randrange(p) if r.random() < .6 else 0) if p else r.choice([0, 0, 0, 1, -1])
    for k in range(top, -1, -1):
        M = [[0] * C["n"][k] for _ in range(E["n"][k])]
        for j in range(C["h"][k]):
            for i in range(E["h"][k] + E["b"][k]): M[i][j] = rnd()
        for j in range(C["h"][k] + C["b"][k], C["n"][k]):
            for i in range(E["n"][k]): M[i][j] = rnd()
        if up is not None:
            for j in range(C["b"][k]):                            # F(boundary j) = boundary of F(killer j)
                for i in range(E["b"][k]): M[E["h"][k] + i][C["h"][k] + j] = up[E["h"][k + 1] + E["b"][k + 1] + i][C["h"][k + 1] + C["b"][k + 1] + j]
        up = M
        F.insert(0, _mul(p, _mul(p, E["ch"][k][0], M, E["n"][k], C["n"][k]), C["ch"][k][1], E["n"][k], C["n"][k]))
    return F


def sparse(f, A, m, n): return (m, n, tuple([(i, f.int(A[i][j])) for i in range(m) if (A[i][j] % f.p if f.p else A[i][j])] for j in range(n)))
