"""A26: permutation, sorted-list and prefix-tree utilities (Perm.tla)."""
from .core import Scn


def a26(ctx):
    ctx.build([("perm", "perm.cpp", [])])
    r = ctx.rng; N = (lambda a, b: a if ctx.thorough else b)
    ss = []
    def S(tag): s = Scn({"_p": 0}, tag=tag); ss.append(s); return s
    def size(): return r.choice([0, 1, 2, 3, 3, 4, 4, 5, 6, 8, 12, 20, 37] + ([64, 100] if r.random() < .1 else []))
    def lst(n): w = r.choice([1, 2, 4, 10, 1000]); return [r.randrange(-w, w + 1) for _ in range(n)]
    def perm(n):
        p = list(range(n)); k = r.random()
        if k < .1: p.reverse()
        elif k < .3 and n > 1: i, j = r.randrange(n), r.randrange(n); p[i], p[j] = p[j], p[i]
        elif k < .9: r.shuffle(p)
        return p
    def incr(top, k=None): return sorted(r.sample(range(top), min(top, k if k is not None else r.randrange(0, top + 1))))
    for _ in range(N(900, 250)):
        s = S("sorting")
        for _ in range(4):
            n = size(); s.add("sortp", x=lst(n), k=r.choice([0, n, r.randrange(0, n + 1)]))
            s.add("simp", s=lst(r.choice([0, 1, 2, 3, 4, 5])))
    for _ in range(N(900, 250)):
        s = S("permutations")
        for _ in range(4):
            n = size(); s.add("perm", p=perm(n), q=perm(n), x=lst(n))
            n = size(); k = r.randrange(0, n + 1); ind = r.sample(range(n), k); s.add("ind", ind=ind, p=perm(n), y=[r.randrange(50) for _ in ind])
            s.add("ext", p=perm(r.choice([0, 1, 2, 4])), n=r.choice([4, 5, 9]))
        n = size(); s.add("rnd", n=n, k=r.randrange(0, n + 1))
    for _ in range(N(900, 250)):
        s = S("sorted lists")
        for _ in range(6):
            top = r.choice([1, 2, 3, 4, 6, 12, 30])
            s.add("isect", a=incr(top), b=incr(top), m=r.randrange(0, top + 2))
            s.add("lt", x=incr(top), v=r.randrange(0, top + 2))
            k = r.choice([0, 1, 2, 3, 5, 9, 24]); w = r.choice([1, 2, 4, 12])
            s.add("ssr", i=[r.randrange(0, w) for _ in range(k)], v=[r.choice([1, -1, 1, -1, 2, -3, 0]) for _ in range(k)], off=r.choice([0, 0, k, r.randrange(0, k + 1)]))
    for _ in range(N(1200, 400)):
        s = S("trie"); live = []
        def key(): return [r.randrange(0, r.choice([1, 2, 3])) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
        keys = []
        for _ in range(r.choice([6, 12, 30])):
            k = r.random(); t = r.choice("abc")
            if t not in live or k < .04: s.add("tnew", t=t, v=r.randrange(0, 5)); live = sorted(set(live) | {t})
            elif k < .35: q = key(); keys.append(q); s.add("tins", t=t, k=q, v=r.randrange(1, 100))
            elif k < .43: s.add("tcopy", t=t, u=r.choice(live), how=int(r.random() < .5))
            elif k < .5 and len(live) > 1: s.add("tmove", t=t, u=r.choice([x for x in live if x != t]), how=int(r.random() < .5))
            else: q = r.choice(keys) if keys and r.random() < .6 else key(); s.add("tget", t=t, k=(q[:r.randrange(0, len(q) + 1)] if r.random() < .3 else q), d=999)
        for t in live:
            for q in keys[-6:]: s.add("tget", t=t, k=q, d=998)
    ev = ctx.execute("perm", ss, label="perm")
    ctx.validate("PermTrace", ss, ev)
    for mod, cfg, what in [("PermMC", "CONSTANTS N = %d\nINIT Init\nNEXT Next\nINVARIANT Laws\n" % (4 if ctx.thorough else 3), "composition, inverse, sign and Kendall-tau laws for all permutations"),
                           ("MergeMC", "CONSTANTS N = %d\nINIT Init\nNEXT Next\nINVARIANT Safe\nPROPERTY Ends\n" % (6 if ctx.thorough else 5), "the merge loops return the intersection for all sorted lists and bounds")]:
        ctx.model_check(mod, cfg, what, expect_states=30)


CHECKS = {"A26": a26}
