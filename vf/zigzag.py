"""A21: zigzag barcodes (Zigzag.tla and its trace specification)."""
from .core import Scn, Fld
from .complexes import Sim
from . import gen


def dimof(kind, s): return sum(s[i] != s[i + 1] for i in range(0, len(s), 2)) if kind == "cube" else len(s) - 1


def walk(r, sim, kind, steps, group, again, maxdim):
    """an admissible history: list of (cell, entry, exit); times in quarter units"""
    pres, out, t = {}, [], r.choice([0, 0, -40, 3])
    left = {}
    bias = r.choice([.5, .65, .8])
    for _ in range(steps):
        n = r.choice([1, 1, 2, 4]) if group else 1
        moves = r.random()
        enter = n if moves < bias else 0
        leave = 0 if enter and (not group or r.random() < .5) else n
        new = set()
        for _ in range(enter):
            for _ in range(25):
                s = sim.draw(r)
                if s in pres or left.get(s) == t or dimof(kind, s) > maxdim: continue
                if s in left and not again: continue
                if all(f in pres for f in sim.faces(s)): pres[s] = t; new.add(s); break
                miss = [f for f in sim.faces(s) if f not in pres and left.get(f) != t and (again or f not in left) and all(g in pres for g in sim.faces(f))]
                if miss: f = r.choice(miss); pres[f] = t; new.add(f); break
        for _ in range(leave):
            free = [s for s in sorted(pres) if not any(s in sim.faces(u) for u in pres) and (s not in new or r.random() < .2)]
            if not free: break
            s = r.choice(free); out.append((s, pres.pop(s), t)); left[s] = t
        t += r.choice([1, 2, 4])
    if r.random() < .5:
        for s in sorted(pres): out.append((s, pres[s], t))
    else:
        while pres:
            free = [s for s in sorted(pres) if not any(s in sim.faces(u) for u in pres)]
            for s in (free if group else [r.choice(free)]): out.append((s, pres.pop(s), t))
            t += 1
    return out


def order(r, sim, ivs, mode):
    """an order of additions with faces first and the intervals of a cell in time order"""
    if mode == "time": return sorted(ivs, key=lambda x: (x[1], len(x[0]) if sim.kind != "cube" else dimof("cube", x[0]), x[0]))
    todo, done, res = list(ivs), set(), []
    while todo:
        c = [x for x in todo if all(f in done for f in sim.faces(x[0])) and not any(y[0] == x[0] and y[1] < x[1] for y in todo)]
        x = r.choice(c) if mode == "any" else min(c, key=lambda x: (dimof(sim.kind, x[0]), x[0], x[1]))
        todo.remove(x); done.add(x[0]); res.append(x)
    return res


def ask(s, r, top, all_=False):
    for red in ("standard", "extra"):
        s.add("bars", maxdim=r.choice([-1, 0, 1, top, top]), red=red, opt=r.choice(["none", "clear"]))
    s.add("bars", maxdim=top, red=r.choice(["standard", "extra"]), opt="none")


def history(r, p, big):
    kind = r.choice(["simp", "simp", "light", "cube"])
    if kind == "cube": amb = 3 if r.random() < .05 else 2; sim = Sim("cube", [], amb, amb=amb, size=r.choice([2, 2, 3])); top = amb; nv = 0
    else:
        nv = r.choice([2, 3, 3, 4, 4, 5] + ([6] if big else [])); top = min(r.choice([1, 2, 2, 3]), nv - 1)
        sim = Sim(kind, list(range(nv)), top); amb = 0
    group = r.random() < .5
    ivs = walk(r, sim, kind, r.choice([6, 10, 14, 18] + ([26, 34] if big else [])) - (4 if group else 0), group, r.random() < .7, top)
    if not ivs: return None
    return make(r, p, kind, amb, nv, top, sim, ivs)


def make(r, p, kind, amb, nv, top, sim, ivs, tag="zigzag"):
    s = Scn({"kind": kind, "amb": amb, "nv": nv, "top": top}, tag=tag); s.h["_p"] = p
    real = max(dimof(kind, x[0]) for x in ivs)
    mode = r.choice(["time", "any", "dim", "val"])
    if mode == "val":
        cs, vs, ix = [[] for _ in range(real + 1)], [[] for _ in range(real + 1)], {}
        for c, a, b in order(r, sim, ivs, r.choice(["time", "any"])):
            k = dimof(kind, c)
            if c not in ix: ix[c] = len(cs[k]); cs[k].append(list(c)); vs[k].append([])
            vs[k][ix[c]].append([a, b])
        s.add("zval", cells=cs, v=vs)
    else:
        seen = set()
        for c, a, b in order(r, sim, ivs, mode):
            if c in seen: s.add("zadd", a=a, b=b, s=list(c), how=r.randrange(2)); continue
            seen.add(c)
            s.add("zaddrec" if r.random() < .3 else "zadd", a=a, b=b, s=list(c), how=r.randrange(2))
    ask(s, r, real)
    return s


def model(ctx, p, nv, n, tag):
    """every history of n events over the full complex on nv vertices"""
    out, r = [], ctx.rng
    cfg = "CONSTANTS P = %d NV = %d N = %d Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANT Inv\n" % (p, nv, n)
    for h in ctx.behaviours("ZigzagMC", cfg, "all zigzag histories of %d events on %d vertices" % (n, nv), workers=1):
        start, ivs = {}, []
        for t, (s, enters) in enumerate(h):
            s = tuple(s)
            if enters: start[s] = t
            else: ivs.append((s, start.pop(s), t))
        for s in start: ivs.append((s, start[s], n))
        kind = r.choice(["simp", "light"])
        out.append(make(r, p, kind, 0, nv, nv - 1, Sim(kind, list(range(nv)), nv - 1), ivs, tag="zigzag-exhaustive"))
    return out


def a21(ctx):
    fields = [2, 3, 5, 0]
    ctx.build([("zz%d" % p, "zigzag.cpp", ["-DFIELD=%d" % p]) for p in fields])
    r, S, E = ctx.rng, [], []
    for p in fields:
        ss = [h for h in (history(r, p, p and (ctx.thorough or r.random() < .025)) for _ in range(900 if ctx.thorough else 130)) if h]
        if p == 2: ss += model(ctx, p, 2, 8, "m")
        if p == 3: ss += model(ctx, p, 3, 6 if ctx.thorough else 5, "m")
        E += ctx.execute("zz%d" % p, ss, label="zz%d" % p); S += ss
    ctx.validate("ZigzagTrace", S, E)


CHECKS = {"A21": a21}
