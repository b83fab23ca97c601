"""Infrastructure shared by every check: build drivers, execute scenarios, validate with TLC, report."""
import json, os, re, subprocess, sys, time, shutil, tempfile, random, signal, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """The machinery itself failed (not an observation about the code)."""


class Scn:
    """One scenario: header, list of calls (dicts with 'op' first)."""
    __slots__ = ("h", "ops", "tag")

    def __init__(self, h, ops=None, tag=""):
        self.h, self.ops, self.tag = h, ops if ops is not None else [], tag

    def add(self, op, **kw):
        self.ops.append(dict(op=op, **kw))
        return self


def toks(v, out):
    if isinstance(v, bool): out.append("1" if v else "0")
    elif isinstance(v, int): out.append(str(v))
    elif isinstance(v, str): out.append(v if v else "-")
    elif isinstance(v, tuple):
        for x in v: toks(x, out)
    elif isinstance(v, list):
        out.append(str(len(v)))
        for x in v: toks(x, out)
    else: raise CheckError("cannot encode %r" % (v,))


def enc_scn(i, s):
    o = ["S", str(i)]
    for k, v in s.h.items():
        if not k.startswith("_"): toks(v, o)
    lines = [" ".join(o)]
    for op in s.ops:
        o = [op["op"]]
        for k, v in op.items():
            if k != "op" and not k.startswith("_"): toks(v, o)
        lines.append(" ".join(o))
    lines.append("E")
    return "\n".join(lines) + "\n"


def strip(d):
    return {k.lstrip("_"): v for k, v in d.items()}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.t0 = time.time()
        self.states = self.trans = self.traces = 0
        self.samples, self.notes, self.rejects, self.hung = [], [], [], False
        self.cov = {}
        self.exec_events = 0
        self.known = load_known(prop)
        self.known_hit = set()
        self.level = "model_checking"
        self.bins = {}

    # ---- build ---------------------------------------------------------------------------------
    def build(self, specs):
        """specs: list of (name, source, [flags]); compiled in parallel from /repo's working tree."""
        def one(sp):
            name, src, flags = sp
            out = os.path.join(self.dir, name)
            cmd = ["g++", "-std=c++17", "-O1", "-w", "-fopenmp", "-I", os.path.join(REPO, "include"), "-I", HARN] + flags + \
                  [os.path.join(HARN, src), "-o", out]
            r = subprocess.run(cmd, capture_output=True, text=True)
            return name, out, r
        with ThreadPoolExecutor(NCPU) as ex:
            for name, out, r in ex.map(one, specs):
                if r.returncode != 0:
                    raise CheckError("driver %s does not compile:\n%s" % (name, r.stderr[-3000:]))
                self.bins[name] = out

    # ---- execute -------------------------------------------------------------------------------
    def execute(self, binary, scns, timeout=20, env=None, label="x", par=NCPU, retry=False):
        """Runs scenarios on the real code; returns one event list per scenario."""
        was_hung = self.hung
        par = max(1, min(par, len(scns)))
        parts = [list(range(k, len(scns), par)) for k in range(par)]
        if self.hung: timeout = min(timeout, 4)
        e = dict(os.environ); e["MALLOC_PERTURB_"] = "165"; e.setdefault("OMP_NUM_THREADS", "2")
        if env: e.update(env)

        def one(k):
            inp = os.path.join(self.dir, "%s.%d.in" % (label, k)); out = os.path.join(self.dir, "%s.%d.out" % (label, k))
            with open(inp, "w") as f:
                for i in parts[k]: f.write(enc_scn(i, scns[i]))
            r = subprocess.run([self.bins[binary], inp, out, str(timeout)], env=e, capture_output=True, text=True, cwd=self.dir)
            if r.returncode != 0: raise CheckError("driver failed: %s" % r.stderr[-500:])
            return out
        res = [None] * len(scns)
        with ThreadPoolExecutor(par) as ex:
            for out in ex.map(one, range(par)):
                cur, got, end = None, [], None
                def close():
                    if cur is None: return
                    res[cur] = (got, end)
                with open(out, errors="replace") as f:
                    for line in f:
                        c, rest = line[0], line[2:].rstrip("\n")
                        if c == "S": close(); cur, got, end = int(rest), [], None
                        elif c == "R": got.append(rest)
                        elif c in "TX":
                            end = (c, rest); self.hung = self.hung or rest == "14"
                        elif c == "E": end = ("E", "")
                close()
        # a history that ran out of time is run once more, alone and with more of it, before it counts as hanging
        late = [i for i in range(len(scns)) if res[i] is not None and res[i][1] == ("X", "14")]
        if late and not retry: self.hung = was_hung
        for i in late:
            if retry or self.hung: break
            again = self.execute(binary, [scns[i]], timeout=3 * timeout, env=env, label=label + "-again", par=1, retry=True)[0]
            if not self.hung: res[i] = (None, again)
        if late and not retry and not self.hung:             # all of them finished: run those that were held back, too
            held = [i for i in range(len(scns)) if res[i] is not None and res[i][1] == ("X", "not-run-after-hangs")]
            for i, again in zip(held, self.execute(binary, [scns[i] for i in held], timeout=3 * timeout, env=env, label=label + "-held", par=par, retry=True) if held else []): res[i] = (None, again)
        evs = []
        for i, s in enumerate(scns):
            if res[i] is not None and res[i][0] is None: evs.append(res[i][1]); continue
            if res[i] is None: raise CheckError("no output for scenario %d" % i)
            got, end = res[i]
            if end == ("X", "not-run-after-hangs"): evs.append([]); continue   # hangs before it are rejected
            ev = []
            for j, op in enumerate(s.ops):
                d = strip(op)
                if j < len(got):
                    try: d["r"] = json.loads(got[j])
                    except ValueError: d["op"] = "GARBLED"; d["r"] = got[j][:200]; ev.append(d); break
                    ev.append(d)
                else:
                    what = end if end else ("X", "?")
                    if what[1].startswith("harness:"): raise CheckError("scenario %s: %s at %s" % (s.tag, what[1], op["op"]))
                    ev.append({"op": {"T": "THROW", "X": "CRASH"}.get(what[0], "MISSING"), "during": op["op"], "what": what[1], "r": 0})
                    break
            else:
                if end and end[0] == "X": ev.append({"op": "CRASH", "during": "exit", "what": end[1], "r": 0})
            evs.append(ev)
        self.exec_events += sum(len(x) for x in evs)
        self.mark("executed %d %s" % (len(scns), label))
        return evs

    # ---- TLC -----------------------------------------------------------------------------------
    def tlc(self, module, cfg_text, label, env=None, workers=NCPU, timeout=800, extra=(), heap="6g", cwd=None, stack="512m"):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"): os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfg = os.path.join(d, "run.cfg")
        with open(cfg, "w") as f: f.write(cfg_text)
        e = dict(os.environ); e.pop("JAVA_TOOL_OPTIONS", None)
        if env: e.update(env)
        if self.tier != "quick": timeout *= 3                # nothing bounds a thorough run but its own bounds
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-cp", JARS, "tlc2.TLC", "-config", "run.cfg", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-deadlock"] + list(extra) + [module]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
            out, rc = r.stdout + r.stderr, r.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = ((ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")), -9
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        shutil.rmtree(d, ignore_errors=True)
        return rc, out, st

    def mark(self, what):
        if os.environ.get("VF_TIME"): print("  [%.1fs] %s" % (time.time() - self.t0, what), flush=True)

    def model_check(self, module, cfg_text, what, env=None, expect_states=1, timeout=800, extra=(), workers=NCPU):
        """Exhaustive check of a specification; a failure here is an error of the specification (it does not observe the code)."""
        rc, out, st = self.tlc(module, cfg_text, "mc", env=env, timeout=timeout, extra=extra, workers=workers)
        if rc != 0: raise CheckError("TLC on %s (%s) rc=%d:\n%s" % (module, what, rc, out[-3000:]))
        if st[1] < expect_states: raise CheckError("TLC on %s explored only %d states" % (module, st[1]))
        self.trans += st[0]; self.states += st[1]
        self.mark("model %s %d states" % (module, st[1]))
        self.notes.append({"model": module, "what": what, "states": st[1], "generated": st[0]})
        return out

    def behaviours(self, module, cfg_text, what, env=None, timeout=800, extra=(), workers=1):
        """Behaviours of a specification, printed by it as VF_B <json> strings."""
        out = self.model_check(module, cfg_text, what, env=env, timeout=timeout, extra=extra, workers=workers)
        r = []
        for line in out.splitlines():
            if line.startswith('<<"VF_B", "'):
                r.append(json.loads(json.loads(line[len('<<"VF_B", '):-2])))
        return r

    def validate(self, module, scns, evs, consts="", invs=(), batch=None, timeout=800, heap="6g"):
        """Checks each recorded history against a trace specification; records rejections."""
        todo = list(range(len(scns)))
        done = set()
        if self.tier == "quick": timeout = max(60, min(timeout, 840 - (time.time() - self.t0)))
        guard = 0
        while todo:
            guard += 1
            if guard > 12: break                             # enough scenarios are recorded as rejected
            path = os.path.join(self.dir, "trace-%s-%d.ndjson" % (module, guard))
            with open(path, "w") as f:
                for i in todo: f.write(json.dumps({"id": i, "h": strip(scns[i].h), "ev": evs[i]}) + "\n")
            cfg = "INIT TraceInit\nNEXT TraceNext\n" + ("CONSTANTS\n" + consts + "\n" if consts else "") + "".join("INVARIANT %s\n" % v for v in invs)
            rc, out, st = self.tlc(module, cfg, "tr", env={"VF_TRACE": path}, timeout=timeout, heap=heap)
            for m in re.finditer(r'<<"VF_DONE", (\d+)>>', out): done.add(todo[int(m.group(1)) - 1])
            self.trans += st[0]; self.states += st[1]
            self.mark("validated %s rc=%d" % (module, rc))
            if rc == -9:
                for i in todo:
                    if evs[i] and evs[i][-1]["op"] == "CRASH": self._reject(module, consts, scns, evs, i, pos=len(evs[i]))
                raise CheckError("TLC timed out validating %s" % module)
            left = [i for i in todo if i not in done and evs[i]]
            if rc == 0:
                for i in left: self._reject(module, consts, scns, evs, i)
                break
            # an evaluation error (malformed observation) or a violated invariant: find the scenario
            m = re.findall(r"sid = (\d+)", out)
            if not m: raise CheckError("TLC failed on %s rc=%d:\n%s" % (module, rc, out[-3000:]))
            bad = todo[int(m[-1]) - 1]
            if self._alone(module, consts, scns, evs, bad, invs)[0]:       # TLC itself had failed (it ran out of stack, say)
                done.add(bad); todo = [i for i in todo if i not in done]; continue
            mp = re.findall(r"/\\ pos = (\d+)", out)
            err = [l for l in out.splitlines() if l.startswith("Error:")][:3]
            self._reject(module, consts, scns, evs, bad, pos=int(mp[-1]) if mp else 1, why=" ".join(err)[:300])
            todo = [i for i in todo if i not in done and i != bad]
        ok = len([i for i in range(len(scns)) if i in done])
        self.traces += ok
        for s, e in list(zip(scns, evs))[:1]:
            if len(self.samples) < 4: self.samples.append({"trace_spec": module, "tag": s.tag, "header": strip(s.h), "events": json.loads(json.dumps(e[:4]))})
        return ok

    def _alone(self, module, consts, scns, evs, i, invs=()):
        path = os.path.join(self.dir, "one.ndjson")
        with open(path, "w") as f: f.write(json.dumps({"id": i, "h": strip(scns[i].h), "ev": evs[i]}) + "\n")
        cfg = "INIT TraceInit\nNEXT TraceNext\n" + ("CONSTANTS\n" + consts + "\n" if consts else "") + "".join("INVARIANT %s\n" % v for v in invs)
        rc, out, st = self.tlc(module, cfg, "one", env={"VF_TRACE": path}, workers=1, timeout=300, stack="1000m")
        return rc == 0 and 'VF_DONE' in out, out

    def _reject(self, module, consts, scns, evs, i, pos=None, why=""):
        if pos is None and len(self.rejects) < 12:
            ok, out = self._alone(module, consts, scns, evs, i)
            if ok: raise CheckError("rejection of scenario %s did not repeat" % scns[i].tag)
            m = re.search(r"depth of the complete state graph search is (\d+)", out)
            pos = int(m.group(1)) if m else 0
        bad = evs[i][pos - 1] if pos and pos - 1 < len(evs[i]) else {}
        self.rejects.append(dict(module=module, scn=scns[i], ev=evs[i], pos=pos, why=why, bad=bad))

    # ---- outcome -------------------------------------------------------------------------------
    def finish(self):
        out_rej, known_msgs = [], []
        for r in self.rejects:
            k = self.match_known(r)
            if k: self.known_hit.add(k["id"])
            else: out_rej.append(r)
        for k in self.known:
            if k["id"] in self.known_hit: print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                                samples=self.samples or [{"none": 1}], events_recorded=self.exec_events, models=self.notes, **self.cov),
                  wall_s=round(time.time() - self.t0, 2), violations=len(out_rej))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if out_rej:
            rp = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rp, exist_ok=True)
            shown = 0
            for r in out_rej[:5]:
                name = os.path.join(rp, "%s-%d.json" % (self.prop, shown)); shown += 1
                with open(name, "w") as f:
                    json.dump(dict(property=self.prop, trace_spec=r["module"], tag=r["scn"].tag, header=r["scn"].h, rejected_at=r["pos"], why=r["why"],
                                   rejected_event=r["bad"], calls=r["scn"].ops, events=r["ev"], driver_input=enc_scn(0, r["scn"])), f, indent=1)
                b = json.dumps(r["bad"])
                print("  rejected [%s] event %s: %s %s" % (r["scn"].tag, r["pos"], b[:400], r["why"]))
                print("VIOLATION property=%s replay=%s" % (self.prop, name))
            if len(out_rej) > 5: print("  ... %d rejections in total" % len(out_rej))
            return 1
        return 0

    def match_known(self, r):
        for k in self.known:
            if k.get("status") == "fixed": continue
            if k["tag"] == r["scn"].tag and (k.get("op") in (None, r["bad"].get("op"), r["bad"].get("during"))): return k
        return None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def load_known(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith("{"):
                x = json.loads(l)
                if x.get("property") == prop and x.get("status") != "fixed": r.append(x)
    return r


# ---- random scalars / vectors / matrices over F_p (p > 0) or Q (p = 0) -----------------------------
class Fld:
    def __init__(self, p): self.p = p
    def int(self, k): return (k, 1) if self.p == 0 else k % self.p
    def zero(self): return self.int(0)
    def one(self): return self.int(1)
    def rand(self, r, nz=True, big=False):
        if self.p == 0:
            while True:
                n = r.choice([-2, -1, 1, 2, 0] if not big else range(-4, 5)); d = r.choice([1, 1, 1, 2] if not big else [1, 2, 3])
                if n == 0 and nz: continue
                from math import gcd
                g = gcd(abs(n), d)
                return (n // g, d // g)
        return r.randrange(1 if nz else 0, self.p)
    def vec(self, r, n, dens=0.4):
        return [(i, self.rand(r)) for i in range(n) if r.random() < dens]
    def mat(self, r, m, n, dens=0.4):
        return (m, n, tuple(self.vec(r, m, dens) for _ in range(n)))
    def is0(self, x): return x == 0 or x == (0, 1)


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    if a.prop not in checks: print("unknown property", a.prop); return 3
    ctx = Ctx(a.prop, a.tier, a.seed)
    try:
        checks[a.prop](ctx)
        rc = ctx.finish()
        print("%s %s: %s; %d histories accepted, %d rejected, %d states, %.1fs" % (a.prop, a.tier, "VIOLATED" if rc else "holds on everything explored", ctx.traces, len(ctx.rejects), ctx.states, time.time() - ctx.t0))
        return rc
    except CheckError as e:
        print("CHECK-ERROR", a.prop, e)
        return 1 if ctx.finish() == 1 else 2                 # what was rejected before stays rejected
    finally:
        if not os.environ.get("VF_KEEP"): ctx.close()
