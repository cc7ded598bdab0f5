"""Replays behaviours of spec/Environments.tla with real `with` statements and Model subclasses.
usage: envs.py TABLE OUT walks walklen"""
import sys, json, random, os
import gpkit
from gpkit import Variable, VectorVariable, Model, NamedVariables, Vectorize, SignomialsEnabled
from gpkit.exceptions import InvalidPosynomial

table, out, walks, walklen = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
rng = random.Random(int(os.environ["VERIF_SEED"]) * 7919 + 3)
key = lambda x: json.dumps(x, sort_keys=True)
STATE, TRANS = {}, {}
for line in open(table):
    r = json.loads(line)
    if "state" in r: STATE[key(r["state"])] = r["obs"]
    else: TRANS.setdefault(key(r["from"]), {})[key(r["act"])] = (r["act"], key(r["to"]))
TRANS = {s: list(t.values()) for s, t in TRANS.items()}
INIT = key([[], []])
NamedVariables.reset_modelnumbers()
X, Y = Variable("xx"), Variable("yy")

class Unwind(Exception):
    def __init__(self, n): self.n = n
class Mismatch(BaseException):
    pass

class Run:
    def __init__(self, acts, reuse):
        self.acts, self.pos, self.state, self.reuse = acts, 0, INIT, reuse
        self.pool, self.decl, self.scopes, self.scopekind = {}, {}, [], []

    def env(self, k, a):
        mk = {"sig": lambda: SignomialsEnabled(), "vec": lambda: Vectorize(a), "named": lambda: NamedVariables(a)}[k]
        if self.reuse:
            return self.pool.setdefault((k, a), mk())
        return mk()

    def bad(self, *msg):
        raise Mismatch("after %s: %s" % (key(self.acts[self.pos-1][0]) if self.pos else "start", " ".join(map(str, msg))))

    def observe(self):
        o = STATE[self.state]
        lin = tuple((n, i) for n, i in o["lineage"]) or None
        vec = tuple(o["vec"])
        v = Variable("q", "m", "a label")
        w = VectorVariable(2, "w")
        if vec:
            if getattr(v, "shape", None) != vec: self.bad("Variable has shape", getattr(v, "shape", None), "expected", vec)
            el = v.flat[0].key
            if el.veckey != v.key: self.bad("element does not belong to its vector")
        else:
            if getattr(v, "shape", None): self.bad("Variable has shape", v.shape, "expected scalar")
            el = v.key
        for kk in {el, v.key}:
            if kk.lineage != lin: self.bad("Variable has lineage", kk.lineage, "expected", lin)
            if kk.label != "a label" or str(kk.unitrepr) != "m": self.bad("description lost")
        if w.shape != (2,) + vec: self.bad("VectorVariable has shape", w.shape, "expected", (2,) + vec)
        if w.key.lineage != lin or w.flat[0].key.lineage != lin: self.bad("VectorVariable has lineage", w.key.lineage, "expected", lin)
        try:
            d = X - Y
            sig = True
        except (InvalidPosynomial, TypeError): sig = False
        if sig is not o["sig"]: self.bad("signomials allowed:", sig, "expected", o["sig"])
        if bool(SignomialsEnabled) is not o["sig"]: self.bad("SignomialsEnabled is", bool(SignomialsEnabled), "expected", o["sig"])
        # namespaces: same scope -> same variable, different scope -> different variable
        me = lin   # shape is not part of the identity of a variable
        for other, okey in self.decl.items():
            if (okey == v.key) is not (other == me):
                self.bad("variable of", other, "==" if okey == v.key else "!=", "variable of", me)
        self.decl[me] = v.key
        if self.scopes:
            flat = list(v.flat) if vec else [v]
            self.scopes[-1].update(x.key for x in flat)
            self.scopes[-1].update(x.key for x in w.flat)

    def finish_model(self, m, declared, lin):
        if m.lineage != lin: self.bad("model has lineage", m.lineage, "expected", lin)
        if set(m.unique_varkeys) != declared: self.bad("model has variables", set(m.unique_varkeys), "expected", declared)
        if not set(m.unique_varkeys) <= set(m.varkeys): self.bad("model's own variables are missing from it")

    def body(self):
        "runs actions until the environment on top of the stack is left"
        while self.pos < len(self.acts):
            a, to = self.acts[self.pos]
            self.pos += 1
            if a["op"] == "exit":
                self.state = to
                return
            if a["op"] == "raise":
                self.state = to
                raise Unwind(a["n"])
            before = self.state
            self.state = to
            try:
                if a["k"] == "model":
                    run, declared = self, set()
                    lin = tuple((n, i) for n, i in STATE[to]["lineage"])
                    def setup(selfm):
                        run.scopes.append(declared)
                        try:
                            run.observe()
                            run.body()
                        finally:
                            run.scopes.pop()
                        selfm.cost = X
                        return [X >= 1]
                    m = type(a["a"], (Model,), {"setup": setup})()
                    self.finish_model(m, declared, lin)
                else:
                    with self.env(a["k"], a.get("a")) as got:
                        if a["k"] == "named":
                            self.scopes.append(set())
                        try:
                            self.observe()
                            self.body()
                            if a["k"] == "named" and got is not None:
                                pass
                        finally:
                            if a["k"] == "named": self.scopes.pop()
            except Unwind as u:
                if u.n > 1: raise Unwind(u.n - 1)
            self.observe()

    def go(self):
        NamedVariables.reset_modelnumbers()
        self.observe()
        self.body()
        if self.pos < len(self.acts): self.bad("driver did not consume the behaviour")

fails, nseq, nsteps, covered = [], 0, 0, set()
def close(acts):
    "leave every environment that is still in force at the end"
    st = acts[-1][1] if acts else INIT
    acts = list(acts)
    while True:
        ex = [t for t in TRANS.get(st, ()) if t[0]["op"] == "exit"]
        if not ex: return acts
        acts.append(ex[0]); st = ex[0][1]

def test(acts):
    global nseq, nsteps
    nseq += 1
    acts = close(acts)
    st = INIT
    for a, to in acts:
        covered.add((st, key(a))); st = to
    nsteps += len(acts)
    r = Run(acts, rng.random() < .5)
    try: r.go()
    except Mismatch as m:
        if len(fails) < 30: fails.append(dict(acts=[a for a, _ in acts[:r.pos]], msg=str(m)))
    except Exception as e:
        import traceback
        if len(fails) < 30: fails.append(dict(acts=[a for a, _ in acts[:r.pos]], msg="raised %r %s" % (e, traceback.format_exc()[-1500:])))

paths, queue = {INIT: []}, [INIT]
for s in queue:
    for a, to in TRANS.get(s, ()):
        if to not in paths:
            paths[to] = paths[s] + [(a, to)]; queue.append(to)
for s in queue:
    for t in TRANS.get(s, ()): test(paths[s] + [t])
    if len(fails) >= 30: break
for _ in range(walks):
    st, acts = INIT, []
    for _ in range(walklen):
        ts = TRANS.get(st, ())
        if not ts: break
        t = rng.choice(ts); acts.append(t); st = t[1]
    test(acts)
json.dump(dict(fails=fails, sequences=nseq, steps=nsteps, covered=len(covered), transitions=sum(map(len, TRANS.values())),
               sample=[a for a, _ in paths[queue[-1]]]), open(out, "w"))
