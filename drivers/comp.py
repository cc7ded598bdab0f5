"""Builds random models out of constraints, lists, dictionaries, sets and sub-models in the real code and
records them for CompTrace.  usage: comp.py OUT n"""
import sys, json, os, random, io, contextlib, warnings
import numpy as np
from exn import exname
import gpkit
from gpkit import Variable, VectorVariable, Model, ConstraintSet, Vectorize, NamedVariables
from gpkit.nomials import NomialArray
from gpkit.constraints.tight import Tight
from gpkit.constraints.loose import Loose
from gpkit.constraints.set import flatiter
from gpkit.nomials.variables import VectorizableVariable, Variable as RealVariable
warnings.simplefilter("ignore")
out, nprog = sys.argv[1], int(sys.argv[2])
rng = random.Random(int(os.environ["VERIF_SEED"]) * 15485863 + 9)
NAMES = ["x", "y", "z"]
isn = lambda v: isinstance(v, (float, np.floating)) and v != v

class Rec:
    def __init__(self):
        self.ev, self.keyid, self.conid, self.groups, self.nodes, self.scope, self.n, self.vec = [], {}, {}, [], [], [], 0, ()
        self.keep = []
    def val(self, v):
        if v is None or isn(v): return ""
        if callable(v): return "f"
        if isinstance(v, tuple) and v and isinstance(v[0], str): return "sweep " + ",".join("%.12g" % q for q in np.ravel(v[1]))
        if getattr(v, "shape", ()) != (): return "array"
        if isinstance(v, (int, float, np.number)): return "%.12g" % v
        return type(v).__name__
    def seen(self):
        r = []
        for nd in self.nodes:
            row = [""]*self.n
            for k, i in self.keyid.items():
                try: row[i-1] = self.val(nd.substitutions[k])
                except KeyError: row[i-1] = ""
                if k in nd.substitutions and row[i-1] == "": row[i-1] = "in but without a value"
                if row[i-1] and not k in nd.substitutions: row[i-1] += " but not in"
            r.append(row)
        return r
    def declare(self):
        used = {g["name"] for g in self.groups if g["lineage"] == NamedVariables.lineage}
        names = [n for n in NAMES if n not in used]
        if not names: return
        name = rng.choice(names)
        sh = rng.choice([()]*3 + [(2,), (3,)])
        full = sh + Vectorize.vectorization
        r = rng.random()
        m = int(np.prod(full, initial=1))
        v = []
        if r < .45: v, vals = [], [""]*m
        elif r < .7 or full: 
            if sh and (not Vectorize.vectorization or rng.random() < .5):
                q = [rng.choice([1, 2.5, 0.1, 3]) for _ in range(sh[0])]
                v = [np.array(q)] if Vectorize.vectorization or rng.random() < .3 else [q]
                vals = ["%.12g" % z for z in np.ravel(np.broadcast_to(np.array(q), tuple(reversed(full))).T if Vectorize.vectorization else q)]
            elif r < .9:
                c = rng.choice([1, 2.5, 0.1, 3])
                if sh and not Vectorize.vectorization: v, vals = [[c]*sh[0]], ["%.12g" % c]*m
                else: v, vals = [c], ["%.12g" % c]*m
            else: v, vals = [lambda c: np.full(full, 1.)], ["f"]*m
        elif r < .8: v, vals = [lambda c: 1.], ["f"]
        elif r < .9: v, vals = [[1, 2]], ["sweep 1,2"]
        else: v, vals = [7], ["7"]
        const = bool(v) and rng.random() < .12
        kw = dict(constant=True) if const else {}
        if sh: o = VectorVariable(sh[0], name, *v, **kw)
        else: o = VectorizableVariable(name, *v, **kw) if rng.random() < .5 or Vectorize.vectorization else Variable(name, *v, **kw)
        els = [o[ix] for ix in np.ndindex(*full)] if full else [o]
        ids = []
        for e in els:
            self.n += 1; self.keyid[e.key] = self.n; ids.append(self.n)
        g = dict(name=name, lineage=NamedVariables.lineage, sh=list(full), ids=ids, o=o, els=els)
        self.groups.append(g)
        self.ev.append(dict(op="var", name=name, lin=[n for n, _ in NamedVariables.lineage], sh=list(full), ids=ids, vals=vals, const=const))
        return g
    def ids(self, c): return sorted(self.keyid[k] for k in c.vks)
    def leaf(self, groups):
        g = rng.choice(groups); h = rng.choice(groups)
        form = rng.choice(["x>=1", "x>=y", "xy<=5", "el", "x==y", "two"])
        e, f = rng.choice(g["els"]), rng.choice(h["els"])
        if form == "two": return self.reg([e >= 1, f <= 5])
        if form == "el" or e is f: c = e >= 1
        elif form == "x>=1" or g is h: c = g["o"] >= rng.choice([1, 2])
        elif form == "x==y": c = e == f
        elif form == "xy<=5": c = e*f**2 <= 5
        elif g["sh"] and h["sh"] and g["sh"] != h["sh"]: c = e >= f + 1
        else: c = g["o"] >= h["o"] + 1
        return self.reg(c)
    def reg(self, c):
        "registers new constraints; gives the object and its description"
        if isinstance(c, list) and not hasattr(c, "oper"):
            r = [self.reg(q) for q in c]
            return [q for q, _ in r], dict(t="raw", kids=[d for _, d in r])
        if hasattr(c, "constraints") and not hasattr(c, "as_hmapslt1"):
            cs = list(np.ravel(np.asarray(c.constraints, dtype=object)))
        else: cs = [c]
        for q in cs: self.conid[id(q)] = len(self.conid) + 1; self.keep.append(q)
        self.keep.append(c)
        return c, dict(t="leaf", c=[self.conid[id(q)] for q in cs], v=[self.ids(q) for q in cs])
    def kids(self, depth, groups, own=None, top=False):
        "a list or dictionary of random parts: the object and its description"
        n = rng.choice([1, 1, 2, 2, 3]) if depth else rng.choice([1, 2])
        r = []
        for _ in range(n):
            p = rng.random()
            if depth and p < .2: r.append(self.kids(depth-1, groups))
            elif depth and p < .5: r.append(self.node(depth-1, groups))
            elif self.nodes and p < .6:
                k = rng.randrange(len(self.nodes)); r.append((self.nodes[k], dict(t="node", n=k+1)))
            elif groups: r.append(self.leaf(groups))
            if not own and rng.random() < .2: self.declare_here(groups)
        r = [q for q in r if q is not None]
        if rng.random() < .01: r.append((rng.choice([True, 3.]), dict(t="bad")))
        form = rng.random()
        objs = [o for o, _ in r]
        desc = dict(t="raw", kids=[d for _, d in r])
        if form < .25: return {"k%d" % (len(objs) - i): o for i, o in enumerate(objs)}, desc
        if form < .3 and not top and all(not isinstance(o, (list, dict, tuple, np.ndarray)) for o in objs):
            a = np.empty(len(objs), dtype=object)
            for i, o in enumerate(objs): a[i] = o
            return a, desc
        if form < .4 and not (len(objs) == 2 and isinstance(objs[1], dict)): return tuple(objs), desc
        return objs, desc
    def declare_here(self, groups):
        g = self.declare()
        if g: groups.append(g)
    def explicit(self, groups, inside=None):
        "explicit substitutions: the dictionary and its description"
        d, s = {}, []
        for g in groups:
            if rng.random() > .3: continue
            m = len(g["ids"])
            if g["sh"] and rng.random() < .5:
                j = rng.randrange(m)
                v, sv = self.avalue()
                key = rng.choice([g["els"][j], g["els"][j].key])
                d[key] = v; s.append(dict(ids=[g["ids"][j]], v=[sv]))
            elif g["sh"]:
                if rng.random() < .3: c = rng.choice([4., .3]); v, sv = c, ["%.12g" % c]*m
                else:
                    q = [rng.choice([4, 5.5, .3]) for _ in range(m)]
                    v = np.array(q).reshape(g["sh"]); sv = ["%.12g" % z for z in q]
                    if rng.random() < .3 and len(g["sh"]) == 1: v = q
                d[rng.choice([g["o"], g["o"].key])] = v; s.append(dict(ids=g["ids"], v=sv))
            else:
                v, sv = self.avalue()
                same = [h for h in groups if h["name"] == g["name"]]
                key = g["name"] if len(same) == 1 and inside is not None and set(g["ids"]) <= inside and len([h for h in self.groups if h["name"] == g["name"] and set(h["ids"]) & inside]) == 1 and rng.random() < .4 else rng.choice([g["o"], g["o"].key])
                d[key] = v; s.append(dict(ids=g["ids"], v=[sv]))
        return d, s
    def avalue(self):
        r = rng.random()
        if r < .75: c = rng.choice([4, 5.5, .3]); return c, "%.12g" % c
        if r < .9: return (lambda c: 1.), "f"
        return ("sweep", [3, 4]), "sweep 3,4"
    def vksof(self, desc):
        "guard only: the variables below"
        if desc["t"] == "leaf": return {i for v in desc["v"] for i in v}
        if desc["t"] == "node": return {self.keyid[k] for k in self.nodes[desc["n"]-1].vks}
        if desc["t"] == "bad": return set()
        return set().union(*[self.vksof(k) for k in desc["kids"]])
    def node(self, depth, groups):
        kind = rng.choice(["ConstraintSet", "ConstraintSet", "Model", "Model", "sub", "sub", "sub", "Tight", "Loose"])
        if kind == "sub":
            mine = []
            rec = self
            state = {}
            def setup(self_, *args):
                for _ in range(rng.choice([1, 1, 2])): rec.declare_here(mine)
                o, desc = rec.kids(depth, mine + ([rng.choice(groups)] if groups and rng.random() < .6 else []), own=True, top=True)
                while rng.random() < .2: rec.declare_here(mine)
                state["desc"], state["cost"] = desc, []
                if rng.random() < .4 and mine:
                    e = rng.choice(rng.choice(mine)["els"]); self_.cost = e*2; state["cost"] = [rec.keyid[e.key]]
                state["own"] = [i for g in rec.groups if g["lineage"] == NamedVariables.lineage for i in g["ids"]]
                state["s"], state["raised"] = [], None
                if rng.random() < .35 and not isinstance(o, dict):
                    d, state["s"] = rec.explicit(mine, set(state["own"]) | rec.vksof(desc))
                    return o, d
                return o
            cls = type(rng.choice(["A", "B"]), (Model,), dict(setup=setup))
            vec = len(Vectorize.vectorization) == 0 and rng.random() < .15
            before = NamedVariables.lineage
            try:
                with (Vectorize(2) if vec else contextlib.nullcontext()):
                    nd = cls()
                res = "ok"
            except Exception as e:
                nd, res = None, exname(e)
                if "desc" not in state or NamedVariables.lineage != before: raise
            groups.extend(mine[:1])
            return self.done(nd, "sub-model", state["desc"], state["own"], state["cost"], state["s"], res, None)
        o, desc = self.kids(depth, groups, top=True)
        if kind in ("Tight", "Loose") and not isinstance(o, list): o = [o]
        cost, subs, s, co = [], None, [], None
        if kind == "Model":
            e = rng.choice(rng.choice(groups)["els"]) if groups and rng.random() < .8 else None
            cost = [self.keyid[e.key]] if e is not None else []
            co = e
        inside = self.vksof(desc) | set(cost)
        if rng.random() < .4: subs, s = self.explicit(groups, inside)
        if desc["t"] == "raw" and len(desc["kids"]) == 1 and desc["kids"][0]["t"] == "node" and rng.random() < .5:
            o = o[0] if not isinstance(o, dict) else list(o.values())[0]; single = True
        try:
            if kind == "ConstraintSet": nd = ConstraintSet(o, subs) if subs else ConstraintSet(o)
            elif kind == "Model": nd = Model(co, o, subs) if rng.random() < .5 and subs else Model(co, o, substitutions=subs) if subs else Model(co, o)
            else:
                if isinstance(o, ConstraintSet): o = [o]
                nd = (Tight if kind == "Tight" else Loose)(o); s = []
            res = "ok"
        except Exception as e: nd, res = None, exname(e)
        return self.done(nd, kind, desc, [], cost, s, res, o)
    def done(self, nd, kind, desc, own, cost, s, res, o):
        e = dict(op="node", kind=kind, kids=[desc], own=own, cost=cost, subs=s, out=res, flat=[], vks=[], seen=[], kidsame=True)
        if nd is not None:
            self.nodes.append(nd)
            e["flat"], e["vks"] = self.flat(nd), self.vks(nd)
            if isinstance(o, dict): e["kidsame"] = all(nd[k] is c for k, c in o.items())
            elif isinstance(o, ConstraintSet): e["kidsame"] = nd[0] is o and len(nd) == 1
            elif o is not None: e["kidsame"] = len(nd) == len(o) and all(nd[i] is c for i, c in enumerate(o))
            if kind == "sub-model":     # what each of its names gives, below
                pass
        e["seen"] = self.seen()
        self.ev.append(e)
        if nd is None: return None
        return nd, dict(t="node", n=len(self.nodes))
    def flat(self, nd): return [self.conid.get(id(c), 0) for c in nd.flat()]
    def vks(self, nd): return sorted(self.keyid.get(k, 0) for k in nd.varkeys if nd.vks) if len(nd.vks) == len(nd.varkeys) else [0]
    def step(self):
        n = rng.randrange(len(self.nodes)); nd = self.nodes[n]
        mine = [g for g in self.groups if set(g["ids"]) & set(self.vks(nd))]
        op = rng.choice(["set", "set", "look", "look", "look", "byname", "show"])
        if op == "set" and mine:
            g = rng.choice(mine)
            if g["sh"] and rng.random() < .5:
                js = [j for j, i in enumerate(g["ids"]) if i in self.vks(nd)]
                j = rng.choice(js); v, sv = self.avalue()
                key, ids, sv = rng.choice([g["els"][j], g["els"][j].key]), [g["ids"][j]], [sv]
            elif g["sh"]:
                q = [rng.choice([4, 5.5, .3]) for _ in g["ids"]]
                v = np.array(q).reshape(g["sh"]); sv = ["%.12g" % z for z in q]
                key, ids = rng.choice([g["o"], g["o"].key]), g["ids"]
            else:
                v, sv = self.avalue()
                key, ids, sv = rng.choice([g["o"], g["o"].key]), g["ids"], [sv]
            try:
                if rng.random() < .5: nd.substitutions[key] = v
                else: nd.substitutions.update({key: v})
                res = "ok"
            except Exception as e: res = exname(e)
            self.ev.append(dict(op="set", n=n+1, ids=ids, v=sv, out=res, seen=self.seen()))
        elif op == "look" and self.groups:
            g = rng.choice(mine or self.groups) if rng.random() < .7 else rng.choice(self.groups)
            by = rng.choice(["name", "name", "el", "whole"])
            j = rng.randrange(len(g["ids"]))
            full = ".".join([q for q, _ in g["lineage"]] + [g["name"]])
            name = rng.choice([g["name"], full, full + ("[%s]" % ",".join(map(str, list(np.ndindex(*g["sh"]))[j])) if g["sh"] else "")])
            key = name if by == "name" else rng.choice([g["els"][j], g["els"][j].key]) if by == "el" else rng.choice([g["o"], g["o"].key])
            ids = g["ids"] if by == "whole" else [g["ids"][j]]
            try:
                r = nd[key]
                if isinstance(r, np.ndarray): o = dict(t="vec", ids=[0 if isn(q) else self.keyid.get(q.key, -1) for q in r.flat])
                elif isinstance(r, RealVariable): o = dict(t="var", ids=[self.keyid.get(r.key, -1)])
                else: o = dict(t=type(r).__name__, ids=[])
            except Exception as e: o = dict(t=exname(e), ids=[])
            self.ev.append(dict(op="look", n=n+1, by=by, name=name, ids=ids, out=o))
            if by == "name":
                try: ids2 = [self.keyid.get(q.key, -1) for q in nd.variables_byname(key)]
                except KeyError: ids2 = []
                self.ev.append(dict(op="byname", n=n+1, by="name", name=name, ids=ids, ids2=ids2))
        elif op == "show":
            how = rng.choice(["str", "repr", "latex", "cset", "sub"])
            res = "ok"
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    if how == "str": str(nd)
                    elif how == "repr": repr(nd)
                    elif how == "latex": nd.latex()
                    elif how == "cset": list(nd.flat()); nd.name_collision_varkeys(); nd.constrained_varkeys()
                    else: nd.lines_without(("lineage",))
                except Exception as e: res = exname(e)
            self.ev.append(dict(op="show", n=n+1, how=how, out=res, seen=self.seen(), flat=self.flat(nd), vks=self.vks(nd)))

def session():
    NamedVariables.reset_modelnumbers()
    R = Rec()
    groups = []
    for _ in range(rng.choice([1, 2, 3])): R.declare_here(groups)
    for _ in range(rng.choice([1, 2, 3])):
        R.node(rng.choice([0, 1, 1, 2]), groups)
        if len(R.nodes) > 8 or R.n > 24: break
        for _ in range(rng.choice([0, 2, 4])):
            if R.nodes: R.step()
    for _ in range(4):
        if R.nodes: R.step()
    return R

if __name__ == "__main__":
    with open(out, "w") as f:
        for i in range(nprog):
            R = session()
            f.write(json.dumps(dict(id="comp%d" % i, tag="comp", ev=R.ev)) + "\n")
