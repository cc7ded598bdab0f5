"""Solves random hierarchies of models with a stand-in solver and records their sensitivity diagrams for
SankeyTrace.  usage: sk.py OUT n"""
import sys, json, os, random, warnings, io, contextlib
from fractions import Fraction as F
import numpy as np
from exn import exname
from gpkit.exceptions import PrimalInfeasible
from gpkit import Variable, VectorVariable, Model, ConstraintSet, GPCOLORS
from gpkit.interactive.sankey import Sankey
warnings.simplefilter("ignore")
out, nsess = os.path.abspath(sys.argv[1]), int(sys.argv[2])
rng = random.Random(int(os.environ["VERIF_SEED"]) * 7919 + 29)
H = lambda *x: rng.choice(x)
fr = lambda f: [F(f).numerator, F(f).denominator]
DEN, EPS = 1024, 1e-10

class Odd(Exception): pass
def split(v):
    "a number of the diagram: [rational, how many times too small to matter]"
    v = float(v)
    if v != v or abs(v) > 1e5: raise Odd("flow %r" % v)
    q = F(round(v*DEN), DEN)
    n = (v - float(q))/EPS
    if abs(n - round(n)) > .05 or abs(n) > 1e5: raise Odd("flow %.12g" % v)
    return [fr(q), round(n)]
def short(c): s = c.str_without(["lineage", "units"]); return s
def cut(s): return s if len(s) <= 30 else "%s ..." % s[:30]

class G:
    "generates one hierarchy"
    def __init__(self):
        self.free, self.consts, self.vecs, self.all = [], [], {}, []
    def mono(self):
        m = H(1, 2, 3)
        for v in rng.sample(self.free, min(len(self.free), H(1, 1, 2))): m = m*v**H(1, 1, 2, -1)
        for v in rng.sample(self.consts, min(len(self.consts), H(0, 0, 1, 1))): m = m*v**H(1, -1)
        return m
    def leaf(self):
        if self.consts and rng.random() < .05:      # certain to hold, so that no row is made of it
            c = rng.choice(self.consts); return H(c**2 <= 100, 3*c >= .5)
        l = self.mono()
        if rng.random() < .35: l = l + self.mono()
        r = self.mono()
        c = H(lambda: l <= r, lambda: r >= l, lambda: (r == self.mono()) if rng.random() < .3 else l <= r)()
        return c if hasattr(c, "vks") else self.leaf()
    def array(self):
        n = H(2, 2, 3)
        v = self.vecs[n] if n in self.vecs and rng.random() < .8 else None
        if v is None:
            v = self.vecs[n] = VectorVariable(n, "v%d" % n)
            self.all += list(v)
        r = self.mono()
        return H(lambda: v >= r, lambda: r*v <= [H(1, 2) for _ in range(n)], lambda: v**2 <= r*v)()
    def item(self, room):
        k = rng.random()
        if room and k < .3: return self.model(room - 1)
        if k < .42: return self.array()
        if room and k < .52: return ConstraintSet([self.item(room - 1) for _ in range(H(1, 2))])
        if room and k < .58: return ConstraintSet({l: self.item(room - 1) for l in rng.sample(["lift", "drag", "x.y"], H(1, 2))})
        if room and k < .64: return [self.item(room - 1) for _ in range(H(1, 2, 3))]
        if room and k < .68: return Model(None, [self.item(room - 1) for _ in range(H(1, 2))])
        return self.leaf()
    def model(self, room):
        g = self
        def setup(self):
            free, consts, vecs = g.free[:], g.consts[:], dict(g.vecs)
            self.own = []
            for nm in rng.sample(["a", "b", "x"], H(1, 1, 2)): g.free.append(Variable(nm)); g.all.append(g.free[-1])
            for nm in rng.sample(["k", "r", "s"], H(0, 0, 1, 2)):
                c = Variable(nm, H(2, 3., .5))
                g.consts.append(c); self.own.append(("s", c))
            if rng.random() < .35:
                n = H(2, 3)
                val = [H(2., 3.) for _ in range(n)] if rng.random() < .4 else [H(2., 3.)]*n
                if rng.random() < .1: val = val[:1] + [H(4., 5.)] + val[2:]
                c = VectorVariable(n, H("c", "d"), val)
                self.own.append(("v", c, val)); g.consts += rng.sample(list(c), H(1, n))
            if rng.random() < .3: self.label = True
            items = [g.item(room) for _ in range(H(1, 2, 2, 3))]
            d = getattr(self, "label", False)
            g.free, g.consts = free + [v for v in g.free if rng.random() < .4 and not any(v is f for f in free)], consts + [v for v in g.consts if rng.random() < .3 and not any(v is f for f in consts)]
            if d:
                ls = rng.sample(["first", "second", "the third"], len(items))
                return dict(zip(ls, items))
            return items
        cls = type(H("Wing", "Tail", "Hull"), (Model,), {"setup": setup, "__doc__": "a model"})
        return cls()

def leaves(c):
    if hasattr(c, "hmap") or not hasattr(c, "__iter__"): return [c]
    return [l for x in (c.values() if isinstance(c, dict) else c) for l in leaves(x)]

def tree(c, sol, keys, labelled=False):
    from gpkit.constraints.array import ArrayConstraint
    senss = sol["sensitivities"]["constraints"]
    many = lambda it: [tree(x, sol, keys) for x in it]
    if isinstance(c, ArrayConstraint) and c.constraints.size > 1:
        return dict(k="array", title=cut(short(c).replace("[:]", "")), kids=[tree(x, sol, keys) for x in c.constraints.flatten()])
    named = isinstance(c, Model) and type(c).__name__ != "Model"
    look = getattr(c, "idxlookup", None)
    if named:
        cs, vid = [], 0
        for o in c.own:
            if o[0] == "s": els, vec, name = [o[1].key], 0, ""
            else:
                vid += 1
                els, vec, name = [x.key for x in o[1]], (vid if len(set(o[2])) == 1 else 0), "%s = %.4g " % (o[1].key.name, o[2][0])
            els = [k for k in els if k in sol["constants"]]
            if o[0] == "v" and len(els) < len(o[1]): 
                vec = 0 if any(np.isnan(np.array(sol["constants"][o[1].key], float))) else vec
            for k in els:
                s = sol["sensitivities"]["constants"].get(k, None)
                if s is not None and (s != s): raise Odd("nan")
                cs.append(dict(title="%s = %.4g " % (k.str_without(["lineage"]), sol["variables"][k]), s=fr(0) if s is None else split(s)[0], has=s is not None, vec=vec, vtitle=name))
        if look: return dict(k="model", title=type(c).__name__, consts=cs, labels=list(look), kids=[tree(c[i], sol, keys) for i in look.values()])
        return dict(k="model", title=type(c).__name__, consts=cs, labels=[], kids=many(c))
    if look: return dict(k="dict", labels=list(look), kids=[tree(c[i], sol, keys) for i in look.values()])
    if isinstance(c, dict): return dict(k="dict", labels=list(c), kids=many(c.values()))
    if hasattr(c, "__iter__"): return dict(k="list", kids=many(c))
    ss = getattr(c, "v_ss", None)
    if ss is None: sens = [dict(i=keys.index(k) + 1, c=fr(0)) for k in sorted(c.vks, key=str) if k in keys]
    else: sens = [dict(i=keys.index(k) + 1, c=split(v)[0]) for k, v in sorted(ss.items(), key=str) if k in keys]
    return dict(k="leaf", title=cut(short(c)), on=c in senss, s=split(senss[c])[0] if c in senss else fr(0), ss=sens)

def solver(**kw):
    n, nu = len(kw["c"]), []
    for m in kw["k"]: nu += [F(H(0, 1, 1, 2, 4, 8, 32, 64), 64)/H(1, 1, 2) for _ in range(m)]
    k0 = kw["k"][0]
    for i in range(k0): nu[i] = F(1, k0) if k0 in (1, 2, 4) else F(0)
    if k0 == 3: nu[:3] = [F(1, 2), F(1, 4), F(1, 4)]
    return dict(status="optimal", objective=1., primal=np.zeros(kw["A"].shape[1]), nu=np.array([float(x) for x in nu]))

def shown(w, top=None):
    titles = {}
    for n in w.nodes:
        if n["id"] in titles: raise Odd("a node is listed twice")
        titles[n["id"]] = n["title"]
    vals, res, seen = {}, [], set()
    for l in w.links:
        if (l["source"], l["target"]) in seen: raise Odd("a link is listed twice")
        if l["source"] in vals: raise Odd("a node flows to two others")
        seen.add((l["source"], l["target"]))
        v = l["value"]
        if v < 0 or l["title"][0] not in "+-": raise Odd("how a flow is written")
        sv = -v if l["title"][0] == "-" else v
        if l["title"] != "%+.2g" % sv: raise Odd("how a flow is written")
        vals[l["source"]] = split(sv)
    if {x for l in w.links for x in (l["source"], l["target"])} != set(titles): raise Odd("nodes that are not those of the links")
    for l in w.links:
        col = "grey" if l["color"] == "#cfcfcf" else "neg" if l["color"] == GPCOLORS[0] else "pos" if l["color"] == GPCOLORS[1] else l["color"]
        res.append(dict(s=titles[l["source"]], t=titles[l["target"]], v=vals[l["source"]], col=col, tv=[vals[l["target"]]] if l["target"] in vals else []))
    return res

def session(i):
    while True:
        g = G()
        quiet = contextlib.redirect_stdout(io.StringIO())
        with quiet:
            try: m = g.model(H(1, 2, 2, 3))
            except PrimalInfeasible: continue
            ls = [x for x in m.flat()]
            frees = sorted({k for k in m.vks if k not in m.substitutions}, key=str)
            if not frees or len(ls) > 24: continue
            some = rng.sample(frees, min(len(frees), H(1, 2)))
            vof = {v.key: v for v in g.all}
            if not all(k in vof for k in some): continue
            cost = vof[some[0]]
            for k in some[1:]: cost = cost + 2*vof[k]**H(1, 2)
            m.cost = cost
            try: sol = m.solve(solver=solver, verbosity=0)
            except Exception as x:
                if exname(x) in ("UnboundedGP", "PrimalInfeasible", "InvalidGPConstraint", "DualInfeasible"): continue
                raise
        break
    ev = []
    keys = sorted(m.vks, key=lambda k: (str(k), repr(k)))
    names = lambda: sorted(k.str_without(["unnecessary lineage"]) for k in keys)
    content = lambda: repr(sorted((str(k), repr(v)) for k, v in sol["sensitivities"]["variables"].items())) + repr([float(sol["sensitivities"]["constraints"][c]) for c in m.flat() if c in sol["sensitivities"]["constraints"]]) + repr(names())
    was = content()
    subs = [m]
    def walk(c):
        for x in (c.values() if isinstance(c, dict) else c):
            if isinstance(x, Model) and type(x).__name__ != "Model": subs.append(x)
            if hasattr(x, "__iter__") and not hasattr(x, "hmap"): walk(x)
    walk(m)
    root = m if rng.random() < .7 else rng.choice(subs)
    label = H("", "", "", "all", "a.b")
    from gpkit.repr_conventions import lineagestr
    sk = Sankey(sol, root, *((label,) if label else ()))
    label = label or lineagestr(root) or type(root).__name__
    held = [k for k in keys if k in sol["variables"]]
    collide = {k for k in held if sum(j.name == k.name and j.idx == k.idx for j in held) > 1}
    try: t = tree(root, sol, keys)
    except Odd: return session(i)
    w = None
    for _ in range(H(1, 2, 3)):
        kw = dict(minsenss=H(0, 0, 0, .03, .3), maxlinks=H(20, 20, 2, 4, 6, 9, 100), showconstraints=rng.random() < .8)
        e = dict(op="diagram", minsens=fr(F(str(kw["minsenss"]))), max=kw["maxlinks"], cons=kw["showconstraints"], var=0, root=label, label=label, cost=[], shown=[], msg="")
        for k in list(kw):
            if kw[k] == dict(minsenss=0, maxlinks=20, showconstraints=True)[k] and rng.random() < .5: del kw[k]
        args = []
        if rng.random() < .5:
            key = rng.choice([k for k in keys if k.idx is None] or [None])
            if key is not None:
                args = [vof[key] if key in vof and rng.random() < .7 else key]
                e["var"] = keys.index(key) + 1
                vl = H("", "", "of it")
                if vl: args.append(vl)
                else:
                    vl = key.str_without([]) if key in collide else key.str_without(["lineage"])
                    if len(vl) > 20: vl = key.str_without(["lineage"])
                e["root"] = vl
                cs = sol["sensitivities"]["cost"]
                if key in cs: e["cost"] = [split(cs[key])[0]]
        try:
            with contextlib.redirect_stdout(io.StringIO()): w = sk.diagram(*args, **kw)
            e["shown"] = shown(w)
        except Odd as x: e["msg"] = str(x)
        except Exception as x:
            if os.environ.get("SKD"): raise
            e["msg"] = "raised " + exname(x)
        if not e["msg"] and content() != was: e["msg"] = "the solution or the names of variables have changed"
        ev.append(e)
        if e["msg"]: break
        for _ in range(H(0, 0, 1, 1, 2)):
            if not w.nodes: break
            by = H("node", "node", "link")
            if by == "node": n = dict(rng.choice(w.nodes)); title = n["title"]
            else:
                n = dict(rng.choice(w.links)); title, = [x["title"] for x in w.nodes if x["id"] == n["source"]]
            if title.startswith("⟶ "): title = title[2:]
            c = dict(op="click", title=title, shown=[], msg="")
            try:
                sk.onclick(w, n)
                c["shown"] = shown(w)
            except Odd as x: c["msg"] = str(x)
            except Exception as x: c["msg"] = "raised " + exname(x)
            ev.append(c)
    return dict(id="sk%d" % i, tag="sankey", tree=t, ev=ev)

os.makedirs(os.path.join(os.environ["TMPDIR"], "sk%d" % os.getpid()))
os.chdir(os.path.join(os.environ["TMPDIR"], "sk%d" % os.getpid()))
with open(out, "w") as f:
    for i in range(nsess): f.write(json.dumps(session(i)) + "\n")
