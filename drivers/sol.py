"""Solves random models and looks at, saves, loads, indexes and compares their solutions, for SolTrace.
usage: sol.py OUT n     (sol.py --load DIR: loads DIR/*.pkl|pgz in this process and describes them)"""
import sys, json, os, random, io, contextlib, warnings, tempfile, shutil, pickle, copy, hashlib, subprocess, re
import numpy as np
import exn
from exn import exname
import gpkit
from gpkit import Model, Variable, VectorVariable, SignomialsEnabled, Vectorize
from gpkit.constraints.tight import Tight
from gpkit.constraints.loose import Loose
from gpkit.constraints.bounded import Bounded
from gpkit.solution_array import SolutionArray
from gpkit.varkey import VarKey
from gpkit.small_scripts import mag, try_str_without
from gpkit.nomials import Posynomial, Monomial, Signomial
from gpkit.repr_conventions import lineagestr
warnings.simplefilter("ignore")
quiet = lambda: contextlib.redirect_stdout(io.StringIO())
addr = lambda s: re.sub(r" at 0x[0-9a-f]+", "", s)

# -- what a solution holds -----------------------------------------------------------------------------
def tok(v):
    if isinstance(v, (list, tuple)): return "[" + "; ".join(addr(str(x[0])) + "|" + addr(str(x[1])) if isinstance(x, tuple) and len(x) == 2 else addr(str(x)) for x in v) + "]"
    try: return "%.12g" % float(v)
    except (TypeError, ValueError): return type(v).__name__
def toks(v):
    "tokens and shape of a value"
    if isinstance(v, (list, tuple)): return [tok(v)], []
    v = mag(v)
    if isinstance(v, np.ndarray) and v.shape: return [tok(x) for x in v.ravel()], list(v.shape)
    return [tok(v if not isinstance(v, np.ndarray) else v.item())], []
def shorts(v, fmt):
    v = np.ravel(np.asarray(mag(v), float))
    return sorted((fmt % x).strip() for x in v)
def content(s):
    ents = []
    def walk(d, path):
        for k, v in d.items():
            if isinstance(v, dict): walk(v, path + [str(k)]); continue
            vk = isinstance(k, VarKey)
            t, sh = toks(v)
            e = dict(d="/".join(path), n=(str(k) if vk else addr(str(try_str_without(k, ())))), ksh=list(k.shape or ()) if vk and not k.idx else [], sh=sh, v=t,
                     u=str(getattr(v, "units", "")), isvk=vk, m="", lab="", label="", ku="", zero=False, tab=[], f5=[])
            if vk:
                vec = bool(np.shape(mag(v)))
                with np.errstate(all="ignore"): zero = bool(np.isnan(np.asarray(mag(v), float)).all() or np.nanmax(np.abs(np.asarray(mag(v), float))) <= 0)
                e.update(m=lineagestr(k.lineage), lab=k.str_without(("lineage", "vec")), label=str(k.label or ""), ku=k.unitstr(), zero=zero, tab=shorts(v, "%-8.3g" if vec else "%-.4g "),
                         f5=sorted("%.5g" % x for x in np.ravel(np.asarray(mag(v), "f"))))
            ents.append(e)
    walk(s, [])
    ents.sort(key=lambda e: (e["d"], e["n"], e["v"]))
    return dict(n=len(s) if np.shape(s["cost"]) else 0, ms=addr(s.modelstr or ""), ent=ents)
def digest(text):
    "the lines of a text, whatever their order and spacing"
    lines = sorted(re.sub(r"\s+", " ", addr(l)).strip() for l in text.split("\n"))
    return hashlib.sha1("\n".join(lines).encode()).hexdigest()[:16]

ALLT = ["cost", "warnings", "sweepvariables", "model sensitivities", "freevariables", "constants", "sensitivities",
        "top sensitivities", "insensitivities", "tightest constraints", "loose constraints", "variables"]
def rebuilt(s):
    "whether posynomials of the solution equal the same ones made here"
    out = []
    for c in list(s["sensitivities"].get("constraints", {}))[:3]:
        for p in (getattr(c, "left", None), getattr(c, "right", None)):
            if not isinstance(p, Signomial) or not p.hmap: continue
            with SignomialsEnabled():
                q = 0
                for exp, co in sorted(p.hmap.items(), key=lambda t: -len(t[0])):
                    if not exp and not isinstance(q, Signomial): q = None; break
                    t = 1
                    for k, x in exp.items(): t = t*(Variable(**k.descr)/(k.units or 1))**x
                    q = q + t*(co*(p.units or 1))
                if q is None: continue
                out.append(bool(q == p) and len((p - q).hmap) <= 1)
    return out

if sys.argv[1] == "--load":
    d, res = sys.argv[2], {}
    for f in sorted(os.listdir(d)):
        if f[-4:] not in (".pkl", ".pgz"): continue
        try:
            with quiet():
                s = SolutionArray.decompress_file(os.path.join(d, f)) if f.endswith(".pgz") else pickle.load(open(os.path.join(d, f), "rb"))
                r = dict(c=content(s), table=digest(s.table()), summary=digest(s.summary()), x="", rb=rebuilt(s))
        except Exception as e: r = dict(x=exname(e), c=None, table="", summary="", rb=[])
        res[f] = r
    print("@@" + json.dumps(res))
    sys.exit()

out, nsess = sys.argv[1], int(sys.argv[2])
rng = random.Random(int(os.environ["VERIF_SEED"]) * 104729 + 11)
VALS = [1, 2, 3, 0.5, 1.5, 7, 12.25, 0.1]
DIMS = [["m", "ft", "cm"], ["kg", "g"], ["-"], ["s", "hr"], ["m/s", "ft/s"], ["-"]]

# -- random models -------------------------------------------------------------------------------------
class World: pass
W = None
def names(k): return [rng.choice("xyzabqw") + rng.choice(["", "", "_0", "_{max}"]) for _ in range(k)]
def declare(own):
    "constants and free variables of one model, and constraints that bound each free variable from below"
    cons, free, const = [], [], []
    used = set()
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        ns = list(dict.fromkeys(n for n in names(4) if n not in used))
        if len(ns) < 2: continue
        used.update(ns[:2])
        u = rng.choice(DIMS); u1, u2 = rng.choice(u), rng.choice(u)
        lab = rng.choice(["", "", "length of it", "mass"])
        kw = [lab] if lab else []
        sz = rng.choice([0, 0, 0, 2, 3])
        vc = sz and rng.random() < .5
        f = VectorVariable(sz, ns[0], u1, *kw) if sz else Variable(ns[0], u1, *kw)
        if vc: c = VectorVariable(sz, ns[1], [rng.choice(VALS) for _ in range(sz)], u2)
        else: c = Variable(ns[1], rng.choice(VALS + [0]*(rng.random() < .3)), u2)
        zero = not vc and c.key.descr.get("value") == 0
        free.append(f); const.append(c)
        W.free.append((f, sz)); W.const.append((c, sz if vc else 0, zero, u2))
        k = rng.choice(VALS)
        r = rng.random()
        one = 1 if u1 == "-" else gpkit.units(u1)
        if zero: cons.append(f >= c + k*one)
        elif r < .5: cons.append(f >= c*k)
        elif r < .7 and not sz: cons.append(f >= c + c*c/f*.25)
        elif r < .8: cons.append(f == c*k)
        else: cons.append(f >= c + 0.01*k*one)
        if len(free) > 1 and rng.random() < .4:
            g, h = free[-1], free[-2]
            hh = h if not getattr(h, "shape", None) else h[0]
            gg = g if not getattr(g, "shape", None) else g[0]
            dims = (gg.units or 1)/(hh.units or 1) if hasattr(gg, "units") else 1
            one = gg.units if gg.units is not None else 1
            two = hh.units if hh.units is not None else 1
            cons.append(gg/one >= rng.choice([.1, .5])*hh/two)
        if rng.random() < .2:   # slack or idle ones
            gg = f if not sz else f[0]
            cc = c if not vc else c[0]
            if not zero: cons.append(gg <= cc*1e5)
    if rng.random() < .25 and const and not W.linked:
        c, zero = W.const[-1][0], W.const[-1][2]
        if not getattr(c, "shape", None) and not zero and str(c.units or "dimensionless") == "dimensionless":
            l = Variable("l", lambda s, c=c: s[c]*2)
            w = Variable("wl"); W.free.append((w, 0)); free.append(w)
            W.linked = True
            cons.append(w >= l)
    own.extend(free)
    if not free:
        f = Variable(rng.choice("rst")); free.append(f); W.free.append((f, 0)); cons.append(f >= rng.choice(VALS))
    cost = 1
    for f in free:
        g = f.prod() if getattr(f, "shape", None) else f
        cost = cost*g**rng.choice([1, 1, 2])
    return cost, cons

class Wing(Model):
    def setup(self):
        self.own = []
        cost, cons = declare(self.own)
        self.cost = cost
        return cons
class Tail(Model):
    def setup(self):
        self.own = []
        cost, cons = declare(self.own)
        self.cost = cost
        if rng.random() < .4:
            w = Wing(); self.cost = cost*w.cost
            return [cons, w]
        return cons
class Plane(Model):
    def setup(self, parts):
        self.own = []
        cost, cons = declare(self.own)
        for P in parts:
            p = P(); cost = cost*p.cost; cons = cons + [p]
        if rng.random() < .3: k = rng.choice([1, 1, 2, 3]); cons = [Tight(cons[:k])] + cons[k:]
        elif rng.random() < .2: k = rng.choice([1, 1, 2, 3]); cons = [Loose(cons[:k])] + cons[k:]
        if W.sig:
            a, b = Variable("sa"), Variable("sb")
            with SignomialsEnabled(): cons = cons + [a + b >= 2, a >= .5, b >= .5]
            cost = cost*a*b
        self.cost = cost
        return cons

def build():
    global W
    W = World(); W.free, W.const, W.linked = [], [], False
    W.sig = rng.random() < .15
    parts = [rng.choice([Wing, Tail, Wing]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
    r = rng.random()
    if r < .25:
        cost, cons = declare([])
        m = Model(cost, Bounded(cons) if rng.random() < .4 and not W.sig else cons); W.sig = False
    else: m = Plane(parts)
    return m

def sweep(m):
    "substitutions that make the solution a sweep"
    cs = [c for c in W.const if not c[2]]
    rng.shuffle(cs)
    done = 0
    for c, sz, _, u in cs[:rng.choice([1, 1, 1, 2])]:
        n = rng.choice([2, 3, 3, 4, 5]) if not done else 2
        if sz: continue
        vals = rng.sample(VALS, n)
        m.substitutions.update({c.key: ("sweep", sorted(vals))})
        done += 1
    return done

class Session:
    def __init__(self):
        self.regs, self.conts, self.ids, self.ev, self.info = [], [], {}, [], []
    def cid(self, s):
        c = content(s)
        k = json.dumps(c, sort_keys=True)
        if k not in self.ids:
            self.ids[k] = len(self.conts) + 1
            self.conts.append(c)
        return self.ids[k]
    def state(self): return [self.cid(s) for s in self.regs] + [dig(self.model)]
    def add(self, **e):
        e["regs"] = [self.cid(s) for s in self.regs]
        e["mt"] = mtext(self.model)
        e.setdefault("x", "")
        self.ev.append(e)
def mtext(m):
    return hashlib.sha1((str(m) + m.str_without(["unnecessary lineage", "units"]) + str(sorted((str(k), str(v)) for k, v in dict.items(m.substitutions)))
                         + str(sorted(k.str_without(["unnecessary lineage"]) for k in m.varkeys if hasattr(k, "key")))).encode()).hexdigest()[:12]

def parserows(text):
    "rows [model, name, values] of the table of variables printed"
    rows, model, cur = [], "", None
    lines = text.split("\n")
    on = False
    for l in lines:
        if re.match(r"^-+$", l): on = True; continue
        if not on or not l.strip(): continue
        m = re.match(r"^\s*\| (.*)$", l)
        if m: model = m.group(1).strip(); continue
        m = re.match(r"^\s*(\S.*?) : (.*)$", l)
        rest = m.group(2) if m else l
        if m: cur = dict(m=model, lab=m.group(1).strip(), v=[]); rows.append(cur)
        if cur is None: continue
        if not m or rest.lstrip().startswith("["):     # a vector, perhaps on several lines
            body = rest.strip()
            if m: body = body[1:]
            cut = re.search(r"\s\[\S", body)        # units, after the values of the first of several lines
            if cut and (body.find("]") > cut.start()): body = body[:cut.start()]
            body = body.split("]")[0]
            cur["v"] += [x for x in body.split() if NUM.match(x)]
        else:
            cur["v"].append(rest.split()[0])
    for r in rows: r["v"] = ["nan" if x == "-" else x for x in r["v"]]
    return rows
NUM = re.compile(r"^([-+]?[0-9.]+(e[-+]?\d+)?|-|inf|-inf)$")

FACT = [("3/2", 1.5), ("2", 2.0), ("1/2", 0.5), ("10001/10000", 1.0001)]

def models(s): return sorted({lineagestr(k.lineage) for k in s["variables"]} - {""})
def show(S, tmp):
    r = rng.randrange(len(S.regs)); s = S.regs[r]
    keys = list(s["variables"])
    opts = {}
    q = rng.choice(["table", "table", "table", "summary", "summary", "str", "repr", "savetxt", "savecsv", "savemat", "plot", "varnames", "badtable", "badsave", "pickle", "keys"])
    if q in ("table", "summary", "savetxt"):
        if rng.random() < .3: opts["latex"] = rng.choice([1, 2, 3])
        if rng.random() < .2: opts["sortmodelsbysenss"] = False
        if rng.random() < .2: opts["sortbymodel"] = False
        if rng.random() < .2: opts["included_models"] = [rng.choice(models(s) + ["Wing"])]
        if rng.random() < .2: opts["excluded_models"] = [rng.choice(models(s) + ["Wing"])]
        if rng.random() < .2: opts["maxcolumns"] = rng.choice([1, 2, 9])
        if rng.random() < .2: opts["showmodels"] = False
        if rng.random() < .3: opts["showvars"] = [rng.choice([k.str_without(["modelnums", "vec"]), k.name, "nope"]) for k in rng.sample(keys, min(2, len(keys)))]
        if q == "table" and rng.random() < .5: opts["tables"] = rng.sample(ALLT, rng.randint(1, 6))
    if q == "plot" and (len(s.get("sweepvariables", {})) != 1 or s["cost"].ndim == 0): q = "str"
    x, text = "", ""
    want = ""
    try:
        with quiet():
            if q == "table": text = s.table(**opts)
            elif q == "summary": text = s.summary(**opts)
            elif q == "str": text = str(s.keys()) and ""
            elif q == "repr": text = repr(s) and ""
            elif q == "pickle": text = pickle.dumps(s) and ""
            elif q == "savetxt":
                s.savetxt(tmp + "/a.txt", **opts); text = open(tmp + "/a.txt").read()
            elif q == "savecsv":
                s.savecsv(filename=tmp + "/a.csv"); text = open(tmp + "/a.csv").read()
            elif q == "savemat": s.savemat(tmp + "/a.mat")
            elif q == "plot":
                import matplotlib; matplotlib.use("Agg")
                import matplotlib.pyplot as plt
                f = [k for k in s["freevariables"]]
                s.plot(rng.choice([None, ["cost"]] + ([Variable(**f[0].descr)] if f and not f[0].shape else []))); plt.close("all")
            elif q == "varnames": text = "\n".join(sorted(s.varnames((), ["unnecessary lineage"])))
            elif q == "keys": text = "\n".join(sorted(k.str_without(["unnecessary lineage"]) for k in s["variables"]))
            elif q == "badtable": want = "ValueError"; s.table(latex=7)
            elif q == "badsave": want = "FileNotFoundError"; rng.choice([s.save, s.save_compressed])(tmp + "/no/such/file")
    except Exception as e: x = exname(e)
    if q in ("savetxt",) and s.modelstr == "": pass
    if x == want and want: x, want = "", ""
    elif want and not x and not (q == "badtable" and not any(np.any(mag(v)) for v in s["freevariables"].values())): x = "no error"
    S.add(op="show", r=r + 1, q=q + json.dumps(opts, sort_keys=True), h=digest(text), x=x)

def rows(S, tmp):
    r = rng.randrange(len(S.regs)); s = S.regs[r]
    kind = rng.choice(["table", "table", "csv", "mat"])
    t = "variables"; inc, exc, only = [], [], []
    got, x = [], ""
    try:
        with quiet():
            if kind == "table":
                t = rng.choice(["freevariables", "constants", "variables", "sweepvariables"])
                if t not in s: t = "variables"
                o = {}
                if rng.random() < .25: inc = o["included_models"] = rng.sample(models(s) + ["Wing"], rng.choice([1, 2]) if models(s) else 1)
                if rng.random() < .25: exc = o["excluded_models"] = rng.sample(models(s) + ["Wing"], rng.choice([1, 2]) if models(s) else 1)
                keys = [k for k in s[t]]
                if rng.random() < .3 and keys:
                    pick = rng.choice(keys)
                    bare = lambda k: k.str_without(["modelnums", "vec"])
                    o["showvars"] = [bare(pick)] if [bare(k) for k in s["variables"]].count(bare(pick)) == 1 and [k.name for k in s["variables"]].count(bare(pick)) <= 1 else [pick]
                    only = [str(pick)]
                got = parserows(s.table(tables=[t], **o))
                one = len({k.lineage for k in s["variables"]}) == 1
            elif kind == "csv":
                got = None
                s.savecsv(filename=tmp + "/r.csv")
                import csv as C
                got, model, cur = [], "", None
                ls = open(tmp + "/r.csv").read().split("\n")
                head = ls[0].split(",")
                nv = len(head) - 4 if True else 0
                for l in ls[1:]:
                    if not l.strip(): continue
                    f = l.split(",")
                    if f[0]: model = f[0]
                    nm = f[1].strip()
                    vals = [v for v in f[2:-2] if v.strip()]
                    if nm: cur = dict(m=model, lab=nm, v=[]); got.append(cur)
                    cur["v"] += ["nan" if v == "-" else v for v in vals]
                one = False
            else:
                from scipy.io import loadmat
                s.savemat(tmp + "/r.mat")
                d = loadmat(tmp + "/r.mat")
                got = [dict(m="", lab=k, v=["%.5g" % z for z in np.ravel(v)]) for k, v in d.items() if not k.startswith("__")]
                one = True
    except Exception as e: x, one = exname(e), False
    S.add(op="rows", r=r + 1, kind=kind, t=t, inc=inc, exc=exc, only=only, one=one, x=x,
          rows=[dict(m=g["m"], lab=g["lab"], bare=g["lab"].split(".")[-1] if kind != "mat" else g["lab"], v=sorted(g["v"])) for g in got or []])

def get(S):
    r = rng.randrange(len(S.regs)); s = S.regs[r]
    k = rng.choice(list(s["variables"]))
    d = rng.choice(["variables", "variables", "sensitivities/variables"])
    dd = s["variables"] if d == "variables" else s["sensitivities"]["variables"]
    if not dict.__contains__(dd, k): return
    pos = -1
    how = rng.choice(["key", "name", "call", "callname"] if d == "variables" else ["key", "name"])
    uniq = sum(1 for q in s["variables"] if q.str_without(["modelnums", "vec"]) == k.str_without(["modelnums", "vec"])) == 1 and sum(1 for q in s["variables"] if q.name == k.name) == 1
    if not uniq and how.endswith("name"): how = "key" if how == "name" else "call"
    what = k
    if k.shape and not how.endswith("name") and rng.random() < .6:
        pos = rng.randrange(int(np.prod(k.shape)))
        nm = k.descr.copy(); nm["idx"] = tuple(int(q) for q in np.unravel_index(pos, k.shape))
        what = VarKey(veckey=k, **{a: b for a, b in nm.items() if a != "veckey"})
    if how.endswith("name"): what = what.str_without(["modelnums", "vec"])
    x, t, sh, u = "", [], [], ""
    try:
        with quiet():
            v = s(what) if how.startswith("call") else dd[what]
        t, sh = toks(v); u = str(getattr(v, "units", ""))
    except Exception as e: x = exname(e)
    S.add(op="get", r=r + 1, d=d, n=str(k), pos=pos, how=how, v=t, sh=sh, x=x)

def evals(S, org):
    r = rng.randrange(len(S.regs)); s = S.regs[r]
    base = S.regs[org[r]]
    if "posys" not in S.__dict__: S.posys = {}
    if org[r] not in S.posys:
        ks = sorted((k for k in s["variables"] if not k.shape and np.all(mag(s["variables"][k]))), key=str)
        ps = []
        for _ in range(3):
            if not ks: break
            p = 1
            for k in rng.sample(ks, min(len(ks), rng.choice([1, 2, 3]))): p = p*Variable(**k.descr)**rng.choice([1, 2, 1])
            ps.append(p)
        S.posys[org[r]] = ps
    ps = S.posys[org[r]]
    if not ps: return
    i = rng.randrange(len(ps))
    x, t = "", []
    try:
        with quiet(): v = s(ps[i])
        t = [("%.10g" % float(mag(q))) for q in (np.ravel(np.array([mag(getattr(z, "c", z)) for z in np.ravel(v)])) if np.shape(mag(v)) else [mag(v)])]
    except Exception as e: x = exname(e)
    S.add(op="eval", r=r + 1, q="posy%i.%i" % (org[r], i), v=t, x=x)

def session(k, tmp, pend):
    S = Session()
    m = S.model = build()
    sw = sweep(m) if rng.random() < .45 else 0
    solve = (lambda: m.localsolve(verbosity=0)) if W.sig else (lambda: m.solve(verbosity=0))
    try:
        with quiet(): s = solve()
    except Exception: return None     # no feasible optimum or a solver that fails: not of interest here
    S.regs, org = [s], [0]
    S.add(op="base", r=1)
    for _ in range(rng.randint(6, 16)):
        q = rng.random()
        r = rng.randrange(len(S.regs)); s = S.regs[r]
        if q < .34: show(S, tmp)
        elif q < .46: rows(S, tmp)
        elif q < .58: get(S)
        elif q < .64: evals(S, org)
        elif q < .76 and len(S.regs) < 7:
            kind = rng.choice(["save", "save", "pgz", "pickle", "deepcopy", "bare", "barepgz"])
            f, x, new = "%s/s%i_%i" % (tmp, k, len(S.ev)), "", None
            try:
                with quiet():
                    if kind == "save": s.save(f + ".pkl"); new = pickle.load(open(f + ".pkl", "rb")); ext = ".pkl"
                    elif kind == "pgz": s.save_compressed(f + ".pgz"); new = SolutionArray.decompress_file(f + ".pgz"); ext = ".pgz"
                    elif kind == "bare": s.save(f + ".pkl", saveconstraints=False); new = pickle.load(open(f + ".pkl", "rb")); ext = ".pkl"
                    elif kind == "barepgz": s.save_compressed(f + ".pgz", saveconstraints=False); new = SolutionArray.decompress_file(f + ".pgz"); ext = ".pgz"
                    elif kind == "pickle": new = pickle.loads(pickle.dumps(s)); ext = ""
                    else: new = copy.deepcopy(s); ext = ""
            except Exception as e: x = exname(e)
            if x: S.add(op="load", r=r + 1, kind=kind, x=x)
            else:
                S.regs.append(new); org.append(org[r] if kind[:4] != "bare" else len(S.regs) - 1)
                S.add(op="load", r=r + 1, kind=kind)
                if ext: pend.append((S, S.cid(new), os.path.basename(f + ext)))
        elif q < .84 and len(S.regs) < 7:
            n = len(s) if np.shape(s["cost"]) else 1
            i, x = rng.randrange(n), ""
            try:
                with quiet(): new = s.atindex(i)
            except Exception as e: x = exname(e)
            if x: S.add(op="at", r=r + 1, i=i, x=x)
            else:
                S.regs.append(new); org.append(org[r])
                S.add(op="at", r=r + 1, i=i + 1)
        elif q < .89 and len(S.regs) < 7 and "constraints" in s["sensitivities"]:
            new = copy.deepcopy(s)
            d = rng.choice(["variables", "variables", "variables", "sensitivities/variables"])
            dd = new["variables"] if d == "variables" else new["sensitivities"]["variables"]
            ks = [q for q in dd if np.all(np.abs(mag(dict.__getitem__(dd, q))) > .05)]
            if not ks: continue
            key = rng.choice(ks); f = rng.randrange(len(FACT))
            a = np.array(dict.__getitem__(dd, key), float); shp = a.shape; a = a.ravel(); pos = rng.randrange(len(a))
            a[pos] *= FACT[f][1]
            dict.__setitem__(dd, key, a.reshape(shp) if shp else a[0])
            S.regs.append(new); org.append(len(S.regs) - 1)
            S.add(op="perturb", r=r + 1, d=d, n=str(key), pos=pos + 1, f=FACT[f][0])
        elif q < .97:
            r2 = rng.randrange(len(S.regs)); t = S.regs[r2]; x = ""
            if rng.random() < .5:
                res = False
                try:
                    with quiet(): res = bool(s.almost_equal(t))
                except Exception as e: x = exname(e)
                S.add(op="ae", r=r + 1, b=r2 + 1, res=res, x=x)
            else:
                text, zero, shown = "", False, []
                o = dict(constraintsdiff=rng.random() < .5, senssdiff=rng.random() < .4, absdiff=rng.random() < .3)
                if rng.random() < .2: o["showvars"] = [rng.choice(list(s["variables"])).str_without(["modelnums", "vec"])]
                if rng.random() < .2: o["sortmodelsbysenss"] = False
                f = tmp + "/d.pkl"
                try:
                    with quiet():
                        if rng.random() < .2 and t is not s: t.save(f); text = s.diff(f, **o)
                        else: text = s.diff(t, **o)
                    rel = text.split("Relative Differences")[1] if "Relative Differences" in text else ""
                    rel = re.split(r"Absolute Differences|Sensitivity Differences", rel)[0]
                    zero = "The largest is +0%." in rel or "The largest is -0%." in rel
                    shown = sorted(set(re.findall(r"[+-][0-9.]+%", "\n".join(l for l in rel.split("\n")[1:] if "The largest" not in l))))
                except Exception as e: x = exname(e)
                S.add(op="diff", r=r + 1, b=r2 + 1, q="diff" + json.dumps(o, sort_keys=True), h=digest(text), zero=zero, shown=shown, sel="showvars" in o, x=x)
        else:
            x = ""
            try:
                with quiet(): new = solve()
            except Exception as e: x = exname(e)
            if x or len(S.regs) >= 7: S.add(op="again", x=x, c=0 if x else S.cid(new))
            else:
                S.regs.append(new); org.append(len(S.regs) - 1)
                S.add(op="again", c=S.cid(new))
    return S

def main():
    tmp = tempfile.mkdtemp(prefix="sol.", dir=os.path.dirname(os.path.abspath(out)))
    pend, done = [], []
    try:
        for k in range(nsess):
            S = session(k, tmp, pend)
            if S: done.append((k, S))
        with open(out, "w") as f:
            e = dict(os.environ, PYTHONHASHSEED="12345")
            p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(os.path.dirname(os.path.abspath(exn.__file__)), "sol.py"), "--load", tmp], stdout=subprocess.PIPE, env=e, text=True)
            line = [l for l in p.stdout.splitlines() if l.startswith("@@")]
            if not line: raise SystemExit("the other process did not answer: %s" % p.stdout[-500:])
            res = json.loads(line[0][2:])
            for S, c, name in pend:
                r = res[name]
                cc = 0
                if r["c"]:
                    key = json.dumps(r["c"], sort_keys=True)
                    if key not in S.ids: S.ids[key] = len(S.conts) + 1; S.conts.append(r["c"])
                    cc = S.ids[key]
                S.add(op="other", of=c, c=cc, rb=r["rb"], x=r["x"], table=r["table"], summary=r["summary"])
            for k, S in done:
                f.write(json.dumps(dict(id="sol%d" % k, conts=S.conts, ev=S.ev)) + "\n")
    finally:
        shutil.rmtree(tmp, True)
main()
