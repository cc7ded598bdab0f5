"""Runs random programs over expressions with units, scalar or arrays, in the real code and records them
for ExprTrace.  usage: expr.py MODE OUT n   (MODE: units | arrays)"""
import sys, json, os, random, io, contextlib, gc, warnings
from fractions import Fraction as F
import numpy as np
from exn import exname
import gpkit
from gpkit import Variable, VectorVariable, SignomialsEnabled, ureg
from gpkit.nomials import Signomial, Monomial, NomialArray
from gpkit.constraints.set import ConstraintSet
warnings.simplefilter("ignore")
mode, out, nprog = sys.argv[1], sys.argv[2], int(sys.argv[3])
rng = random.Random(int(os.environ["VERIF_SEED"]) * 15485863 + (4 if mode == "units" else 27))
SC, NV = 2, 10
Quantity = ureg.Quantity
try: ureg.define("kiloUSD = 1000 USD")
except Exception: pass
COMMON = dict(second=1, minute=60, hour=3600, kilogram=1, gram=F(1, 1000), USD=1, kiloUSD=1000, dimensionless=1, percent=F(1, 100))
TAB = dict(imperial=dict(inch=1, foot=12, yard=36, centimeter=F(50, 127), meter=F(5000, 127), **COMMON),
           metric=dict(meter=1, centimeter=F(1, 100), kilometer=1000, millimeter=F(1, 1000), newton=1, joule=1, watt=1, kilonewton=1000, **COMMON))
fr = lambda f: [F(f).numerator, F(f).denominator]

class Odd(Exception): pass
def rat(c, lim=10**6):
    c = float(c)
    if c != c or abs(c) == float("inf"): raise Odd("non-finite coefficient %r" % c)
    f = F(c).limit_denominator(lim)
    if abs(float(f) - c) > 1e-12*max(1e-6, abs(c)): raise Odd("coefficient %.15g" % c)
    if abs(f.numerator) > 10**9: raise Odd("coefficient %.15g" % c)
    return fr(f)

# -- what the code shows --------------------------------------------------------------------
def unitseq(u, fam):
    "a unit the code shows, as a product of named units"
    if u is None: return []
    if isinstance(u, Quantity):
        if abs(u.magnitude - 1) > 1e-12: raise Odd("a unit of %s" % u)
        u = u.units
    r = []
    for n, e in dict(u._units).items():
        if n not in TAB[fam]: raise Odd("unit %s" % n)
        f = F(float(e)).limit_denominator(64)
        if abs(float(f) - float(e)) > 1e-12: raise Odd("unit exponent %r" % e)
        r.append(dict(u=n, n=f.numerator, k=f.denominator))
    if not r: r = [dict(u="dimensionless", n=1, k=1)]
    return r

class Prog:
    def __init__(self, fam, sig):
        self.fam, self.sig, self.regs, self.v, self.ev, self.stop = fam, sig, [], [], [], False
        self.idx, self.units = {}, []
    def element(self, o):
        if isinstance(o, Quantity):
            m = float(o.magnitude)
            return dict(p=[] if m == 0 else [dict(e=[0]*NV, c=rat(m))], u=unitseq(o.units, self.fam))
        if isinstance(o, (int, float, np.number)) and not isinstance(o, (bool, np.bool_)):
            return dict(p=[] if o == 0 else [dict(e=[0]*NV, c=rat(o))], u=[])
        if not isinstance(o, Signomial): raise Odd("a " + type(o).__name__)
        ts = []
        for exp, c in o.hmap.items():
            e = [0]*NV
            for vk, p in exp.items():
                if vk not in self.idx: raise Odd("unknown variable %s" % vk)
                s = float(p)*SC
                if s != int(s) or not s: raise Odd("exponent %r" % p)
                e[self.idx[vk]] = int(s)
            ts.append(dict(e=e, c=rat(c)))
        if len(ts) == 1 and ts[0]["c"][0] == 0 and not any(ts[0]["e"]): ts = []
        cs = o.cs     # the coefficients as users see them
        if getattr(cs, "units", None) is not None and getattr(o, "units", None) is not None:
            if getattr(o.units, "units", o.units) != cs.units: raise Odd("coefficients in other units")
        return dict(p=ts, u=unitseq(o.units, self.fam))
    def obs(self, o):
        if isinstance(o, Quantity) and isinstance(o.magnitude, np.ndarray):
            flat = [Quantity(m, o.units) for m in np.ravel(o.magnitude)]
            return dict(sh=list(o.magnitude.shape), el=[self.element(x) for x in flat])
        if isinstance(o, (list, tuple)): o = np.array(o, dtype=object)
        if isinstance(o, np.ndarray):
            return dict(sh=list(o.shape), el=[self.element(x) for x in np.asarray(o).flat])
        return dict(sh=[], el=[self.element(o)])
    def digest(self, o):
        try: return json.dumps(self.obs(o))
        except Odd as e: return "odd " + str(e)
    def canon(self, v):
        "guard only: coefficients in base units"
        r = []
        for x in v["el"]:
            sc = self.scale(x["u"])
            if sc is None: return None
            r.append([(F(*t["c"])*sc, t["e"]) for t in x["p"]])
        return r
    def scale(self, us):
        sc, bits = F(1), 0.
        for u in us:
            b = F(TAB[self.fam][u["u"]])
            bits += abs(u["n"]/u["k"])*max(np.log2(b.numerator), np.log2(b.denominator))
            if bits > 29: return None
            if u["k"] == 1: sc *= b**u["n"]
            else:
                g = float(b)**(1/u["k"])
                q = F(g).limit_denominator(200)
                if q**u["k"] != b: return None
                sc *= q**u["n"]
        return sc
    def small(self, v, num=40000, den=1500):
        c = self.canon(v)
        return c is not None and len(c) <= 12 and all(len(x) <= 8 and all(abs(a.numerator) <= num and a.denominator <= den and all(abs(z) <= 6*SC for z in e) for a, e in x) for x in c)
    def big(self, i):
        c = self.canon(self.v[i])
        return max([1] + [max(abs(a.numerator), a.denominator) for x in c for a, _ in x]
                   + [max(abs(q) for q in t["c"]) for x in self.v[i]["el"] for t in x["p"]])
    def nterms(self, i): return max(len(x["p"]) for x in self.v[i]["el"]) if self.v[i]["el"] else 0
    def do(self, op, a, fn, **kw):
        before = [self.digest(self.regs[i]) for i in a]
        r = None
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                r = fn(*[self.regs[i] for i in a]); o = dict(t="val", x="", v=self.obs(r))
            except Odd as e: o = dict(t="odd", x=str(e))
            except Exception as e: o = dict(t="raise", x=exname(e))
        ch = [i+1 for i, b in zip(a, before) if self.digest(self.regs[i]) != b]
        self.ev.append(dict(op=op, a=[i+1 for i in a], out=o, ch=ch, **kw))
        if o["t"] == "odd": self.stop = True
        if o["t"] == "odd" and self.sig and "coefficient" in o["x"] and abs(float(o["x"].split()[-1])) < 1e-13: self.ev.pop(); return False   # a residue of terms of other units that cancel
        if o["t"] == "odd" and "coefficient" in o["x"] and np.prod([float(self.big(i)) for i in a]) > 3000: self.ev.pop()   # too long to tell
        if o["t"] == "val":
            self.regs.append(r); self.v.append(o["v"])
            if not self.small(o["v"]): self.stop = True
            return True
        return False
    def sh(self, i): return self.v[i]["sh"]
    def raw(self, i): return not isinstance(self.regs[i], (Signomial, NomialArray))
    def rawq(self, i): return isinstance(self.regs[i], Quantity)
    def hasq(self, i):      # an array that holds quantities (or a list of them)
        o = self.regs[i]
        return isinstance(o, (list, np.ndarray)) and any(isinstance(x, Quantity) for x in np.ravel(np.array(o, dtype=object)))
    def holds(self, i): return any(isinstance(x, Signomial) for x in np.ravel(np.array(self.regs[i], dtype=object)))
    def mono(self, i): return all(len(x["p"]) == 1 for x in self.v[i]["el"])
    def pos(self, i): return all(len(x["p"]) and all(t["c"][0] > 0 for t in x["p"]) for x in self.v[i]["el"])

LEN = dict(imperial=["inch", "foot", "yard", "inch", "foot", "centimeter"], metric=["meter", "centimeter", "kilometer", "meter"])
def someunit(fam, kind=None):
    "a unit string, among few kinds of dimensions"
    L, T, M = rng.choice(LEN[fam]), rng.choice(["second", "minute", "hour", "minute"]), rng.choice(["kilogram", "gram"])
    kind = kind or rng.choice(["len"]*4 + ["speed", "time", "area", "per", "none", "money", "force", "cost", "ratio"])
    if kind == "len": return L
    if kind == "speed": return "%s/%s" % (L, T)
    if kind == "time": return T
    if kind == "area": return "%s**2" % L if rng.random() < .6 else "%s*%s" % (L, rng.choice(LEN[fam]))
    if kind == "per": return "1/%s" % L
    if kind == "none": return ""
    if kind == "money": return rng.choice(["USD", "kiloUSD"])
    if kind == "cost": return "%s/%s" % (rng.choice(["USD", "kiloUSD"]), L)
    if kind == "ratio": return rng.choice(["percent", "%s/%s" % (L, rng.choice(LEN[fam])), "dimensionless"])
    if kind == "force":
        if fam == "metric" and rng.random() < .6: return rng.choice(["newton", "kilonewton", "joule/meter", "watt/meter*second"])
        return "%s*%s/%s**2" % (M, L, "second" if rng.random() < .7 else "minute")
    return kind
def useq(s, fam): return unitseq(Quantity(1, s), fam) if s else []

def newprog():
    fam = rng.choice(["imperial", "imperial", "metric"])
    P = Prog(fam, rng.random() < .35)
    kinds = rng.choice([["len"], ["len", "len", "none"], ["len", "speed", "time"], ["len", "area", "per"], ["force", "len", "area"], ["money", "cost", "len"], ["none"], ["ratio", "none", "len"], [None]]) if mode == "units" else rng.choice([["none"], ["none"], ["len"], ["len", "none"], ["len", "per", "none"]])
    us = [someunit(fam, rng.choice(kinds)) for _ in range(5)]
    V = lambda n, sh, u: VectorVariable(tuple(sh), n, *([u] if u else [])) if sh else Variable(n, *([u] if u else []))
    if mode == "arrays" and rng.random() < .35:     # declared inside Vectorize environments
        k = rng.choice([2, 1])
        y = V("y", [], us[1])
        with gpkit.Vectorize(k):
            x = V("x", [], us[0])
            if k == 1:
                with gpkit.Vectorize(2): z = V("z", [], us[2]); zs = [2, 1]
                M = V("M", [3], us[4]); ms = [3, 1]
            else: M = V("M", [3], us[4]); ms = [3, 2]
        if k == 2: z, zs = V("z", [], us[2]), []
        blocks = [("x", x, [k], us[0]), ("y", y, [], us[1]), ("z", z, zs, us[2]), ("M", M, ms, us[4])]
    else: blocks = [(n, V(n, sh, u), sh, u) for n, sh, u in zip("xyzvM", ([], [], [], [3], [2, 2]), us)]
    P.vars, P.us, P.blocks = [], [], []
    for n, o, sh, u in blocks:
        P.blocks.append((n, o, sh, len(P.vars)))
        P.vars += [o[ix] for ix in np.ndindex(*sh)] if sh else [o]
        P.us += [u]*int(np.prod(sh, initial=1))
    P.nv = len(P.vars)
    P.idx = {q.key: i for i, q in enumerate(P.vars)}
    P.units = [useq(u, fam) for u in P.us]
    for n, o, sh, i in P.blocks: P.do("var", [], lambda o=o: o, i=i+1, sh=sh)
    return P

CONST = [F(1), F(2), F(3), F(1, 2), F(4), F(3, 2), F(5), F(12), F(1, 12)]
def number(P):
    "a number, quantity, list or array of them"
    u = someunit(P.fam) if rng.random() < .5 else rng.choice(P.us)
    if rng.random() < (.3 if mode == "units" else .6): u = ""
    c = lambda: rng.choice(CONST + ([-q for q in CONST] if P.sig else []))
    form = rng.choice(["scalar"]*6 + ["list", "array", "qarr", "matrix", "mono", "mono", "unitmono"] if mode == "units" else ["scalar", "list", "list", "array", "array", "matrix", "qarr", "mono"])
    if form in ("scalar", "mono", "unitmono"):
        q = c()
        if form == "unitmono": q = F(1)
        val = float(q) if q.denominator > 1 or rng.random() < .5 else int(q)
        if u: val = Quantity(float(val), u)
        if form == "unitmono" and u: fn = (lambda: gpkit.units(u))
        elif form == "mono" and q > 0: fn = lambda: Monomial(val)
        else: fn = lambda: val
        P.do("num", [], fn, sh=[], cs=[fr(q)], u=useq(u, P.fam)); return
    sh = rng.choice([[2], [3], [3], [1]]) if form != "matrix" else rng.choice([[2, 2], [2, 2], [1, 2], [2, 3], [3, 1]])
    n = int(np.prod(sh))
    qs = [c() for _ in range(n)]
    arr = np.array([float(q) for q in qs]).reshape(sh)
    if form == "qarr" and u: val = Quantity(arr, u)
    elif form == "list" and not u: val = [float(q) for q in qs] if rng.random() < .5 else [[float(q)] for q in qs]; sh = list(np.shape(val))
    elif u:
        val = np.empty(sh, dtype=object)
        for k, ix in enumerate(np.ndindex(*sh)): val[ix] = Quantity(float(qs[k]), u)
        val = NomialArray(val) if rng.random() < .6 else list(val) if len(sh) == 1 else NomialArray(val)
    else: val = NomialArray(arr) if rng.random() < .3 else arr
    P.do("num", [], lambda: val, sh=sh, cs=[fr(q) for q in qs], u=useq(u, P.fam))

def bcast(s, t):
    n = max(len(s), len(t)); s = [1]*(n-len(s)) + s; t = [1]*(n-len(t)) + t
    if not all(a == b or a == 1 or b == 1 for a, b in zip(s, t)): return None
    return [b if a == 1 else a for a, b in zip(s, t)]
def fits(P, a, b, growth="mul"):
    s = bcast(P.sh(a), P.sh(b))
    if s is not None and np.prod(s, initial=1) > 12: return False
    if growth == "mul":
        return P.big(a)*P.big(b) <= 2*10**6 and P.nterms(a)*P.nterms(b) <= 10
    return P.nterms(a) + P.nterms(b) <= 8

def pairs(P, a, b):
    "guard only: the elements that meet, with coefficients in base units"
    if bcast(P.sh(a), P.sh(b)) is None: return
    aa = np.empty(P.sh(a) or [1], dtype=object); ab = np.empty(P.sh(b) or [1], dtype=object)
    for arr, c in ((aa, P.canon(P.v[a])), (ab, P.canon(P.v[b]))):
        for k, ix in enumerate(np.ndindex(*arr.shape)): arr[ix] = c[k]
    yield from np.broadcast(aa, ab)
def cancels(P, a, b):
    "terms of other units that cancel do so up to rounding only"
    if not P.sig or not any(x["u"] for i in (a, b) for x in P.v[i]["el"]): return False
    for p, q in pairs(P, a, b):
        d = {tuple(e): c for c, e in p}
        if any(abs(d.get(tuple(e), 0)) == abs(c) for c, e in q): return True
    return False

def arith(P):
    n = len(P.regs)
    pick = lambda: rng.randrange(n) if rng.random() < .5 else rng.randrange(max(0, n-4), n)
    a, b = pick(), pick()
    if not P.v[a]["el"] or not P.v[b]["el"]: return
    ops = ["num", "num", "add", "add", "add", "mul", "mul", "div", "div", "pow", "to", "sum", "prod", "neg", "sub", "diff", "arr", "subst", "subst", "cmp", "cmp", "cmp", "cmp", "temp"]
    if mode == "arrays": ops += ["index"]*6 + ["T", "flat", "outer", "dot", "matdot", "sumax", "sumax", "prodax", "powarr", "powarr", "sum", "prod", "arr", "arr", "cmp", "cmp"]
    op = rng.choice(ops)
    if op == "num": number(P); return
    if op == "temp":    # other quantities come and go
        for _ in range(rng.randrange(6)):
            try:
                q = Variable("t", someunit(P.fam) or "1/second")*Quantity(rng.random()+.1, someunit(P.fam) or "minute")
                (q <= Variable("t2", someunit(P.fam) or "second")) if rng.random() < .5 else (q.to(someunit(P.fam) or "foot") if rng.random() < .5 else q + Variable("t3", someunit(P.fam) or "second"))
            except Exception: pass
        if rng.random() < .3: gc.collect()
        return
    if op in ("add", "sub", "mul", "div", "outer"):
        # a pint quantity on the left, or two raw numbers, are not gpkit's business
        if P.raw(a) and P.raw(b): return
        if P.rawq(a): a, b = b, a
        if P.rawq(a): return
        if P.hasq(a) and not P.hasq(b): a, b = b, a
        if P.hasq(a) or P.rawq(a): return
        if P.hasq(b) and (not isinstance(P.regs[b], NomialArray) or not isinstance(P.regs[a], NomialArray)): return
        # nor are lists and arrays of numbers that hold quantities
        if any(P.raw(i) and not P.rawq(i) and P.v[i]["el"] and P.v[i]["el"][0]["u"] for i in (a, b)) and not isinstance(P.regs[a], NomialArray): return
        if op == "outer":
            if not P.sh(a) or not P.sh(b) or not isinstance(P.regs[a], NomialArray): return
            if P.rawq(b) or np.prod(P.sh(a))*np.prod(P.sh(b)) > 9 or P.big(a)*P.big(b) > 10**6 or P.nterms(a)*P.nterms(b) > 6: return
            P.do(op, [a, b], lambda s, t: s.outer(t)); return
        if P.raw(a) and isinstance(P.regs[a], list) and not P.sh(b): return    # list times scalar
        if P.raw(b) and isinstance(P.regs[b], list) and not P.sh(a): return
        if P.rawq(b) and P.sh(b) and not P.sh(a): return
        if not fits(P, a, b, "add" if op in ("add", "sub") else "mul"): return
        if op == "div" and not P.pos(b) and (not P.raw(b) or P.holds(b)): return
        if op == "div" and any(x["p"] == [] for x in P.v[b]["el"]): return
        if op in ("add", "sub") and cancels(P, a, b): return
        if op == "div" and not P.mono(b) and P.nterms(b): pass
        f = {"add": lambda s, t: s + t, "sub": lambda s, t: s - t, "mul": lambda s, t: s*t, "div": lambda s, t: s/t}[op]
        P.do(op, [a, b], f); return
    if op == "neg":
        if not P.raw(a) and P.sig and not P.hasq(a): P.do(op, [a], lambda s: -s)
        return
    if op == "pow":
        if P.raw(a) or not P.pos(a) or P.hasq(a): return
        if P.mono(a):
            nn, kk = rng.choice([(2, 1), (-1, 1), (-2, 1), (3, 1), (0, 1), (1, 2), (-1, 2), (1, 1)])
            if kk == 2:
                if P.big(a) > 4000: return
                for x in P.v[a]["el"]:
                    if any(t % 2 for t in x["p"][0]["e"]): return
                    if any(round(abs(q)**.5)**2 != abs(q) for q in x["p"][0]["c"]): return
                    for u in x["u"]:
                        if u["k"] > 1: return
                        if P.scale([dict(u=u["u"], n=1, k=2)]) is None: return
            if P.big(a)**abs(nn) > 10**6: return
            if max(abs(z) for x in P.v[a]["el"] for t in x["p"] for z in t["e"])*abs(nn) > 6*SC*kk: return
            P.do(op, [a], lambda s: s**(nn/kk if kk > 1 else nn), n=nn, k=kk)
        else:
            if P.nterms(a) > 3 or P.big(a) > 1000: return
            P.do(op, [a], lambda s: s**2, n=2, k=1)
        return
    if op == "powarr":      # every element to a power of its own
        if not isinstance(P.regs[a], NomialArray) or not P.sh(a) or not P.v[a]["el"] or not P.pos(a) or P.hasq(a): return
        sh = list(P.sh(a))
        esh = rng.choice([sh, sh, sh[::-1], sh[-1:], [1], [1]*len(sh), [2], [2]+sh, [sh[0]] + [1]*(len(sh)-1)])
        full = bcast(sh, esh)
        if full is not None and np.prod(full) > 9 or np.prod(esh) > 9: return
        lim = [0, 1, 2] if not P.mono(a) else [-2, -1, 0, 1, 1, 2, 3]
        ns = [rng.choice(lim) for _ in range(int(np.prod(esh)))]
        m = max(map(abs, ns))
        if P.big(a)**m > 10**6 or (not P.mono(a) and (P.nterms(a) > 3 or P.big(a) > 1000)): return
        if max(abs(z) for x in P.v[a]["el"] for t in x["p"] for z in t["e"])*m > 6*SC: return
        ex = np.array(ns, dtype=rng.choice([int, float]) if P.mono(a) else int).reshape(esh)
        if rng.random() < .3: ex = ex.tolist()
        P.do(op, [a], lambda s: s**ex, ns=ns, esh=esh); return
    if op == "to":
        if P.raw(a) or P.sh(a) or P.v[a]["el"][0]["p"] == []: return
        u = someunit(P.fam) if rng.random() < .6 else rng.choice(P.us)
        if rng.random() < .5:       # one of the same dimension, in other words
            us = P.v[a]["el"][0]["u"]
            same = {"inch": LEN["imperial"], "foot": LEN["imperial"], "yard": LEN["imperial"], "meter": LEN[P.fam], "centimeter": LEN[P.fam], "kilometer": LEN[P.fam],
                    "second": ["minute", "hour"], "minute": ["second"], "hour": ["minute"], "gram": ["kilogram"], "kilogram": ["gram"], "USD": ["kiloUSD"], "kiloUSD": ["USD"]}
            if us and all(q["k"] == 1 for q in us): u = "*".join("%s**%d" % (rng.choice(same.get(q["u"], [q["u"]])), q["n"]) for q in us)
        if not u: u = "dimensionless"
        sc = P.scale(useq(u, P.fam))
        if sc is None: return
        for c, _ in P.canon(P.v[a])[0]:
            if max(abs((c/sc).numerator), (c/sc).denominator) > 10**5: return
        P.do(op, [a], lambda s: s.to(u), u=useq(u, P.fam)); return
    if op in ("sum", "prod", "sumax", "prodax"):
        if not isinstance(P.regs[a], NomialArray) or not P.sh(a) or not P.v[a]["el"]: return
        m = len(P.v[a]["el"])
        if P.hasq(a) and op != "sum": return
        if op.startswith("prod") and (P.big(a)**m > 10**6 or P.nterms(a)**m > 8): return
        if op.startswith("sum") and sum(len(x["p"]) for x in P.v[a]["el"]) > 8: return
        if op == "sum" and all(x["p"] == [] for x in P.v[a]["el"]): return
        if op.endswith("ax"):
            ax = rng.randrange(len(P.sh(a)))
            if P.sh(a)[ax] < 1: return
            neg = rng.random() < .3
            P.do(op, [a], lambda s: getattr(s, op[:-2])(axis=ax - len(s.shape) if neg else ax), ax=ax+1)
        else: P.do(op, [a], (lambda s: s.sum()) if op == "sum" else (lambda s: s.prod()))
        return
    if op == "diff":
        if P.raw(a) or P.sh(a): return
        i = rng.randrange(P.nv)
        P.do(op, [a], lambda s: s.diff(P.vars[i]), i=i+1); return
    if op == "arr":
        k = rng.choice([2, 3, 4])
        sc = [i for i in range(n) if not P.sh(i)]
        idx = [rng.choice(sc) for _ in range(k)]
        if sum(P.nterms(i) for i in idx) > 8: return
        if all(P.raw(i) for i in idx): return
        if any(P.rawq(i) for i in idx):
            def fn(*s):
                q = np.empty(len(s), dtype=object)
                for j, t in enumerate(s): q[j] = t
                return NomialArray(q)
        else: fn = lambda *s: NomialArray(list(s))
        sh = [k]
        if k == 4 and rng.random() < .6:
            sh = [2, 2]; f0 = fn; fn = lambda *s: f0(*s).reshape((2, 2))
        P.do("arr", idx, fn, sh=sh); return
    if op == "index":
        if P.raw(a) or not P.sh(a) or not P.v[a]["el"]: return
        ix, real = [], []
        for d in P.sh(a)[:rng.randint(1, len(P.sh(a)))]:
            if rng.random() < .55:
                i = rng.randrange(-d, d) if rng.random() < .95 else d
                ix.append(dict(k="int", i=i, lo=0, hi=0, st=1)); real.append(i)
            else:
                lo, hi, st = rng.choice([0, 0, 1, -1, -2]), rng.choice([d, d, -1, 1, d+2, 2]), rng.choice([1, 1, 1, 2])
                ix.append(dict(k="slice", i=0, lo=lo, hi=hi, st=st)); real.append(slice(lo, hi, st))
        key = real[0] if len(real) == 1 else tuple(real)
        P.do("index", [a], lambda s: s[key], ix=ix); return
    if op in ("T", "flat"):
        if not isinstance(P.regs[a], NomialArray) or not P.sh(a): return
        P.do(op, [a], (lambda s: s.T) if op == "T" else (lambda s: s.flatten())); return
    if op in ("dot", "matdot"):
        c = [i for i in range(n) if len(P.sh(i)) == 1 and P.v[i]["el"] and not P.rawq(i)]
        m = [i for i in range(n) if len(P.sh(i)) == (2 if op == "matdot" else 1) and not P.rawq(i)]
        if not c or not m: return
        a, b = rng.choice(m), rng.choice(c)
        if P.hasq(a) or P.hasq(b): return
        # numpy's products of objects do not always pass errors on
        if any(len({json.dumps(x["u"]) for x in P.v[i]["el"]}) > 1 or P.v[i]["el"] and any(x["p"] == [] for x in P.v[i]["el"]) for i in (a, b)): return
        if not isinstance(P.regs[a], NomialArray) or P.big(a)*P.big(b) > 10**5 or P.nterms(a)*P.nterms(b)*P.sh(b)[0] > 8: return
        if op == "dot" and P.sh(a) != P.sh(b): return
        if any(x["u"] for i in (a, b) for x in P.v[i]["el"] if P.raw(i)): return
        st = rng.randrange(2)
        P.do(op, [a, b], (lambda s, t: s.dot(t)) if st else (lambda s, t: s @ np.asarray(t))); return
    if op == "subst": subst(P, a); return
    if op == "cmp": cmp(P, a, b); return

def subst(P, a):
    if P.raw(a) or not P.v[a]["el"] or P.hasq(a) or not all(isinstance(o, Signomial) for o in np.ravel(np.array(P.regs[a], dtype=object))): return
    s, d = [], {}
    keys = [i for i in range(P.nv) if rng.random() < .4]
    if rng.random() < .3: keys = list(range(P.nv))
    bits = 0
    def val(i):
        half = any(t["e"][i] % SC for x in P.v[a]["el"] for t in x["p"])
        c = rng.choice([F(1), F(4), F(1, 4)] if half else [F(1), F(2), F(1, 2), F(3)])
        u = ""
        if P.us[i] and not half:
            r = rng.random()
            if r < .4:
                same = LEN[P.fam] if P.us[i] in LEN[P.fam] else ["second", "minute"] if P.us[i] in ("second", "minute", "hour") else [P.us[i]]
                u = rng.choice(same)
            elif r < .45: u = someunit(P.fam)
        return c, u
    whole = {}
    for n, o, sh, start in P.blocks:
        m = int(np.prod(sh, initial=1))
        if sh and rng.random() < .5:
            if start not in keys: continue
            cu = [val(start+j) for j in range(m)]
            u = cu[0][1]
            arr = np.array([float(c) for c, _ in cu]).reshape(sh)
            d[rng.choice([o, o.key, n])] = Quantity(arr, u) if u else arr
            s += [dict(i=start+j+1, c=fr(c), u=useq(u, P.fam)) for j, (c, _) in enumerate(cu)]
            continue
        for i in range(start, start+m):
            if i not in keys: continue
            c, u = val(i)
            q = Quantity(float(c), u) if u else float(c)
            if rng.random() < .3 and u: q = Monomial(q)
            d[rng.choice([P.vars[i], P.vars[i].key])] = q
            s.append(dict(i=i+1, c=fr(c), u=useq(u, P.fam)))
    # keep numbers small
    for x in P.canon(P.v[a]):
        for c, e in x:
            tot = abs(float(np.log2(max(abs(c.numerator), c.denominator))))
            for z in s:
                s1, s2 = P.scale(z["u"]), P.scale(P.units[z["i"]-1])
                if s1 is None or s2 is None: return
                sc = s1/s2 if z["u"] else F(1)
                if e[z["i"]-1] % SC and sc != 1: return
                q = F(*z["c"])*sc
                tot += abs(e[z["i"]-1]/SC)*float(np.log2(max(q.numerator, q.denominator)))
            if tot > 16: return
    P.do("subst", [a], lambda t: t.sub(d), s=s)

def cmp(P, a, b):
    if P.raw(a) and P.raw(b): return
    if P.rawq(a): a, b = b, a
    if P.hasq(a) and not P.hasq(b): a, b = b, a
    if P.hasq(a) or P.rawq(a) or P.hasq(b) and (isinstance(P.regs[b], list) or not P.sh(a)): return
    if type(P.regs[a]) is np.ndarray and not P.sh(b): return    # numpy arrays of numbers on the left
    if P.hasq(b) and P.sh(a) and not isinstance(P.regs[a], NomialArray): return
    if P.rawq(a) or not P.v[a]["el"] or not P.v[b]["el"]: return
    if any(P.raw(i) and not P.rawq(i) and P.v[i]["el"][0]["u"] for i in (a, b)): return
    if P.raw(a) and isinstance(P.regs[a], list) and not P.sh(b): return
    if P.raw(b) and isinstance(P.regs[b], list) and not P.sh(a): return
    if P.rawq(b) and P.sh(b) and not P.sh(a): return
    if not fits(P, a, b, "add"): return
    if any(x["p"] == [] for i in (a, b) for x in P.v[i]["el"]): return
    # constants against constants, or terms that leave no margin, are another property's business
    rel = rng.choice(["<=", "<=", ">=", ">=", "="])
    if rel == "=" and not (P.mono(a) and P.mono(b) and P.pos(a) and P.pos(b)): return
    if cancels(P, a, b): return
    if True:
        for p, q in pairs(P, a, b):
            lo, hi = (p, q) if rel != ">=" else (q, p)
            if len(hi) != 1:
                if rel == "=": return
                continue
            big = max(max(abs(c.numerator), c.denominator) for c, _ in lo+hi)
            if big > 3000: return
            ratio = {}
            for c, e in lo:
                k = tuple(x-y for x, y in zip(e, hi[0][1])); ratio[k] = ratio.get(k, 0) + c/hi[0][0]
            K = ratio.get((0,)*NV)
            if any(max(abs(c.numerator), c.denominator) > 10**5 for c in ratio.values()): return
            if K is not None:
                if 1 <= K < F(101, 100): return
                if len(ratio) > 1 and (max(K.numerator, K.denominator) > 2000): return
                if len(ratio) == 1: return     # numbers compare as numbers
    l, r = P.regs[a], P.regs[b]
    if P.raw(a) and not P.sh(a) and P.sh(b) and False: return
    before = P.digest(l), P.digest(r)
    o, forms, shape = dict(t="val", x=""), [], []
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            c = l <= r if rel == "<=" else l >= r if rel == ">=" else l == r
            if isinstance(c, (bool, np.bool_)): o = dict(t="raise", x=str(bool(c)))
            elif isinstance(c, np.ndarray): o = dict(t="raise", x="an array of " + str(c.dtype))
        except Exception as e: o = dict(t="raise", x=exname(e))
        if o["t"] == "val":
            try:
                if hasattr(c, "constraints"): shape, cs = list(np.shape(c.constraints)), list(np.ravel(np.asarray(c.constraints, dtype=object)))
                else: cs = [c]
                if [id(z) for z in ConstraintSet([c]).flat()] != [id(z) for z in cs]: raise Odd("other constraints when flattened")
                for z in cs:
                    if isinstance(z, (bool, np.bool_)): raise Odd("a bool")
                    one = []
                    for h in z.as_hmapslt1({}):
                        if h.units: raise Odd("units in a constraint's form")
                        one.append(P.element(Signomial(h, require_positive=False))["p"])
                    forms.append(one)
            except Odd as e: o = dict(t="raise", x=str(e))
            except Exception as e: o = dict(t="raise", x=exname(e))
    ch = [i+1 for i, bf in zip((a, b), before) if P.digest(P.regs[i]) != bf]
    P.ev.append(dict(op="cmp", a=[a+1, b+1], rel=rel, out=o, forms=forms, shape=shape, ch=ch))

def session():
    P = newprog()
    def body():
        n = rng.choice([6, 9, 12])
        for _ in range(60):
            if P.stop or len(P.ev) >= len(P.blocks) + n: break
            arith(P)
    if P.sig:
        with SignomialsEnabled(): body()
    else: body()
    if P.stop and P.ev[-1]["out"].get("t") == "val" and P.ev[-1]["op"] != "cmp" and not P.small(P.v[-1], 10**6, 10**5): P.ev.pop()
    return P

if __name__ == "__main__":
    keep = []
    with open(out, "w") as f:
        for i in range(nprog):
            P = session()
            if rng.random() < .1: keep.append(P)      # some objects live on
            if len(keep) > 20: keep.pop(0)
            f.write(json.dumps(dict(id="%s%d" % (mode, i), tag=mode, fam=P.fam, sig=P.sig, units=P.units, ev=P.ev)) + "\n")
