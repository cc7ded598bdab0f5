"""Runs sessions with randomly built models and stand-in solvers in the real code and records them
for SessionTrace.  usage: sess.py MODE OUT nsessions    (MODE: compile | sens | ...)"""
from exn import exname
import sys, json, os, re, random, io, contextlib, warnings
from fractions import Fraction as F
import numpy as np
import gpkit
from gpkit import Variable, VectorVariable, Model, SignomialsEnabled, NamedVariables, ConstraintSet, ureg
from gpkit.nomials import Signomial, Monomial, Posynomial, NomialArray
from gpkit.constraints.tight import Tight
from gpkit.constraints.loose import Loose
from gpkit.constraints.bounded import Bounded
from gpkit.exceptions import PrimalInfeasible, DualInfeasible, UnknownInfeasible, InvalidLicense
warnings.simplefilter("ignore")

mode, out, nsess = sys.argv[1], sys.argv[2], int(sys.argv[3])
rng = random.Random(int(os.environ["VERIF_SEED"]) * 7919 + sum(map(ord, mode)))
SC, NB = 4, 9                    # NB: the declared variables; more are those of relaxations
NV = {"relax": 17, "debug": 22}.get(mode, NB)
NAMES = ["x", "y", "z", "w0", "w1", "a", "b", "c", "d"] + ["r%i" % i for i in range(NV-NB)]
PRIMES = [F(2), F(3), F(1, 2), F(5), F(1, 3), F(1, 5), F(7), F(4), F(1, 4)]
if mode in ("relax", "debug"): PRIMES += [F(1), F(201, 200), F(51, 50), F(11, 10), F(3, 2), F(501, 500), F(2001, 2000)]

class Odd(Exception): pass
def rat(c, lim=60000, tol=1e-10):
    c = float(c)
    if c != c or abs(c) == float("inf"): raise Odd("non-finite number")
    f = F(c).limit_denominator(lim)
    if abs(f - F(c)) > tol * max(1, abs(f)) or abs(f.numerator) > 10**9: raise Odd("number %.12g" % c)
    return [f.numerator, f.denominator]
fr = lambda f: [f.numerator, f.denominator]

def quiet(): return contextlib.redirect_stdout(io.StringIO())

# -- polynomials: lists of (exps tuple of Fractions (length NV), coefficient Fraction) -----------
def pj(p): return [dict(e=[int(q*SC) for q in e], c=fr(c)) for e, c in p]
def mono(c, **e): return (tuple(F(e.get(n, 0)) for n in NAMES), F(c))
def psub(p, s):
    "guard only: the polynomial with values substituted"
    d = {}
    for e, c in p:
        for i, w in s.items():
            if e[i]:
                if w == 0 and e[i] < 0: raise ZeroDivisionError
                if e[i].denominator != 1: raise ZeroDivisionError
                c *= w**int(e[i])
        k = tuple(F(0) if i in s else q for i, q in enumerate(e))
        d[k] = d.get(k, F(0)) + c
    return {k: c for k, c in d.items() if c}
def peval(p, s): return psub(p, s).get((F(0),)*NV, F(0))

SCALED = {"compile", "sens", "sweep", "helper", "link", "cli"}
class World:
    def factor(self, e): return 2.0**sum(float(g*q) for g, q in zip(self.scale, e) if q)
    def __init__(self, decl={}):
        "decl: index -> substitution given when the variable is created"
        self.units = rng.random() < .35
        u = lambda i: (["m", "ft", "kg", "s", "m/s", "-", "cm", "lbf", "-"][i] if self.units else None)
        self.unit = [u(i) if i < NB else None for i in range(NV)]
        self.unit[4] = self.unit[3]
        self.unit = ["-" if q is None else q for q in self.unit]
        self.decl = decl
        # the specification's variable i is the code's variable i times 2**-scale[i], and its dual variables are the solver's
        # times 2**-dual (powers of two cost no precision): what a program means cannot depend on scale
        self.scale, self.dual, self.tiny = [0]*NV, 0, []
        if mode == "conif" and rng.random() < .3: self.tiny = [F(1, 2**16)]*3     # dual values may be small, and still count
        if mode in SCALED and rng.random() < .45: self.scale = [rng.choice([-40, 0, 0, 40]) if i < NB else 0 for i in range(NV)]
        if mode in SCALED and rng.random() < .3: self.dual = rng.choice([-24, -12, 12])
        # and the exponents of what is free are the specification's times this: a little more than one, so that digits matter
        self.expo = [1]*NV
        if mode in SCALED - {"helper"} and not self.units and not any(self.scale) and rng.random() < .4: self.expo[:3] = [1 + 2.0**-38]*3
        # and costs are the solver's times 2**-gain
        self.gain = rng.choice([-40, -20, 20]) if rng.random() < .4 else 0
        def kw(i):
            d = {"units": self.unit[i]} if self.unit[i] != "-" else {}
            if i in decl and i not in (3, 4): d["value"] = subvalue(self, i, decl[i], plain=True)
            return d
        collide = rng.random() < .4
        x, y = Variable("x", **kw(0)), Variable("y", **kw(1))
        if collide:
            with NamedVariables("M"): z = Variable("x", **kw(2))
        else: z = Variable("z", **kw(2))
        wkw = kw(3)
        if 3 in decl:
            if decl[3]["k"] == "link":
                f3, f4 = linkfn(self, decl[3]["poly"], 3), linkfn(self, decl[4]["poly"], 4)
                wkw["value"] = lambda c: [f3(c), f4(c)]
            else: wkw["value"] = [subvalue(self, i, decl[i], plain=True) for i in (3, 4)]
        w = VectorVariable(2, "w", **wkw)
        if mode == "relax": NAMES[5:9] = rng.choice([["a", "b", "c", "d"], ["a", "ab", "b", "aba"], ["d", "dx", "xd", "w_d"]])
        a, b, c, d = (Variable(NAMES[i], **kw(i)) for i in range(5, 9))
        self.w = w
        self.vars = [x, y, z, w[0], w[1], a, b, c, d] + [None]*(NV-NB)
        self.idx = {v.key: i for i, v in enumerate(self.vars) if v is not None}
        self.nobj = 1
        self.S = {}       # index -> dict(k=...)
        self.ev = []
        self.model = None
        self.marks = []
        self.m = 1        # which model of the session
        self.worlds = [self]
        self.marking = mode in ("marks", "relax", "debug")

    # building expressions -----------------------------------------------------------------
    def expr(self, p, dims=None):
        "an expression equal to the polynomial p in variable magnitudes, all terms of dimension dims"
        t = None
        for e, c in p:
            co = float(c)/self.factor(e)
            if self.units:
                target = dims or "-"
                qd = ureg.Quantity(1.0, target if target != "-" else "dimensionless")
                for i, q in enumerate(e):
                    if q: qd = qd / ureg.Quantity(1.0, self.unit[i] if self.unit[i] != "-" else "dimensionless")**float(q)
                qd = qd * (float(c)/self.factor(e))
                if rng.random() < .5: qd = qd.to_base_units()
                co = qd if not qd.dimensionless else qd.to("dimensionless").magnitude
                if hasattr(co, "units") and co.dimensionless: co = co.to("dimensionless").magnitude
            term = None
            order = [i for i, q in enumerate(e) if q]; rng.shuffle(order)
            for i in order:
                z = self.vars[i]**(int(e[i]) if e[i].denominator == 1 and self.expo[i] == 1 else float(e[i])*self.expo[i])
                term = z if term is None else term*z
            if term is None: term = Monomial(co) if hasattr(co, "units") else co
            elif hasattr(co, "units"): term = Monomial(co)*term if rng.random() < .5 else term*co
            elif co != 1 or rng.random() < .3: term = co*term if rng.random() < .5 else term*co
            t = term if t is None else t + term
        return t if t is not None else 0

    def constraint(self, c):
        "the real constraint for the description c = dict(rel, l, r, sig)"
        def mk():
            nonlocal l
            if self.marking and not hasattr(l, "hmap"): l = Monomial(l)     # (a number would change places with what is right of it)
            return l <= r if c["rel"] == "<=" else l >= r if c["rel"] == ">=" else l == r
        with quiet():
            if c["sig"]:
                with SignomialsEnabled():
                    l, r = self.expr(c["l"], c["dims"]), self.expr(c["r"], c["dims"])
                    return mk()
            l, r = self.expr(c["l"], c["dims"]), self.expr(c["r"], c["dims"])
            return mk()

COEF = [F(1), F(1), F(2), F(1, 2), F(1, 4), F(4)]
CVAL = [F(1), F(2), F(1, 2), F(4), F(1)]

def randmono(W, free, const, c=None):
    e = [F(0)]*NV
    for i in free:
        if rng.random() < .5: e[i] = F(rng.choice([1, 1, 1, 2, -1, -1, -2, F(1, 2)]))
    for i in const:
        if rng.random() < .35: e[i] = F(rng.choice([1, 1, 2, -1]))
    return (tuple(e), c if c is not None else rng.choice(COEF))

def merge(terms):
    d = {}
    for e, c in terms: d[e] = d.get(e, F(0)) + c
    return [(e, c) for e, c in d.items() if c]

def randposy(W, free, const, n):
    ts = [randmono(W, free, const) for _ in range(n)]
    if rng.random() < .3 and const:      # terms that merge once the constants are substituted
        e, c = ts[0]; e = list(e); i = rng.choice(const); e[i] = e[i] + 1; ts.append((tuple(e), rng.choice(COEF)))
    return merge(ts)

def big(r): return any(max(abs(v.numerator), v.denominator) > 8192 for v in r.values())
def oddpart(n):
    while n and n % 2 == 0: n //= 2
    return abs(n)

def guard(c, s, units=False):
    "size of the denominators a constraint can bring into sensitivities; None if unusable"
    try:
        if c["rel"] == ">=": lo, up = c["r"], c["l"]
        else: lo, up = c["l"], c["r"]
        if len(up) == 1 and up[0][1] > 0 and all(t[1] > 0 for t in lo):
            ue, uc = up[0]
            q = [(tuple(a-b for a, b in zip(e, ue)), k/uc) for e, k in lo]
            zero = [i for i, w in s.items() if not w]
            if zero:
                inf = [any(e[i] < 0 for i in zero) for e, _ in q]
                if any(t and any(e[i] > 0 for i in zero) for t, (e, _) in zip(inf, q)): return None
                if any(inf) or (c["rel"] == "=" and any(e[i] for e, _ in q for i in zero)): return 1
            r = psub(q, s); K = r.get((F(0),)*NV, F(0))
            if big(r): return None
            if c["rel"] == "=": return 1
            m = 1
            for k, v in r.items(): m *= oddpart(v.numerator)
            if K < 1:
                m *= oddpart((1-K).numerator)
                if big({k: v/(1-K) for k, v in r.items()}): return None
            if K >= 1 and K < F(11, 10) and (K > 1 or len(r) > 1): return None
            return m
        u = merge(lo + [(e, -k) for e, k in up])
        r = psub(u, s)
        if big(r): return None
        if units and any(tuple(F(0) if i in s else q for i, q in enumerate(e)) not in r and all(s.get(i, 1) for i, q in enumerate(e) if q)
                         for e, _ in lo + up): return None     # exact cancellation: not in floating point with units
        m = 1
        for k, v in r.items(): m *= oddpart(v.numerator)
        neg = [v for v in r.values() if v < 0]
        if len(neg) == 1 and big({k: v/neg[0] for k, v in r.items()}): return None
        return m
    except ZeroDivisionError: return None

def randcon(W, free, const, s):
    for _ in range(60):
        r = rng.random()
        if r < .55:
            c = dict(rel=rng.choice(["<=", ">="]), sig=False)
            lo, up = randposy(W, free, const, rng.choice([1, 1, 2, 2, 3])), [randmono(W, free, const)]
            if rng.random() < .25: lo = merge(lo + [((F(0),)*NV, rng.choice([F(1, 2), F(1, 4)]))]); 
            if rng.random() < .2: up = [((F(0),)*NV, rng.choice([F(1), F(2), F(4)]))]
        elif r < .75:
            c = dict(rel="=", sig=False); lo, up = [randmono(W, free, const)], [randmono(W, free, const)]
        else:
            c = dict(rel=rng.choice(["<=", ">="]), sig=True)
            lo, up = randposy(W, free, const, rng.choice([1, 2])), randposy(W, free, const, rng.choice([1, 2]))
            if rng.random() < .3 and const:
                e, k = randmono(W, free[:1], const); lo = merge(lo + [(e, -k)])
        l, rr = (lo, up) if c["rel"] != ">=" else (up, lo)
        c.update(l=l, r=rr, dims=rng.choice(["m", "-", "N", "s"]) if W.units else None)
        if not any(k > 0 for _, k in lo) or not any(k > 0 for _, k in up): continue
        if not any(e[i] for p in (l, rr) for e, _ in p for i in range(NV)): continue
        if c["rel"] == "=" and l[0][0] == rr[0][0]: continue
        g = guard(c, s, W.units)
        if g is None or g > 16: continue
        return c
    return None

def consts_of(W):
    "guard only: values of the constants in force (links evaluated)"
    s = {i: v["val"] for i, v in W.S.items() if v["k"] == "c"}
    todo = {i: v for i, v in W.S.items() if v["k"] == "link"}
    while todo:
        n = len(todo)
        for i, v in list(todo.items()):
            ps = v["poly"]       # one function computes both elements of a linked vector
            if i in (3, 4) and v is W.decl.get(i): ps = ps + W.decl[7-i]["poly"]
            if all(j in s for e, _ in ps for j in range(NV) if e[j]):
                s[i] = peval(v["poly"], s); del todo[i]
        if len(todo) == n: break
    return s

# -- stand-in solver --------------------------------------------------------------------------
class Stub:
    "a solver that answers with chosen numbers and remembers what it was given"
    def __init__(self, W, script=None):
        self.calls, self.script, self.W = [], list(script or []), W
        self.__name__ = "stub"
    def __call__(self, *, c, A, meq_idxs, k, p_idxs, **kw):
        noise(self)
        call = dict(kind="fn", c=[float(q) for q in c], A=A.tocsr().toarray(), meq=sorted(meq_idxs.all), half=sorted(meq_idxs.first_half),
                    k=[int(q) for q in k], p=[int(q) for q in p_idxs], kw=kwlist(kw), ok="ok")
        shape = list(A.shape)
        call["consistent"] = ""
        if shape[0] != len(c) or call["A"].shape[0] != len(c): call["consistent"] = "rows of A and coefficients"
        if shape[1] != call["A"].shape[1]: call["consistent"] = "shape of A"
        if call["p"] != [i for i, n in enumerate(call["k"]) for _ in range(n)]: call["consistent"] = "partition"
        if not all(isinstance(q, (int, float, np.number)) for q in c): call["consistent"] = "coefficient types"
        self.calls.append(call)
        what = self.script.pop(0) if self.script else "ok"
        if what != "ok":
            call["ok"] = what
            if what == "primal": raise PrimalInfeasible("stub")
            if what == "dual": raise DualInfeasible("stub")
            if what == "unknown": raise UnknownInfeasible("stub")
            if what == "license": raise InvalidLicense("stub")
            if what in ERRORS: raise ERRORS[what]("stub crashed")
        ncol = call["A"].shape[1]
        vals = rng.sample(PRIMES, ncol)
        call["vals"] = vals
        prim = np.log([float(v) for v in vals])
        self.W.nobj += 1
        obj = self.W.nobj
        call["obj"] = [obj, 1]
        ans = dict(status="optimal", objective=float(obj)*2.0**self.W.gain, primal=prim)
        if rng.random() < .75:
            call["nu"] = [F(rng.choice([0, 1, 1, F(1, 2), F(1, 4), 2])) for _ in c]
            ans["nu"] = np.array([float(q) * 2.0**self.W.dual for q in call["nu"]])
            call["dual"] = self.W.dual
            if rng.random() < .5: ans["nu"] = ans["nu"].reshape(-1, 1)
        else:
            # posynomial sensitivities only: the code has to derive those of the monomials
            la = [F(1)] + [F(rng.choice([0, 1, F(1, 2), 2])) for _ in k[1:]]
            z = []
            for row, co in zip(call["A"], call["c"]):
                q = F(co).limit_denominator(1000)
                if abs(q/F(co) - 1) > 1e-9: z = None; break
                for e, v in zip(row, vals):
                    if e: q *= F(float(v)**e).limit_denominator(10**6)
                z.append(q)
            nu, j = [], 0
            for n, lam in zip(call["k"], la) if z else ():
                tot = sum(z[j:j+n])
                nu += [lam*q/tot for q in z[j:j+n]]; j += n
            call["nu"] = nu
            ans["la"] = np.array([float(q) for q in (la if rng.random() < .5 else la[1:])])
            if not z or any(q.denominator > 60 for q in nu) or np.lcm.reduce([q.denominator for q in nu]) > 400:  # too big for the specification's integers: make it uniform
                call["nu"] = [F(rng.choice([0, 1, F(1, 2)])) for _ in c]
                ans["nu"] = np.array([float(q) * 2.0**self.W.dual for q in call["nu"]]); del ans["la"]
                call["dual"] = self.W.dual
        if what == "nodual": ans.pop("nu", None); ans.pop("la", None)
        if what == "shortdual":
            d = "nu" if "nu" in ans else "la"
            ans[d] = np.ravel(ans[d])[:-rng.choice([1, 2])] if d == "nu" else np.ravel(ans[d])[:max(0, len(np.ravel(ans[d]))-2)]
            if len(call["k"]) == 1 or d == "la" and len(ans[d]) == len(call["k"])-1: ans.pop(d)
        if what == "noprimal": ans["primal"] = rng.choice([[], ans["primal"][1:]])
        return ans

    def cvx(self, K, F_, g, G=None, h=None, A=None, b=None, **kw):
        "in place of cvxopt.solvers.gp"
        noise(self)
        import cvxopt
        dense = lambda M: np.array(cvxopt.matrix(M)) if M is not None else np.zeros((0, F_.size[1]))
        vec = lambda v: [float(q) for q in np.ravel(v)] if v is not None else []
        FA, GA, AA = dense(F_), dense(G), dense(A)
        call = dict(kind="cvx", F=FA, g=vec(g), G=GA, h=[-q for q in vec(h)], A=AA, b=[-q for q in vec(b)], K=list(K), kw=kwlist(kw), ok="ok", consistent="")
        self.calls.append(call)
        if len(call["g"]) != FA.shape[0] or sum(K) != FA.shape[0]: call["consistent"] = "rows of F, g and K"
        if len(call["h"]) != GA.shape[0]: call["consistent"] = "rows of G and h"
        if len(call["b"]) != AA.shape[0]: call["consistent"] = "rows of A and b"
        if not FA.shape[1] == GA.shape[1] == AA.shape[1]: call["consistent"] = "columns"
        what = self.script.pop(0) if self.script else "ok"
        if what != "ok":
            call["ok"] = what
            if what == "dual": raise ValueError("Rank(A) < p or Rank([Df(x); A; G]) < n")
            if what == "unknown": return dict(status="unknown", x=None, y=None, zl=None, znl=None)
            raise ERRORS[what]("stub crashed")
        ncol = FA.shape[1]
        call["vals"] = vals = rng.sample(PRIMES, ncol)
        self.W.nobj += 1
        call["obj"] = [self.W.nobj, 1]
        nm = lambda m: [F(rng.choice([0, 1, F(1, 2), 2])) for _ in range(m)]
        znl, zl, y = nm(len(K)-1), nm(GA.shape[0]), [rng.choice([-1, 1])*q for q in nm(AA.shape[0])]
        call.update(zl=zl, y=y, la=[F(1)] + znl)
        return dict(status="optimal", x=cvxopt.matrix(np.log([float(v) for v in vals])), y=cvxopt.matrix([float(q) for q in y], (len(y), 1)),
                    zl=cvxopt.matrix([float(q) for q in zl], (len(zl), 1)), znl=cvxopt.matrix([float(q) for q in znl], (len(znl), 1)),
                    **{"primal objective": float(np.log(self.W.nobj) + self.W.gain*np.log(2))})

    def conic(self, task):
        "in place of MOSEK's optimiser"
        noise(self)
        W = self.W
        call = dict(kind="conic", task=task, kw=[] if task.stream else ["verbose=False"], ok="ok", consistent="")
        self.calls.append(call)
        what = self.script.pop(0) if self.script else "ok"
        if what != "ok": call["ok"] = what
        if what == "license": raise fakemosek.Error(rng.choice(["err_missing_license_file", "err_license_version", "err_license_expired"]))
        if what == "index": raise fakemosek.Error("err_space")
        if what in ERRORS: raise ERRORS[what]("stub crashed")
        n, m = len(task.bnd), min([j for _, js in task.cones for j in js] + [len(task.bnd)])
        some = lambda k: [rng.choice([F(0), F(1), F(1, 2), F(2), F(3), F(-1, 2)] + W.tiny) for _ in range(k)]
        call["vals"] = vals = rng.sample(PRIMES, m)
        W.nobj += 1
        call.update(obj=[W.nobj, 1], sux=some(n), suc=some(len(task.rows)))
        fl = lambda q: [float(v) for v in q]
        sta = {"ok": "optimal", "primal": "prim_infeas_cer", "dual": "dual_infeas_cer"}.get(what) or rng.choice(["unknown", "prim_feas", "dual_feas", "prim_illposed_cer"])
        return dict(status=sta, xx=list(np.log(fl(vals))) + fl(some(n-m)), sux=fl(call["sux"]), suc=fl(call["suc"]), slx=fl(some(n)), slc=fl(some(len(task.rows))),
                    y=fl(some(len(task.rows))), obj=float(np.log(W.nobj) + W.gain*np.log(2)))

ERRORS = {"crash": ValueError, "zerodiv": ZeroDivisionError, "runtime": RuntimeError, "interrupt": KeyboardInterrupt, "memory": MemoryError, "assert": AssertionError}
def kwlist(kw): return sorted("%s=%s" % (k, v) for k, v in kw.items() if k != "p_idxs")
def noise(stub):
    "solvers print, and may replace standard output"
    if not getattr(stub, "noisy", False): return
    print("solver output", end=rng.choice(["", "\n"]))
    r = rng.random()
    if r < .3: sys.stdout = io.StringIO()
    elif r < .5: sys.stdout = sys.__stdout__
    elif r < .6:
        with contextlib.redirect_stdout(io.StringIO()): print("more")

CURRENT = []
if mode == "conif":
    import fakemosek
    fakemosek.install()
    fakemosek.answer[0] = lambda task: CURRENT[-1].conic(task)
import cvxopt.solvers
_gp = cvxopt.solvers.gp
def _gpstub(*a, **k): return CURRENT[-1].cvx(*a, **k) if CURRENT else _gp(*a, **k)
cvxopt.solvers.gp = _gpstub       # before gpkit imports it

def columns(W, call, freevals):
    "columns are identified by the values given to them"
    col = {}
    for j, v in enumerate(call["vals"]):
        hit = [i for i, f in freevals.items() if abs(f/float(v) - 1) < 1e-9]
        if len(hit) != 1: raise Odd("the solver's value %s appears for %i free variables" % (v, len(hit)))
        col[j] = hit[0]
    return col

def decodecvx(W, call, freevals):
    col = columns(W, call, freevals)
    cost = []
    def terms(row, logc, iscost=False):
        e = [0]*NV
        for j, x in enumerate(row):
            if x:
                z = float(x)*SC
                if z != int(z): raise Odd("exponent %r" % x)
                e[col[j]] = int(z)
        c = float(np.exp(logc))
        if iscost and W.costdim:
            u = W.model.cost.units
            c *= (1*u if u is not None else ureg.Quantity(1.0, "dimensionless")).to("dimensionless" if W.costdim == "-" else W.costdim).magnitude
        return dict(e=e, c=rat(c, tol=1e-9))
    def value(row, logc):
        q = F(float(np.exp(logc))).limit_denominator(60000)
        for e, v in zip(row, call["vals"]):
            if e: q *= v**int(e) if e == int(e) else F(float(v)**e).limit_denominator(10**6)
        return q
    lse, nus, r, dens = [], [], 0, set()
    for k, n in enumerate(call["K"]):
        lse.append([terms(call["F"][q], call["g"][q], k == 0) for q in range(r, r+n)])
        z = [value(call["F"][q], call["g"][q]) or F(1, 10**6) for q in range(r, r+n)]
        nu = [call["la"][k]*q/sum(z) for q in z]
        nus.append([fr(q) for q in nu])
        dens |= {q.denominator for q in nu}
        if np.lcm.reduce([d for d in dens if d < 10**6] or [1]) > 400 or any(max(q.denominator, q.numerator) > 400 for q in nu): call["toobig"] = True
        r += n
    lin = [[terms(row, q)] for row, q in zip(call["G"], call["h"])]
    leq = [[terms(row, q)] for row, q in zip(call["A"], call["b"])]
    return dict(ok="ok", kind="cvx", kw=call["kw"], lse=lse, lin=lin, leq=leq, nulse=nus, zl=[fr(q) for q in call["zl"]], y=[fr(q) for q in call["y"]],
                consistent=call["consistent"], ncol=len(col), obj=call["obj"], toobig=bool(call.get("toobig")),
                prim=[dict(i=i+1, c=fr(call["vals"][j])) for j, i in col.items()])

def decodeconic(W, call, freevals):
    "the problem as it was put; shares: how much of its sum each term is, at the solution"
    t, col = call["task"], columns(W, call, freevals)
    def tw(x):
        z = float(x)*SC
        if z != int(z): raise Odd("coefficient %r" % x)
        return int(z)
    def num(x):
        try: return rat(x, tol=1e-9)
        except Odd: return [0, 1]       # (no coefficient; in the cost's own units perhaps)
    f = 1.
    if W.costdim:
        u = W.model.cost.units
        f = float((1*u if u is not None else ureg.Quantity(1.0, "dimensionless")).to("dimensionless" if W.costdim == "-" else W.costdim).magnitude)
    rows, val = [], {}
    for r, (x, (k, lo, up)) in enumerate(zip(t.rows, t.con)):
        h = up if k == "up" else lo
        if k == "fx" and lo != up: k = "ra"
        rows.append(dict(k=k, one=h == 1, c=num(np.exp(-h)), cc=num(np.exp(-h)*f), x=[dict(j=j+1, a=tw(v)) for j, v in sorted(x.items()) if v], sh=[1, 1]))
        v = F(float(np.exp(-h))).limit_denominator(60000)
        for j, e in x.items():
            if j in col and e: v *= call["vals"][j]**int(e) if e == int(e) else F(float(call["vals"][j])**e).limit_denominator(10**6)
        val[r] = v
    for r, x in enumerate(t.rows):
        ds = [q for _, js in t.cones if js and js[0] in x for q in range(len(t.rows)) if js[-1] in t.rows[q] and q != r]
        if not ds: continue
        tot = sum(val[q] for q in ds)
        for q in ds:
            sh = val[q]/tot if all(val[r] for r in ds) else F(1, 10**6)      # (too small for a fraction)
            if max(sh.numerator, sh.denominator) > 200: call["toobig"] = True; sh = F(1)
            rows[q]["sh"] = fr(sh)
    dens = {F(*row["sh"]).denominator for row in rows}
    if np.lcm.reduce(sorted(dens) or [1]) > (4 if W.tiny else 400): call["toobig"] = True
    return dict(ok="ok", kind="conic", kw=call["kw"], n=len(t.bnd), bnd=[dict(k=k if k != "fx" or lo == up else "ra", v=int(up) if up == int(up) and k != "fr" else 0 if k == "fr" else 99) for k, lo, up in t.bnd],
                cones=[[j+1 for j in js] + ([0] if kind != "pexp" else []) for kind, js in t.cones], rows=rows, obj=call["obj"], toobig=bool(call.get("toobig")), consistent="",
                aim=[dict(j=j+1, a=tw(v)) for j, v in t.obj.items() if v], sense=str(t.sense)[:3], col=[dict(j=j+1, i=i+1) for j, i in col.items()], ncol=len(col),
                sux=[fr(q) for q in call["sux"]], suc=[fr(q) for q in call["suc"]], prim=[dict(i=i+1, c=fr(call["vals"][j])) for j, i in col.items()])

def decode(W, call, freevals):
    "the solver's rows as polynomials"
    if call["kind"] == "conic": return decodeconic(W, call, freevals)
    if call["kind"] == "cvx": return decodecvx(W, call, freevals)
    col = columns(W, call, freevals)
    posys, nu, first, r = [], [], [], 0
    for n in call["k"]:
        ts, ns = [], []
        first.append(r)
        for q in range(r, r+n):
            e = [0]*NV
            for j, x in enumerate(call["A"][q]):
                if x:
                    if j not in col: raise Odd("a column without a variable")
                    s = float(x)*SC/W.expo[col[j]]
                    if abs(s - round(s)) > (1e-13 if W.expo[col[j]] != 1 else 0): raise Odd("exponent %r" % x)
                    e[col[j]] = round(s)
            eps = mode == "debug" and abs(call["c"][q]/1e-30 - 1) < 1e-6       # an extreme bound
            if eps: e[NV-1] += SC
            ts.append(dict(e=e, c=[1, 1] if eps else rat(call["c"][q] * W.factor([F(z, SC) for z in e])) if posys or not W.costdim else None))
            ns.append(fr(call["nu"][q]))
        posys.append(ts); nu.append(ns); r += n
    if W.costdim:       # the program's cost is in the cost's own units
        u = W.model.cost.units
        s = F((1*u if u is not None else ureg.Quantity(1.0, "dimensionless")).to("dimensionless" if W.costdim == "-" else W.costdim).magnitude)
        for t, cf in zip(posys[0], call["c"]): t["c"] = rat(cf*float(s) * W.factor([F(z, SC) for z in t["e"]]))
    return dict(ok="ok", kind=call["kind"], kw=call["kw"], toobig=False, posys=posys, nu=nu, first=first, meq=call["meq"], half=call["half"], consistent=call["consistent"],
                ncol=len(col), obj=call["obj"], prim=[dict(i=i+1, c=fr(call["vals"][j])) for j, i in col.items()])

# -- an external solver -------------------------------------------------------------------------
class Mosek:
    """stands in for MOSEK's command: a script that passes its arguments to a thread of this process, which
    reads the problem, writes a solution (or something else), and has the script end with some status"""
    def __init__(self):
        import tempfile, threading, atexit, shutil
        self.dir = tempfile.mkdtemp()
        atexit.register(shutil.rmtree, self.dir, True)
        for q in ("bin", "tmp", "user"): os.mkdir(self.path(q))
        tempfile.tempdir = self.path("tmp")
        for q in ("req", "ans"): os.mkfifo(self.path(q))
        with open(self.path("bin", "mskexpopt"), "w") as f:
            f.write("#!/bin/sh\necho MOSEK stand-in\nfor a in \"$@\"; do echo \"$a\"; done > %s\nread code < %s\nexit $code\n" % (self.path("req"), self.path("ans")))
        os.chmod(self.path("bin", "mskexpopt"), 0o755)
        with open(self.path("user", "keep.txt"), "w") as f: f.write("mine")
        self.stub, self.syspath, self.error = None, os.environ["PATH"], None
        threading.Thread(target=self.serve, daemon=True).start()
    def path(self, *a): return os.path.join(self.dir, *a)
    def serve(self):
        while True:
            with open(self.path("req")) as f: args = f.read().split("\n")[:-1]
            try: code = self.answer(args)
            except Exception as e: self.error, code = repr(e), 77
            with open(self.path("ans"), "w") as f: f.write("%d\n" % code)
    def before(self, stub):
        self.stub, self.error = stub, None
        os.environ["PATH"] = self.syspath + ":" + self.path("bin")
        gpkit.settings.pop("mosek_bin_dir", None)
        if stub.script and stub.script[0] == "nostart":
            os.environ["PATH"] = self.syspath
            stub.calls.append(dict(ok="nostart", kw=[]))
        elif rng.random() < .3:
            os.environ["PATH"] = self.syspath; gpkit.settings["mosek_bin_dir"] = self.path("bin")
    def after(self):
        os.environ["PATH"] = self.syspath
        gpkit.settings.pop("mosek_bin_dir", None)
        if self.error: return "the problem could not be read: " + self.error
        if os.listdir(self.path("tmp")):
            import shutil
            for q in os.listdir(self.path("tmp")): shutil.rmtree(self.path("tmp", q))
            return "temporary files are left behind"
        if not os.path.exists(self.path("user", "keep.txt")): return "a user's file is gone"
        return ""
    def answer(self, args):
        if len(args) != 3 or args[1] != "-sol": raise ValueError("arguments %s" % args)
        with open(args[0]) as f: t = [q for line in f if not line.startswith("*") for q in line.split()]
        ncon, nvar, nter = map(int, t[:3]); t = t[3:]
        c, p, t = [float(q) for q in t[:nter]], [int(q) for q in t[nter:2*nter]], t[2*nter:]
        A = np.zeros((nter, nvar))
        call = dict(kind="msk", c=c, A=A, k=[p.count(i) for i in range(ncon+1)], p=p, kw=[], ok="ok", consistent="", meq=[], half=[])
        seen = set()
        for q in range(0, len(t), 3):
            i, j, x = int(t[q]), int(t[q+1]), float(t[q+2])
            if not (0 <= i < nter and 0 <= j < nvar): call["consistent"] = "an exponent of nothing"; continue
            if (i, j) in seen and x: call["consistent"] = "an exponent twice"
            seen.add((i, j)); A[i, j] += x
        if len(t) % 3 or len(p) != nter: call["consistent"] = "numbers are missing"
        if p != sorted(p) or set(p) != set(range(ncon+1)): call["consistent"] = "posynomials are missing"
        st = self.stub
        st.calls.append(call)
        what = st.script.pop(0) if st.script else "ok"
        if what != "ok": call["ok"] = what
        if what == "license": return rng.choice([233, 240])
        if what == "crash": return rng.choice([1, 2, 139, 255])
        if what == "nofile": return 0
        num = lambda q: re.sub(r"e([+-])(\d\d)$", r"e\g<1>0\2", "%.16e" % q)
        vals = rng.sample(PRIMES, nvar)
        st.W.nobj += 1
        nu = [F(rng.choice([0, 1, 1, F(1, 2), F(1, 4), 2])) for _ in c]
        call.update(vals=vals, obj=[st.W.nobj, 1], nu=nu)
        sta = {"primal": "PRIMAL_INFEASIBLE", "dual": "DUAL_INFEASIBLE", "unknown": rng.choice(["UNKNOWN", "PRIMAL_AND_DUAL_INFEASIBLE", "ILL_POSED", ""])}.get(what, "PRIMAL_AND_DUAL_FEASIBLE")
        sp = lambda: rng.choice(["", "", "   "])
        L = ["PROBLEM STATUS      : " + sta, "SOLUTION STATUS     : " + ("OPTIMAL" if rng.random() < .7 else "NEAR_OPTIMAL"), "OBJECTIVE           : " + num(float(st.W.nobj)*2.0**st.W.gain), sp() if 0 else "",
             "PRIMAL VARIABLES", "INDEX   ACTIVITY"] + ["%-8d%s%s" % (i+1, num(float(np.log(float(v)))), sp()) for i, v in enumerate(vals)]
        L += ["", "DUAL VARIABLES", "INDEX   ACTIVITY"] + ["%-8d%s%s" % (i+1, num(float(v)), sp()) for i, v in enumerate(nu)] + [""]
        npr, ndu = 6, 6+nvar+3
        if what == "lostprimal": del L[npr+rng.randrange(nvar)]
        if what == "lostdual": del L[ndu+rng.randrange(nter)]
        if what == "lostline": del L[rng.choice([0, 1, 2, 3, 4, 5, ndu-3, ndu-2, ndu-1])]
        if what == "cut": del L[rng.randrange(0, ndu-1):]
        if what == "garbled":
            i = rng.choice([0, 1, 2, 4, 5, npr, ndu-2, ndu-1, ndu])
            L[i] = rng.choice(["", "?", "1 nonsense", L[i].replace("e", "q").replace("E", "Q").replace("A", "B")]) if i not in (npr, ndu) else rng.choice(["?", "1 nonsense", "7"])
        with open(args[2], "w") as f: f.write("\n".join(L) + "\n" if L else "")
        return 0
MSK = Mosek() if mode == "cli" else None

def getval(d, W, i, pos=None):
    "value of variable i in a result dictionary; None if it has none"
    if W.vars[i] is None: return None
    k = W.vars[i].key
    form = rng.randrange(3) if not (k.name == "x") and W.m == 1 else 0
    try:
        if i in (3, 4) and form == 1:
            v = d[W.w.key]
            v = v[:, i-3] if np.ndim(v) == 2 else v[i-3]
        elif form == 2 and i not in (3, 4): v = d[k.name]
        else: v = d[k]
    except KeyError: return None
    v = getattr(v, "magnitude", v)
    if np.ndim(v):
        if pos is None: raise Odd("an array of shape %s for one value" % (np.shape(v),))
        v = v[pos] if np.size(v) > 1 else np.ravel(v)[0]
    v = float(v)
    return None if v != v else v

def result(W, sol, cons, pos=None, sens=True, dual=0):
    "what a solution (or its entry number pos) says"
    r = dict(vals=[], sens=[], cs=[], odd="", split="", sensknown=sens, cost=[0, 1], sw=[], warn=[], dim=[])
    try:
        cost = sol["cost"] if pos is None else sol["cost"][pos]
        r["cost"] = rat(cost/2.0**W.gain)
        for i in range(NV):
            v = getval(sol["variables"], W, i, pos)
            f = getval(sol["freevariables"], W, i, pos); k = getval(sol["constants"], W, i, pos)
            sw = getval(sol["sweepvariables"], W, i, pos) if "sweepvariables" in sol else None
            if [f, k, sw].count(None) != (3 if v is None else 2): r["split"] = NAMES[i]
            # (values of free variables are the stand-in solver's, whatever the scale)
            if v is not None: r["vals"].append(dict(i=i+1, c=rat(v if f is not None else v * 2.0**-W.scale[i])))
            if sw is not None: r["sw"].append(dict(i=i+1, c=rat(sw * 2.0**-W.scale[i])))
            if v is not None and r["split"] == "" and [q for q in (f, k, sw) if q is not None][0] != v: r["split"] = NAMES[i] + " values differ"
            if sens:
                v = getval(sol["sensitivities"]["variables"], W, i, pos)
                if v is not None: r["sens"].append(dict(i=i+1, c=rat(v * 2.0**-dual, 2**24 if W.tiny else 60000)))
        if sens:
            for j, c in enumerate(cons):
                if c is None: continue
                v = sol["sensitivities"]["constraints"].get(c)
                if v is None: continue
                if pos is not None: v = v[pos]
                if np.ndim(v): raise Odd("an array for one constraint's sensitivity")
                if v != v: continue
                r["cs"].append(dict(i=j+1, c=rat(v * 2.0**-dual, 2**24 if W.tiny else 60000)))
        if W.marks: warned(W, sol, pos, r)
        if W.m > 1: relaxwarned(W, sol, pos, r)
    except Odd as e: r["odd"] = str(e)
    return r

def freevals(W, sol, pos=None):
    fv = {}
    for i in range(NV):
        v = getval(sol["freevariables"], W, i, pos)
        if v is not None: fv[i] = v
    return fv

# -- sessions ---------------------------------------------------------------------------------
def nest(objs):
    "the constraints, nested in lists, arrays and constraint sets"
    objs = list(objs)
    if len(objs) < 2 or rng.random() < .4: return objs
    k = rng.randrange(1, len(objs))
    a, b = nest(objs[:k]), nest(objs[k:])
    w = rng.randrange(4)
    if w == 0: a = ConstraintSet(a)
    if w == 1: b = ConstraintSet(b)
    return [a, b] if rng.random() < .5 or isinstance(b, ConstraintSet) else [a] + list(b)

TOLS = [None, None, F(1, 2), F(9, 10), F(3), F(10)]
SENSTOLS = [None, None, F(1, 4), F(3, 4), F(3, 2), F(5, 2)]
def nestmarks(W, objs, ks):
    "the constraints nested, some of them marked as tight, loose or bounded; gives the object and its constraints' numbers"
    objs, ks, fx = list(objs), list(ks), set()     # fx: what has a value inside
    if len(objs) > 1 and rng.random() < .7:
        j = rng.randrange(1, len(objs))
        a, ka, fa = nestmarks(W, objs[:j], ks[:j])
        b, kb, fb = nestmarks(W, objs[j:], ks[j:])
        o, ks, fx = [a, b], ka + kb, fa | fb
    else: o = objs
    r = rng.random()
    if r < .1: o = ConstraintSet(o)
    elif r < .35:
        tol = rng.choice(TOLS)
        if tol is None: o = Tight(o)
        elif rng.random() < .8: o = Tight(o, reltol=float(tol))
        else: o = type("Mine", (Tight,), dict(reltol=float(tol)))(o)
        W.marks.append(dict(t="tight", tol=fr(tol or F(1, 1000)), ks=[k+1 for k in ks]))
    elif r < .6:
        tol = rng.choice(SENSTOLS)
        if tol is None: o = Loose(o)
        elif rng.random() < .8: o = Loose(o, senstol=float(tol))
        else: o = type("Mine", (Loose,), dict(senstol=float(tol)))(o)
        W.marks.append(dict(t="loose", tol=fr(tol or F(1, 100000)), ks=[k+1 for k in ks]))
    elif r < .75: o, ks, fx = bounded(W, o, ks, fx)
    return o, ks, fx

def bounded(W, o, ks, fx):
    cons = W.D["cons"]
    vs = {i for k in ks for p in (cons[k]["l"], cons[k]["r"]) for e, _ in p for i in range(NV) if e[i]}
    fixed = {i: v for i, v in W.S.items() if i in vs - fx and v["k"] == "c" and rng.random() < .5}
    inner = ConstraintSet(o, {W.vars[i]: float(v["val"]) for i, v in fixed.items()}) if fixed else o
    how = rng.randrange(4)
    lo, up = rng.choice([F(1, 64), F(1, 9), F(1, 200)]), rng.choice([F(65), F(11), F(250)])
    if how == 0: lo, up = F(1, 32), F(32); b = Bounded(inner, eps=1/32)
    elif how == 1: up = 1/lo; b = Bounded(inner, eps=float(lo), lower=float(lo))
    elif how == 2: lo = 1/up; b = Bounded(inner, eps=float(lo), upper=float(up))
    else: b = Bounded(inner, lower=float(lo), upper=float(up))
    fx = fx | set(fixed)
    m = dict(t="bounded", lo=fr(lo), up=fr(up), fixed=sorted(i+1 for i in fx), ks=[k+1 for k in ks], pairs=[])
    old = {id(c) for c in W.objs}
    extra = [c for c in b.flat() if id(c) not in old]
    for i in sorted(vs - fx):
        mine = {True: [], False: []}        # upper bounds and lower ones
        for c in extra:
            if set(c.vks) == {W.vars[i].key}: mine[list(c.as_hmapslt1({})[0].keys())[0][W.vars[i].key] > 0].append(c)
        d = W.unit[i] if W.units else None
        e = [F(0)]*NV; e[i] = F(1); e = tuple(e); one = (F(0),)*NV
        for side, v in ((False, lo), (True, up)):
            c = dict(rel=">=" if not side else "<=", l=[(e, F(1))], r=[(one, v)], sig=False, dims=d)
            W.D["cons"].append(c); W.objs.append(mine[side][0] if mine[side] else None)
        m["pairs"].append([i+1, len(W.objs)-1, len(W.objs)])
        ks = ks + [len(W.objs)-2, len(W.objs)-1]
    W.marks.append(m)
    return b, ks, fx

def reorder(W):
    "bounds were added inside: the constraints in the model's order"
    at = {id(c): k for k, c in enumerate(W.objs)}
    new = [at.get(id(c)) for c in W.model.flat()]
    if sorted(q for q in new if q is not None) != list(range(len(W.objs))): return      # the solves will show it
    pos = {k: j+1 for j, k in enumerate(new)}
    W.objs, W.D["cons"] = [W.objs[k] for k in new], [W.D["cons"][k] for k in new]
    for m in W.marks:
        m["ks"] = [pos[k-1] for k in m["ks"]]
        if m["t"] == "bounded": m["pairs"] = [[i, pos[a-1], pos[b-1]] for i, a, b in m["pairs"]]

def warned(W, sol, pos, r):
    "the warnings of a solution (or its entry number pos)"
    idx = {id(c): k+1 for k, c in enumerate(W.objs) if c is not None}
    vix = {v.key: i+1 for i, v in enumerate(W.vars) if v is not None}
    for cat, data in sol.get("warnings", {}).items():
        for msg, what in (data if pos is None else data[pos]):
            if cat == "Unexpectedly Loose Constraints": r["warn"].append(dict(cat="tight", a=[idx.get(id(what), 0)]))
            elif cat == "Unexpectedly Tight Constraints": r["warn"].append(dict(cat="loose", a=[idx.get(id(what), 0)]))
            elif cat == "Arbitrarily Bounded Variables":
                hits = [k for k in what if msg.strip().startswith(k)]
                if len(hits) != 1 or any(str(v) not in msg for v in what[hits[0]]): raise Odd("a warning that does not say which bound")
                r["warn"].append(dict(cat=" ".join(hits[0].split()[:3]), a=sorted(vix.get(v, 0) for v in what[hits[0]])))
            else: raise Odd("a warning about " + cat)
    # what would be too large for the specification's integers
    vals = {z["i"]-1: F(*z["c"]) for z in r["vals"]}
    for k, c in enumerate(W.D["cons"]):
        for p in (c["l"], c["r"]):
            try:
                if any(q.denominator != 1 for e, _ in p for q in e): raise ZeroDivisionError
                tot = [pval([t], vals) for t in p] + [pval(p, vals)]
                if c["sig"] and c["rel"] == "=" or None in tot or not tot[-1] or any(max(abs(t.numerator), t.denominator) > 30000 for t in tot): raise ZeroDivisionError
            except (ZeroDivisionError, KeyError): r["dim"].append(k+1); break
        else:
            l, q = pval(c["l"], vals), pval(c["r"], vals)
            if max(abs((l/q).numerator), (l/q).denominator) > 200000: r["dim"].append(k+1)

def bounds(W, i):
    e = [F(0)]*NV; e[i] = F(1); e = tuple(e); one = (F(0),)*NV
    d = W.unit[i] if W.units else None
    return [dict(rel=">=", l=[(e, F(1))], r=[(one, F(1, 64))], sig=False, dims=d), dict(rel="<=", l=[(e, F(1))], r=[(one, F(64))], sig=False, dims=d)]

def build(W, ncon, bounded, free, const):
    "random cost and constraints; returns description or None"
    s = consts_of(W)
    for _ in range(30):
        cost = randposy(W, free, const, rng.choice([1, 1, 2, 3]))
        try: c = psub(cost, s)
        except ZeroDivisionError: continue
        if c and all(v > 0 for v in c.values()) and any(any(e) for e in c) and np.prod([oddpart(v.numerator) for v in c.values()]) < 10: break
    else: return None
    cons, g = [], 1
    for _ in range(ncon):
        c = randcon(W, free, const, s)
        if c is None: return None
        k = guard(c, s, W.units)
        if g*k > 150: continue
        g *= k
        cons.append(c)
    if bounded:
        for i in free: cons += bounds(W, i)
        rng.shuffle(cons)
    return dict(cost=cost, cons=cons, free=free)

def realise(W, D):
    "the Model for the description; drops constraints that are refused when written"
    objs, keep = [], []
    for c in D["cons"]:
        try: o = W.constraint(c)
        except Exception as e:
            s = consts_of(W)
            if exname(e) == "PrimalInfeasible": continue
            raise
        if isinstance(o, (bool, np.bool_)): continue
        if W.marking and o.oper != c["rel"]:       # Python swapped the sides
            c = {**c, "l": c["r"], "r": c["l"], "rel": {">=": "<=", "<=": ">="}[c["rel"]]}
        elif mode in ("relax", "debug") and c["rel"] == "=" and {W.idx[k]: x for k, x in list(o.left.hmap)[0].items()} != {i: x for i, x in enumerate(c["l"][0][0]) if x}:
            c = {**c, "l": c["r"], "r": c["l"]}
        objs.append(o); keep.append(c)
    D["cons"] = keep
    W.objs = objs
    W.D = D
    W.costdim = rng.choice(["m", "-"]) if W.units else None
    cost = W.expr(D["cost"], W.costdim)
    if rng.random() < .2: cost = 1*cost
    if mode == "marks": nested = nestmarks(W, objs, range(len(objs)))[0]
    else: nested = nest(objs)
    W.model = Model(cost, nested)
    if W.marks: reorder(W)
    used = {W.idx[k] for k in W.model.vks}
    W.S = {i: v for i, v in W.S.items() if i in used}

def noteset(W, i, v):
    W.S[i] = v
    W.ev.append(dict(op="set", m=W.m, i=i+1, v={"c": lambda: dict(k="c", c=fr(v["val"])), "link": lambda: dict(k="link", p=pj(v["poly"])),
                                        "sweep": lambda: dict(k="sweep", v=[fr(q) for q in v["vals"]])}[v["k"]]()))

def delsub(W, i):
    del W.S[i]
    W.ev.append(dict(op="del", m=W.m, i=i+1))
    del W.model.substitutions[W.vars[i] if rng.random() < .5 else W.vars[i].key]

def setsub(W, i, v, how=None):
    "writes a substitution and records it"
    noteset(W, i, v)
    val = subvalue(W, i, v)
    if True:
        key = W.vars[i] if rng.random() < .6 else W.vars[i].key
        if i not in (3, 4) and W.vars[i].key.name != "x" and W.m == 1 and rng.random() < .3: key = W.vars[i].key.name
        if rng.random() < .5: W.model.substitutions[key] = val
        else: W.model.substitutions.update({key: val})

def linkfn(W, poly, i):
    how = rng.randrange(4)
    def get(c, j):
        v = getraw(c, j)
        return v * 2.0**-W.scale[j] if W.scale[j] else v
    def getraw(c, j):
        if j in (3, 4) and how == 1: return c[W.w.key][j-3]
        if how == 2 and j not in (3, 4) and W.vars[j].key.name != "x": return c[W.vars[j].key.name]
        return c[W.vars[j]] if how else c[W.vars[j].key]
    def fn(c):
        t = 0
        for e, k in poly:
            z = float(k)
            for j, q in enumerate(e):
                if q == 1: z = z * get(c, j)      # (ad cannot differentiate 0.**1)
                elif q: z = z * get(c, j)**int(q)
            t = t + z
        return t * 2.0**W.scale[i] if W.scale[i] else t
    return fn

def subvalue(W, i, v, plain=False):
    if v["k"] == "c":
        f = float(v["val"]) * 2.0**W.scale[i]
        if v["val"].denominator == 1 and not W.scale[i] and rng.random() < .3: f = int(v["val"])
        if W.units and W.unit[i] != "-" and rng.random() < .4 and not plain:
            q = ureg.Quantity(f, W.unit[i]); return q.to_base_units() if rng.random() < .5 else q
        return f
    if v["k"] == "sweep": return ("sweep", rng.choice([list, np.array])([float(q) * 2.0**W.scale[i] for q in v["vals"]]))
    return linkfn(W, v["poly"], i)

def raw(W):
    "the model's substitutions as they are, to see whether something changes them"
    d = {}
    for k, v in dict.items(W.model.substitutions):
        d[k] = (id(v) if callable(v) else repr(v), [id(f) if callable(f) else None for f in np.ravel(v)] if hasattr(v, "shape") else None)
    return d

NOSOL = object()
def record(W, stub, ev, call, multi, sens=True):
    "runs call() and records what it did into ev"
    ev.update(calls=[], restored="", out=dict(t="ok", x="", res=[]), sol="", nprog=-1)
    before, subs0, sol0 = sys.stdout, [raw(w) for w in W.worlds], getattr(W.model, "solution", NOSOL)
    cost0, cons0 = W.model.cost, list(W.model)
    with quiet():
        inner = sys.stdout
        try: sol = call()
        except BaseException as e:
            if isinstance(e, SystemExit) or type(e).__name__ == "Skip": raise
            sol = None
            x = exname(e)
            ev["out"] = dict(t="raise", x=x, res=[])
        if sys.stdout is not inner: ev["restored"] = "standard output was not put back"
    sys.stdout = before
    if ev.get("left"): ev["restored"] = ev["left"]
    if [raw(w) for w in W.worlds] != subs0: ev["restored"] = "the substitutions changed"
    if W.model.cost is not cost0 or [id(c) for c in W.model] != [id(c) for c in cons0]: ev["restored"] = "the model changed"
    sol1 = getattr(W.model, "solution", NOSOL)
    ev["sol"] = "same" if sol1 is sol0 else "new" if sol1 is sol else "other"
    W.sol = sol
    return sol

def solve(W, script=None, viagp=None, sens=True, skip=None, solver=None, noisy=False, verbosity=0, over=None, **opts):
    """one solve.  solver: None (a function), "cvxopt" or "default"; over: {index: sweep} for the sweep helper"""
    stub = Stub(W, script)
    stub.noisy = noisy
    S = {**W.S, **(over or {})}
    multi = any(v["k"] == "sweep" for v in S.values())
    ev = dict(op="solve", m=W.m, skip=bool(skip), gp=bool(viagp), solver="cvxopt" if solver else "fn", opts=kwlist(opts),
              over=[dict(i=i+1, v=[fr(q) for q in v["vals"]]) for i, v in (over or {}).items()])
    slv = {None: (stub,), "cvxopt": ("cvxopt",), "default": (), "mosek_cli": ("mosek_cli",), "mosek_conif": ("mosek_conif",)}[solver]
    if solver == "mosek_conif": ev["solver"] = "conif"
    if solver == "mosek_cli": ev["solver"], ev["opts"] = "msk", []
    def call():
        if viagp:
            if viagp != "again" or not getattr(W, "gp", None): W.gp = W.model.gp(checkbounds=False)
            gp = W.gp
            try:
                if rng.random() < .6: return gp.solve(*slv, verbosity=verbosity, **opts)
                gp.solve(*slv, verbosity=verbosity, gen_result=False, **opts)
                return gp.result
            except BaseException:
                try: gp.result
                except Exception: pass
                else: ev["left"] = "a failed solve left a result in its program"
                raise
        kw = {} if skip is None else {"skipsweepfailures": skip}
        if over is not None:
            sw = {key(W, i): rng.choice([list, np.array])([float(q) * 2.0**W.scale[i] for q in v["vals"]]) for i, v in over.items()}
            return W.model.sweep(sw, **({"solver": slv[0]} if slv else {}), verbosity=verbosity, **kw, **opts)
        return W.model.solve(*slv, verbosity=verbosity, **kw, **opts)
    if solver: CURRENT.append(stub)
    if solver == "mosek_cli": MSK.before(stub)
    try: sol = record(W, stub, ev, call, multi)
    finally: del CURRENT[:]
    if solver == "mosek_cli":
        left = MSK.after()
        if stub.calls and stub.calls[0]["ok"] == "nostart" and ev["out"]["x"] in ("PrimalInfeasible", "InvalidGPConstraint", "InvalidPosynomial"): del stub.calls[0]
        if left and not ev["restored"]: ev["restored"] = left
    try:
        if sol is not None: unpack(W, sol, stub, ev, multi, sens)
        else: ev["calls"] = [dict(ok=c["ok"], kw=c["kw"]) for c in stub.calls]
        if multi: ev["nprog"] = len(W.model.program)
    except Odd as e:
        ev = dict(op="fail", msg=str(e))
    W.ev.append(ev)
    return ev

def key(W, i):
    k = W.vars[i] if rng.random() < .6 else W.vars[i].key
    if i not in (3, 4) and W.vars[i].key.name != "x" and W.m == 1 and rng.random() < .3: k = W.vars[i].key.name
    return k

def unpack(W, sol, stub, ev, multi, sens=True):
    "decodes calls and results; entry k of a swept solution belongs to the k-th successful call"
    n = len(sol)
    good = [c for c in stub.calls if c["ok"] == "ok"]
    if n != len(good): raise Odd("%i results of %i successful solves" % (n, len(good)))
    k = 0
    for c in stub.calls:
        if c["ok"] != "ok": ev["calls"].append(dict(ok=c["ok"], kw=c["kw"])); continue
        pos = k if n > 1 else None
        c["obj"] = [c["obj"][0], 1]
        ev["calls"].append(decode(W, c, freevals(W, sol, pos)))
        ev["out"]["res"].append(result(W, sol, W.objs, pos, sens and not ev["calls"][-1]["toobig"], c.get("dual", 0)))
        k += 1

def session_compile():
    W = World(); W.pending = {}
    const = [i for i in (5, 6, 7, 8) if rng.random() < .7]
    free = [i for i in range(5) if rng.random() < .6] or [0]
    if len(free) > 4: free = free[:4]
    if rng.random() < .25: const.append(free.pop()) if len(free) > 1 else None
    for i in const: W.expo[i] = 1
    for i in const: W.S[i] = dict(k="c", val=rng.choice(CVAL + ([F(0)] if rng.random() < .15 else [])))
    bounded = rng.random() < .4
    D = build(W, rng.choice([1, 2, 3, 4]), bounded, free, const)
    if D is None: return None
    realise(W, D)
    for i in list(W.S): setsub(W, i, W.S[i])
    solve(W, viagp=not bounded)
    # the same model with other constants: nothing of the first solve may remain
    if W.S and rng.random() < .6:
        i = rng.choice(sorted(W.S))
        new = dict(W.S); new[i] = dict(k="c", val=rng.choice(CVAL))
        if usable(W, D, new):
            setsub(W, i, new[i])
            solve(W, viagp=not bounded)
    return W

def usable(W, D, S):
    "the substitutions S leave numbers the specification can compute with"
    old, W.S = W.S, S
    try:
        try: s = consts_of(W)
        except ZeroDivisionError: return False
        if any(i not in s for i, v in S.items() if v["k"] != "sweep"): return False
        if any(v["k"] == "link" and (not s[i] or oddpart(s[i].numerator)*oddpart(s[i].denominator) > 15 or max(s[i].numerator, s[i].denominator) > 1024) for i, v in S.items()): return False
        try: c = psub(D["cost"], s)
        except ZeroDivisionError: return False
        g = [guard(c, s, W.units) for c in D["cons"]]
        if None in g or np.prod(g) > 150 or not c or big(c) or np.prod([oddpart(v.numerator) for v in c.values()]) >= 10: return False
        return any(any(e) for e in c)
    finally: W.S = old

def randlink(W, i, cand):
    "a function of some of the candidates"
    n = rng.choice([1, 1, 2])
    return dict(k="link", poly=merge([lmono(cand) for _ in range(n)]))

def lmono(cand):
    e = [F(0)]*NV
    for j in rng.sample(cand, min(len(cand), rng.choice([1, 1, 2]))): e[j] = F(rng.choice([1, 1, 1, 2, -1]))
    return (tuple(e), rng.choice(COEF))

def linkset(W, const):
    "values and links for the constants, links in any order (chains allowed)"
    order = list(const); rng.shuffle(order)
    S, base = {}, []
    for i in order:
        if base and rng.random() < .5: S[i] = randlink(W, i, base)
        else: S[i] = dict(k="c", val=rng.choice(CVAL))
        base.append(i)
    return S

def session_sens():
    "constants, links between them (chains too), overrides: every solve's values and sensitivities"
    const = [i for i in range(3, 9) if rng.random() < .6]
    if len(const) < 2: return None
    free = [i for i in range(5) if i not in const and rng.random() < .7][:3] or [0]
    S = linkset(None, const)
    declared = {i: v for i, v in S.items() if i not in (3, 4)} if rng.random() < .6 else {}
    if declared and 3 in S and 4 in S and S[3]["k"] == S[4]["k"] == "link" and not any(e[j] for i in (3, 4) for e, _ in S[i]["poly"] for j in (3, 4)):
        declared.update({3: S[3], 4: S[4]})
    if 3 in S and 4 in S and S[3]["k"] == S[4]["k"] == "c" and declared and rng.random() < .7: declared.update({3: S[3], 4: S[4]})
    W = World(declared)
    W.S = dict(S)
    D = build(W, rng.choice([1, 2, 3]), False, free, const)
    if D is None or not usable(W, D, S): return None
    realise(W, D)
    used = set(W.S)
    for i, v in list(W.S.items()):       # what links depend on has to be in the model
        if v["k"] == "link" and any(e[j] and j not in used for e, _ in v["poly"] for j in range(NV)): return None
    for i in list(W.S):
        if i in declared: noteset(W, i, W.S[i])
        else: setsub(W, i, W.S[i])
    solve(W, viagp=True)
    for _ in range(rng.choice([0, 1, 2, 3])):
        for _ in range(6 if used else 0):
            i = rng.choice(sorted(used))
            new = dict(W.S)
            r = rng.random()
            if r < .25 and i in new: del new[i]
            elif r < .75 or len(used) < 2: new[i] = dict(k="c", val=rng.choice(CVAL))
            else: new[i] = randlink(W, i, [j for j in used if j != i])
            if usable(W, D, new):
                if i in new: setsub(W, i, new[i])
                else: delsub(W, i)
                solve(W, viagp=rng.random() < .7 or True)
                break
    return W

SVALS = [F(1), F(2), F(1, 2), F(4), F(3), F(1, 4)]
def points(S):
    "guard only: the substitutions at every point of a sweep"
    import itertools
    sw = [i for i, v in S.items() if v["k"] == "sweep"]
    for vals in itertools.product(*[S[i]["vals"] for i in sw]):
        yield {**S, **{i: dict(k="c", val=q) for i, q in zip(sw, vals)}}

def randsweep(n):
    return dict(k="sweep", vals=[rng.choice(SVALS + ([F(0)] if rng.random() < .2 else [])) for _ in range(n)])

def sweepset(W, S, most=8):
    "some of the constants swept, at most so many points"
    S = dict(S)
    cand = [i for i in S if S[i]["k"] == "c"]
    rng.shuffle(cand)
    n = 1
    for i in cand[:rng.choice([1, 1, 2, 2, 3])]:
        m = rng.choice([1, 2, 2, 3, 4])
        if n*m > most: continue
        n *= m
        S[i] = randsweep(m)
    return S

def usable_all(W, D, S): return all(usable(W, D, P) for P in points(S))

FAILS = ["primal", "dual", "unknown", "crash", "zerodiv", "runtime"]
def script(n, p):
    return ["ok" if rng.random() > p else rng.choice(FAILS + (["license"] if rng.random() < .1 else [])) for _ in range(n)]

def session_sweep():
    "sweeps of constants with links between them; failing points, skipped or not; plain solves in between"
    const = [i for i in range(3, 9) if rng.random() < .55]
    if len(const) < 1: return None
    free = [i for i in range(5) if i not in const and rng.random() < .5][:2] or [0]
    if set(free) & set(const): return None
    for _ in range(20):
        S0 = linkset(None, const)
        W = World()
        S = sweepset(W, S0)
        if not any(v["k"] == "sweep" for v in S.values()): continue
        W.S = next(iter(points(S)))
        try: consts_of(W)
        except ZeroDivisionError: continue
        D = build(W, rng.choice([1, 2]), True, free, const)
        if D is None: continue
        if usable_all(W, D, S): break
    else: return None
    realise(W, D)
    used = set(W.S)
    for i in used:
        if S[i]["k"] == "link" and any(e[j] and j not in used for e, _ in S[i]["poly"] for j in range(NV)): return None
    W.S = {}
    for i in used: setsub(W, i, S[i])
    if not any(v["k"] == "sweep" for v in W.S.values()): return None
    n = len(list(points(W.S)))
    r = rng.random()
    if r < .6: solve(W, skip=rng.choice([None, False, True]))
    else: solve(W, script(n, .3), skip=rng.choice([True, True, False]))
    for _ in range(rng.choice([0, 1, 2])):
        for _ in range(8):
            new = {i: (dict(k="c", val=rng.choice(CVAL)) if v["k"] == "sweep" and rng.random() < .6 else v) for i, v in W.S.items()}
            if rng.random() < .6: new = sweepset(W, new)
            if usable_all(W, D, new): break
        else: break
        for i in new:
            if new[i] is not W.S[i]: setsub(W, i, new[i])
        n = len(list(points(W.S)))
        solve(W, script(n, .15) if rng.random() < .4 else None, skip=rng.random() < .6)
    return W

def pick_model(bounded=True, ncon=(1, 2), links=True, nosig=False, nconst=.5, World=World):
    "a model with constants (links too) whose substitutions the specification can compute with"
    for _ in range(60):
        const = [i for i in range(3, 9) if rng.random() < nconst]
        free = [i for i in range(5) if i not in const and rng.random() < .5][:2]
        if not free: continue
        W = World()
        S = linkset(W, const) if links else {i: dict(k="c", val=rng.choice(CVAL)) for i in const}
        W.S = dict(S)
        D = build(W, rng.choice(ncon), bounded, free, const)
        if D is None or not usable(W, D, S): continue
        if nosig: D["cons"] = [c for c in D["cons"] if not c["sig"]]
        realise(W, D)
        used = set(W.S)
        if any(v["k"] == "link" and any(e[j] and j not in used for e, _ in v["poly"] for j in range(NV)) for v in W.S.values()): continue
        new, W.S = W.S, {}
        for i in new: setsub(W, i, new[i])
        W.used = used
        return W
    return None

OPTS = [{}, {}, {}, {"abstol": 1e-6}, {"foo": 3}, {"maxiters": 50, "foo": "bar"}]
CVXOPTS = OPTS + [{"kktsolver": "chol"}, {"kktsolver": "qr", "reltol": 1e-5}, {"use_leqs": False}, {"use_leqs": True}, {"kktsolver": "ldl2", "use_leqs": False}]
FAILFN = ["shortdual", "primal", "dual", "unknown", "license", "crash", "zerodiv", "runtime", "interrupt", "nodual", "noprimal", "memory", "assert"]
FAILCVX = ["dual", "unknown", "zerodiv", "runtime", "interrupt", "memory", "assert"]
def session_fail():
    "several solves of one model: failures, options, noise on standard output, verbosity"
    W = pick_model()
    if W is None: return None
    W.gp = None
    for _ in range(rng.choice([2, 3, 4, 5, 6])):
        solver = rng.choice([None, None, "cvxopt", "default"])
        how = rng.choice([None, None, True, "again", "again"])
        fail = rng.random() < .45
        script = [rng.choice(FAILCVX if solver else FAILFN)] if fail else None
        opts = dict(rng.choice(CVXOPTS if solver else OPTS))
        verb = 0 if fail or rng.random() < .5 else rng.choice([1, 2, 3])
        if rng.random() < .3 and W.used:
            i = rng.choice(sorted(W.used))
            new = {**W.S, i: dict(k="c", val=rng.choice(CVAL))}
            if usable(W, W.D, new): setsub(W, i, new[i]); W.gp = None
        if rng.random() < .2 and not how and W.used:
            new = sweepset(W, W.S, 4)
            sw = [i for i in new if new[i]["k"] == "sweep"]
            if sw and usable_all(W, W.D, new):
                old = dict(W.S)
                for i in sw: setsub(W, i, new[i])
                solve(W, [script[0] if fail and rng.random() < .5 else "ok" for _ in range(4)], skip=rng.random() < .5, solver=solver, noisy=rng.random() < .5, verbosity=verb, **opts)
                for i in sw: setsub(W, i, old[i])
                continue
        solve(W, script, viagp=how, solver=solver, noisy=rng.random() < .5, verbosity=verb, **opts)
    return W

FAILCLI = ["primal", "dual", "unknown", "license", "crash", "nofile", "nostart", "lostprimal", "lostdual", "lostline", "cut", "garbled"]
def session_cli():
    "the external solver: problems through files, all its endings, its own and given directories"
    W = pick_model(ncon=(1, 2, 3), nosig=rng.random() < .85)
    if W is None: return None
    for _ in range(rng.choice([2, 3, 4])):
        fail = rng.random() < .5
        opts = {"path": MSK.path("user")} if rng.random() < .35 else {}
        script = [rng.choice(FAILCLI)] if fail else None
        if rng.random() < .3 and W.used:
            new = sweepset(W, W.S, 4)
            sw = [i for i in new if new[i]["k"] == "sweep"]
            if sw and usable_all(W, W.D, new):
                old = dict(W.S)
                for i in sw: setsub(W, i, new[i])
                solve(W, [rng.choice(FAILCLI[:6] + FAILCLI[7:]) if fail and rng.random() < .5 else "ok" for _ in range(4)], skip=rng.random() < .5, solver="mosek_cli", **opts)
                for i in sw: setsub(W, i, old[i])
                continue
        if rng.random() < .4 and W.used:
            i = rng.choice(sorted(W.used))
            new = {**W.S, i: dict(k="c", val=rng.choice(CVAL))}
            if usable(W, W.D, new): setsub(W, i, new[i])
        solve(W, script, viagp=rng.choice([None, None, True]), solver="mosek_cli", verbosity=0 if fail else rng.choice([0, 0, 1, 3]), **opts)
    return W

FAILCONIC = ["primal", "dual", "unknown", "license", "index", "crash", "runtime", "interrupt", "memory"]
def session_conif():
    "the conic solver: problems as cones and rows, all its endings"
    W = pick_model(ncon=(1, 2, 3), nosig=rng.random() < .85)
    if W is None: return None
    W.gp = None
    for _ in range(rng.choice([1, 2, 3])):
        fail = rng.random() < .35
        opts = rng.choice([{}, {}, {"verbose": False}, {"verbose": True}, {"foo": 3}])
        if rng.random() < .3 and W.used:
            new = sweepset(W, W.S, 4)
            sw = [i for i in new if new[i]["k"] == "sweep"]
            if sw and usable_all(W, W.D, new):
                old = dict(W.S)
                for i in sw: setsub(W, i, new[i])
                solve(W, [rng.choice(FAILCONIC) if fail and rng.random() < .5 else "ok" for _ in range(4)], skip=rng.random() < .5, solver="mosek_conif", noisy=rng.random() < .3, **opts)
                for i in sw: setsub(W, i, old[i])
                continue
        if rng.random() < .4 and W.used:
            i = rng.choice(sorted(W.used))
            new = {**W.S, i: dict(k="c", val=rng.choice(CVAL))}
            if usable(W, W.D, new): setsub(W, i, new[i]); W.gp = None
        solve(W, [rng.choice(FAILCONIC)] if fail else None, viagp=rng.choice([None, None, True, "again"]), solver="mosek_conif", noisy=rng.random() < .3,
              verbosity=0 if fail else rng.choice([0, 0, 1, 3]), **opts)
    return W

def session_link():
    "constants that are functions of others: chains, overrides, new functions, deletions, sweeps of what they depend on"
    W = pick_model(nconst=.8, ncon=(2, 3), nosig=rng.random() < .7)
    if W is None or not any(v["k"] == "link" for v in W.S.values()): return None
    solve(W)
    for _ in range(rng.choice([1, 2, 3, 4])):
        for _ in range(12):
            new = dict(W.S)
            base = [i for i in new if new[i]["k"] == "c"]
            link = [i for i in new if new[i]["k"] == "link"]
            r = rng.random()
            chosen = []
            if r < .4 and base:
                chosen = rng.sample(base, rng.choice([1, min(2, len(base))]))
                for i in chosen: new[i] = dict(k="c", val=rng.choice(CVAL + [F(3), F(1, 8)]))
            elif r < .55 and link:
                chosen = [rng.choice(link)]; new[chosen[0]] = dict(k="c", val=rng.choice(CVAL))
            elif r < .75:
                i = rng.choice(sorted(W.used)); chosen = [i]
                new[i] = randlink(W, i, [j for j in W.used if j != i] or [i])
            elif r < .85 and base:
                i = rng.choice(base); chosen = [i]; new[i] = randsweep(rng.choice([1, 2, 3]))
            elif link:
                i = rng.choice(link); chosen = [i]; del new[i]
            else: continue
            if not (usable_all(W, W.D, new) if any(v["k"] == "sweep" for v in new.values()) else usable(W, W.D, new)): continue
            if len(list(points(new))) > 6: continue
            for i in chosen:
                if i in new: setsub(W, i, new[i])
                else: delsub(W, i)
            extra = {i for i in range(NV) if W.vars[i].key in W.model.vks} - set(W.S) - set(W.D["free"])
            if not extra: solve(W)      # else there are variables without bounds
            elif not any(v["k"] == "sweep" for v in W.S.values()): solve(W, viagp=True)
            break
    return W

def session_helper():
    "Model.sweep: over variables with any kind of former value, with and without failures"
    W = pick_model(nosig=True)
    if W is None or not W.used: return None
    if rng.random() < .3:
        new = sweepset(W, W.S, 2)
        if usable_all(W, W.D, new):
            for i in new:
                if new[i] is not W.S[i]: setsub(W, i, new[i])
    for _ in range(rng.choice([1, 2, 3])):
        i = rng.choice(sorted(set(range(9)) & {W.idx[k] for k in W.model.vks}))
        sw = randsweep(rng.choice([1, 2, 3]))
        new = {**W.S, i: sw}
        if rng.random() < .15 and i in W.S: new0 = {**W.S, i: dict(k="c", val=F(0))}
        else: new0 = W.S
        if not usable_all(W, W.D, new): continue
        if new0 is not W.S: setsub(W, i, new0[i])
        n = len(list(points(new)))
        p = rng.choice([0, 0, .4])
        solve(W, script(n, p) if rng.random() < .8 else [rng.choice(["interrupt", "nodual", "memory"])], skip=rng.choice([None, True, False]), over={i: sw})
        if rng.random() < .4 and not any(v["k"] == "sweep" for v in W.S.values()) and usable(W, W.D, W.S): solve(W)
    return W if any(e["op"] == "solve" for e in W.ev) else None

def bounds_event(W):
    ev = dict(op="bounds", x="", y="", open=[])
    with quiet():
        try:
            for (v, side) in W.model.gp(checkbounds=False).check_bounds(): ev["open"].append(dict(i=W.idx[getattr(v, "key", v)]+1, side=side))
        except Exception as e: ev["x"] = exname(e)
        try: W.model.gp()
        except Exception as e: ev["y"] = exname(e)
        if ev["y"] == "":
            try: W.model.solve(Stub(W), verbosity=0)
            except Exception as e: ev["y"] = exname(e)
    W.ev.append(ev)

def session_bounds():
    "models full of equalities: which sides of which variables are limited"
    W = World()
    const = [i for i in (5, 6) if rng.random() < .4]
    free = [i for i in range(9) if i not in const]; rng.shuffle(free)
    free = free[:rng.choice([1, 2, 3, 4, 5])]
    cost = randposy(W, free, const, rng.choice([1, 1, 2]))
    if not any(any(e) for e, _ in cost): return None
    cons = []
    pe = rng.choice([.2, .5, .8])
    chain = rng.random() < .2
    if chain:     # limits that reach variables only through all of a chain of equalities
        free = [i for i in range(9) if i not in const]; rng.shuffle(free)
        cost = [randmono(W, free[:1], const)] if rng.random() < .5 else cost
        if not any(any(e) for e, _ in cost): return None
        for i, j in zip(free, free[1:]):
            E = lambda *q: tuple(F(dict(q).get(k, 0)) for k in range(NV))
            s, t = rng.choice([1, 1, 2, -1]), rng.choice([1, 1, -1, F(1, 2)])
            l, r_ = (E((i, s), (j, t)), E()) if rng.random() < .4 else (E((i, s)), E((j, t)))
            cons.append(dict(rel="=", l=[(l, rng.choice(COEF))], r=[(r_, rng.choice(COEF))], sig=False, dims=rng.choice(["m", "-", "N"]) if W.units else None))
        if rng.random() < .3: del cons[rng.randrange(len(cons))]
        cons += [c for c in bounds(W, rng.choice([free[0], free[-1], rng.choice(free)])) if rng.random() < .85]
    for _ in range(0 if chain else rng.choice([1, 2, 3, 4, 5])):
        d = rng.choice(["m", "-", "N"]) if W.units else None
        if rng.random() < pe:
            l, r = [randmono(W, rng.sample(free, min(len(free), rng.choice([1, 2, 2, 3]))), const)], [randmono(W, rng.sample(free, min(len(free), rng.choice([1, 1, 2]))), const)]
            if l[0][0] == r[0][0]: continue
            c = dict(rel="=", l=l, r=r, sig=False, dims=d)
        else:
            sub = rng.sample(free, min(len(free), rng.choice([1, 2])))
            c = dict(rel="<=", l=randposy(W, sub, const, rng.choice([1, 2])), r=[randmono(W, rng.sample(free, min(len(free), rng.choice([0, 1, 1]))), const)], sig=False, dims=d)
            q = {tuple(a-b for a, b in zip(e, c["r"][0][0])): 1 for e, _ in c["l"]}
            if not any(any(e) for e in q): continue
        cons.append(c)
    if not cons: return None
    for i in free if not chain else ():
        r = rng.random()
        if r < .25: cons.append(bounds(W, i)[0])
        elif r < .5: cons.append(bounds(W, i)[1])
    rng.shuffle(cons)
    for i in const: W.S[i] = dict(k="c", val=rng.choice(CVAL))
    D = dict(cost=cost, cons=cons, free=free)
    if not usable(W, D, W.S): return None
    realise(W, D)
    new, W.S = W.S, {}
    for i in new: setsub(W, i, new[i])
    bounds_event(W)
    for _ in range(rng.choice([0, 1, 2])):
        i = rng.choice(free); new = {**W.S, i: dict(k="c", val=rng.choice([F(2), F(1, 2), F(4)]))}
        if W.vars[i].key in W.model.vks and i not in W.S and usable(W, W.D, new):
            setsub(W, i, new[i])
            bounds_event(W)
    return W

# -- sequential programs ------------------------------------------------------------------------
TAGS = [F(101), F(103), F(107), F(109), F(113)]
def tagbounds(W, i):
    "bounds whose numbers tell the variable"
    e = [F(0)]*NV; e[i] = F(1); e = tuple(e); one = (F(0),)*NV
    d = W.unit[i] if W.units else None
    return [dict(rel=">=", l=[(e, F(1))], r=[(one, 1/TAGS[i])], sig=False, dims=d), dict(rel="<=", l=[(e, F(1))], r=[(one, TAGS[i])], sig=False, dims=d)]

def sides(c):
    "guard only: positive and negative terms of the signomial constraint"
    lo, up = (c["r"], c["l"]) if c["rel"] == ">=" else (c["l"], c["r"])
    u = merge(lo + [(e, -k) for e, k in up])
    return [(e, k) for e, k in u if k > 0], [(e, -k) for e, k in u if k < 0]
def pval(p, x):
    t = F(0)
    for e, c in p:
        for i, q in enumerate(e):
            if q:
                if not x[i] and q < 0: return None
                c = c * x[i]**int(q)
        t += c
    return t
def pointok(W, x):
    "guard only: the specification can compute with the tangents at x"
    g = 1
    for c in W.D["cons"]:
        if not c["sig"]: continue
        P, N = sides(c)
        v, w = pval(N, x), pval(P, x)
        if v is None or w is None or v == 0 or w == 0: return False
        for t in [v] + ([w] if c["rel"] == "=" else []):
            g *= max(1, oddpart(t.numerator))
            if max(t.numerator, t.denominator) > 1500: return False
    return g <= 120

class SStub(Stub):
    "a solver for sub-problems: costs as scripted, primal points the specification can compute with"
    def __init__(self, W, costs, fail=None, slacks=None):
        Stub.__init__(self, W)
        self.costs, self.fail, self.slacks = list(costs), fail or {}, slacks or {}
    def __call__(self, *, c, A, meq_idxs, k, p_idxs, **kw):
        noise(self)
        W = self.W
        n = len(self.calls) + 1
        if n > 1: W.pt = self.next
        call = dict(kw=kwlist(kw), ok="ok", consistent="")
        self.calls.append(call)
        AA = A.tocsr().toarray()
        if AA.shape[0] != len(c) or A.shape[0] != len(c): call["consistent"] = "rows of A and coefficients"
        if A.shape[1] != AA.shape[1]: call["consistent"] = "shape of A"
        if [int(q) for q in p_idxs] != [i for i, m in enumerate(k) for _ in range(m)]: call["consistent"] = "partition"
        if not all(isinstance(q, (int, float, np.number)) for q in c): call["consistent"] = "coefficient types"
        if sorted(meq_idxs.first_half) != sorted(meq_idxs.all)[::2]: call["consistent"] = "equalities are not paired"
        if n in self.fail:
            what = call["ok"] = self.fail[n]
            raise {"primal": PrimalInfeasible, "dual": DualInfeasible, "unknown": UnknownInfeasible, "license": InvalidLicense, **ERRORS}[what]("stub")
        if call["consistent"]: raise Odd(call["consistent"])
        # columns, by the tags
        col, r, slack = {}, 0, None
        for m in k:
            if m == 1:
                nz = [j for j in range(AA.shape[1]) if AA[r, j]]
                if len(nz) == 1 and abs(AA[r, nz[0]]) == 1:
                    for i, t in enumerate(TAGS):
                        if abs(c[r]*float(t)*W.fact[i] - 1) < 1e-9 or abs(c[r]*float(t)/W.fact[i] - 1) < 1e-9: col[nz[0]] = i
                    if abs(c[r] - 1) < 1e-12 and AA[r, nz[0]] == -1 and nz[0] not in col: slack = slack if slack is not None else nz[0]
            r += m
        if slack in col: slack = None
        if len(col) + (slack is not None) != AA.shape[1]: call["consistent"] = "a column without a variable"; raise Odd(call["consistent"])
        x = W.pt
        rows, r = [], 0
        for m in k:
            row = []
            for q in range(r, r+m):
                e = [[0, 1] for _ in range(NV+1)]
                v = float(c[q])
                for j, z in enumerate(AA[q]):
                    if z:
                        if abs(z) < 1e-12: raise Skip()     # a float's residual of exponents that cancel
                        i = NV if j == slack else col[j]
                        try: e[i] = rat(z, 5000, 1e-8)
                        except Odd as x: call["consistent"] = "exponent %s in the sub-problem" % x; raise
                        if i < NV: v *= float(x[i])**z
                row.append(dict(x=e, v=v))
            rows.append(row); r += m
        if W.costdim:
            u = W.model.cost.units
            f = (1*u if u is not None else ureg.Quantity(1.0, "dimensionless")).to("dimensionless" if W.costdim == "-" else W.costdim).magnitude
            for t in rows[0]: t["v"] *= f
        for row in rows:
            for t in row:
                try: t["v"] = rat(t["v"], 60000, 1e-9)
                except Odd as x: call["consistent"] = "%s in the sub-problem" % x; raise
        call["rows"] = rows
        PT = [F(1), F(1), F(2), F(1, 2), F(4), F(3), F(1, 3), F(1, 4)]
        for _ in range(60):
            new = {i: rng.choice(PT) for i in col.values()}
            if pointok(W, {**x, **new}): break
        else: raise Skip()
        sl = self.slacks.get(n, F(1))
        call["slack"] = [1, 1] if sl == 1 else fr(sl)
        prim = np.zeros(AA.shape[1])
        for j, i in col.items(): prim[j] = np.log(float(new[i]))
        if slack is not None: prim[slack] = np.log(float(sl))
        call["prim"] = [dict(i=i+1, c=fr(v)) for i, v in new.items()]
        call["nu"] = [[fr(F(rng.choice([0, 1, 1, F(1, 2), 2]))) for _ in row] for row in rows]
        self.next = {**x, **new}
        obj = self.costs.pop(0) if self.costs else self.last
        self.last = obj
        call["obj"] = [obj, 1]
        return dict(status="optimal", objective=float(obj)*2.0**W.gain, primal=prim, nu=np.array([float(F(*q)) for row in call["nu"] for q in row]))

class Skip(BaseException): pass

def intmono(free, const, c=None):
    e = [F(0)]*NV
    for i in free:
        if rng.random() < .55: e[i] = F(rng.choice([1, 1, 1, 2, -1, -1]))
    for i in const:
        if rng.random() < .3: e[i] = F(rng.choice([1, 1, -1]))
    return (tuple(e), c if c is not None else rng.choice([F(1), F(1), F(2), F(1, 2)]))
def intposy(free, const, n): return merge([intmono(free, const) for _ in range(n)])

def build_sgp(W, free, const):
    s = consts_of(W)
    cost = intposy(free, const, rng.choice([1, 1, 2]))
    cons, nsig = [], rng.choice([1, 1, 2])
    for _ in range(nsig + rng.choice([0, 0, 1])):
        if len([c for c in cons if c["sig"]]) < nsig:
            rel = rng.choice(["<=", ">=", ">=", "="])
            lo, up = intposy(free, const, rng.choice([1, 1, 2])), intposy(free, const, rng.choice([2, 2, 3]))
            if rng.random() < .2: lo = [((F(0),)*NV, rng.choice([F(1), F(2), F(1, 2)]))]
            sig = True
        else:
            rel, sig = rng.choice(["<=", ">=", "="]), False
            lo, up = intposy(free, const, 1 if rel == "=" else rng.choice([1, 2])), [intmono(free, const)]
        if rel == "=" and len(up) < (2 if sig else 1): return None
        l, r = (up, lo) if rel == ">=" else (lo, up)
        if rel == "=" and rng.random() < .5: l, r = r, l
        c = dict(rel=rel, l=l, r=r, sig=sig, dims=rng.choice(["m", "-", "N"]) if W.units else None)
        if not any(e[i] for p in (l, r) for e, _ in p for i in free): return None
        if sig:
            P, N = sides(c)
            if not P or not N: return None
            if W.units and {e for e, _ in l} & {e for e, _ in r}: return None      # cancel up to rounding only
        elif l[0][0] == r[0][0] and len(l) == len(r) == 1: return None
        if not (sig and rel == "=") and guard({**c, "sig": sig}, s, W.units) is None: return None
        cons.append(c)
    for i in free: cons += tagbounds(W, i)
    rng.shuffle(cons)
    return dict(cost=cost, cons=cons, free=free)

def pick_sgp():
    for _ in range(200):
        W = World()
        free = rng.sample(range(5), rng.choice([1, 2, 2, 3]))
        const = [i for i in (5, 6, 7) if rng.random() < .4]
        S = linkset(W, const) if rng.random() < .5 else {i: dict(k="c", val=rng.choice(CVAL)) for i in const}
        if rng.random() < .08 and const: S[const[0]] = dict(k="c", val=F(0))
        W.S = dict(S)
        try: D = build_sgp(W, free, const)
        except ZeroDivisionError: continue
        if D is None: continue
        W.D = D
        try: s = consts_of(W)
        except ZeroDivisionError: continue
        if any(i not in s or (v["k"] == "link" and not s[i]) for i, v in S.items()): continue
        if any(max(v.numerator, v.denominator) > 16 for v in s.values()): continue
        try: c = psub(D["cost"], s)
        except ZeroDivisionError: continue
        if not c or not any(any(e) for e in c): continue
        if not pointok(W, {**{i: F(1) for i in range(NV)}, **s}): continue
        W.fact = [1.0]*NV
        try: realise(W, D)
        except Exception as e:
            if exname(e) in ("InvalidGPConstraint",): continue
            raise
        if len([1 for c in D["cons"] if c["sig"]]) == 0: continue
        used = set(W.S)
        if any(v["k"] == "link" and any(e[j] and j not in used for e, _ in v["poly"] for j in range(NV)) for v in W.S.values()): continue
        new, W.S = W.S, {}
        for i in new: setsub(W, i, new[i])
        W.used = used
        return W
    return None

COSTSEQ = [lambda: [rng.choice([8, 4, 2, 1]) for _ in range(8)], lambda: [100, 50, 20, 10, 9, 9], lambda: [1000, 999, 998, 998], lambda: [10000, 9999, 9999],
           lambda: [5, 5], lambda: [5, 7, 6, 6], lambda: [5, 7, 9, 8, 8], lambda: [20000, 19999, 19990, 19990], lambda: [3, 4, 5, 6, 7, 8, 9, 10], lambda: [4, 2, 3, 1, 1]]

def local(W, via="model", pccp=True, penalty=None, fail=None, x0=None, verb=0, reltol=None, limit=None, costs=None, slacks=None, noisy=False, **opts):
    stub = SStub(W, costs or rng.choice(COSTSEQ)(), fail, slacks)
    stub.noisy = noisy
    s = consts_of(W)
    new = via != "again"
    given = None
    if x0 and x0 is W.last: given, x0 = x0
    W.pt = {i: F(1) for i in range(NV)} if new else W.sppt
    W.pt = {**W.pt, **(x0 or {}), **s}
    if not pointok(W, W.pt): return None
    ev = dict(op="local", via=via, pccp=pccp, penalty=penalty or 200, verb=verb, solver="fn", opts=kwlist(opts), limit=limit or 50,
              reltol=reltol or [1, 10000], x0=[dict(i=i+1, c=fr(v)) for i, v in (x0 or {}).items()], rises=0, slackwarns=0, extra=[], results=[], ngps=0, kept="")
    kw = dict(verbosity=verb, **opts)
    if limit is not None: kw["iteration_limit"] = limit
    if reltol is not None: kw["reltol"] = reltol[0]/reltol[1]
    if x0:
        d = {}
        for i, v in x0.items():
            k = key(W, i)
            val = float(v)
            if W.units and W.unit[i] != "-" and rng.random() < .3:
                val = ureg.Quantity(val, W.unit[i])
                if rng.random() < .5: val = val.to_base_units()
            d[k] = val
        kw["x0"] = d if given is None else given
    elif rng.random() < .2: kw["x0"] = None
    prog = []
    def call():
        if via == "model": return W.model.localsolve(stub, **kw)
        if new: W.sp = W.model.sp(**({} if pccp and rng.random() < .5 else {"use_pccp": pccp}), **({"pccp_penalty": penalty} if penalty else {}))
        return W.sp.localsolve(stub, **kw)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        sol = record(W, stub, ev, call, False)
    for w in ws:
        t = str(w.message)
        if "rose" in t or "not convergent" in t: ev["rises"] += 1
        elif "slack" in t: ev["slackwarns"] += 1
    sp = W.model.program if via == "model" else getattr(W, "sp", None)
    try:
        calls = []
        for c in stub.calls:
            if c["consistent"] and c["ok"] == "ok" and "rows" not in c: raise Odd(c["consistent"])
            calls.append(c if c["ok"] == "ok" else dict(ok=c["ok"], kw=c["kw"]))
        ev["calls"] = calls
        if calls and sp is not None:
            ev["ngps"] = len(sp.gps)
            with quiet():
                for r in sp.results:
                    d = dict(cost=rat(r["cost"]/2.0**W.gain), vals=[])
                    for i in range(NV):
                        v = getval(r["freevariables"], W, i)
                        if v is not None: d["vals"].append(dict(i=i+1, c=rat(v)))
                    ev["results"].append(d)
        if ev["out"]["t"] == "raise" and sp is not None and stub.calls and sp.result: ev["kept"] = "a failed solve left a result"
        if sol is not None:
            for k in sol["variables"]:
                if k not in W.idx and not k.shape: ev["extra"].append(rat(sol["variables"][k], 10**7))
            ev["out"]["res"] = [result(W, sol, W.objs, None, True)]
            W.last = sol[rng.choice(["variables", "freevariables"])], {z["i"]-1: F(*z["c"]) for z in calls[-1]["prim"]}
    except Odd as e: ev = dict(op="fail", msg=str(e))
    W.ev.append(ev)
    if via != "model": W.sppt = W.pt
    if via != "model" and ev["op"] == "local" and ev["out"]["t"] == "raise" and (not ev["calls"] or ev["calls"][-1]["ok"] == "ok") and len(ev["calls"]) < ev["limit"]: W.sp = None
    return ev

def session_seq(): return session_sgp(True)

def session_sgp(scripted=False):
    "scripted: mostly about how runs end"
    W = pick_sgp()
    if W is None: return None
    W.sp = W.last = None
    try:
        for _ in range(rng.choice([2, 3, 4] if scripted else [1, 1, 2, 3])):
            via = rng.choice(["model", "sp", "again"]) if W.sp is not None else rng.choice(["model", "sp"])
            pccp = True if via == "model" else W.pccp if via == "again" else rng.random() < .6
            penalty = None if via == "model" else W.penalty if via == "again" else rng.choice([None, 10, 40])
            if via == "sp": W.pccp, W.penalty = pccp, penalty
            kw = {}
            r = rng.random()
            if scripted: r /= 2
            if r < .2: kw["fail"] = {rng.choice([1, 2, 3]): rng.choice(["primal", "dual", "unknown", "license", "crash", "runtime", "interrupt"])}
            elif r < .4: kw["limit"] = rng.choice([1, 2, 3, 4])
            if rng.random() < .3: kw["reltol"] = rng.choice([[1, 10], [1, 1000], [1, 100], [0, 1]])
            if rng.random() < .3: kw["x0"] = {i: rng.choice([F(1), F(2), F(1, 2), F(3)]) for i in W.D["free"] + [j for j in sorted(W.used) if rng.random() < .3] if rng.random() < .7 and W.vars[i].key in W.model.vks}
            elif W.last is not None and rng.random() < .2: kw["x0"] = W.last
            if rng.random() < .3: kw["slacks"] = {n: rng.choice([F(2), F(3, 2), F(10000001, 10000000), F(11, 10)]) for n in range(1, 9) if rng.random() < .7}
            if rng.random() < .3: kw["foo"] = 3
            verb = rng.choice([0, 0, 0, 1, 2, 3, -1]) if "fail" not in kw else 0
            if local(W, via, pccp, penalty, verb=verb, noisy=rng.random() < .2, **kw) is None: break
            if rng.random() < .3 and W.used:
                i = rng.choice(sorted(W.used)); new = {**W.S, i: dict(k="c", val=rng.choice(CVAL))}
                old, W.S = W.S, new
                try: ok = pointok(W, {**{j: F(1) for j in range(NV)}, **consts_of(W)}) and all(guard(c, consts_of(W), W.units) is not None for c in W.D["cons"] if not (c["sig"] and c["rel"] == "="))
                except ZeroDivisionError: ok = False
                W.S = old
                if ok: setsub(W, i, new[i]); W.sp = None
    except Skip: pass
    return W if any(e["op"] in ("local", "fail") for e in W.ev) else None

def session_marks():
    "constraints marked as tight, loose or bounded: nothing else is solved, and warnings exactly when they are due"
    if rng.random() < .2: return session_sgp()
    W = pick_model(ncon=(1, 2, 3), links=rng.random() < .3)
    if W is None or not W.marks: return None
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < .3 and W.used:
            old = dict(W.S); new = sweepset(W, W.S, 6)
            if usable_all(W, W.D, new) and new != old:
                for i in new:
                    if new[i] is not old[i]: setsub(W, i, new[i])
                solve(W, script(len(list(points(W.S))), .15), skip=True)
                for i in new:
                    if new[i] is not old[i]: setsub(W, i, old[i])
                continue
        solve(W)
        if W.used and rng.random() < .6:
            i = rng.choice(sorted(W.used)); new = {**W.S, i: dict(k="c", val=rng.choice(CVAL))}
            if usable(W, W.D, new): setsub(W, i, new[i])
    return W

# -- relaxations --------------------------------------------------------------------------------
from gpkit.constraints.relax import ConstraintsRelaxedEqually, ConstraintsRelaxed, ConstantsRelaxed
import re, copy
def relaxwarned(W, sol, pos, r):
    "the warnings about relaxed constraints or constants"
    for cat, data in sol.get("warnings", {}).items():
        for msg, what in (data if pos is None else data[pos]):
            if cat == "Relaxed Constraints" and W.how == "equal":
                pc = re.findall(r"([0-9.]+)%", msg)
                if len(pc) != 1: raise Odd("a relaxation warning without a percentage")
                r["warn"].append(dict(cat="equal", a=[1], p=rat(pc[0]), q=[0, 1]))
            elif cat == "Relaxed Constraints":
                k = [i for i, c in enumerate(W.origs) if c is what]
                pc = re.findall(r"([0-9.]+)% relaxed", msg)
                if len(k) != 1 or len(pc) != 1 or int(msg.split(":")[0]) != k[0]: raise Odd("a relaxation warning does not say which constraint")
                frm = msg.split("from", 1)[1].split("\n")[0]
                if str(what.left) not in frm or str(what.right) not in frm: raise Odd("a relaxation warning about another constraint")
                r["warn"].append(dict(cat="each", a=[k[0]+1], p=rat(pc[0]), q=[0, 1]))
            elif cat == "Relaxed Constants":
                i = W.idx.get(what.key, -1)
                g = re.search(r"relaxed from (\S+) to (\S+)$", msg.strip())
                if not g or str(what) not in msg: raise Odd("a relaxation warning without values")
                r["warn"].append(dict(cat="constants", a=[i+1], p=rat(g.group(1), 5000, 1), q=rat(g.group(2), 5000, 1)))
            elif cat == "Arbitrarily Bounded Variables" and mode == "debug":
                hits = [k for k in what if msg.strip().startswith(k)]
                if len(hits) != 1 or any(str(v) not in msg for v in what[hits[0]]): raise Odd("a warning that does not say which bound")
                r["warn"].append(dict(cat=" ".join(hits[0].split()[:3]), a=sorted(W.idx.get(v, -1)+1 for v in what[hits[0]])))
            else: raise Odd("a warning about " + cat)

def flatpoly(c, idx):
    "exponents of a constraint's only monomial <= 1"
    (h,) = c.as_hmapslt1({}); (e,) = h.keys()
    return {idx.get(k): x for k, x in e.items()}

def relax(W, how, inc, exc):
    "relaxes the model; gives the world of the relaxed one"
    V = copy.copy(W)
    V.how, V.S, V.vars, V.idx, V.m = how, dict(W.S), list(W.vars), dict(W.idx), len(W.worlds)+1
    V.origs = list(W.model.flat())
    ev = dict(op="relax", how=how, inc=sorted(inc), exc=sorted(exc), slots=[], order=[], pow=rng.choice([1, 1, 2, 3]), x="", left="")
    W.ev.append(ev)
    before, subs0 = sys.stdout, [raw(w) for w in W.worlds]
    pr = lambda r: r**ev["pow"]
    n = [NB]
    def slot(v):
        V.vars[n[0]] = v; V.idx[v.key] = n[0]; n[0] += 1
        return n[0]
    try:
        with quiet():
            if how == "equal":
                rc = ConstraintsRelaxedEqually(W.model)
                ev["slots"] = [[0, slot(rc.relaxvar), 0]]
                V.model = Model(W.model.cost*pr(rc.relaxvar), rc)
            elif how == "each":
                rc = ConstraintsRelaxed(W.model)
                if len(rc.relaxvars) > NV-NB: raise Skip()
                ev["slots"] = [[0, slot(v), 0] for v in rc.relaxvars]
                V.model = Model(W.model.cost*pr(rc.relaxvars.prod()), rc)
            else:
                kw = {}
                if inc: kw["include_only"] = rng.choice([list, set, tuple])(sorted(inc))
                if exc: kw["exclude"] = rng.choice([list, set, tuple])(sorted(exc))
                rc = ConstantsRelaxed(W.model, **kw)
                if 2*len(rc.freedvars) > NV-NB: raise Skip()
                old = {k for k in rc.vks if k.lineage and k.lineage[-1][0] == "OriginalValues"}
                for r, f in zip(rc.relaxvars, rc.freedvars):
                    i = W.idx[f.key]
                    o = [k for k in old if k.name == f.key.name and (k.lineage[:-2] or None) == (f.key.lineage or None) and k.idx == f.key.idx]
                    if len(o) != 1: raise Odd("%i keys for the old value of %s" % (len(o), f))
                    ev["slots"].append([i+1, slot(r), slot(gpkit.nomials.variables.Variable(o[0]))])
                    V.unit[V.idx[o[0]]] = W.unit[i]
                if len(rc.relaxvars): V.model = Model(W.model.cost*pr(np.prod(rc.relaxvars) if rng.random() < .5 else rc.relaxvars.prod()), rc)
                else: V.model = Model(W.model.cost, rc)
                seen = {id(c) for c in V.origs}
                for c in rc.flat():
                    if id(c) in seen: continue
                    q = flatpoly(c, V.idx)
                    hit = [j for j, (i, r, o) in enumerate(ev["slots"]) if r-1 in q]
                    if len(hit) != 1: raise Odd("a relaxation constraint without its variable")
                    i = ev["slots"][hit[0]][0]-1
                    ev["order"].append([hit[0]+1, 1 if len(q) == 1 else 2 if q.get(i, 0) < 0 else 3])
    except Odd as e:
        W.ev[-1] = dict(op="fail", msg=str(e)); return None
    except Skip: W.ev.pop(); raise
    except Exception as e:
        ev["x"] = exname(e); return None
    V.objs = list(V.model.flat())
    V.gp = None
    W.worlds.append(V)
    if subs0 != [raw(w) for w in W.worlds[:-1]]: ev["left"] = "relaxing changed the model's substitutions"
    if [id(c) for c in W.model.flat()] != [id(c) for c in V.origs]: ev["left"] = "relaxing changed the model's constraints"
    # what the guard needs to know
    s = consts_of(W)
    if how == "constants":
        for i, r, o in ev["slots"]:
            V.S.pop(i-1, None); V.S[o-1] = dict(k="c", val=s[i-1])
        live = consts_of(V)
        for i, v in list(V.S.items()):
            if v["k"] == "link" and i not in live and i in s: V.S[i] = dict(k="c", val=s[i])
            elif i in s and s[i] == 0: V.S[i] = dict(k="c", val=F(0))
        V.D = W.D
    else:
        cons = []
        for j, c in enumerate(W.D["cons"]):
            e = [F(0)]*NV; e[ev["slots"][0 if how == "equal" else j][1]-1] = F(1)
            up = lambda p: [(tuple(a+b for a, b in zip(x, e)), k) for x, k in p]
            cons += [{**c, "rel": "<=", "r": up(c["r"])}] if c["rel"] != ">=" else []
            cons += [{**c, "rel": ">=", "l": up(c["l"])}] if c["rel"] != "<=" else []
        V.D = {**W.D, "cons": cons}
    return V

def session_relax():
    "relaxations of a model, solved between solves of the model itself"
    W = pick_model(ncon=(1, 1, 2, 3), links=rng.random() < .5)
    if W is None or len(W.D["cons"]) > NV-NB: return None
    if rng.random() < .3:
        new = sweepset(W, W.S, 3); base = {}
        def deps(i): return {i} if new[i]["k"] != "link" else set().union(*[deps(j) for e, _ in new[i]["poly"] for j in range(NV) if e[j]])
        sw = {i for i in new if new[i]["k"] == "sweep"}
        if sw and usable_all(W, W.D, new) and not any(deps(i) & sw and deps(i) - sw for i in new if new[i]["k"] == "link"):
            for i in sw: setsub(W, i, new[i])
    if rng.random() < .4:  # a constant that is zero has nothing to be relaxed by
        for i in sorted((i for i in W.S if W.S[i]["k"] == "c"), key=lambda i: rng.random()):
            new = {**W.S, i: dict(k="c", val=F(0))}
            if usable_all(W, W.D, new): setsub(W, i, new[i]); break
    try:
        todo = rng.choice([1, 2, 2, 3])
        if rng.random() < .4: solve(W)
        for _ in range(todo):
            r = rng.random()
            how = rng.choice(["equal", "each", "constants", "constants"])
            inc, exc = set(), set()
            if how == "constants":
                names = sorted({W.vars[i].key.name for i in W.used})
                if names and rng.random() < .35: inc = set(rng.sample(names, rng.randrange(1, len(names)+1)))
                if names and rng.random() < .35: exc = set(rng.sample(names, rng.randrange(1, len(names)+1)))
            V = relax(W, how, inc, exc)
            if V is None: return W
            for _ in range(rng.choice([1, 1, 2])):
                if not usable_all(V, V.D, V.S): break
                gp = rng.random() < .3 and not any(v["k"] == "sweep" for v in V.S.values())
                solve(V, viagp=gp)
                if rng.random() < .4:
                    X = rng.choice([W, V]); cand = [i for i in X.S if X.S[i]["k"] == "c"]
                    if cand:
                        i = rng.choice(cand)
                        new = {**X.S, i: dict(k="c", val=rng.choice(CVAL+[F(0)]))}
                        if usable_all(X, X.D, new): setsub(X, i, new[i])
            if rng.random() < .5 and usable_all(W, W.D, W.S): solve(W)
    except Skip: pass
    return W if len(W.worlds) > 1 else None

# -- diagnosing models --------------------------------------------------------------------------
class DStub(Stub):
    "some of the variables that have extreme bounds end up near them"
    near = {}
    def __call__(self, *, c, A, meq_idxs, k, p_idxs, **kw):
        n = len(self.calls)
        ans = Stub.__call__(self, c=c, A=A, meq_idxs=meq_idxs, k=k, p_idxs=p_idxs, **kw)
        call = self.calls[n]
        if "nu" in call and "la" in ans: ans.pop("la"); ans["nu"] = np.array([float(q) for q in call["nu"]])
        M, call["bound"] = call["A"], []
        r = 0
        for m in call["k"]:
            cols = np.flatnonzero(M[r])
            if m == 1 and r and len(cols) == 1 and abs(call["c"][r]/1e-30 - 1) < 1e-6 and M[r][cols[0]] < 0: call["bound"].append(cols[0])
            r += m
        self.near = {}
        for j in call["bound"]:
            if rng.random() < .25:
                side, f = rng.choice([(a, b) for a in ("lower", "upper") for b in (F(1), F(2), F(7), F(15), F(20), F(21), F(30), F(1000)) if (a, b) not in self.near.values()])
                self.near[j] = (side, f)
                call["vals"][j] = F(10)**-30*f if side == "lower" else F(10)**30/f
        for m in range(len(call["nu"])):
            if rng.random() < .5: call["nu"][m] = F(0)
        ans["nu"] = np.array([float(q) for q in call["nu"]])
        ans["primal"] = np.log([float(v) for v in call["vals"]])
        return ans

TOLD = {"constants": "<DEBUG> Model is not feasible with relaxed constants and bounded variables.", "constraints": "<DEBUG> Model is not feasible with bounded constraints.",
        "modified": "<DEBUG> Model is feasible with these modifications:", "seems": "<DEBUG> Model seems feasible without modification"}
def debug(W, script, via, verb):
    stub = DStub(W, script)
    opts = dict(rng.choice(OPTS)) if via == "debug" else {}
    ev = dict(op="debug", m=1, via=via, verb=verb, how="", solver="fn", opts=kwlist(opts), gp=False, inc=[], exc=[], x="", left="", slots=[], order=[], border=[], near=[], stage=0, told=[], untold="", pow=30)
    txt = io.StringIO()
    def call():
        with contextlib.redirect_stdout(txt):
            return W.model.debug(stub, verbosity=verb, **opts) if via == "debug" else W.model.solve(stub, verbosity=verb, **opts)
    sol = record(W, stub, ev, call, False)
    txt = txt.getvalue()
    ev["told"] = [k for k, t in TOLD.items() if t in txt] or ["none"]
    ev["calls"] = [dict(ok=c["ok"], kw=c["kw"]) for c in stub.calls]
    if via == "debug" and ev["sol"] != "same" and not ev["restored"]: ev["restored"] = "debugging changed the model's solution"
    if via == "solve" and not ev["restored"] and ev["sol"] != ("new" if sol is not None else "same"): ev["restored"] = "the recorded solution is not the returned one"
    if sol is None:
        if ev["out"]["t"] == "ok": ev["out"]["t"] = "none"
        W.ev.append(ev); return
    try:
        V = copy.copy(W)
        V.vars, V.idx, V.unit, V.m = list(W.vars), dict(W.idx), list(W.unit), 2
        V.origs = list(W.model.flat())
        n = [NB]
        def slot(k):
            if n[0] >= NV-1: raise Skip()
            V.vars[n[0]] = gpkit.nomials.variables.Variable(k); V.idx[k] = n[0]; n[0] += 1
            return n[0]
        scal = {k for c in (sol["freevariables"], sol["constants"]) for k in elements(c) if k not in W.idx}
        old = {k for k in scal if k.lineage and k.lineage[-1][0] == "OriginalValues"}
        rel = scal - old
        if old:
            ev["stage"], V.how = 1, "constants"
            for o in sorted(old, key=lambda k: k.eqstr):
                same = lambda k, lin: k.name == o.name and (k.lineage or ()) == lin and k.idx == o.idx
                hit = [k for k in W.idx if same(k, o.lineage[:-2])]; r = [k for k in rel if same(k, o.lineage[:-1])]
                if len(hit) != 1 or len(r) != 1: raise Odd("%i variables and %i relaxations for the old value %s" % (len(hit), len(r), o))
                rel -= set(r)
                i = W.idx[hit[0]]
                ev["slots"].append([i+1, slot(r[0]), slot(o)])
                V.unit[V.idx[o]] = W.unit[i]
            if rel: raise Odd("a variable nobody knows: %s" % rel)
        elif rel:
            ev["stage"], V.how = 2, "each"
            at = sorted(rel, key=lambda k: k.idx or ())
            ev["slots"] = [[0, slot(k), 0] for k in at]
        else: ev["stage"], V.how = (1, "constants") if len(stub.calls) == (1 if via == "debug" else 2) else (2, "each")
        c = stub.calls[-1]
        fv = freevals(V, sol)
        ev["call"] = d = decode(V, c, fv)
        col = columns(V, c, fv)
        ev["border"] = [col[j]+1 for j in c["bound"]]
        ev["near"] = [[col[j]+1, side, max(1, -int(-f//1))] for j, (side, f) in stub.near.items()]
        far = {col[j] for j in stub.near}
        for z in d["prim"]:
            if z["i"]-1 in far: z["c"] = [0, 1]
        # the order of the relaxed constants' constraints
        if ev["stage"] == 1 and ev["slots"]:
            of = {r-1: j for j, (i, r, o) in enumerate(ev["slots"])}
            for p in d["posys"][1:]:
                e = {i: q for i, q in enumerate(p[0]["e"]) if q}
                hit = [of[i] for i in e if i in of]
                if hit:
                    i = ev["slots"][hit[0]][0]-1
                    ev["order"].append([hit[0]+1, 1 if len(e) == 1 else 2 if e.get(i, 0) < 0 else 3])
        said = [msg for cat, data in sol.get("warnings", {}).items() for msg, _ in data]
        if verb and said and any(m.strip() not in txt for m in said): ev["untold"] = "a warning is not printed"
        r = debugresult(V, sol, far)
        d["obj"] = c["obj"]
        ev["out"]["res"] = [r]
    except Odd as e: ev = dict(op="fail", msg=str(e))
    W.ev.append(ev)

def elements(d):
    "scalar keys of a KeyDict"
    for k in list(d):
        if k.shape and not k.idx:
            v = d[k]
            for i in np.ndindex(k.shape):
                if np.ravel(v[i])[0] == np.ravel(v[i])[0]:
                    dd = {q: w for q, w in k.descr.items()}; dd["idx"] = i; dd["veckey"] = k
                    yield gpkit.VarKey(**dd)
        else: yield k

def debugresult(V, sol, far):
    vals = getval
    def near(d, W, i, pos=None):
        v = vals(d, W, i, pos)
        return 0. if v is not None and i in far else v
    globals()["getval"] = near
    try: return result(V, sol, [], None, False)
    finally: globals()["getval"] = vals

def session_debug():
    "models are diagnosed"
    sure = rng.random() < .5
    W = pick_model(bounded=sure, ncon=(1, 1, 2, 3) if not sure else (0, 1), links=rng.random() < .5, nosig=True, nconst=rng.choice([0, .3, .5]))
    if W is None or len(W.D["cons"]) > NV-1-NB: return None
    try:
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < .2 and sure: solve(W)
            via = "solve" if sure and rng.random() < .3 else "debug"
            bad = lambda: rng.choice(["primal", "dual", "unknown", "crash"])
            sc = rng.choice([[], [], [bad()], [bad()], [bad(), bad()]])
            if via == "solve": sc = [rng.choice(["primal", "dual", "unknown"])] + sc
            debug(W, sc, via, 1 if via == "solve" else rng.choice([0, 1, 1]))
            if W.used and rng.random() < .6:
                i = rng.choice(sorted(W.used)); new = {**W.S, i: dict(k="c", val=rng.choice(CVAL + [F(0)]))}
                if usable(W, W.D, new): setsub(W, i, new[i])
    except Skip: pass
    return W if any(e["op"] == "debug" for e in W.ev) else None

KINDS = {"cli": session_cli, "conif": session_conif, "debug": session_debug, "relax": session_relax, "marks": session_marks, "sgp": session_sgp, "seq": session_seq, "bounds": session_bounds, "fail": session_fail, "link": session_link, "helper": session_helper, "sweep": session_sweep, "compile": session_compile, "sens": session_sens}

n = 0
with open(out, "w") as f:
    while n < nsess:
        W = KINDS[mode]()
        if W is None: continue
        n += 1
        f.write(json.dumps(dict(id="%s%d" % (mode, n), tag=mode + ("/units" if W.units else ""), cost=pj(W.D["cost"]), marks=W.marks, names=[v.key.name if v is not None else "" for v in W.vars],
                                cons=[dict(rel=c["rel"], l=pj(c["l"]), r=pj(c["r"]), sig=c["sig"]) for c in W.D["cons"]], ev=W.ev)) + "\n")
