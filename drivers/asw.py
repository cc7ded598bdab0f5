"""Runs automatic sweeps of random models, whose optimum a stand-in solver finds exactly, and records
them for AutosweepTrace.  usage: asw.py OUT n"""
import sys, json, os, random, warnings, io, contextlib, pickle
from fractions import Fraction as F
import numpy as np
from exn import exname
from gpkit import Variable, VectorVariable, Model, ureg
from gpkit.exceptions import PrimalInfeasible, UnknownInfeasible
from gpkit.small_scripts import mag
warnings.simplefilter("ignore")
out, nsess = sys.argv[1], int(sys.argv[2])
rng = random.Random(int(os.environ["VERIF_SEED"]) * 7919 + 16)
fr = lambda f: [F(f).numerator, F(f).denominator]

class Odd(Exception): pass
def rat(x, lim=5000, tol=1e-8):
    x = float(x)
    if x != x or abs(x) == float("inf"): raise Odd("a number that is not finite")
    f = F(x).limit_denominator(lim)
    if abs(float(f) - x) > tol*max(1, abs(x)): raise Odd("number %.12g" % x)
    return fr(f)
# logarithms (of bounds, coefficients, costs, the tolerance) are the specification's times STRETCH: an automatic sweep
# of a narrow interval, or of a very wide one, has to go as one of a middling one does
STRETCH = 1.
def two(x): return 2.0**(float(x)*STRETCH)
def lg(x): return rat(np.log2(float(mag(x)))/STRETCH)

class Stop(Exception): pass
class Stub:
    "minimises y over rows c/y <= 1; other columns have bounds of their own"
    def __init__(self, W, failat=None, how=None): self.W, self.calls, self.failat, self.how = W, [], failat, how
    def __call__(self, *, c, A, meq_idxs, k, p_idxs, **kw):
        if self.failat is not None and len(self.calls) == self.failat:
            raise {"primal": PrimalInfeasible, "crash": ZeroDivisionError, "unknown": UnknownInfeasible}[self.how]("stub")
        AA = A.tocsr().toarray()
        r, rows = 0, []
        for m in k: rows.append(range(r, r+m)); r += m
        cr, = rows[0]
        ycol, = [j for j in range(AA.shape[1]) if AA[cr, j]]
        cand = [i for i in range(1, len(rows)) if AA[rows[i][0], ycol] == -1]
        best = max(c[rows[i][0]] for i in cand)
        act = [i for i in cand if abs(c[rows[i][0]]/best - 1) < 1e-9]
        nu = np.zeros(len(c)); nu[cr] = 1
        pick = rng.choice(act)
        nu[rows[pick][0]] = 1
        primal = np.zeros(AA.shape[1]); primal[ycol] = np.log(best)
        for i in range(1, len(rows)):
            q = rows[i][0]
            for j in range(AA.shape[1]):
                if j != ycol and AA[q, j] and i not in cand: primal[j] = -np.log(c[q])/AA[q, j]
        self.calls.append((cand.index(pick), len(cand)))
        return dict(status="optimal", objective=float(c[cr]*best), primal=primal, nu=nu)

def grid(sol, lo, hi, n):
    s = np.asarray(sol.sampled_at, float)
    return "" if len(s) == n and abs(s[0] - two(lo)) < 1e-9*two(lo) and abs(s[-1] - two(hi)) < 1e-9*two(hi) and all(np.diff(s) > 0) else "the samples do not span the interval"

def session():
    global STRETCH
    ev = []
    STRETCH = rng.choice([1., 1., 1., 1/256, 1/32, 4., 16.])
    units = rng.random() < .4
    P = rng.choice(["scalar", "scalar", "element"])
    u = dict(units="ft") if units else {}
    if P == "scalar": p = Variable("p", **u)
    else: pv = VectorVariable(2, "p", **u); p = pv[rng.randrange(2)]
    q = Variable("q", *([("m")] if units and rng.random() < .5 else []))
    r = Variable("r")
    y = Variable("y", *(["kg"] if units else []))
    w = Variable("w")
    use_q = rng.random() < .4
    kq = rng.choice([1, 2, -1, F(1, 2)]) if use_q else 0
    gq = rng.choice([0, 1])
    r0 = rng.choice([-1, 0, 2])
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    H = lambda *x: rng.choice(x)
    cons, lines = [], []
    onef = (1*ureg.ft if units else 1)
    one = lambda d: (1*ureg.kg if units else 1)
    d, g0 = H(0, 0, 1, F(1, 2), -1), H(0, 1, -2)
    f = lambda z: int(z) if z == int(z) else float(z)
    pp = p/(1*ureg.ft) if units else p
    qq = q/(1*q.units) if getattr(q.key, "units", None) else q
    for _ in range(n):
        a, g, b, rr = H(-3, -2, -1, 0, 1, 2, 3, F(1, 2), F(-1, 2)), H(-2, -1, 0, 1, 2, 3, F(1, 2)), (H(0, 0, 1, -1) if use_q else 0), H(0, 0, 1)
        cons.append(y >= float(two(g))*pp**f(a)*qq**f(b)*r**rr*one(0))
        lines.append((a, g, b, rr))
    cons.append(w >= 3); cons.append(w <= 5)
    rng.shuffle(cons)
    order = None
    cost = y*float(two(g0))*pp**f(d)
    m = Model(cost, cons)
    if p.key not in m.vks: return session()
    if use_q:
        def link(c): return float(two(gq))*c[p]**f(kq)
        m.substitutions[q] = link
    m.substitutions[r] = float(two(r0))
    former = rng.choice(["none", "value", "value", "sweep", "zero"])
    if former == "value": m.substitutions[p] = 3
    elif former == "zero": m.substitutions[p] = 0
    elif former == "sweep": m.substitutions[p] = ("sweep", [1, 2, 3])
    keep = lambda: sorted((str(k), repr(v)) for k, v in m.substitutions.items())
    # the lines, in the order in which the constraints are given
    L = []
    for a, g, b, rr in lines:
        L.append(dict(a=fr(a + d + b*F(kq)), g=fr(g + g0 + b*gq + rr*r0)))
    # index of a row among the lines
    names = {}
    for c in m.flat(): names[len(names)] = c
    lo, hi = sorted(rng.sample(range(-4, 5), 2))
    qtol = H(F(1, 3), F(1, 7), F(3, 7), F(2, 49), F(1, 1001), F(5, 3))
    fail = None
    if rng.random() < .12: fail = (rng.choice([0, 1, 2]), rng.choice(["primal", "crash", "unknown"]))
    before = keep()
    stub = Stub(None, *(fail or ()))
    pts = []
    def solver(**kw):
        pts.append(m.substitutions[p])
        return stub(**kw)
    e = dict(op="auto", lines=L, lo=fr(lo), hi=fr(hi), tol=fr(qtol), calls=[], nodes=[], sol=[], samples=[], nsols=0, restored="", fail="", grid="", out=dict(t="ok", x=""))
    if fail: e["fail"] = {"primal": "PrimalInfeasible", "crash": "UnknownInfeasible", "unknown": "UnknownInfeasible"}[fail[1]]
    bounds = (two(lo), two(hi))
    if units and rng.random() < .3: pass
    ns = rng.choice([2, 5, 11])
    sol = None
    verb = rng.choice([0, 0, 0, 1, 2]) if not fail else 0
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            key = rng.choice([p, p.key] + (["p"] if P == "scalar" else []))
            sol = m.autosweep({key: bounds}, tol=float(qtol)*float(np.log(2))*STRETCH, samplepoints=ns, solver=solver, verbosity=verb)
    except Exception as x:
        e["out"] = dict(t="raise", x=exname(x))
    if keep() != before: e["restored"] = "substitutions have changed"
    if fail and len(stub.calls) <= fail[0] and e["out"]["t"] == "ok": e["fail"] = ""
    if sol is None: return [e]
    bst = sol.bst
    if rng.random() < .2:
        with contextlib.redirect_stdout(io.StringIO()):
            fn = os.path.join(os.environ["TMPDIR"], "bst%d.p" % os.getpid())
            bst.save(fn)
            with open(fn, "rb") as fh: bst = pickle.load(fh)
            os.remove(fn)
    # slopes the solver answered with, by point
    sigrow = {}
    prog = m.program
    cand = []
    for c in m.flat():
        if y.key in c.vks: cand.append(c)
    order = []
    for c in cand:
        for i, cc in enumerate(cons): pass
    try:
        idx = {}
        for j, c in enumerate(cand):
            # which line is this constraint?  by its exponents and coefficient
            h, = c.as_hmapslt1({}) 
            (exp, co), = h.items()
            ex = {k.name: v for k, v in exp.items()}
            for i, (a, g, b, rr) in enumerate(lines):
                if abs(ex.get("p", 0) - a) < 1e-9 and abs(ex.get("q", 0) - b) < 1e-9 and ex.get("r", 0) == rr and abs(co/two(g) - 1) < 1e-9: idx[j] = i
        for pt, (j, nc) in zip(pts, stub.calls):
            if nc != len(cand): raise Odd("a constraint is missing")
            e["calls"].append(dict(t=lg(pt), s=L[idx[j]]["a"]))
        def end(s): return dict(v=lg(s["variables"][p]), y=lg(s["cost"]), s=rat(s["sensitivities"]["variables"][p]))
        def meet(b):     # where the tangents meet: on a straight line that is anywhere, by rounding errors of the slopes
            try: return lg(b.splitval)
            except Odd:
                x = np.log2(float(mag(b.splitval)))/STRETCH
                straight = abs(b.splitub - b.splitlb) < 1e-9*max(1, abs(b.splitub))
                if straight and np.log2(b.bounds[0])/STRETCH < x < np.log2(b.bounds[1])/STRETCH: return fr(F(x).limit_denominator(64))
                raise
        def walk(b):
            e["nodes"].append(dict(lo=lg(b.bounds[0]), hi=lg(b.bounds[1]), leaf=not b.splits, x=lg(b.splitval) if b.splits else meet(b), p=end(b.sols[0]), q=end(b.sols[1])))
            for sb in b.splits or []: walk(sb)
        walk(bst)
        e["nsols"] = bst.nsols
        with contextlib.redirect_stdout(io.StringIO()):
            arr = bst.solarray if rng.random() < .5 else None
        if arr is None: e["sol"] = [dict(t=lg(s["variables"][p]), y=lg(s["cost"])) for s in bst.sollist]
        else: e["sol"] = [dict(t=lg(v), y=lg(cst)) for v, cst in zip(np.ravel(arr["variables"][p]), np.ravel(mag(arr["cost"])))]
        ts = sorted(set([F(lo), F(hi)] + [F(*nn["x"]) for nn in e["nodes"]] + [lo + F(rng.randrange(0, 4*(hi-lo)+1), 4) for _ in range(4)]))
        o = bst.sample_at([min(max(two(t), bounds[0]), bounds[1]) for t in ts])
        e["grid"] = grid(sol, lo, hi, ns)
        ck = rng.choice(["cost", m.cost])
        vals = zip(ts, np.ravel(mag(o.cost_lb())), np.ravel(mag(o.cost_ub())), np.ravel(mag(o[ck] if rng.random() < .5 else o(ck))), np.ravel(mag(o(p))))
        for t, lb, ub, mid, v in vals: e["samples"].append(dict(t=fr(t), lb=lg(lb), ub=lg(ub), mid=lg(mid), v=lg(v)))
        if getattr(o["cost"], "units", None) != getattr(bst.sols[0]["cost"], "units", None): raise Odd("units of sampled costs")
    except Odd as x: e = dict(op="fail", msg=str(x))
    return [e]

with open(out, "w") as f:
    for i in range(nsess):
        f.write(json.dumps(dict(id="auto%d" % i, tag="auto", ev=session(), stretch=STRETCH)) + "\n")
