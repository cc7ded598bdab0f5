"""Expands random expressions and records the expansions for TaylorTrace.  usage: tay.py OUT n"""
import sys, json, os, random, warnings, math
from fractions import Fraction as F
import numpy as np
from exn import exname
from gpkit import Variable, VectorVariable, ureg
from gpkit.tools.tools import te_exp_minus1, te_secant, te_tangent
warnings.simplefilter("ignore")
out, nsess = sys.argv[1], int(sys.argv[2])
rng = random.Random(int(os.environ["VERIF_SEED"]) * 7919 + 30)
H = lambda *x: rng.choice(x)
FNS = {"exp": te_exp_minus1, "sec": te_secant, "tan": te_tangent}
power = lambda fn, i: i if fn == "exp" else 2*i if fn == "sec" else 2*i - 1

class Odd(Exception): pass
def rat(c):
    f = F(float(c)).limit_denominator(200000)
    if abs(float(f) - float(c)) > 1e-11*max(1, abs(float(c))): raise Odd("number %.12g" % c)
    return [f.numerator, f.denominator]
def limbs(n):
    r = []
    while n: r.append(n % 10000); n //= 10000
    return r
class Vars:
    def __init__(self, vec=False):
        if vec: self.v = VectorVariable(2, "x"), Variable("y"), Variable("z")
        else: self.v = Variable("x"), Variable("y"), Variable("z")
    def keys(self, j): return [v[j].key if hasattr(v, "shape") and v.shape else v.key for v in self.v]
def terms(p, keys):
    "exponents (times SC=2) and coefficients"
    if not hasattr(p, "hmap"): return [([0]*3, float(p))] if p else []
    if getattr(p, "units", None): raise Odd("units")
    res = []
    for exp, c in p.hmap.items():
        if set(exp) - set(keys): raise Odd("other variables")
        e = [exp.get(k, 0)*2 for k in keys]
        if any(x != int(x) for x in e): raise Odd("exponents")
        res.append(([int(x) for x in e], c))
    return res
fl = lambda q: int(q) if q == int(q) else float(q)

def session(i):
    ev = []
    for _ in range(H(1, 2, 3)):
        fn = H("exp", "sec", "tan")
        vec = rng.random() < .25
        V = Vars(vec)
        mono = lambda: (fl(H(F(1), F(1), F(2), F(1, 2), F(3))), [H(0, 0, 1, 2, -1, F(1, 2)) for _ in range(3)])
        build = lambda ms: sum((c*V.v[0]**fl(e[0])*V.v[1]**fl(e[1])*V.v[2]**fl(e[2]) for c, e in ms[1:]), ms[0][0]*V.v[0]**fl(ms[0][1][0])*V.v[1]**fl(ms[0][1][1])*V.v[2]**fl(ms[0][1][2]))
        if rng.random() < .5:
            ms = [mono() for _ in range(H(1, 1, 2, 2, 3))]
            if vec and not any(e[0] for c, e in ms): ms[0] = (1, [1, 0, 0])
            n = H(0, 1, 2, 3) if fn == "exp" else H(0, 1, 2)
            e = dict(op="poly", fn=fn, n=n, want="ok", out="ok", msg="", arg=[], res=[])
        else:
            ms = [(H(1, 2, .5, 4), [H(1, 2, -1, F(1, 2)), H(0, 1), H(0, 0, -1)])]
            n = H(1, 2, 3, 5, 8, 10, 12, 13, 14, 15, 16, 18)
            if fn == "exp": n = min(n, 16)
            e = dict(op="mono", fn=fn, n=n, want="NotImplementedError" if fn == "tan" and n > 15 else "ok", out="ok", msg="", arg=[int(2*x) for x in ms[0][1]], lead=0, terms=[])
        p = build(ms)
        plain = not vec and len(ms) == 1 and ms[0][0] == 1 and ms[0][1] == [1, 0, 0]
        if plain and rng.random() < .5: p = V.v[0]
        before = repr(p)
        try: q = FNS[fn](p, n)
        except Exception as x: e["out"] = exname(x)
        else:
            try:
                if repr(p) != before: raise Odd("the argument was changed")
                j = rng.randrange(2) if vec else 0
                if vec and hasattr(q, "shape"):
                    if q.shape != (2,): raise Odd("another shape")
                    q = q[j]
                elif vec and n: raise Odd("another shape")
                keys = V.keys(j)
                got = terms(q, keys)
                if e["op"] == "poly":
                    e["arg"] = [dict(e=x, c=rat(c)) for x, c in terms(p[j] if vec else p, keys)]
                    if any(abs(c[0]) > 60000 or c[1] > 60000 for c in [rat(c) for x, c in got]): continue
                    e["res"] = [dict(e=x, c=rat(c)) for x, c in got]
                else:
                    c0 = F(ms[0][0])
                    lead = [c for x, c in got if not any(x)]
                    e["lead"] = lead[0] if lead else 0
                    if e["lead"] not in (0, 1): raise Odd("the constant term is wrong")
                    e["lead"] = int(e["lead"])
                    first = [(x, k) for k, x in enumerate(e["arg"]) if x][0]
                    for x, c in got:
                        if not any(x): continue
                        k = F(x[first[1]], first[0])
                        if k.denominator != 1 or k < 1: raise Odd("exponents that are no power of the argument's")
                        b = F(float(c))*math.factorial(int(k))/c0**int(k)*10**12
                        if b < 0: raise Odd("a negative coefficient")
                        e["terms"].append(dict(e=x, b=limbs(round(b))))
            except Odd as x: e["msg"] = str(x)
        ev.append(e)
    return dict(id="tay%d" % i, tag="taylor", ev=ev)
with open(out, "w") as f:
    for i in range(nsess): f.write(json.dumps(session(i)) + "\n")
