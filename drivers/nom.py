"""Runs random and enumerated expression programs in the real code and records them for NomialTrace.
usage: nom.py MODE OUT nprog   (MODE: algebra | subst | calculus | text)"""
from exn import exname
import sys, json, os, random, itertools
from fractions import Fraction as F
import numpy as np
import gpkit
from gpkit import Variable, VectorVariable, SignomialsEnabled
from gpkit.nomials import Signomial, Monomial, Posynomial, NomialArray

mode, out, nprog = sys.argv[1], sys.argv[2], int(sys.argv[3])
rng = random.Random(int(os.environ["VERIF_SEED"]) * 104729 + {"algebra": 1, "subst": 2, "calculus": 3, "text": 4, "constraint": 5}[mode])
SC, NV, LIM, TERMS, EXPS = 4, 4, 128, 8, 6
if mode == "text":      # names that depend on what is left out of them
    x, y, v = (Variable("x", lineage=(("A", 0),)), Variable("y", lineage=(("A", 0), ("B", 2))),
               VectorVariable(2, "v", lineage=(("C", 1),)))
else: x, y, v = Variable("x"), Variable("y"), VectorVariable(2, "v")
VARS = [x, y, v[0], v[1]]
IDX = {vv.key: i for i, vv in enumerate(VARS)}

# -- scale: the specification's variable i is the code's variable i times 2**-G[i]. Powers of two cost no precision,
#    so that a program has to mean the same whatever the scale of its variables is.
G = [0]*NV
def setscale():
    G[:] = [0]*NV if mode == "text" or rng.random() < .6 else [rng.choice([-48, -24, 0, 24, 48]) for _ in range(NV)]
def factor(e): return 2.0**sum(g*z//SC for g, z in zip(G, e))
def conc(i, c):
    "the code's value for the specification's value c of variable i"
    c = F(c) * F(2)**G[i]
    return float(c)

# -- recording -------------------------------------------------------------------------------
class Odd(Exception): pass
NEAR = False     # coefficients that differ by 2**-20
def rat(c, lim=70000):
    if NEAR: lim = 2**29
    c = float(c)
    if c != c or abs(c) == float("inf"): raise Odd("non-finite coefficient %r" % c)
    f = F(c).limit_denominator(lim)
    if abs(f - F(c)) > 1e-13 * max(1, abs(f)): raise Odd("coefficient %r" % c)
    if abs(f.numerator) > 10**9: raise Odd("coefficient %r" % c)
    return [f.numerator, f.denominator]
def terms(o):
    "the polynomial an expression represents, as the public attributes show it"
    if isinstance(o, (int, float, np.number)):
        return [] if o == 0 else [dict(e=[0]*NV, c=rat(o))]
    if getattr(o, "units", None): raise Odd("units %s" % o.units)
    ts = []
    for exp, c in zip(o.exps, o.cs):
        e = [0]*NV
        for vk, p in exp.items():
            if vk not in IDX: raise Odd("unknown variable %s" % vk)
            if not p: raise Odd("zero exponent")
            s = float(p)*SC
            if s != int(s): raise Odd("exponent %r" % p)
            e[IDX[vk]] = int(s)
        ts.append(dict(e=e, c=rat(c if not any(G) else float(c)*factor(e))))
    if len(ts) == 1 and ts[0]["c"][0] == 0 and not any(ts[0]["e"]): return []   # the zero expression
    if not ts: raise Odd("an expression without terms")
    return ts
def obs(o):
    if isinstance(o, (int, float, np.number)): return dict(t="poly", cls="num", p=terms(o))
    if not isinstance(o, Signomial): return dict(t="odd", x="a " + type(o).__name__)
    try: return dict(t="poly", cls=type(o).__name__ if type(o).__name__ in ("Signomial", "Posynomial") else "Monomial", p=terms(o))
    except Odd as e: return dict(t="odd", x=str(e))
def digest(o):
    try: return json.dumps(terms(o)) + type(o).__name__
    except Odd as e: return "odd " + str(e)

# -- guard: keeps numbers within what TLC's integers can take -----------------------------------
def small(t):
    if NEAR: return len(t) <= TERMS
    return (len(t) <= TERMS and all(abs(z["c"][0]) <= LIM and z["c"][1] <= LIM and all(abs(a) <= EXPS*SC for a in z["e"]) for z in t))

class Prog:
    def __init__(self, sig, tag):
        self.regs, self.p, self.ev, self.sig, self.tag, self.stop = [], [], [], sig, tag, False
    def do(self, op, a, fn, **kw):
        "runs fn on the registers a, records the outcome; True if a register was added"
        before = [digest(self.regs[i]) for i in a]
        try: r = fn(*[self.regs[i] for i in a]); o = obs(r)
        except Exception as e: r, o = None, dict(t="raise", x=exname(e))
        ch = [i+1 for i, b in zip(a, before) if digest(self.regs[i]) != b]
        self.ev.append(dict(op=op, a=[i+1 for i in a], out=o, ch=ch, **kw))
        if o["t"] == "odd": self.stop = True
        if o["t"] == "poly":
            self.regs.append(r); self.p.append(o["p"])
            if not small(o["p"]): self.stop = True
            return True
        return False
    def record(self, op, a, **kw):
        self.ev.append(dict(op=op, a=[i+1 for i in a], ch=[], **kw))
    def isnum(self, i): return not isinstance(self.regs[i], Signomial)

def mulok(*ps):
    n = 1
    for p in ps: n *= max(1, len(p))
    m = 1
    for p in ps: m *= max([abs(t["c"][0]) for t in p] + [t["c"][1] for t in p] + [1])
    e = sum(max([abs(z) for t in p for z in t["e"]] + [0]) for p in ps)
    return n <= 3*TERMS and m <= 4*LIM*LIM and e <= EXPS*SC

CONST = [F(1), F(2), F(3), F(1, 2), F(1, 4), F(5), F(3, 2), F(4)]
def number(sig, zero=True):
    c = rng.choice(CONST + ([F(0)] if zero else []) + ([-z for z in CONST] if sig else []))
    f = rng.choice([float, np.float64]) if c.denominator > 1 or rng.random() < .4 else int
    return f(c)

def newprog(sig, tag):
    P = Prog(sig, tag)
    setscale()
    P.gauge = list(G)
    for i, vv in enumerate(VARS):
        P.do("var", [], lambda vv=vv, i=i: vv if not G[i] else vv*2.0**-G[i], i=i+1)
    return P

def arith(P, weights=None):
    "one random operation"
    n = len(P.regs)
    pick = lambda: rng.randrange(n) if rng.random() < .5 else rng.randrange(max(0, n-4), n)
    op = rng.choice(weights or ["num", "add", "add", "add", "sub", "sub", "mul", "mul", "mul", "div", "pow", "powm", "neg", "sum", "prod", "eq", "eq", "copy"])
    if op == "num":
        c = number(P.sig); P.do("num", [], lambda: c, c=rat(c)); return
    a, b = pick(), pick()
    if op in ("add", "sub", "mul", "div", "eq") and P.isnum(a) and P.isnum(b): return
    if op == "add": P.do("add", [a, b], lambda s, t: s + t)
    elif op == "sub": P.do("sub", [a, b], lambda s, t: s - t)
    elif op == "mul":
        if mulok(P.p[a], P.p[b]): P.do("mul", [a, b], lambda s, t: s * t)
    elif op == "div":
        if len(P.p[b]) == 0: return
        if len(P.p[b]) != 1:
            P.do("div", [a, b], lambda s, t: s / t); return
        if mulok(P.p[a], P.p[b]): P.do("div", [a, b], lambda s, t: s / t)
    elif op == "pow":
        if P.isnum(a): return
        k = rng.choice([0, 1, 2, 2, 3])
        how = rng.choice([int, int, np.int64, np.int32])
        if mulok(*[P.p[a]]*k): P.do("pow", [a], lambda s: s**how(k), n=k, k=1)
    elif op == "powm":
        if P.isnum(a) or len(P.p[a]) != 1: return
        t = P.p[a][0]
        if t["c"][0] <= 0: return
        nn, kk = rng.choice([(-1, 1), (-2, 1), (1, 2), (-1, 2), (3, 2)])
        if kk == 2 and (any(z % 2 for z in t["e"]) or not all(any(r*r == q for r in range(65)) for q in t["c"])): return
        if not mulok(*[P.p[a]]*(abs(nn))): return
        P.do("pow", [a], lambda s: s**(nn/kk if kk > 1 else nn), n=nn, k=kk)
    elif op == "neg":
        if not P.isnum(a) and (P.sig or mode == "algebra" and rng.random() < .02): P.do("neg", [a], lambda s: -s)
    elif op in ("sum", "prod"):
        idx = [pick() for _ in range(rng.choice([2, 3, 4]))]
        if any(P.isnum(i) for i in idx): return
        if op == "prod" and not mulok(*[P.p[i] for i in idx]): return
        style = rng.randrange(2)
        if op == "sum": P.do("sum", idx, (lambda *s: sum(s)) if style else (lambda *s: NomialArray(list(s)).sum()))
        else: P.do("prod", idx, lambda *s: NomialArray(list(s)).prod())
    elif op == "eq": compare(P, a, b)
    elif op == "copy":
        if not P.isnum(a): P.do("copy", [a], lambda s: Signomial(s, require_positive=False) if rng.random() < .5 else Signomial(s.hmap, require_positive=False))

def compare(P, a, b):
    s, t = P.regs[a], P.regs[b]
    before = digest(s), digest(t)
    import io, contextlib
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = s == t
            ne = s != t
        v = bool(r)
        h = hash(s) == hash(t) if isinstance(s, Signomial) and isinstance(t, Signomial) else True
    except Exception as e:
        P.ev.append(dict(op="num", a=[], out=dict(t="raise", x=exname(e) + " from =="), c=[1, 1], ch=[])); P.stop = True
        return
    ch = [i+1 for i, bf in zip((a, b), before) if digest(P.regs[i]) != bf]
    P.ev.append(dict(op="eq", a=[a+1, b+1], v=v, h=h, ch=ch))

# -- substitution -------------------------------------------------------------------------------
def valspace(P, a):
    half = any(z % SC for t in P.p[a] for z in t["e"])
    return [F(1), F(4), F(1, 4), F(9)] if half else [F(1), F(2), F(1, 2), F(3), F(-1), F(1, 4), F(-2)]

def assignment(P, a, full=False):
    vals, s = valspace(P, a), {}
    for i in range(NV):
        if full or rng.random() < .5:
            neg = any(t["e"][i] < 0 for t in P.p[a])
            frac = any(t["e"][i] % SC for t in P.p[a])
            z = rng.random() < .2 and not neg
            s[i] = F(0) if z else rng.choice([w for w in vals if not frac or w > 0])
    return s

def subok(P, a, s):
    for t in P.p[a]:
        c = F(*t["c"])
        for i, w in s.items():
            if w == 0: continue
            k = abs(F(t["e"][i], SC)); m = max(abs(w.numerator), w.denominator)
            if k * (m.bit_length()) > 10: return False
        for i, w in s.items():     # roots have to be rational
            if w and abs(float(w))**(t["e"][i]/SC) != float(F(abs(float(w))**(t["e"][i]/SC)).limit_denominator(2000)): return False
        # product of all must stay small
        bits = sum(float(abs(F(t["e"][i], SC))) * np.log2(max(abs(w.numerator), w.denominator)) for i, w in s.items() if w)
        if bits > 10: return False
    return True

def subdict(s):
    "one of the many ways of writing an assignment down"
    d = {}
    s = dict(s)
    items = list(s.items()); rng.shuffle(items)
    if 2 in s and 3 in s and rng.random() < .5:   # the whole vector
        w = [conc(2, s[2]), conc(3, s[3])]
        form = rng.randrange(3)
        val = w[0] if form == 0 and w[0] == w[1] else (np.array(w) if form == 1 else w)
        d[rng.choice([v, v.key, "v"])] = val
        items = [(i, c) for i, c in items if i < 2]
    for i, c in items:
        val = conc(i, c)
        if rng.random() >= .5 and val == int(val) and abs(val) < 2**30: val = int(val)
        r = rng.random()
        if r < .15 and c > 0: val = Monomial(float(val))
        elif r < .3: val = np.float64(val)
        elif r < .4: val = gpkit.ureg.Quantity(float(val), "dimensionless")
        name = ["x", "y", None, None][i]
        k = rng.choice([VARS[i], VARS[i].key] + ([name] if name else []))
        d[k] = val
    if rng.random() < .2: d[Variable("unrelated")] = 7
    if rng.random() < .2: d["nosuchname"] = 3
    if rng.random() < .3 and all(hasattr(k, "key") for k in d):
        from gpkit.keydict import KeyDict
        kd = KeyDict()
        for k, val in d.items(): kd[k] = val
        d = kd
    return d

def sj(s): return [dict(i=i+1, c=[c.numerator, c.denominator]) for i, c in s.items()]

def subst(P, a, s=None):
    if P.isnum(a): return False
    s = assignment(P, a) if s is None else s
    if not subok(P, a, s): return False
    d = subdict(s)
    anysign = rng.random() < .5
    snap = dict((k, repr(val)) for k, val in d.items()) if type(d) is dict else None
    ok = P.do("subst", [a], lambda p: p.sub(d, require_positive=False) if anysign else p.sub(d), s=sj(s), anysign=anysign)
    if snap is not None and snap != dict((k, repr(val)) for k, val in d.items()):
        P.ev[-1]["ch"] = [a+1]
    return ok

def twostep(P, a):
    "the same assignment at once, and in two steps: the results must be equal"
    if P.isnum(a): return
    s = assignment(P, a)
    if not subok(P, a, s) or len(s) < 2: return
    if any(t["e"][i] < 0 for t in P.p[a] for i, w in s.items() if w == 0): return
    n = len(P.regs)
    if not subst(P, a, s): return
    items = list(s.items()); rng.shuffle(items)
    k = rng.randrange(1, len(items))
    if not subst(P, a, dict(items[:k])): return
    if not P.isnum(len(P.regs)-1) and subst(P, len(P.regs)-1, dict(items[k:])): compare(P, n, len(P.regs)-1)

# -- calculus -------------------------------------------------------------------------------
def rescaled(p, f):
    if f == 1: return p
    with SignomialsEnabled(): return p*f
def diff(P, a):
    if P.isnum(a): return
    i = rng.randrange(NV)
    var = rng.choice([VARS[i], VARS[i].key])
    P.do("diff", [a], lambda p: rescaled(p.diff(var), 2.0**G[i]), i=i+1)

def approx(P, a):
    if P.isnum(a) or not P.p[a]: return
    p = P.regs[a]
    s = {i: rng.choice([F(1), F(1), F(2), F(1, 2), F(4)]) for i in range(NV) if rng.random() < .93}
    half = any(z % SC for t in P.p[a] for z in t["e"])
    if half: s = {i: rng.choice([F(1), F(4), F(1, 4)]) for i in s}
    if not subok(P, a, s): return
    used = {i for i in range(NV) if any(t["e"][i] for t in P.p[a])}
    if used <= set(s):
        val = P_eval(P.p[a], s)
        if val is None: return      # irrational
        if val == 0: return
        if max(abs(val.numerator), val.denominator) > 1000: return
        if val < 0: return    # an approximation of a negative value is outside what is promised
    x0 = {VARS[i]: conc(i, c) for i, c in s.items()}
    before = digest(p)
    try:
        m = p.mono_approximation(x0) if rng.random() < .5 or type(p).__name__ == "Signomial" else p.mono_lower_bound(x0)
        exp, = m.exps
        ex = [rat(exp.get(VARS[i].key, 0), 60000) for i in range(NV)]
        ms = m.sub(x0)
        at = float(ms.cs[0]) * factor([int(float(dict(ms.exps[0]).get(VARS[i].key, 0))*SC) for i in range(NV)])
        probe = []
        if used <= set(s):
            for _ in range(6):
                q = {i: rng.choice([F(1), F(4), F(1, 4), F(9)] if half else [F(1), F(2), F(3), F(1, 2), F(4), F(1, 4)]) for i in range(NV)}
                if not subok(P, a, q): continue
                pv = P_eval(P.p[a], q)
                if pv is None or max(abs(pv.numerator), pv.denominator) > 20000: continue
                mv = float(m.sub({VARS[i]: conc(i, c) for i, c in q.items()}).cs[0])
                if mv > 20000: mv = 20000.
                probe.append(dict(s=sj(q), lo=[int(np.floor(mv*1000 - 1e-3*max(1, abs(mv)))), 1000]))
        o = dict(t="poly")
        same = m == p
        same = bool(same)
        P.record("approx", [a], s=sj(s), x=ex, at=rat(at), probe=probe, same=same, out=o)
    except Odd as e:
        P.ev.append(dict(op="num", a=[], c=[1, 1], ch=[], out=dict(t="odd", x="approximation " + str(e)))); P.stop = True
        return
    except Exception as e:
        P.record("approx", [a], s=sj(s), x=[], at=[0, 1], probe=[], same=False, out=dict(t="raise", x=exname(e)))
    if digest(p) != before: P.ev[-1]["ch"] = [a+1]

def P_eval(t, s):
    "guard only: the value at a point, None if irrational"
    tot = F(0)
    for z in t:
        c = F(*z["c"])
        for i, w in s.items():
            k = F(z["e"][i], SC)
            if k == 0: continue
            if w == 0 and k < 0: return None
            r = float(w)**float(k)
            f = F(r).limit_denominator(10**6)
            if abs(float(f)-r) > 1e-12*max(1, r): return None
            c *= f
        tot += c
    return tot

def chop(P, a):
    if P.isnum(a) or not P.p[a] or (not P.sig and any(t["c"][0] <= 0 for t in P.p[a])): return
    before = digest(P.regs[a])
    try: parts = [terms(m) for m in P.regs[a].chop()]
    except Exception as e:
        P.ev.append(dict(op="num", a=[], c=[1, 1], ch=[], out=dict(t="raise", x=exname(e)+" from chop"))); P.stop = True; return
    P.record("chop", [a], parts=parts)
    if digest(P.regs[a]) != before: P.ev[-1]["ch"] = [a+1]

# -- constraints ----------------------------------------------------------------------------
def quiet():
    import io, contextlib
    return contextlib.redirect_stdout(io.StringIO())

def con(P, a, b, rel=None, given=None):
    "writes an inequality between two registers and asks for its geometric-program form"
    if P.isnum(a) and P.isnum(b): return
    if not mulok(P.p[a], P.p[b]): return
    l, r = P.regs[a], P.regs[b]
    rel = rel or rng.choice(["<=", ">="])
    if rel == "=" and (len(P.p[a]) != 1 or len(P.p[b]) != 1 or P.p[a][0]["c"][0] <= 0 or P.p[b][0]["c"][0] <= 0): return
    used = {i for q in (a, b) for t in P.p[q] for i in range(NV) if t["e"][i]}
    s = {}
    if given is not None: s = given
    elif used and rng.random() < .6:
        half = any(z % SC for q in (a, b) for t in P.p[q] for z in t["e"])
        lower = P.p[a] if rel == "<=" else P.p[b]
        upper = P.p[b] if rel == "<=" else P.p[a]
        gp = len(upper) == 1 and all(t["c"][0] > 0 for t in upper) and all(t["c"][0] > 0 for t in lower)
        for i in used:
            if rng.random() < .5:
                s[i] = rng.choice([F(1), F(4), F(1, 4), F(9)] if half else [F(1), F(2), F(1, 2), F(3), F(1, 4)] + ([] if gp else [F(-1), F(-2)]))
                if rng.random() < .1 and rel != "=" and not any(t["e"][i] < 0 for t in lower) and not any(t["e"][i] for t in upper): s[i] = F(0)
        if not subok(P, a, s) or not subok(P, b, s): return
    kd = {VARS[i].key: conc(i, c) for i, c in s.items()}
    before = digest(l), digest(r)
    at, x, ps = "ok", "", []
    with quiet():
        try:
            c = l <= r if rel == "<=" else l >= r if rel == ">=" else l == r
            if c is False or isinstance(c, (bool, np.bool_)): at, x = "make", str(bool(c))
        except Exception as e: at, x = "make", exname(e)
        if at == "ok":
            try: hms = c.as_hmapslt1(kd)
            except Exception as e: at, x = "sub", exname(e)
    if at == "ok":
        try: ps = [terms(Signomial(h, require_positive=False)) for h in hms]
        except Odd as e: at, x = "odd", str(e)
    P.record("con", [a, b], rel=rel, s=sj(s), at=at, x=x, ps=ps)
    P.ev[-1]["ch"] = [i+1 for i, bf in zip((a, b), before) if digest(P.regs[i]) != bf]
    if at == "ok" and rng.random() < .3:      # asked again: the same answer, whatever was asked in between
        with quiet():
            try:
                c.as_hmapslt1({VARS[i].key: 2.0 for i in s})
                str(c)
            except Exception: pass
            try: ps2 = [terms(Signomial(h, require_positive=False)) for h in c.as_hmapslt1(kd)]
            except Exception as e: at, x, ps2 = "sub", "again " + exname(e), []
        P.record("con", [a, b], rel=rel, s=sj(s), at=at, x=x, ps=ps2)

# -- text -------------------------------------------------------------------------------
SUP = {c: i for i, c in enumerate("⁰¹²³⁴⁵⁶⁷⁸⁹")}
class Unreadable(Exception): pass
class Reader:
    "reads printed expressions with the usual precedence: power, then * and /, then + and -, left to right"
    def __init__(self, s, names):
        import re
        self.names = names
        self.t = [w for w in re.findall(r"\s*([0-9]+\.?[0-9]*(?:e[+-]?[0-9]+)?|[A-Za-z][A-Za-z_0-9]*(?:\.[A-Za-z][A-Za-z_0-9]*)*(?![A-Za-z_0-9(])(?:\[[0-9:]+\])?|\.sum\(\)|\.prod\(\)|[()·*/^+\-⁰¹²³⁴⁵⁶⁷⁸⁹]|\S)", s)]
        self.i = 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ""
    def next(self): self.i += 1; return self.t[self.i-1]
    def whole(self):
        e = self.add()
        if self.i != len(self.t): raise Unreadable()
        return e
    def add(self):
        e = self.mul()
        while self.peek() in ("+", "-") and self.peek():
            o = self.next()
            e = dict(k="add" if o == "+" else "sub", l=e, r=self.mul())
        return e
    def mul(self):
        return self.mulrest(self.signed())
    def signed(self):
        if self.peek() == "-":
            self.next()
            return dict(k="neg", l=self.signed())
        return self.power()
    def mulrest(self, e):
        while self.peek() in ("·", "*", "/") and self.peek():
            o = self.next()
            r = self.signed()
            e = dict(k="div" if o == "/" else "mul", l=e, r=r)
        return e
    def power(self):
        b = self.atom()
        if self.peek() == "^":
            self.next()
            neg = self.peek() == "-"
            if neg: self.next()
            z = F(self.next())
            z = -z if neg else z
        elif self.peek() and self.peek() in SUP:
            digits = ""
            while self.peek() and self.peek() in SUP: digits += str(SUP[self.next()])
            z = F(int(digits))
        else: return b
        if self.peek() and (self.peek() == "^" or self.peek() in SUP): raise Unreadable()   # x^y^z: no expression here has one
        return dict(k="pow", l=b, c=[z.numerator, z.denominator])
    def atom(self):
        w = self.next() if self.peek() else ""
        if w == "(":
            e = self.add()
            if self.peek() != ")": raise Unreadable()
            self.next(); return e if e["k"] != "list" else self.reduce(e)
        if w == "[":      # elements of an array, to be added or multiplied
            es = [self.add()]
            while self.peek() == ",":
                self.next(); es.append(self.add())
            if self.peek() != "]": raise Unreadable()
            self.next()
            e = dict(k="list", es=es)
            return e if self.peek() == ")" else self.reduce(e)
        if w in self.names: return dict(k="var", i=self.names[w])
        try: f = F(w)
        except ValueError: raise Unreadable()
        return dict(k="num", c=[f.numerator, f.denominator])

    def reduce(self, e):
        w = self.next() if self.peek() else ""
        if w not in (".sum()", ".prod()"): raise Unreadable()
        r = e["es"][0]
        for q in e["es"][1:]: r = dict(k="add" if w == ".sum()" else "mul", l=r, r=q)
        return r

def depthok(t, d=0):
    return d < 40 and all(depthok(t[k], d+1) for k in ("l", "r") if k in t)

def text(P, a):
    if P.isnum(a) or not P.p[a]: return
    o = P.regs[a]
    if any(len("%.3g" % (z["c"][0]/z["c"][1])) and float("%.3g" % (z["c"][0]/z["c"][1])) != z["c"][0]/z["c"][1] for z in P.p[a]): return
    if any(float("%.2g" % (q/SC)) != q/SC for z in P.p[a] for q in z["e"]): return
    for excl in rng.sample([(), ("units",), ("lineage",), ("units", "lineage"), ("lineage", "units")], rng.choice([1, 2, 2, 3])):
        before = digest(o)
        names = {"x": 1, "y": 2, "v[0]": 3, "v[1]": 4} if "lineage" in excl else {"A.x": 1, "A.B2.y": 2, "C1.v[0]": 3, "C1.v[1]": 4}
        try:
            s = str(o) if not excl else o.str_without(excl)
            if s != (str(o) if not excl else o.str_without(excl)): raise Unreadable()
            if "π" in s: return
            P.record("str", [a], t=Reader(s, names).whole())
        except (Unreadable, IndexError, ValueError, ZeroDivisionError, TypeError, AttributeError) as e:
            P.record("badstr", [a], txt=exname(e) + " " + (s if "s" in dir() else "")[:60].encode("ascii", "replace").decode())
        if digest(o) != before: P.ev[-1]["ch"] = [a+1]

# -- programs -------------------------------------------------------------------------------
def guarded(sig, fn, P):
    if sig:
        with SignomialsEnabled(): fn()
    else: fn()

def randomprog(k):
    sig = rng.random() < .65
    P = newprog(sig, "random")
    def body():
        n = rng.choice([4, 6, 8, 10])
        while len(P.ev) < NV + n and not P.stop:
            k0 = len(P.ev)
            r = rng.random()
            last = len(P.regs) - 1
            a = last if rng.random() < .6 else rng.randrange(len(P.regs))
            if mode == "algebra" or r < .5: arith(P)
            elif mode == "subst": subst(P, a) if r < .75 else twostep(P, a)
            elif mode == "calculus": diff(P, a) if r < .7 else (approx(P, a) if r < .95 else chop(P, a))
            elif mode == "text": text(P, a)
            elif mode == "constraint": con(P, a, rng.randrange(len(P.regs)), rng.choice(["<=", ">=", "<=", ">=", "="]))
            if len(P.ev) == k0 and rng.random() < .05: break
        if P.stop: return
        if mode == "subst":
            for a in range(NV, len(P.regs)): subst(P, a, assignment(P, a, True)) if not P.stop else None
        if mode == "calculus" and not P.stop:
            for a in range(NV, len(P.regs)):
                if P.stop: break
                diff(P, a); approx(P, a)
        if mode == "text":
            for a in range(len(P.regs)): text(P, a)
        if mode == "constraint":
            for a in range(NV, len(P.regs)): con(P, a, rng.randrange(len(P.regs)))
        if mode == "algebra":
            for _ in range(4): compare(P, rng.randrange(len(P.regs)), rng.randrange(len(P.regs))) if not P.stop else None
    guarded(sig, body, P)
    return P

def smallpolys():
    "all polynomials with at most two terms of a small monomial set, as construction recipes"
    monos = [(), (0,), (1,), (0, 0), (0, 1), (2,)]
    for k in (1, 2):
        for ms in itertools.combinations(monos, k):
            for cs in itertools.product([1, -1, F(1, 2)], repeat=k):
                yield list(zip(ms, cs))

def build(P, recipe):
    "registers holding the recipe's polynomial; returns its register or None"
    acc = None
    for m, c in recipe:
        P.do("num", [], lambda: float(c), c=rat(c)); t = len(P.regs)-1
        if not m:
            P.do("mul", [t, 0], lambda s, q: s*q); P.do("div", [len(P.regs)-1, 0], lambda s, q: s/q); t = len(P.regs)-1
        for i in m:
            if not P.do("mul", [t, i], lambda s, q: s*q): return None
            t = len(P.regs)-1
        if acc is None: acc = t
        else:
            if not P.do("add", [acc, t], lambda s, q: s+q): return None
            acc = len(P.regs)-1
    return acc

def exhaustive():
    "every operation on every pair of small polynomials"
    polys = list(smallpolys())
    pairs = [(p, q) for p in polys for q in polys]
    rng.shuffle(pairs)
    for p, q in pairs[:nprog//2]:
        P = newprog(True, "small")
        def body():
            a, b = build(P, p), build(P, q)
            if a is None or b is None or P.stop: return
            if mode == "constraint":
                for rel in ("<=", ">=", "=", "<="): con(P, a, b, rel)
                if P.stop: return
            P.do("add", [a, b], lambda s, t: s+t)
            P.do("sub", [a, b], lambda s, t: s-t); d = len(P.regs)-1
            P.do("mul", [a, b], lambda s, t: s*t)
            if P.stop: return
            if mode == "constraint":
                for _ in range(4): con(P, rng.choice([a, b, len(P.regs)-1, len(P.regs)-2, 0, 2]), rng.randrange(len(P.regs)))
                return
            compare(P, a, b)
            P.do("add", [d, b], lambda s, t: s+t)
            if P.stop: return
            compare(P, len(P.regs)-1, a)
            P.do("pow", [a], lambda s: s**2, n=2, k=1)
            if mode == "subst":
                for z in range(len(P.regs)-5, len(P.regs)): twostep(P, z) if not P.stop else None
            if mode == "calculus":
                for z in range(len(P.regs)-5, len(P.regs)):
                    if P.stop: break
                    diff(P, z)
            if mode == "text":
                for z in range(len(P.regs)): text(P, z)
        guarded(True, body, P)
        yield P

def near():
    "terms that nearly cancel: their difference has to survive"
    global NEAR
    NEAR = True
    d = F(1, 2**20)
    polys = [r for r in smallpolys() if len(r) == 2]
    for _ in range(max(40, nprog//20)):
        p, q = rng.choice(polys), rng.choice(polys)
        p = [(m, c*rng.choice([1, 1+d, 1-d])) for m, c in p]
        if rng.random() < .6: q = [(m, -c if rng.random() < .5 else c) for m, c in ((m, c/abs(c)) for m, c in p)]
        P = newprog(True, "near")
        def body():
            a, b = build(P, p), build(P, q)
            if a is None or b is None or P.stop: return
            z = len(P.regs)
            P.do("add", [a, b], lambda s, t: s+t)
            P.do("sub", [a, b], lambda s, t: s-t)
            P.do("mul", [a, b], lambda s, t: s*t)
            if P.stop: return
            compare(P, a, b)
            if mode == "subst":
                for k in range(z, len(P.regs)):
                    subst(P, k, {i: rng.choice([F(1), F(2), F(1, 2)]) for i in range(NV) if rng.random() < .6}) if not P.stop else None
        guarded(True, body, P)
        yield P
    NEAR = False

def edge():
    "inequalities that a little decides: after substitution both sides are constants which are a few percent apart"
    monos = [(), (0,), (1,), (0, 1), (2,), (0, 3), (1, 1)]
    for _ in range(max(60, nprog//15)):
        l = [(rng.choice(monos), F(rng.choice([1, 2, 3]))) for _ in range(rng.choice([1, 1, 2, 3]))]
        m = rng.choice(monos)
        free = len(l) == 1 and l[0][0] == m and rng.random() < .5      # the variables cancel: nothing needs substituting
        s = {} if free else {i: rng.choice([F(1), F(2), F(1, 2)]) for i in {i for q, _ in l for i in q} | set(m)}
        val = lambda q: np.prod([F(s.get(i, 1)) for i in q]) if q else F(1)
        K = sum(c*val(q) for q, c in l) / val(m)
        c3 = K / rng.choice([F(21, 20), F(51, 50), F(201, 200), F(101, 100), F(1), F(1), F(99, 100), F(19, 20), F(11, 10), F(4, 3)])
        if max(c3.numerator, c3.denominator) > 3000: continue
        P = newprog(True, "edge")
        def body():
            a, b = build(P, l), build(P, [(m, c3)])
            if a is None or b is None or P.stop: return
            rel = rng.choice(["<=", "<=", ">="] + ["="]*(len(l) == 1))
            if rel == ">=": con(P, b, a, rel, s)
            else: con(P, a, b, rel, s)
        guarded(True, body, P)
        yield P

n = 0
with open(out, "w") as f:
    for P in itertools.chain(near() if mode in ("algebra", "subst") else (), edge() if mode == "constraint" else (), exhaustive(), (randomprog(i) for i in range(nprog))):
        n += 1
        if len(P.ev) > NV:
            f.write(json.dumps(dict(id="%s%d" % (P.tag, n), tag=P.tag, sig=P.sig, scale=P.gauge, ev=P.ev)) + "\n")
