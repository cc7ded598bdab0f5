"""Writes modules with documented model classes, imports them and records what they declared, for DocTrace.
usage: doc.py OUT n"""
import sys, json, os, random, io, contextlib, warnings, importlib.util, tempfile, shutil
from fractions import Fraction
import numpy as np
from exn import exname
import gpkit
from gpkit import Model, NamedVariables, ureg
warnings.simplefilter("ignore")
out, nprog = sys.argv[1], int(sys.argv[2])
rng = random.Random(int(os.environ["VERIF_SEED"]) * 15485863 + 23)
SC, NV = 2, 13
SCAL = ["3", "0.5", "1e3", "K", "2*3", "K*2", "0.1", "pi", "-2"]
VECT = {2: ["(1,2)", "T2", "(0.5,K)"], 3: ["(1,2,3)", "K3", "(1,)*3"]}
ENV = dict(K=7, T2=(5, 6), K3=np.array([1., 2., 4.]), pi=3.14159)
UNITS = ["m", "-", "kg/s", "ft", "N", "m**2", "km", "1/s"]
LABELS = ["", "", "length", "the 'best' of it", "of ('x')", "says \"yes\"", "Number of Variables", "the Constants", "Number of Variables of length 3",
          "Variable(3)", "VectorVariable", "# not a comment", "{0} {1} %s %d", r"\rho density", r"\nu and \u and \x", "ends in \\", "[m] again", "a [b", "µ ∂",
          "it's", "a  b", "(quite), so", "x = self.x", "for Upper Unbounded", "Lower Unbounded", "\\'", "', constant=True)", "')", "')) and"]
TEXTS = ["Some text", "see x [m] for more", "a 3 [m] length", "b [ft]", "no brackets here", "(1) or 'two'", "a = Variable('a')", "\"quoted\" \\ text", "The end", "Notes:", "----"]
BADDECL = [("nobrackets", lambda n: "%s 3 m length" % n), ("nobrackets", lambda n: "%s [m length" % n), ("fields", lambda n: "%s 3 4 [m] length" % n),
           ("fields", lambda n: "%s = 3 [m] l" % n), ("noname", lambda n: "[m] length"), ("noname", lambda n: " [-]")]
IDX = dict(a=1, b=2, c=3, d=4, e=5, v=6, w=9, p=11, q=12)

def indices(n, ln):
    if n == "o": return [13]
    if n.startswith("sub."): return [IDX[n[4:]]]
    return list(range(IDX[n], IDX[n] + (ln or 1)))

class Poly(dict):      # exponent tuple -> Fraction
    pass

def mono(atoms, k):
    "a random monomial: terms {i: exponent}, coefficient"
    e = [0]*NV
    for i in rng.sample(atoms, min(len(atoms), k)):
        e[i-1] = rng.choice([1, 1, 2, -1, -2, 3])*rng.choice([2, 2, 1])
    return tuple(e), Fraction(rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2]))

def polysrc(p, code):
    ts = []
    for e, c in p.items():
        f = [repr(float(c))] + ["%s**%r" % (code[i+1], x/SC) for i, x in enumerate(e) if x]
        ts.append("*".join(f))
    return "(" + " + ".join(ts) + ")"

def polyj(p):
    return [dict(e=list(e), c=[c.numerator, c.denominator]) for e, c in p.items()]

def constraint(atoms):
    "(source maker, record, limited sides, equality or None)"
    r = rng.random()
    if r < .35:
        for _ in range(9):
            (e1, c1), (e2, c2) = mono(atoms, rng.choice([1, 1, 2])), mono(atoms, rng.choice([0, 1, 1, 2]))
            if e1 != e2: break
        else: return None
        l, rr = {e1: c1}, {e2: c2}
        return dict(rel="=", l=l, r=rr, sig=False)
    if r < .85 or len(atoms) < 2:
        (e1, c1) = mono(atoms, rng.choice([1, 1, 2]))
        big = {e1: c1}
        small = {}
        for _ in range(rng.choice([1, 1, 2, 3])):
            e, c = mono(atoms, rng.choice([0, 1, 1, 2]))
            if e != e1: small[e] = c
        if not small: return None
    else:       # signomial: bigger side of two terms whose coefficients add up to a power of two
        (e1, _), (e2, _) = mono(atoms, 1), mono(atoms, rng.choice([0, 1, 1]))
        if e1 == e2: return None
        c1, c2 = rng.choice([(1, 1), (1, 3), (3, 1), (Fraction(1, 2), Fraction(1, 2))])
        big = {e1: Fraction(c1), e2: Fraction(c2)}
        small = {}
        for _ in range(rng.choice([1, 1, 2])):
            e, c = mono(atoms, rng.choice([0, 1, 2]))
            if e not in big: small[e] = c
        if not small: return None
        return dict(rel=">=", l=big, r=small, sig=True)
    return dict(rel=">=", l=big, r=small, sig=False) if rng.random() < .5 else dict(rel="<=", l=small, r=big, sig=False)

def limits(cons, fixed):
    "rough list of limited sides, only to make assumptions that are often right"
    B = {(i, s) for i in fixed for s in (1, -1)}
    eqs = []
    for c in cons:
        if c["rel"] == "=":
            (e1,), (e2,) = c["l"], c["r"]
            eqs.append([a-b for a, b in zip(e1, e2)])
        else:
            big, small = (c["l"], c["r"]) if c["rel"] == ">=" else (c["r"], c["l"])
            m = sum(big.values())
            t = [sum(k*e[i] for e, k in big.items())/m for i in range(NV)]
            for e in small:
                for i in range(NV):
                    if e[i] != t[i]: B.add((i+1, 1 if e[i] > t[i] else -1))
    while True:
        new = set()
        for e in eqs:
            for i in range(NV):
                if e[i]:
                    for s in (1, -1):
                        need = {(j+1, -s if (e[j] > 0) == (e[i] > 0) else s) for j in range(NV) if e[j] and j != i}
                        if need <= B: new.add((i+1, s))
        if new <= B: return B
        B |= new

class Class:
    def __init__(self, sub=None, wild=True):
        self.sub, self.lines, self.ev = sub, [], []
        self.decl = []                    # (name, length)
        self.fixed = set()
        self.bad = False
        self.vec = () if sub is not None or rng.random() < .85 else rng.choice([(2,), (3,)])
        self.indent = rng.choice(["    ", "    ", "    ", "", "\t", "        "])
        self.blankline = lambda: rng.choice(["", "", self.indent, "  "])
        self.isub = False
    def add(self, text, **rec):
        self.lines.append(self.indent + text if rec["op"] != "blank" else self.blankline())
        d = dict(op="", what="", n=0, name="", val="", vs=0, units="", label="", bad="", ents=[], ment="Unbounded" in text)
        d.update(rec)
        self.ev.append(d)
    def text(self):
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            if rng.random() < .7: self.add(rng.choice(TEXTS if self.ev[-1]["op"] in ("blank", "text") else ["no brackets", "Some text"]), op="text")
            else: self.add("", op="blank")
    def section(self, names, what, faults):
        n = 2 if names == ["w"] else rng.choice([2, 3]) if what == "vector" else 0
        head = dict(variables="Variables", constants="Constants", vector="Variables of length %s" % ("%d" % n if rng.random() < .7 else "N%d" % n))[what]
        if rng.random() < .1 and what != "vector": head = "Beam " + head
        self.add(head, op="head", what=what, n=n)
        self.add(rng.choice(["---------", "-"*len(head), "=====", "- - -"]), op="rule")
        for name in names:
            if faults and rng.random() < .1:
                bad, f = rng.choice(BADDECL)
                self.add(f(name), op="decl", bad=bad); self.bad = True
                continue
            if faults and rng.random() < .02:
                self.add(rng.choice(["stray text", "Variables"]), op="text"); self.bad = True
            val, vs = "", 0
            if what == "vector":
                if not self.vec and rng.random() < .35:
                    val, vs = rng.choice(VECT[n]), n
                    if faults and rng.random() < .08:
                        val, vs = rng.choice([("3", 0), (VECT[5-n][0], 5-n)]); self.bad = True
            elif what == "constants" or rng.random() < .35:
                val = rng.choice(SCAL) if rng.random() < .95 else ""
            u, lab = rng.choice(UNITS), rng.choice(LABELS)
            if self.cons_ok: u = "-"
            s = rng.choice([" ", "  ", "\t"])
            line = name + (s + val if val else "") + s + "[%s]" % u + (rng.choice([" ", "   "]) + lab if lab else rng.choice(["", "", " ", "   "]))
            self.add(line, op="decl", name=name, val=val, vs=vs, units=u, label=lab)
            self.decl.append((name, n, val))
            if val: self.fixed |= set(indices(name, n))
        if rng.random() < .97 or not faults: self.add("", op="blank")
    def assumptions(self):
        pass

def build(sub, issub):
    faults = rng.random() < .35 and not issub
    C = Class(sub)
    C.isub = issub
    C.cons_ok = issub or sub is not None or rng.random() < .7
    if C.cons_ok: C.vec = ()
    C.add(rng.choice(["A model", "Title", ""]), op="text")
    if rng.random() < .9: C.add("", op="blank")
    C.text()
    names = ["p", "q"] if issub else list("abcde") + ["v", "w"]
    rng.shuffle(names)
    if not issub: names = names[:rng.randint(1, 6)]
    secs = {}
    for n in names:
        what = "vector" if n in "vw" and n != "" and n in ("v", "w") else rng.choice(["variables", "variables", "constants"])
        secs.setdefault(what, []).append(n)
    order = [(w, ns) for w, ns in secs.items()]
    parts = []
    for w, ns in order:
        if w == "vector": parts += [(w, [n]) for n in ns]
        elif len(ns) > 2 and rng.random() < .3: parts += [(w, ns[:1]), (w, ns[1:])]
        else: parts.append((w, ns))
    rng.shuffle(parts)
    for w, ns in parts:
        C.section(ns, w, faults)
        C.text()
    # constraints
    atoms = sorted(i for n, ln, val in C.decl if n != "w" or True for i in indices(n, ln))
    if any(n == "w" and ln == 3 for n, ln, _ in C.decl): return None
    subatoms = sorted(sub.own) if sub is not None else []
    C.cons = []
    pool = atoms + subatoms
    if C.cons_ok and pool:
        for _ in range(rng.choice([1, 2, 3, 4, 5])):
            c = constraint(pool)
            if c: C.cons.append(c)
    C.own = set(atoms)
    # assumptions
    C.outside = rng.random() < .2
    C.flags = dict(deep=rng.random() < .5, flat=rng.random() < .5)
    allcons = C.cons + (sub.cons if sub is not None else [])
    fixed = C.fixed | (sub.fixed if sub is not None else set())
    mode = rng.random()
    if not C.vec and mode < .8:
        B = limits(allcons, fixed)
        have = [(n, indices(n, ln)) for n, ln, _ in C.decl] + ([("sub." + n, indices(n, 0)) for n, _, _ in sub.decl] if sub is not None else [])
        for s, head in rng.sample([(1, "upper"), (-1, "lower")], 2):
            ents = []
            for n, ix in have:
                open_ = [i for i in ix if (i, s) not in B]
                declare = len(open_) == len(ix) or (open_ and rng.random() < .3)
                r = rng.random()
                if r < .04: declare = not declare
                if declare: ents.append(dict(name=n, cond="", neg=False))
            if C.outside and rng.random() < .5: ents.append(dict(name="o", cond="", neg=False))
            if rng.random() < .03: ents.append(dict(name="zz", cond="", neg=False))
            for e in ents:
                if rng.random() < .15:
                    e["cond"] = rng.choice(["deep", "flat"])
                    e["neg"] = rng.random() < .5
                    if rng.random() < .8 and C.flags[e["cond"]] == e["neg"]: e["neg"] = not e["neg"]
            if rng.random() < .1:     # what does not count may name anything
                ents.append(dict(name=rng.choice(["zz", "a", "b"]), cond="deep", neg=C.flags["deep"]))
            rng.shuffle(ents)
            if ents or rng.random() < .15:
                for rep in range(2 if rng.random() < .02 else 1):
                    C.add(head.title() + " Unbounded", op="head", what=head)
                    C.add("---------------", op="rule")
                    i = 0
                    while i < len(ents):
                        k = rng.choice([1, 1, 2, 3])
                        line = ", ".join(e["name"] + (" (if %s%s)" % ("not " if e["neg"] else "", e["cond"]) if e["cond"] else "") for e in ents[i:i+k])
                        C.add(line, op="names", ents=ents[i:i+k])
                        i += k
                    if rng.random() < .7: C.add("", op="blank")
                    else: C.add("", op="blank"); C.text()
        if rng.random() < .05: C.add("Nothing here is Unbounded at all", op="text")
        if rng.random() < .05: C.add("SKIP VERIFICATION", op="skipver")
    C.text()
    return C

def source(C, name, subname):
    # the blank line that ends the last section may also be missing
    lines, ev = list(C.lines), list(C.ev)
    while ev and ev[-1]["op"] == "blank" and rng.random() < .7: lines.pop(); ev.pop()
    if lines and ev[0]["op"] == "text": lines[0] = lines[0].strip()
    doc = "\n".join(lines) + rng.choice(["", "\n", "\n" + C.indent, "\n\n", "\n    "])
    if doc.endswith("Unbounded") or doc.endswith("Variables") or doc.endswith("Constants"): doc += "\n"
    C.ev = ev
    args = rng.choice(["", ", deep=None", ",\n              deep=None,\n              flat=1"])
    form = rng.random()
    raw = doc if "\r" not in doc and '"""' not in doc and not doc.endswith(("\\", '"')) else None
    src = []
    where = "__doc__"
    if form < .25:
        src += ["DOC_%s = %r" % (name, doc)]
        cl = ["class %s(Model):" % name, "    __doc__ = DOC_%s" % name]
        if rng.random() < .5: where = "DOC_%s" % name
    elif form < .5 or raw is None: cl = ["class %s(Model):" % name, "    %r" % doc]
    else: cl = ["class %s(Model):" % name, '    r"""%s"""' % raw]
    cl += ["", "    @parse_variables(%s, globals())" % where, "    def setup(self%s):" % args]
    if rng.random() < .2: cl += ['        "sets up"']
    if rng.random() < .2: cl += [""]
    if rng.random() < .2: cl += ["        # a comment"]
    cl += ["        self.deep, self.flat = %r, %r" % (C.flags["deep"], C.flags["flat"])]
    if C.outside: cl += ["        self.o = OUTSIDE"]
    code = {}
    for n, ln, _ in C.decl:
        for k, i in enumerate(indices(n, ln)): code[i] = "%s[%d]" % (n, k) if ln else n
    parts = []
    if subname:
        cl += ["        sub = self.sub = %s()" % subname]
        code.update({IDX[n]: "sub." + n for n in ("p", "q")})
        parts.append("sub")
    for k, c in enumerate(C.cons):
        rel = dict([("=", "==")]).get(c["rel"], c["rel"])
        s = "%s %s %s" % (polysrc(c["l"], code), rel, polysrc(c["r"], code))
        if c["sig"]:
            cl += ["        with SignomialsEnabled():", "            c%d = %s" % (k, s)]
        else: cl += ["        c%d = %s" % (k, s)]
        parts.append("c%d" % k)
    rng.shuffle(parts)
    if len(parts) > 2 and rng.random() < .3: parts = ["[" + ", ".join(parts[:2]) + "]"] + parts[2:]
    cl += ["        return [%s]" % ", ".join(parts), ""]
    return src + cl

def token(v, toks):
    for t in toks:
        if t:
            x = eval(t, dict(ENV))
            if np.shape(x) == np.shape(v) and np.array_equal(np.array(x, float), np.array(v, float)): return t
    return "other: %r" % (v,)

def unit(u):
    if u is None: return "-"
    for t in UNITS:
        if t != "-" and str(u) == str(ureg(t).units): return t
    return "other: %s" % u

def show(m, C):
    vs, allnames, vals = [], [], {n: v for n, _, v in C.decl}
    cs = {e["name"]: e for e in C.ev if e["op"] == "decl"}
    for n, o in vars(m).items():
        if not hasattr(o, "key") or n in ("cost",) or n == "o" or isinstance(o, Model): continue
        k = o.key
        keys = [x.key for x in np.ravel(o)] if getattr(o, "shape", ()) else [k]
        v = [m.substitutions[x] if x in m.substitutions else None for x in keys]
        sh = list(getattr(o, "shape", ()) or ())
        seen = [x for x in v if x is not None]
        if not seen: val = ""
        else:
            want = vals.get(n, "")
            if len(seen) != len(v): val = "only some"
            elif C.vec: val = token(v[0], [want]) if all(x == v[0] for x in v) else "differ"
            else: val = token(np.array([float(x) for x in v]).reshape(sh) if sh else float(v[0]), [want])
        us = {unit(x.units.units if hasattr(x.units, "units") else x.units) if x.units is not None else "-" for x in keys}
        labs = {x.label or "" for x in keys}
        cons = {bool(x.constant) for x in keys}
        if k.name != n: n = "%s named %s" % (n, k.name)
        vs.append(dict(name=n, val=val, units=us.pop() if len(us) == 1 else "differ", label=labs.pop() if len(labs) == 1 else "differ",
                       const=cons.pop() if len(cons) == 1 else "differ", sh=sh))
    return vs, sorted({k.name for k in m.varkeys})

def session(tmp, i):
    NamedVariables.reset_modelnumbers()
    sub = build(None, True) if rng.random() < .25 else None
    if sub is not None and sub.bad: return None
    outer = build(sub, False)
    if outer is None: return None
    ev = []
    head = ["from gpkit import Model, Variable, VectorVariable, SignomialsEnabled, parse_variables", "import numpy as np",
            "K, T2, K3, pi, N2, N3 = 7, (5, 6), np.array([1., 2., 4.]), 3.14159, 2, 3", "OUTSIDE = Variable('o')", ""]
    mods = 0
    subsrc = None
    for C, name in ([(sub, "Sub")] if sub is not None else []) + [(outer, "Main")]:
        src = source(C, name, "Sub" if C is outer and sub is not None else None)
        if C is sub: subsrc = src
        text = "\n".join(head + (subsrc if C is outer and subsrc else []) + src) + "\n"
        path = os.path.join(tmp, "m%d_%d.py" % (i, mods)); mods += 1
        open(path, "w").write(text)
        made = dict(op="made", out="ok", x="", vars=[], names=[], subnames=[n for n, _, _ in sub.decl] if sub is not None else [], vec=list(C.vec), usesub=C is outer and sub is not None,
                    outside=C.outside, flags=C.flags, cons=[dict(rel=c["rel"], l=polyj(c["l"]), r=polyj(c["r"])) for c in C.cons])
        with contextlib.redirect_stdout(io.StringIO()):
            spec = importlib.util.spec_from_file_location("m%d_%d" % (i, mods), path)
            mod = importlib.util.module_from_spec(spec)
            sys.modules[spec.name] = mod
            try:
                spec.loader.exec_module(mod)
                phase = "make"
            except Exception as e:
                made["out"], made["x"], phase = "class", exname(e), "class"
            if phase == "make":
                try:
                    with gpkit.Vectorize(C.vec[0]) if C.vec else contextlib.nullcontext():
                        m = getattr(mod, name)()
                    made["vars"], made["names"] = show(m, C)
                except Exception as e: made["out"], made["x"] = "make", exname(e)
            del sys.modules[spec.name]
        import linecache; linecache.clearcache()
        ev += C.ev + [made]
        if os.environ.get("DOC_KEEP"): made["src"] = text
        os.remove(path)
        if C is sub and made["out"] != "ok": break
    return ev

if __name__ == "__main__":
    tmp = tempfile.mkdtemp(prefix="doc")
    try:
        with open(out, "w") as f:
            for i in range(nprog):
                ev = session(tmp, i)
                if ev: f.write(json.dumps(dict(id="doc%d" % i, tag="doc", ev=ev)) + "\n")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
