"""Replays the transitions of spec/KeyDict.tla in real dictionaries.
usage: kd.py UNIV TABLE OUT depth maxseq walks walklen"""
import sys, json, random, os, itertools
import numpy as np
import gpkit
from gpkit import Variable, VectorVariable, Model, NamedVariables
from gpkit.keydict import KeyDict

univ, table, out, depth, maxseq, walks, walklen = sys.argv[1:]
depth, maxseq, walks, walklen = int(depth), int(maxseq), int(walks), int(walklen)
U = json.load(open(univ))
rng = random.Random(int(os.environ["VERIF_SEED"]) * 1009 + 7)

def linkfn(c=None):
    return 1
VAL = {"f": linkfn, "nan": float("nan")}
def val(s):
    if s in VAL: return VAL[s]
    return int(s) if s.lstrip("-").isdigit() else float(s)
def same(real, s):
    if s == "f": return real is linkfn
    if real is linkfn: return False
    try:
        if s == "nan": return bool(np.isnan(real))
        return float(real) == float(s)
    except (TypeError, ValueError):
        return False

ents = []
for e in U["ent"]:
    ctx = [NamedVariables(n) for n in e["lineage"]]
    for c in ctx: c.__enter__()
    ents.append(VectorVariable(e["size"], e["name"]) if e["size"] else Variable(e["name"]))
    for c in reversed(ctx): c.__exit__(None, None, None)
IDS = {v.key: i+1 for i, v in enumerate(ents)}

key = lambda x: json.dumps(x, sort_keys=True)
STATE, TRANS = {}, {}
for line in open(table):
    r = json.loads(line)
    if "keyset" in r: KEYSET = r["keyset"]
    elif "state" in r: STATE[key(r["state"])] = r["obs"]
    else: TRANS.setdefault(key(r["from"]), {})[key(r["act"])] = (r["act"], key(r["to"]))
TRANS = {s: list(t.values()) for s, t in TRANS.items()}
INIT = key([[[] for _ in ents] for _ in range(U["dicts"])])
covered = set()

def newdicts():
    if U["subs"]:
        flat = [v for e in ents for v in (e if getattr(e, "shape", None) else [e])]
        cost = 1
        for v in flat: cost = cost*v
        return [Model(cost, [v >= 1 for v in flat]).substitutions for _ in range(U["dicts"])]
    return [KeyDict() for _ in range(U["dicts"])]

def k(e, alt):
    v = ents[e-1]
    return v.key if alt else v
def ke(e, i, alt):
    v = ents[e-1][i-1]
    return v.key if alt else v

def apply(ds, a, alt):
    op, d = a["op"], ds[a["d"]-1]
    try:
        if op == "set": d[k(a["e"], alt)] = val(a["v"])
        elif op == "setfull": d[k(a["e"], alt)] = val(a["v"])
        elif op == "setarray":
            vals = [val(x) for x in a["c"]]
            if linkfn in vals: arr = np.array(vals, dtype=object)
            else: arr = np.array(vals) if alt else np.array(vals, dtype=float)
            d[k(a["e"], alt)] = arr
        elif op == "setlist": d[k(a["e"], alt)] = [val(x) for x in a["c"]]
        elif op == "setelem": d[ke(a["e"], a["i"], alt)] = val(a["v"])
        elif op == "del": del d[k(a["e"], alt)]
        elif op == "delelem": del d[ke(a["e"], a["i"], alt)]
        elif op == "delname": del d[a["n"]]
        elif op == "setname": d[a["n"]] = val(a["v"])
        elif op == "copy": ds[a["d"]-1] = KeyDict(ds[a["from"]-1])
        elif op == "update": d.update(ds[a["from"]-1])
        elif op == "setshared":
            arr = np.array([val(x) for x in a["c"]], dtype=float)
            for x in ds: x[k(a["e"], alt)] = arr
            arr[:] = 77.     # the caller's array is the caller's
        elif op == "writeread":
            arr = d[k(a["e"], alt)]
            arr[a["i"]-1] = val(a["v"])
        else: raise SystemExit("unknown op "+op)
        return "ok"
    except Exception as exc:
        return type(exc).__name__

def content_ok(real, c, e):
    if U["ent"][e-1]["size"]:
        return hasattr(real, "shape") and real.shape == (len(c),) and all(same(r, s) for r, s in zip(real, c))
    return not getattr(real, "shape", None) and same(real, c[0])

def tryget(d, form):
    try: return "ok", d[form]
    except Exception as exc: return type(exc).__name__, None
def tryin(d, form):
    try: return form in d
    except Exception as exc: return type(exc).__name__

def observe(ds, state, what=None, alt=0):
    "mismatches between the real dictionaries and the specification's state"
    bad = []
    for n, (d, o) in enumerate(zip(ds, STATE[state]), 1):
        def chk(cond, *msg):
            if not cond: bad.append("dict %d: " % n + " ".join(map(str, msg)))
        if what is None or "keys" in what:
            real = sorted(IDS.get(getattr(x, "key", None), -1) for x in d)
            chk(real == sorted(o["keys"]), "iteration gives", real, "expected", sorted(o["keys"]))
            chk(len(d) == len(o["keys"]), "len is", len(d), "expected", len(o["keys"]))
        if what is None or "elem" in what:
            for x in o["elem"]:
                f = ke(x["e"], x["i"], alt)
                chk(tryin(d, f) is x["in"], f, "in dict gives", tryin(d, f), "expected", x["in"])
                r, v = tryget(d, f)
                chk(r == ("KeyError" if x["v"] == "KeyError" else "ok"), f, "lookup gives", r, "expected", x["v"])
                if r == "ok": chk(same(v, x["v"]), f, "has value", v, "expected", x["v"])
                if x["in"] is False:
                    try: g = d.get(f, 12345)
                    except Exception as exc: g = type(exc).__name__
                    chk(isinstance(g, int) and g == 12345, f, "get with default gives", g)
        present = {x["e"]: x["c"] for x in o["map"]}
        if what is None or "map" in what:
            for e in range(1, len(ents)+1):
                f = k(e, alt)
                chk(tryin(d, f) is (e in present), f, "in dict gives", tryin(d, f), "expected", e in present)
                r, v = tryget(d, f)
                if e in present: chk(r == "ok" and content_ok(v, present[e], e), f, "has value", r, v, "expected", present[e])
                else: chk(r == "KeyError", f, "absent, lookup gives", r, v)
        if what is None or "names" in what:
            for x in o["names"]:
                f, hits = x["n"], x["hits"]
                r, v = tryget(d, f)
                if x["amb"]:
                    chk(r == "ValueError", f, "is ambiguous, lookup gives", r, v)
                    continue
                chk(tryin(d, f) is bool(hits), f, "in dict gives", tryin(d, f), "expected", bool(hits))
                if not hits: chk(r == "KeyError", f, "names nothing, lookup gives", r, v)
                elif len(hits) == 1: chk(r == "ok" and content_ok(v, hits[0]["c"], hits[0]["e"]), f, "has value", r, v, "expected", hits)
                else:
                    ok = r == "ok" and isinstance(v, dict) and len(v) == len(hits) and all(
                        any(IDS.get(kk) == h["e"] and content_ok(vv, h["c"], h["e"]) for kk, vv in v.items()) for h in hits)
                    chk(ok, f, "names several, lookup gives", r, v, "expected", hits)
    return bad

fails, nseq, nsteps = [], 0, 0
def check_keyset(ks, what):
    "names looked up in a set of variables (as a model's `varkeys`)"
    full = {v.key: dict(e=n, i=0) for n, v in enumerate(ents, 1) if not getattr(v, "shape", None)}
    full.update({el.key: dict(e=n, i=j) for n, v in enumerate(ents, 1) if getattr(v, "shape", None) for j, el in enumerate(v, 1)})
    order = list(KEYSET)
    for rnd in range(3):
        rng.shuffle(order)
        for x in order:
            want = sorted((h["e"], h["i"]) for h in x["hits"])
            try: isin = x["n"] in ks
            except Exception as exc: isin = type(exc).__name__
            try: got = sorted((full[kk]["e"], full[kk]["i"]) for kk in ks[x["n"]])
            except KeyError: got = []
            if got != want or isin is not bool(want):
                fails.append(dict(acts=[dict(op="keyset", n=x["n"])], msg="%s: set of variables gives %s (in: %s), expected %s" % (what, got, isin, want)))
        for kk, v in full.items():
            if kk not in ks or set(ks[kk]) != {kk}:
                fails.append(dict(acts=[dict(op="keyset", n=str(kk))], msg="%s: %s not found by key" % (what, kk)))
        if set(ks) != set(full) or len(ks) != len(full):
            fails.append(dict(acts=[dict(op="keyset", n="")], msg="%s: members differ" % what))
_allkeys = [kk for v in ents for kk in ([v.key] if not getattr(v, "shape", None) else [el.key for el in v])]
from gpkit.keydict import KeySet
for _ in range(4):
    rng.shuffle(_allkeys)
    check_keyset(KeySet(_allkeys), "KeySet")
    ks = KeySet([]); n = rng.randrange(len(_allkeys)+1)
    ks.update(_allkeys[:n])
    if rng.random() < .5: "x" in ks
    ks.update(_allkeys[n:])
    check_keyset(ks, "KeySet (updated)")
check_keyset(Model(sum(v for e in ents for v in (e if getattr(e, "shape", None) else [e])), []).varkeys, "varkeys")
def run(acts, every, alt0):
    "one behaviour; returns None or the description of the first disagreement"
    global nsteps
    ds = newdicts()
    state = INIT
    for n, (a, to) in enumerate(acts):
        alt = (n + alt0) % 2
        r = apply(ds, a, alt)
        nsteps += 1
        covered.add((state, key(a)))
        if r != a["r"]:
            return n, "%s: got %s, expected %s" % (json.dumps(a), r, a["r"])
        state = to
        if every is True: what = None
        elif every is False: what = () if n + 1 < len(acts) else None
        else: what = [w for w in ("keys", "elem", "map", "names") if every.random() < .4]
        bad = observe(ds, state, what, alt)
        if bad: return n, "after %s: %s" % (json.dumps(a), "; ".join(bad[:4]))
    bad = observe(ds, state, None, alt0) or observe(ds, state, None, 1-alt0)
    if bad: return len(acts)-1, "at the end: " + "; ".join(bad[:4])
    return None

def test(acts, every, alt0):
    global nseq
    nseq += 1
    r = run(acts, every, alt0)
    if r and len(fails) < 40:
        n, msg = r
        fails.append(dict(acts=[a for a, _ in acts[:n+1]], msg=msg))

# 1. shortest path to every state, then every transition out of it (each with both observation modes)
paths, queue = {INIT: []}, [INIT]
for s in queue:
    for a, to in TRANS.get(s, ()):
        if to not in paths:
            paths[to] = paths[s] + [(a, to)]
            queue.append(to)
todo = [(s, t) for s in queue for t in TRANS.get(s, ())]
limit = maxseq
if len(todo) > limit: todo = rng.sample(todo, limit)
for s, t in todo:
    test(paths[s] + [t], False, rng.randrange(2))
    test(paths[s] + [t], True, rng.randrange(2))
# 2. all operation sequences of the given depth from the empty dictionaries (sampled beyond the cap)
def seqs(state, n):
    if n == 0: yield []; return
    for t in TRANS.get(state, ()):
        for rest in seqs(t[1], n-1): yield [t] + rest
tot = 0
for s in seqs(INIT, 2):
    tot += 1
    test(s, False, tot % 2)
    if tot > maxseq: break
for _ in range(maxseq):
    st, s = INIT, []
    for _ in range(depth):
        t = rng.choice(TRANS[st]); s.append(t); st = t[1]
    test(s, rng.choice([False, True, rng]), rng.randrange(2))
# 3. long random walks with partial observation
for _ in range(walks):
    st, s = INIT, []
    for _ in range(walklen):
        t = rng.choice(TRANS[st]); s.append(t); st = t[1]
    test(s, rng, rng.randrange(2))
ntrans = sum(map(len, TRANS.values()))
json.dump(dict(fails=fails, sequences=nseq, steps=nsteps, transitions=ntrans, covered=len(covered), states=len(STATE),
               sample=[a for a, _ in todo[len(todo)//2][1:]] if todo else []), open(out, "w"))
