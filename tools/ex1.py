"usage: ex1.py FILE.ndjson FILE.tlc substr [n]: shows rejected expression programs"
import sys, json, re
tr = [json.loads(l) for l in open(sys.argv[1])]
n = int(sys.argv[4]) if len(sys.argv) > 4 else 1
def us(u): return "*".join("%s%s" % (q["u"], "" if q["n"] == q["k"] else "^%s/%s" % (q["n"], q["k"])) for q in u)
V = ["x", "y", "z", "v0", "v1", "v2", "M00", "M01", "M10", "M11"]
def el(x): return (" + ".join("%s/%s%s" % (t["c"][0], t["c"][1], "".join("·%s^%s" % (V[i], z/2) for i, z in enumerate(t["e"]) if z)) for t in x["p"]) or "0") + " [" + us(x["u"]) + "]"
def out(o): return o["t"] + " " + o.get("x", "") + (" sh=%s " % o["v"]["sh"] + "; ".join(el(x) for x in o["v"]["el"]) if o.get("v") else "")
for l in open(sys.argv[2]):
    m = re.search(r'REJECT", (\d+), (\d+), "(.*)"', l)
    if not m or sys.argv[3] not in m.group(3): continue
    t, k = tr[int(m.group(1))-1], int(m.group(2))
    print("=====", m.group(3), t["id"], t["fam"], "sig" if t["sig"] else "")
    need, r, reg = set(), 0, {}
    for i, e in enumerate(t["ev"][:k]):
        if e["out"]["t"] == "val" and e["op"] != "cmp": r += 1; reg[r] = i
    def mark(i):
        if i in need: return
        need.add(i)
        for a in t["ev"][i]["a"]: mark(reg[a])
    mark(k-1)
    inv = {v: kk for kk, v in reg.items()}
    for i in sorted(need):
        e = t["ev"][i]
        print("  r%s = %s %s %s" % (inv.get(i, "-"), e["op"], e["a"], {q: e[q] for q in e if q not in ("op", "a", "out", "ch", "forms")} if e["op"] != "num" else ""), "->", out(e["out"])[:300])
        if e.get("ch"): print("   CHANGED", e["ch"])
        if e["op"] == "cmp": print("   ", [[el(dict(p=p, u=[])) for p in f] for f in e["forms"]])
    n -= 1
    if n == 0: break
