"usage: cm1.py FILE.ndjson FILE.tlc substr [n]: shows rejected compositions"
import sys, json, re
tr = [json.loads(l) for l in open(sys.argv[1])]
n = int(sys.argv[4]) if len(sys.argv) > 4 else 1
def kid(k):
    if k["t"] == "raw": return "[" + ", ".join(kid(q) for q in k["kids"]) + "]"
    if k["t"] == "leaf": return "c%s(v%s)" % (k["c"], k["v"])
    return "N%s" % k["n"] if k["t"] == "node" else "BAD"
def subs(e): return {i+1: {j+1: v for j, v in enumerate(r) if v} for i, r in enumerate(e["seen"])}
for l in open(sys.argv[2]):
    m = re.search(r'REJECT", (\d+), (\d+), "(.*)"', l)
    if not m or sys.argv[3] not in m.group(3): continue
    t, k = tr[int(m.group(1))-1], int(m.group(2))
    print("=====", m.group(3), t["id"])
    nn = 0
    for e in t["ev"][:k]:
        if e["op"] == "var": print("  var %s.%s %s ids=%s vals=%s%s" % (".".join(e["lin"]), e["name"], e["sh"], e["ids"], e["vals"], " const" if e["const"] else ""))
        elif e["op"] == "node":
            if e["out"] == "ok": nn += 1
            print("  N%s = %s %s own=%s cost=%s subs=%s -> %s flat=%s vks=%s same=%s" % (nn if e["out"] == "ok" else "-", e["kind"], kid(e["kids"][0]), e["own"], e["cost"], e["subs"], e["out"], e["flat"], e["vks"], e["kidsame"]), subs(e))
        elif e["op"] == "set": print("  set", e["n"], e["ids"], e["v"], e["out"], subs(e))
        elif e is t["ev"][k-1]: print("  ", {q: e[q] for q in e if q != "seen"}, subs(e) if "seen" in e else "")
    n -= 1
    if n == 0: break
