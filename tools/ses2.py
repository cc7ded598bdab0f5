"usage: ses2.py FILE.ndjson FILE.tlc substr [n]: pretty prints rejected sessions"
import sys, json, re
tr = [json.loads(l) for l in open(sys.argv[1])]
n = int(sys.argv[4]) if len(sys.argv) > 4 else 1
NAMES = ["x", "y", "z", "w0", "w1", "a", "b", "c", "d"] + ["r%d" % i for i in range(1, 20)]
q = lambda f: str(f[0]) if f[1] == 1 else "%d/%d" % tuple(f)
poly = lambda p: " + ".join(q(t["c"])+"".join("*%s^%g" % (NAMES[i], e/4) if e != 4 else "*"+NAMES[i] for i, e in enumerate(t["e"]) if e) for t in p) or "0"
vals = lambda v: {NAMES[z["i"]-1]: q(z["c"]) for z in v}
for l in open(sys.argv[2]):
    m = re.match(r'<<"REJECT", (\d+), (\d+), "(.*)">>', l)
    if not m or sys.argv[3] not in m[3] or not n: continue
    n -= 1
    b = tr[int(m[1])-1]
    print("==", b["id"], b["tag"], m[3]); print("min", poly(b["cost"]))
    for i, c in enumerate(b["cons"]): print("  %d:" % (i+1), poly(c["l"]), c["rel"], poly(c["r"]), "SIG" if c["sig"] else "")
    for k in b.get("marks", []): print("  mark", k)
    for e in b["ev"][:int(m[2])]:
        if e["op"] == "set":
            v = e["v"]; print("  set", e.get("m", ""), NAMES[e["i"]-1], v["k"], q(v["c"]) if v["k"] == "c" else poly(v["p"]) if v["k"] == "link" else [q(z) for z in v["v"]])
        elif e["op"] == "solve":
            print("  SOLVE", {k: v for k, v in e.items() if k not in ("calls", "out", "op")})
            for c in e["calls"]:
                if "posys" in c:
                    for r, nu in zip(c["posys"], c["nu"]): print("     row", poly(r), "  nu", [q(z) for z in nu])
                    print("     prim", vals(c["prim"]))
                else: print("     call", c)
            print("   out", e["out"]["t"], e["out"]["x"])
            for r in e["out"]["res"]:
                print("     vals", vals(r["vals"])); print("     sens", vals(r["sens"]), "cs", {z["i"]: q(z["c"]) for z in r["cs"]}, {k: v for k, v in r.items() if k not in ("vals", "sens", "cs")})
        else: print("  ", e["op"], {k: v for k, v in e.items() if k not in ("calls",)})
