"pretty print rejected sessions: ses1.py PID substr [n]"
import json,sys
d=json.load(open('/verif/evidence/%s.replay.json'%sys.argv[1]))
NAMES = ["x", "y", "z", "w0", "w1", "a", "b", "c", "d"]
SC=4
def q(f): return str(f[0]) if f[1]==1 else "%d/%d"%tuple(f)
def poly(p): return " + ".join(q(t["c"])+"".join("*%s^%g"%(NAMES[i],e/SC) if e!=SC else "*"+NAMES[i] for i,e in enumerate(t["e"]) if e) for t in p) or "0"
n=int(sys.argv[3]) if len(sys.argv)>3 else 1
k=0
for x in d:
    if sys.argv[2] in x["signature"] and "behaviour" in (x["data"] or {}):
        b=x["data"]["behaviour"]; print("==",b["id"],x["signature"]); print("min",poly(b["cost"]))
        for i,c in enumerate(b["cons"]): print("  %d:"%(i+1),poly(c["l"]),c["rel"],poly(c["r"]),"SIG" if c["sig"] else "")
        for e in b["ev"][:x["data"]["step"]]:
            e=dict(e)
            if e["op"]=="set":
                v=e["v"]; print("  set",NAMES[e["i"]-1],v["k"], q(v["c"]) if v["k"]=="c" else poly(v["p"]) if v["k"]=="link" else [q(z) for z in v["v"]])
            elif e["op"]=="local":
                print("  LOCAL",{k:v for k,v in e.items() if k not in("calls","out","op","results")})
                for c in e["calls"]:
                    if "rows" in c:
                        for r,nu in zip(c["rows"],c["nu"]): print("     row"," + ".join("[%s @%s]"%("*".join("%s^%s"%((NAMES+["C"])[i],q(z)) for i,z in enumerate(y["x"]) if z[0]),q(y["v"])) for y in r),"  nu",[q(z) for z in nu])
                        print("     prim",{NAMES[z["i"]-1]:q(z["c"]) for z in c["prim"]}, {k:v for k,v in c.items() if k not in("rows","nu","prim")})
                    else: print("     call",c)
                o=e["out"]; print("   out",o["t"],o["x"])
                for r in o["res"]:
                    print("     vals",{NAMES[z["i"]-1]:q(z["c"]) for z in r["vals"]},"cost",r["cost"])
                    print("     sens",{NAMES[z["i"]-1]:q(z["c"]) for z in r["sens"]},"cs",{z["i"]:q(z["c"]) for z in r["cs"]}, {k:v for k,v in r.items() if k not in("vals","sens","cs","cost")})
            elif e["op"]=="solve":
                for c in e["calls"]:
                    if "posys" in c:
                        for p,nu in zip(c["posys"],c["nu"]): print("     posy",poly(p),"   nu",[q(z) for z in nu])
                        print("     prim",{NAMES[z["i"]-1]:q(z["c"]) for z in c["prim"]}, {k:v for k,v in c.items() if k not in("posys","nu","prim")})
                    else: print("     call",c)
                o=e["out"]
                print("   out",o["t"],o["x"],{k:v for k,v in e.items() if k not in("calls","out","op")})
                for r in o["res"]:
                    print("     vals",{NAMES[z["i"]-1]:q(z["c"]) for z in r["vals"]},"cost",r["cost"])
                    print("     sens",{NAMES[z["i"]-1]:q(z["c"]) for z in r["sens"]},"cs",{z["i"]:q(z["c"]) for z in r["cs"]}, {k:v for k,v in r.items() if k not in("vals","sens","cs","cost")})
            else: print("  ",json.dumps(e)[:600])
        k+=1
        if k>=n: break
