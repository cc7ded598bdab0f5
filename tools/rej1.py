# rej1.py PID substring [n]: the offending event with its operands' values
import json,sys
d=json.load(open('/verif/evidence/%s.replay.json'%sys.argv[1])); n=int(sys.argv[3]) if len(sys.argv)>3 else 3
def pp(ts):
    if not ts: return "0"
    return " + ".join("%s%s"%("/".join(map(str,t["c"])) if t["c"][1]!=1 else t["c"][0],"".join("·%s^%g"%(v,e/4) for v,e in zip(("x","y","v0","v1"),t["e"]) if e)) for t in ts)
for r in d:
    if sys.argv[2] in r["signature"] and n:
        n-=1; e=r["data"]["event"]; regs=[x["out"]["p"] for x in r["data"]["behaviour"]["ev"] if x.get("out",{}).get("t")=="poly"]
        print(r["signature"], "sig",r["data"]["behaviour"]["sig"], {k:v for k,v in e.items() if k not in("ps","out")}, [pp(regs[i-1]) for i in e["a"]], "=>", [pp(p) for p in e.get("ps",[])], pp(e["out"]["p"]) if e.get("out",{}).get("t")=="poly" else e.get("out"))
