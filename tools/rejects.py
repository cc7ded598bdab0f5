import json,sys,collections
d=json.load(open('/verif/evidence/%s.replay.json'%sys.argv[1]))
c=collections.Counter(x["signature"] for x in d)
for k,v in c.most_common(40): print(v,k)
want=sys.argv[2] if len(sys.argv)>2 else None
if want:
    for x in d:
        if want in x["signature"]:
            b=x["data"]
            print(json.dumps(b.get("behaviour",{}).get("sig")));
            for e in b.get("behaviour",{}).get("ev",[])[4:b.get("step",99)]: print("  ",json.dumps(e)[:400])
            break
