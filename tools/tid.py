# show one recorded behaviour of a kept scratch dir: tid.py FILE N
import sys,json
ls=open(sys.argv[1]).read().splitlines(); d=json.loads(ls[int(sys.argv[2])-1])
print({k:v for k,v in d.items() if k!="ev"})
for e in d["ev"]: print("  ",json.dumps(e)[:int(sys.argv[3]) if len(sys.argv)>3 else 350])
