"shows the rejected classes of a DocTrace run: doc1.py FILE.ndjson FILE.tlc [substr] [n]"
import sys, json, re
T = [json.loads(l) for l in open(sys.argv[1])]
n = int(sys.argv[4]) if len(sys.argv) > 4 else 1
for m in re.finditer(r'<<"REJECT", (\d+), (\d+), "(.*?)">>', open(sys.argv[2]).read()):
    if len(sys.argv) > 3 and sys.argv[3] not in m[3]: continue
    t = T[int(m[1]) - 1]; e = t["ev"][int(m[2]) - 1]
    print(t["id"], m[3]); print(e.pop("src", "")); print({k: v for k, v in e.items() if k not in ("cons",)})
    n -= 1
    if not n: break
