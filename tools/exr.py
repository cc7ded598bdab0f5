"usage: exr.py PID [substr] [n]: shows rejected expression programs of the last run"
import sys, json, os, subprocess
d = json.load(open("/verif/evidence/%s.replay.json" % sys.argv[1]))
with open("/tmp/exr.ndjson", "w") as f, open("/tmp/exr.tlc", "w") as g:
    k = 0
    for x in d:
        x = x["data"]
        if "behaviour" not in x: print(list(x)); continue
        k += 1
        f.write(json.dumps(x["behaviour"]) + "\n")
        at = x["step"]
        g.write('<<"REJECT", %d, %d, "%s">>\n' % (k, at, x["clause"]))
subprocess.run([sys.executable, "/verif/tools/ex1.py", "/tmp/exr.ndjson", "/tmp/exr.tlc", sys.argv[2] if len(sys.argv) > 2 else "", sys.argv[3] if len(sys.argv) > 3 else "3"])
