"addfix.py PID 'subject prefix' 'what failed': records a fix commit in tools/known.py and regenerates known_findings.json"
import sys, subprocess, os  # noqa
H = os.path.dirname(os.path.abspath(__file__))
p = H + "/known.py"; s = open(p).read(); i = s.index("]\nEXTRA")
s = s[:i] + "    (%r, %r, %r),\n" % (sys.argv[1], sys.argv[2].replace("fix: ", "", 1), sys.argv[3]) + s[i:]
open(p, "w").write(s)
subprocess.run([sys.executable, p] + sys.argv[4:], check=True)
