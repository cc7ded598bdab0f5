"""plant(...) makes and confirms one planted bug in scratch copies of /repo, keeps it in seeded/<id>/.
   `plant.py ID...` confirms kept ones again; `plant.py -c ID...` also runs the property's check."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
DEMO = '#!/bin/sh\nPYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 200 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def tests(repo):
    t = tempfile.mkdtemp(prefix="plt")
    s = open("/opt/vp/test.sh").read().replace("/repo", repo)
    open(t + "/test.sh", "w").write(s)
    sh("bash %s/test.sh %s/out.json" % (t, t))
    try:
        out = json.load(open(t + "/out.json"))
    except Exception as e:
        return "tests did not run: %s" % e
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base["stable"]
    got = set(out.get("passed", []))
    shutil.rmtree(t)
    return sorted(set(stable) - got)

def confirm(id_, check=False):
    d = os.path.join(SEED, id_)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="plant")
    repo = w + "/repo"
    try:
        sh("cp -a /repo %s" % repo)
        sh("git checkout -q -- .", cwd=repo)
        demo = "sh %s/demo.sh" % d
        r0 = sh(demo, cwd=repo)
        a = sh("git apply %s/patch.diff" % d, cwd=repo)
        r1 = sh(demo, cwd=repo)
        bad = tests(repo)
        msg = dict(id=id_, applies=a.returncode == 0, demo_ok=r0.returncode == 0, demo_fails=r1.returncode != 0, tests=bad)
        ok = msg["applies"] and msg["demo_ok"] and msg["demo_fails"] and not bad
        if not ok: msg.update(r0=(r0.stdout+r0.stderr)[-600:], r1=(r1.stdout+r1.stderr)[-600:], a=a.stderr)
        print("CONFIRMED" if ok else "BAD", msg, flush=True)
        if check:
            for p in [meta["property"]]:
                c = sh("python3 check.py %s quick" % p, cwd=ROOT, env=dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=w))
                print("   check", p, "->", c.returncode, (c.stdout.strip().split("\n") or [""])[-3:], c.stderr[-300:] if c.returncode not in (0, 1) else "", flush=True)
        return ok
    finally:
        shutil.rmtree(w)

def plant(id_, prop, needs, breaks, edits, demo, check=True):
    w = tempfile.mkdtemp(prefix="plant")
    repo = w + "/repo"
    try:
        sh("cp -a /repo %s" % repo)
        for f, old, new in edits:
            s = open(repo + "/" + f).read()
            assert s.count(old) == 1, (id_, f, old, s.count(old))
            open(repo + "/" + f, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=repo).stdout
        assert diff
        base = sh("git blame -s --abbrev=7 HEAD -- x", cwd=repo)
    finally:
        shutil.rmtree(w)
    d = os.path.join(SEED, id_)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    # the changed lines have to be original ones
    for f, old, new in edits:
        o, n = old.split("\n"), new.split("\n")
        b = sh("git blame -s HEAD -- %s" % f, cwd="/repo").stdout.split("\n")
        gone = [l for l in o if l.strip() and l not in n]
        mine = [x for x in b if any(x.endswith(l) for l in gone) and not x.startswith("^")]
        if mine: print("WARNING %s: changes lines of fix commits: %s" % (id_, mine[:3]))
    return confirm(id_, check)

if __name__ == "__main__":
    chk = "-c" in sys.argv
    ids = [a for a in sys.argv[1:] if a != "-c"] or sorted(os.listdir(SEED))
    for i in ids: confirm(i, chk)
