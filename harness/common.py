"""Shared machinery of the checks: scratch copy of /repo, TLC runs, drivers, verdicts, evidence.

A check is a function run(ctx) in harness/props.py; it composes
  ctx.tlc(...)        exhaustive exploration of a specification in /verif/spec
  ctx.driver(...)     a program run against the code of /repo's working tree (a scratch copy of it)
  ctx.validate(...)   TLC evaluating a Trace specification over the behaviours the driver recorded
and reports through ctx.reject(...).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
TLACP = None


def tla_classpath():
    "tla2tools plus the community modules, as the installed `tlc` wrapper has them"
    global TLACP
    if TLACP is None:
        wrapper = shutil.which("tlc")
        cp = None
        if wrapper:
            txt = open(os.path.realpath(wrapper), errors="ignore").read()
            m = re.search(r"-cp\s+[\"']?([^\s\"']+)", txt)
            if m and "$" not in m.group(1):
                cp = m.group(1)
        if not cp:
            d = os.path.dirname(TLAJAR)
            cp = ":".join(os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar"))
        TLACP = cp
    return TLACP


class CheckError(Exception):
    "The check itself could not be carried out (exit 2)"


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="gpkit-verif-%s." % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.keep = bool(os.environ.get("VERIF_KEEP"))    # keep the scratch directory (for debugging)
        if not self.keep:
            atexit.register(shutil.rmtree, self.work, True)
        self.rejects = []          # (signature, description, replay-data)
        self.known_hit = {}
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self._src = None
        self.known = load_known(pid)

    # -- code under test ---------------------------------------------------------
    @property
    def src(self):
        "a scratch copy of the working tree of the repository"
        if self._src is None:
            dst = os.path.join(self.work, "src")
            os.mkdir(dst)
            subprocess.run("tar -C %s --exclude=./.git --exclude=./gpkit/env --exclude=__pycache__ -cf - . | tar -C %s -xf -"
                           % (REPO, dst), shell=True, check=True)
            os.makedirs(dst + "/gpkit/env", exist_ok=True)
            with open(dst + "/gpkit/env/settings", "w") as f:
                f.write("installed_solvers : cvxopt\n")
            self._src = dst
        return self._src

    def env(self):
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG")}
        e.update(PYTHONPATH=self.src + ":" + os.path.join(VERIF, "drivers"), PYTHONDONTWRITEBYTECODE="1",
                 PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg",
                 PYTHONNOUSERSITE="1", MPLCONFIGDIR=self.work + "/mpl", VERIF_SEED=str(self.seed),
                 VERIF_TIER=self.tier, GPKIT_SRC=self.src, LC_ALL="C.UTF-8", TMPDIR=self.work)
        return e

    def driver(self, script, *args, timeout=600, stdin=None, env=None):
        """Runs a driver against the scratch copy.  Its working directory is the scratch dir.  A crash
        that comes out of the code under test is a rejection; any other failure is a CheckError."""
        cmd = [PY, "-W", "ignore", os.path.join(VERIF, "drivers", script)] + [str(a) for a in args]
        try:
            p = subprocess.run(cmd, cwd=self.work, env=dict(self.env(), **(env or {})), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=timeout, input=stdin)
        except subprocess.TimeoutExpired as e:
            err = e.stderr.decode(errors="replace") if isinstance(e.stderr, bytes) else (e.stderr or "")
            self.reject("driver-timeout", "driver %s did not finish within %ss (non-terminating code?)" % (script, timeout), err[-4000:])
            return ""
        if p.returncode:
            frames = re.findall(r'File "([^"]+)", line', p.stderr)
            if frames and any(f.startswith(self.src + "/gpkit") for f in frames[-12:]):
                self.reject("crash:" + p.stderr.strip().splitlines()[-1][:120],
                            "the code under test raised inside driver %s" % script, p.stderr[-6000:])
                return p.stdout
            raise CheckError("driver %s failed (%s):\n%s" % (script, p.returncode, p.stderr[-6000:]))
        return p.stdout

    # -- TLC -----------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, extra=(), timeout=850, heap="6g", deadlock=False,
            allow_fail=False, count=True):
        "Runs TLC on /verif/spec/<module>.tla; returns (ok, stdout). Adds to the state counts."
        meta = tempfile.mkdtemp(prefix="tlc.", dir=self.work)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", tla_classpath(), "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg or module + ".cfg"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, True)
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        ok = p.returncode == 0
        self.last_generated = self.last_distinct = 0
        if m:
            self.last_generated, self.last_distinct = int(m[-1][0]), int(m[-1][1])
            if count:
                self.states += self.last_distinct
                self.transitions += self.last_generated
        if not ok and not allow_fail:
            raise CheckError("TLC failed on %s/%s:\n%s" % (module, cfg, out[max(0, out.find("Error:")):][:5000]))
        return ok, out

    def model_check(self, module, cfg=None, **kw):
        "Exhaustive check of the specification itself; a failure is an error of the check, not of the code"
        ok, out = self.tlc(module, cfg, **kw)
        return out

    def parallel(self, fn, items, n=8):
        "fn over items in threads (the work is in subprocesses), results in order"
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(n) as ex:
            return list(ex.map(fn, items))

    def emitted(self, out):
        "JSON records a specification printed with PrintT(\"@@\" \\o ToJson(..))"
        res = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                res.append(json.loads(json.loads(line)[2:]))
        return res

    def validate(self, module, trace, cfg=None, env=None, workers=8, heap="8g", timeout=850, describe=None):
        """Trace validation. `trace` is an ndjson file, one behaviour per line: {"id":..., "ev":[...]}.
        The trace spec prints <<"REJECT", tid, step, clause>> for the first event of a behaviour it
        does not accept; a behaviour is accepted iff all of its events are consumed."""
        with open(trace) as f:
            traces = [json.loads(line) for line in f if line.strip()]
        if not traces:
            raise CheckError("empty trace file for " + module)
        e = dict(env or {}); e["TRACE"] = trace
        for _ in range(40):
            ok, out = self.tlc(module, cfg, env=e, workers=workers, heap=heap, timeout=timeout, allow_fail=True, count=False)
            if ok:
                break
            # the specification's integers are 32 bits: a behaviour beyond them is left out (and counted)
            m = re.findall(r"\btid = (\d+)", out)
            if "Overflow when computing" not in out or not m:
                raise CheckError("TLC failed on %s:\n%s" % (module, out[max(0, out.find("Error:")):][:5000]))
            del traces[int(m[-1]) - 1]
            self.extra["behaviours_beyond_32_bits"] = self.extra.get("behaviours_beyond_32_bits", 0) + 1
            with open(trace, "w") as f:
                for t in traces:
                    f.write(json.dumps(t) + "\n")
        else:
            raise CheckError("too many behaviours beyond the integers of %s" % module)
        self.states += self.last_distinct
        self.transitions += self.last_generated
        rej = {}
        flat = re.sub(r"\s*\n\s+", " ", out)    # TLC wraps long tuples
        for t, l, c in re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', flat):
            rej[int(t)] = (int(l), c)
        if out.count('"REJECT"') != len(rej):
            raise CheckError("could not parse the rejections of %s:\n%s" % (module, out[-3000:]))
        want = sum((rej[i][0] + 1) if i in rej else len(t["ev"]) + 1 for i, t in enumerate(traces, 1))
        if self.last_distinct != want:
            raise CheckError("%s consumed %d states, expected %d: some behaviour was neither accepted nor rejected\n%s"
                             % (module, self.last_distinct, want, out[-3000:]))
        self.traces += len(traces)
        for i, (l, c) in sorted(rej.items()):
            t = traces[i-1]
            self.reject("%s|%s" % (c, t.get("tag", t.get("id", i))),
                        "%s: behaviour %s rejected at event %d: %s" % (module, t.get("id", i), l, c),
                        {"spec": module, "clause": c, "event": t["ev"][l-1], "step": l, "behaviour": t})
        if traces:
            self.sample(traces[0], traces[len(traces)//2])
        return traces, rej

    # -- verdict ----------------------------------------------------------------------
    def sample(self, *items):
        for it in items:
            s = json.dumps(it)
            if len(self.samples) < 6:
                self.samples.append(it if len(s) < 3000 else s[:3000] + "...")

    def reject(self, signature, what, data=None):
        for k in self.known:
            if re.search(k["match"], signature):
                self.known_hit.setdefault(k["what"], []).append(signature)
                return
        self.rejects.append((signature, what, data))

    def finish(self, level="model_checking"):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples or ["none"], **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.rejects))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s%s" % (self.pid, k["what"], "" if k["what"] in self.known_hit else " (not reproduced in this run)"))
        if self.rejects:
            rp = os.path.join(VERIF, "evidence", self.pid + ".replay.json")
            with open(rp, "w") as f:
                json.dump([dict(signature=s, what=w, data=d) for s, w, d in self.rejects[:400]], f, indent=1, default=str)
            for s, w, _ in self.rejects[:5]:
                print("  ", w)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" %
              (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0


def load_known(pid):
    "entries of known_findings.json that are open for this property"
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == pid]


def main(argv):
    from harness import props
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    try:
        level = getattr(props, pid)(ctx) or "model_checking"
        return ctx.finish(level)
    except CheckError as e:
        if ctx.rejects:   # something was already found wrong in the code; say so
            return ctx.finish()
        print("CHECK-ERROR %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not ctx.keep:
            shutil.rmtree(ctx.work, True)
