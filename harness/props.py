"""One function per property.  See /verif/DESIGN.md."""
import json, os, itertools, random
from .common import CheckError


def _write(ctx, name, obj, nd=False):
    path = os.path.join(ctx.work, name)
    with open(path, "w") as f:
        if nd:
            for o in obj:
                f.write(json.dumps(o) + "\n")
        else:
            json.dump(obj, f)
    return path


# ------------------------------------------------------------------------------------------
def _keydict(ctx, universes, depth, maxseq, walks, walklen):
    tot = dict(sequences=0, steps=0, transitions=0, covered=0)
    ctx.src
    def one(n):
        u = universes[n]
        up = _write(ctx, "univ%d.json" % n, u)
        out = ctx.model_check("KeyDict", env={"UNIV": up}, workers=2)
        tab = _write(ctx, "table%d.ndjson" % n, ctx.emitted(out), nd=True)
        res = os.path.join(ctx.work, "kd%d.json" % n)
        ctx.driver("kd.py", up, tab, res, depth, maxseq, walks, walklen)
        return res
    for n, res in enumerate(ctx.parallel(one, range(len(universes)))):
        u = universes[n]
        if not os.path.exists(res):
            continue
        r = json.load(open(res))
        for k in tot:
            tot[k] += r[k]
        ctx.sample(r["sample"])
        for f in r["fails"]:
            a = f["acts"][-1]
            ctx.reject("u%d|%s|%s" % (n, a["op"], f["msg"][:160]),
                       "universe %d, behaviour %s: %s" % (n, " ; ".join(_kdact(x) for x in f["acts"][-6:]), f["msg"]),
                       dict(universe=u, **f))
    ctx.traces += tot["sequences"]
    ctx.extra.update(steps_replayed=tot["steps"], spec_transitions_exercised=tot["covered"], spec_transitions_total=tot["transitions"],
                     universes=len(universes))
    if tot["transitions"] and not tot["covered"]:
        raise CheckError("nothing replayed")


def _kdact(a):
    return a["op"] + "(" + ",".join(str(a[k]) for k in ("d", "from", "e", "i", "n", "v", "c") if k in a) + ")"


ALLOPS = ["set", "setfull", "setarray", "setlist", "setelem", "del", "delelem", "delname", "setname"]


def P05(ctx):
    S = lambda name, lineage=(), size=0: dict(name=name, lineage=list(lineage), size=size)
    U = lambda ent, vals, subs=False, dicts=1, ops=ALLOPS: dict(ent=ent, vals=vals, subs=subs, dicts=dicts, ops=ops)
    universes = [
        U([S("x", ["M"]), S("x", ["M"]), S("z", [], 2)], ["1", "0.1"]),
        U([S("x"), S("x", ["N"], 2), S("y")], ["2", "1.5"]),
        U([S("z", ["M"], 2), S("z", ["M", "N"], 1)], ["1", "0.1", "f"]),
        U([S("x", ["M"]), S("x", ["M"]), S("z", [], 2)], ["1", "0.1"], subs=True),
        U([S("x", ["A", "B"]), S("z", ["A"], 2), S("z", ["B"], 2)], ["3"], subs=True),
        U([S("x"), S("w", ["A"], 2)], ["1", "f", "0.3"], subs=True),
        U([S("x", ["M"]), S("x", ["M"]), S("z", [], 2)], ["1"], dicts=2, ops=ALLOPS + ["update"]),
    ]
    if not ctx.quick:
        universes += [U([S("x", ["M"]), S("x", ["M"]), S("z", [], 3), S("x", ["K"], 2)], ["1", "0.1"]),
                      U([S("z", ["M"], 3), S("z", ["M"], 2)], ["1", "0.1", "f"])]
    _keydict(ctx, universes, 4, 2500 if ctx.quick else 30000, 250 if ctx.quick else 4000, 40)


def P06(ctx):
    S = lambda name, lineage=(), size=0: dict(name=name, lineage=list(lineage), size=size)
    ops = ["set", "setfull", "setarray", "setelem", "del", "delelem", "copy", "update", "setshared", "writeread"]
    universes = [
        dict(ent=[S("z", [], 2)], vals=["1", "2"], subs=False, dicts=2, ops=ops),
        dict(ent=[S("z", [], 1), S("x")], vals=["1", "2"], subs=False, dicts=3, ops=ops),
        dict(ent=[S("z", [], 2), S("z", ["M"], 1)], vals=["0.1"], subs=False, dicts=2, ops=ops + ["delname"]),
        dict(ent=[S("z", [], 2)], vals=["1", "2"], subs=True, dicts=2, ops=[o for o in ops if o != "copy"] + ["setname"]),
    ]
    _keydict(ctx, universes, 5, 4000 if ctx.quick else 40000, 400 if ctx.quick else 5000, 40)


def P07(ctx):
    tot = dict(sequences=0, steps=0, transitions=0, covered=0)
    ctx.src
    cfgs = ["Environments.cfg", "EnvironmentsDeep.cfg"]
    def one(cfg):
        out = ctx.model_check("Environments", cfg, workers=2)
        tab = _write(ctx, cfg + ".ndjson", ctx.emitted(out), nd=True)
        res = os.path.join(ctx.work, cfg + ".json")
        ctx.driver("envs.py", tab, res, 1500 if ctx.quick else 30000, 25)
        return res
    for cfg, res in zip(cfgs, ctx.parallel(one, cfgs)):
        if not os.path.exists(res):
            continue
        r = json.load(open(res))
        for k in tot:
            tot[k] += r[k]
        ctx.sample(r["sample"])
        for f in r["fails"]:
            ctx.reject("%s|%s" % (cfg, f["msg"][:160]), "behaviour %s: %s" % (json.dumps(f["acts"][-6:]), f["msg"]), f)
    ctx.traces += tot["sequences"]
    ctx.extra.update(steps_replayed=tot["steps"], spec_transitions_exercised=tot["covered"], spec_transitions_total=tot["transitions"])


def _nomial(ctx, mode, n, laws=True):
    "programs over expressions: sharded over several drivers, validated by NomialTrace"
    ctx.src
    jobs = 4
    def one(k):
        t = os.path.join(ctx.work, "%s%d.ndjson" % (mode, k))
        ctx.driver("nom.py", mode, t, n // jobs, env={"VERIF_SEED": str(ctx.seed * 16 + k)})
        return t
    if laws:
        ctx.model_check("NomialLaws", workers=8)
    files = ctx.parallel(one, range(jobs))
    allf = os.path.join(ctx.work, mode + ".ndjson")
    with open(allf, "w") as f:
        for t in files:
            if os.path.exists(t):
                f.write(open(t).read())
    traces, rej = ctx.validate("NomialTrace", allf)
    count = {}
    for t in traces:
        for e in t["ev"]:
            count[e["op"]] = count.get(e["op"], 0) + 1
    ctx.extra["events"] = count


def P01(ctx):
    _nomial(ctx, "algebra", 4000 if ctx.quick else 60000)


def P02(ctx):
    _nomial(ctx, "subst", 3000 if ctx.quick else 40000)


def P03(ctx):
    _nomial(ctx, "calculus", 3000 if ctx.quick else 40000)


def P24(ctx):
    _nomial(ctx, "text", 3000 if ctx.quick else 40000, laws=False)


def P08(ctx):
    ctx.model_check("ConstraintLaws")
    _nomial(ctx, "constraint", 4000 if ctx.quick else 60000, laws=False)


def _session(ctx, mode, n, jobs=8, spec="SessionTrace"):
    ctx.src
    def one(k):
        t = os.path.join(ctx.work, "%s%d.ndjson" % (mode, k))
        ctx.driver("sess.py", mode, t, n // jobs, env={"VERIF_SEED": str(ctx.seed * 16 + k)})
        return t
    files = ctx.parallel(one, range(jobs))
    allf = os.path.join(ctx.work, mode + ".ndjson")
    with open(allf, "w") as f:
        for t in files:
            if os.path.exists(t):
                f.write(open(t).read())
    traces, rej = ctx.validate(spec, allf)
    count = {}
    for t in traces:
        for e in t["ev"]:
            count[e["op"]] = count.get(e["op"], 0) + 1
    ctx.extra["events"] = count


def P10(ctx):
    _session(ctx, "compile", 5000 if ctx.quick else 60000)


def P13(ctx):
    _session(ctx, "sens", 4000 if ctx.quick else 60000)


def P14(ctx):
    _session(ctx, "sweep", 1500 if ctx.quick else 30000)


def P12(ctx):
    _session(ctx, "fail", 2500 if ctx.quick else 30000)


def P15(ctx):
    _session(ctx, "helper", 2500 if ctx.quick else 30000)


def P22(ctx):
    _session(ctx, "link", 2000 if ctx.quick else 30000)


def P11(ctx):
    _session(ctx, "bounds", 6000 if ctx.quick else 60000)


def P17(ctx):
    ctx.model_check("SgpLoop", workers=2)
    _session(ctx, "seq", 1500 if ctx.quick else 30000)


def P18(ctx):
    ctx.model_check("SgpLaws", workers=8)
    _session(ctx, "sgp", 1500 if ctx.quick else 30000)


def P20(ctx):
    _session(ctx, "marks", 2500 if ctx.quick else 30000)


def P19(ctx):
    _session(ctx, "relax", 1400 if ctx.quick else 16000, spec="RelaxTrace")


def P25(ctx):
    _session(ctx, "cli", 2000 if ctx.quick else 20000)


def P28(ctx):
    ctx.model_check("ConicLaws", workers=8)
    _session(ctx, "conif", 2400 if ctx.quick else 30000)


def P23(ctx):
    n = 16000 if ctx.quick else 160000
    ctx.src
    def one(k):
        if k == 8:
            return ctx.model_check("DocLaws", workers=4) and None
        t = os.path.join(ctx.work, "doc%d.ndjson" % k)
        ctx.driver("doc.py", t, n // 8, env={"VERIF_SEED": str(ctx.seed * 16 + k)})
        return t
    _validate(ctx, "DocTrace", ctx.parallel(one, range(9), 9), "doc")


def P21(ctx):
    n = 1200 if ctx.quick else 9600
    ctx.src
    def one(k):
        if k == 8:
            return ctx.model_check("SolLaws", workers=2) and None
        t = os.path.join(ctx.work, "sol%d.ndjson" % k)
        ctx.driver("sol.py", t, n // 8, env={"VERIF_SEED": str(ctx.seed * 16 + k)})
        return t
    _validate(ctx, "SolTrace", ctx.parallel(one, range(9), 9), "sol")


def P26(ctx):
    _session(ctx, "debug", 2400 if ctx.quick else 24000, spec="DebugTrace")


def P16(ctx):
    ctx.src
    jobs, n = 8, 1600 if ctx.quick else 40000
    def one(k):
        if k == jobs:
            return ctx.model_check("AutosweepLaws", workers=2) and None
        t = os.path.join(ctx.work, "auto%d.ndjson" % k)
        ctx.driver("asw.py", t, n // jobs, env={"VERIF_SEED": str(ctx.seed * 16 + k)})
        return t
    files = ctx.parallel(one, range(jobs + 1), jobs + 1)
    _validate(ctx, "AutosweepTrace", files, "auto")


def _validate(ctx, spec, files, name, **kw):
    allf = os.path.join(ctx.work, name + ".ndjson")
    with open(allf, "w") as f:
        for t in files:
            if t and os.path.exists(t):
                f.write(open(t).read())
    traces, rej = ctx.validate(spec, allf, **kw)
    count = {}
    for t in traces:
        for e in t["ev"]:
            count[e["op"]] = count.get(e["op"], 0) + 1
    ctx.extra["events"] = count


def _expr(ctx, mode, n, jobs=8):
    ctx.src
    def one(k):
        if k == jobs:
            return ctx.model_check("ExprLaws", workers=2) and None
        t = os.path.join(ctx.work, "%s%d.ndjson" % (mode, k))
        ctx.driver("expr.py", mode, t, n // jobs, env={"VERIF_SEED": str(ctx.seed * 16 + k)})
        return t
    _validate(ctx, "ExprTrace", ctx.parallel(one, range(jobs + 1), jobs + 1), mode)


def P04(ctx):
    _expr(ctx, "units", 6000 if ctx.quick else 80000)


def P27(ctx):
    _expr(ctx, "arrays", 5000 if ctx.quick else 80000)


def P09(ctx):
    n = 12000 if ctx.quick else 120000
    ctx.src
    def one(k):
        if k == 8:
            return ctx.model_check("CompositionLaws", workers=4) and None
        t = os.path.join(ctx.work, "comp%d.ndjson" % k)
        ctx.driver("comp.py", t, n // 8, env={"VERIF_SEED": str(ctx.seed * 16 + k)})
        return t
    _validate(ctx, "CompTrace", ctx.parallel(one, range(9), 9), "comp")


def P29(ctx):
    n = 2400 if ctx.quick else 32000
    ctx.src
    def one(k):
        if k == 8:
            return ctx.model_check("SankeyLaws", workers=4) and None
        t = os.path.join(ctx.work, "sk%d.ndjson" % k)
        ctx.driver("sk.py", t, n // 8, env={"VERIF_SEED": str(ctx.seed * 16 + k)}, timeout=600 if ctx.quick else 5000)
        return t
    _validate(ctx, "SankeyTrace", ctx.parallel(one, range(9), 9), "sankey")


def P30(ctx):
    n = 12000 if ctx.quick else 160000
    ctx.src
    def one(k):
        if k == 4:
            return ctx.model_check("TaylorLaws", workers=2) and None
        t = os.path.join(ctx.work, "tay%d.ndjson" % k)
        ctx.driver("tay.py", t, n // 4, env={"VERIF_SEED": str(ctx.seed * 16 + k)})
        return t
    _validate(ctx, "TaylorTrace", ctx.parallel(one, range(5), 5), "taylor")
