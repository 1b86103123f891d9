import json, os, random, shutil
import vp, apps, store

LEVEL = "model_checking"


def run(ctx):
    base = open(os.path.join(vp.SPEC, "StoreMC.cfg")).read()
    ctx.model("StoreMC", base if ctx.quick else base.replace("MaxIts = 2", "MaxIts = 4").replace("MaxRuns = 2", "MaxRuns = 2").replace("Everys = {0, 1, 2}", "Everys = {0, 1, 2, 3}"), timeout=3000)
    rnd = random.Random(ctx.seed * 31 + 2)
    exe, so = apps.exes(), apps.fsops()
    root = vp.scratch("runs")
    cases, ref = store.settled(ctx, lambda i, a: store.Case(i, a, rnd, root, 9), (apps.APPS + ("online",)) * (2 if ctx.quick else 10))
    # every run and, for each, every point at which it can be ended
    plans = []
    for c in cases:
        some = [(e, n) for e in (1, 2, 3, 5) for n in range(0, 6)]
        rnd.shuffle(some)
        for e, n in some[:5 if ctx.quick else 24]:
            plans.append((c, {"from": [0, 0], "its": n, "every": e, "out": 1}, not c.online and rnd.random() < 0.3))
    F = {"from": [0, 0], "its": 2, "every": 1, "out": 1}

    def all_points(p):
        c, h, second = p
        tag = "p%d" % id(p)
        d = os.path.join(root, tag)
        log = d + ".log"
        out = []

        def fresh():
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            pre = []
            if second:          # over the files of an earlier run, continuing from one of them
                t, _ = store.one_run(c, exe, so, d, F, log)
                pre.append(t)
            return pre
        hh = dict(h, **{"from": [1, rnd.choice([0, 1, 2])]}) if second else h
        pre = fresh()
        t, n = store.one_run(c, exe, so, d, hh, log)
        out.append(pre + [t])
        pre = fresh()
        t, _ = store.one_run(c, exe, so, d, hh, log, quiet=True)
        out.append(pre + [t])
        for k in range(1, n + 1):
            for half in (0, 1):
                pre = fresh()
                t, _ = store.one_run(c, exe, so, d, hh, log, kill=k, half=half)
                out.append(pre + [t])
        shutil.rmtree(d, ignore_errors=True)
        return [json.dumps({"id": tag, "app": c.app, "ref": ref[c.n], "runs": x}) for x in out]
    out = [l for p in apps.pmap(all_points, plans) for l in p]
    ctx.extra["kill_points"] = len(out)
    for i in range(0, len(out), 1500):
        ctx.validate("StoreTrace", out[i:i + 1500], name="s%d" % i, timeout=1500, heap="8g")
    # numbers of more than three digits
    c = store.Case(0, "lda", rnd, root, 1001)
    c.w = 1
    long_ref = store.references(ctx, [c])[0]
    d = os.path.join(root, "long")
    os.makedirs(d)
    t, _ = store.one_run(c, exe, so, d, {"from": [0, 0], "its": 1001, "every": 250, "out": 1}, d + ".log")
    ctx.validate("StoreTrace", [json.dumps({"id": "long", "app": "lda", "ref": long_ref, "runs": [t]})],
                 open(os.path.join(vp.SPEC, "StoreTrace.cfg")).read().replace("MaxIts = 6", "MaxIts = 1001").replace("Outs = {1, 2}", "Outs = {1}"), name="long")
    ctx.assumptions += ["a crash is the end of the process between or within its write calls; loss of data the system had accepted is not considered"]
