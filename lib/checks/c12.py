import hashlib, json, os, random, re, shutil
import vp, apps
from framework import Violation
from estep import parallel

LEVEL = "model_checking"


def invocations(r):
    out = []
    for s in sorted(set(re.findall(r'<<"INV",\s*"(.*?)">>', r.out))):
        out.append(json.loads(s.replace('\\"', '"')))
    return out


def generate(ctx, rnd):
    base = open(os.path.join(vp.SPEC, "OptionsMC.cfg")).read()
    one = invocations(ctx.model("OptionsMC", base))
    two = invocations(ctx.model("OptionsMC", base.replace("MaxSet = 1", "MaxSet = 2"), timeout=900))
    r = vp.tlc("OptionsMC", base.replace("MaxSet = 1", "MaxSet = 20"),
               args=["-simulate", "num=%d" % (400 if ctx.quick else 6000), "-depth", "40", "-seed", str(ctx.seed)], workers=1)
    many = [i for i in invocations(r) if len(i["opts"] or {}) > 2]
    two = [i for i in two if len(i["opts"] or {}) == 2]
    for l in (two, many):
        rnd.shuffle(l)
    if ctx.quick:
        # every pair of options of every application, with some values
        seen, every, others = set(), [], []
        for i in two:
            k = (i["app"], i["cmd"], *sorted(i["opts"]))
            (others if k in seen else every).append(i)
            seen.add(k)
        two, many = every + others[:60], many[:260]
    else:
        many = many[:4000]
    return one + two + many


def run(ctx):
    rnd = random.Random(ctx.seed * 23 + 9)
    inv = generate(ctx, rnd)
    exe = apps.exes()
    root = vp.scratch("runs")
    # a few data sets, each with models that fit it
    sets = []
    for i in range(12 if ctx.quick else 60):
        # ... enough documents for the progress within an iteration to be reported, in two
        d = apps.Data(rnd, D=8 if i % 3 == 0 else {4: 100, 8: 215}.get(i))
        f = os.path.join(root, "data%d" % i)
        open(f, "wb").write(d.bytes())
        g = os.path.join(root, "more%d" % i)
        more = apps.Data(rnd, V=d.V, D={4: 200, 8: 130, 10: 100}.get(i))
        open(g, "wb").write(more.bytes())
        m = {"A": apps.Model(rnd, rnd.choice([2, 3, 4]), d.V, d.C), "B": apps.Model(rnd, rnd.choice([1, 3, 5]), d.V, d.C),
             "U": apps.Model(rnd, rnd.choice([2, 3]), d.V, 1, True)}
        p = {}
        for n in m:
            p[n] = os.path.join(root, "model%s%d" % (n, i))
            open(p[n], "wb").write(m[n].bytes())
        sets.append((d, f, more, g, m, p))
    jobs, lines = [], []
    for n, v in enumerate(inv):
        # online training is a function of its input where mini-batches end with passes
        d, f, more, g, m, p = rnd.choice(sets[::3] if v["cmd"] == "online_train" else
                                          [sets[4], sets[8], sets[10]] if v["cmd"] == "transform" and n % 2 else sets)
        p = dict(p)
        w = os.path.join(root, "w%d" % n)
        os.makedirs(w)
        target = os.path.join(w, "out")
        if v["cmd"] == "transform":
            use = rnd.choice(["A", "B", "U"]) if v["app"] == "lda" else rnd.choice("AB")
            pos = [p[use], g, target]
            lines.append("id=%d %s %s %s" % (n, apps.config_line(v["config"], v["cmd"], m), more.line(), m[use].arg()))
        else:
            named = [o for o in ("continue", "continue_from_unsupervised") if o in (v["opts"] or {})]
            if named and rnd.random() < 0.3:          # trained further in place
                shutil.copy(p[v["opts"][named[0]]], target)
                p[v["opts"][named[0]]] = target
            elif rnd.random() < 0.3:                  # over something older and longer
                open(target, "wb").write(m["B"].bytes() + b"\0" * 4000)
            pos = [f, target]
            lines.append("id=%d %s %s" % (n, apps.config_line(v["config"], v["cmd"], m), d.line()))
        a = apps.argv(v, rnd, p)
        v["docs"] = more.D if v["cmd"] == "transform" else d.D
        cmd = [v["cmd"], *a, *pos]
        jobs.append((n, v, [exe[v["app"]], *cmd], target))
    refs = {}
    for l in parallel(ctx, vp.build_harness("apps"), lines, timeout=600, what="training with the library crashes"):
        o = json.loads(l)
        refs[o["id"]] = o

    def one(j):
        n, v, cmd, target = j
        # inputs written in place are consumed by the first run: keep a copy
        old = open(target, "rb").read() if os.path.exists(target) else None
        for attempt in (1, 2):
            r = vp.run(cmd, timeout=120)
            if not r.timeout and r.rc == 0:
                break
            if old is not None:
                open(target, "wb").write(old)
        try:
            b = open(target, "rb").read()
        except OSError:
            b = b"?"
        ref = refs[str(n)]
        t = {"id": str(n), "inv": {k: v[k] for k in ("app", "cmd")}, "names": sorted(v["opts"] or {}), "config": v["config"],
             "rc": -1 if r.timeout else r.rc, "said": [], "blank": int(r.out.strip() == "" ), "argv": cmd[1:], "docs": v["docs"]}
        t["inv"]["opts"] = v["opts"] or []
        if v["cmd"] == "transform":
            x = apps.parse(b)
            t["have"] = int(x is not None and len(x) == 1)
            t["out"] = apps.columns(x[0]) if t["have"] else []
            t["ref"] = ref["G"]
            t["said"] = apps.said(r.out)
        else:
            x = apps.as_model(b)
            t["have"] = int(x is not None)
            t["model"] = x or {"alpha": [], "beta": [], "eta": []}
            t["ref"] = ref["final"]
            t["said"] = apps.said(r.out)
            t["lik"], t["mev"], t["loose"] = ref["lik"], ref["mev"], ref["loose"]
        shutil.rmtree(os.path.dirname(target), ignore_errors=True)
        return json.dumps(t)
    out = apps.pmap(one, jobs)
    for i in range(0, len(out), 700):
        ctx.validate("AppTrace", out[i:i + 700], name="a%d" % i, timeout=1500, heap="8g")
    ctx.extra["invocations"] = len(jobs)
    ctx.extra["not determined up to rounding"] = sum(o.get("loose", 0) for o in refs.values())
    ctx.assumptions += ["online training with mini-batches that are whole numbers of passes (otherwise its result depends on the schedule)",
                        "data sets in which every word and every class occurs"]
