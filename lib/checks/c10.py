import json, os, random, shutil, struct
import vp, apps, store

LEVEL = "model_checking"
ODD = [0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, float("inf"), -float("inf"), 1.0, -1.0, 0.1, 1 / 3.0, 1e-300,
       2.0 ** 53 + 2, struct.unpack("<d", struct.pack("<Q", 0x7ff8000000000001))[0], struct.unpack("<d", struct.pack("<Q", 0xfff8123456789abc))[0]]

NONE = {"alpha": [], "beta": [], "eta": []}


def persist(ctx, exe, rnd, root):
    data = apps.Data(rnd, V=3, D=4)
    dp = os.path.join(root, "pdata")
    open(dp, "wb").write(data.bytes())
    jobs = []
    for i in range(90 if ctx.quick else 1500):
        app = apps.APPS[i % 3]
        K, V, C = rnd.choice([1, 2, 3, 5, 12]), rnd.choice([1, 2, 3, 7, 40]), rnd.choice([1, 2, 3, 11])
        if i % 30 == 4:
            K, V, C = 11, 123, 4
        if i % 45 == 7:     # more than fits any buffer
            K, V, C = 12, 1100, 3
        m = apps.Model(rnd, K, V, C)
        if i % 2:           # any bits at all
            def any_():
                return rnd.choice(ODD) if rnd.random() < 0.5 else struct.unpack("<d", struct.pack("<Q", rnd.randrange(1 << 64)))[0]
            m.alpha = [any_() for _ in m.alpha]
            m.beta = [[any_() for _ in c] for c in m.beta]
            m.eta = [[any_() for _ in c] for c in m.eta]
        jobs.append((i, app, m))

    def one(j):
        i, app, m = j
        src, out, out2 = (os.path.join(root, "p%d.%s" % (i, x)) for x in ("in", "out", "out2"))
        open(src, "wb").write(m.bytes())
        if i % 3 == 0:      # over a longer file
            open(out, "wb").write(b"\x93NUMPY" + b"x" * 30000)
        if i % 5 == 1:      # in place
            shutil.copy(src, out)
            src = out
        def go(a, b):
            return vp.run([exe[app], "train", "-q", "--iterations=0", "--continue=" + a, dp, b], timeout=60)
        want = apps.as_model(open(src, "rb").read())
        r = go(src, out)
        x = apps.as_model(open(out, "rb").read()) if os.path.exists(out) else None
        r2 = go(out, out2) if x else r
        y = apps.as_model(open(out2, "rb").read()) if os.path.exists(out2) else None
        for f in (src, out, out2):
            if os.path.exists(f):
                os.unlink(f)
        return json.dumps({"id": i, "app": app, "in": want, "rc": r.rc or r2.rc, "have": int(x is not None), "out": x or NONE, "again": y or NONE})
    out = apps.pmap(one, jobs)
    for i in range(0, len(out), 500):
        ctx.validate("PersistTrace", out[i:i + 500], name="p%d" % i)


def run(ctx):
    base = open(os.path.join(vp.SPEC, "StoreMC.cfg")).read()
    rnd = random.Random(ctx.seed * 37 + 5)
    exe, so = apps.exes(), apps.fsops()
    root = vp.scratch("runs")
    persist(ctx, exe, rnd, root)
    ctx.model("StoreMC", base if ctx.quick else base.replace("MaxRuns = 2", "MaxRuns = 3").replace("Outs = {1, 2}", "Outs = {1}"), timeout=3000)
    emit = base.replace("Emit = FALSE", "Emit = TRUE")
    H = [h for h in store.histories(ctx.model("StoreMC", emit)) if len(h["runs"]) == 2]
    rnd.shuffle(H)
    L = []
    for i in range(3 if ctx.quick else 12):
        r = vp.tlc("StoreMC", emit.replace("MaxRuns = 2", "MaxRuns = %d" % (3 + i % 3)).replace("MaxIts = 2", "MaxIts = 3")
                   .replace("MaxTotal = 5", "MaxTotal = 9"), args=["-simulate", "num=%d" % (400 if ctx.quick else 3000), "-depth", "80", "-seed", str(ctx.seed * 100 + i)], workers=1)
        L += [h for h in store.histories(r) if len(h["runs"]) > 2]
    rnd.shuffle(L)
    def resumes(h):
        return any(r["from"] != [0, 0] for r in h["runs"])
    H, L = [h for h in H if resumes(h)], [h for h in L if resumes(h)]
    H = H[:250 if ctx.quick else 4000] + L[:200 if ctx.quick else 4000]
    cases, ref = store.settled(ctx, lambda i, a: store.Case(i, a, rnd, root, 10), apps.APPS * (3 if ctx.quick else 12))
    jobs = [(i, h, rnd.choice(cases), i % 2) for i, h in enumerate(H)]
    out = apps.pmap(lambda j: store.replay(j[2], exe, so, root, j[1], "h%d" % j[0], ref[j[2].n], half=j[3]), jobs)
    ctx.extra["histories"] = len(out)
    ctx.extra["resumed_runs"] = sum(sum(1 for r in h["runs"] if r["from"] != [0, 0]) for h in H)
    for i in range(0, len(out), 1500):
        ctx.validate("StoreTrace", out[i:i + 1500], name="h%d" % i, timeout=1500, heap="8g")
    ctx.assumptions += ["batch training; data sets in which every word and class occurs"]
