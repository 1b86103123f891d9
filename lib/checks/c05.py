import json, os, random, re
import vp, pool
from estep import parallel
LEVEL = "model_checking"


def histories(ctx):
    """All histories of a few operations, as TLC enumerates them, and long random ones."""
    base = open(os.path.join(vp.SPEC, "DispatcherMC.cfg")).read()
    out = []
    for (n, l) in ((5, 2), (4, 3)) if ctx.quick else ((6, 2), (5, 3)):
        r = ctx.model("DispatcherMC", base.replace("MaxOps = 5", "MaxOps = %d" % n).replace("Ls = 2", "Ls = %d" % l), timeout=1500)
        h = re.findall(r'<<"HIST", "(.*)">>', r.out)
        if not h:
            raise vp.CheckError("no histories printed")
        out += [x.replace('\\"', '"') for x in h]
    rnd = random.Random(ctx.seed * 101 + 9)
    for i in range(600 if ctx.quick else 10000):
        kind = rnd.choice(["plain", "safe", "same"])
        nl = rnd.choice([2, 4, 8])
        reg, ops = set(), []
        for k in range(1, rnd.choice([20, 60])):
            w = rnd.random()
            l = rnd.randrange(1, nl + 1)
            if w < 0.3 and l not in reg:
                reg.add(l)
                ops.append({"op": "add", "x": l, "own": 1})
            elif w < 0.5:
                reg.discard(l)
                ops.append({"op": "remove", "x": l, "own": 1})
            elif w < 0.6 and kind != "plain":
                ops.append({"op": "process", "x": 0, "own": 1})
            else:
                ops.append({"op": "dispatch", "x": k, "own": rnd.choice([0, 1, 1])})
        out.append(json.dumps({"kind": kind, "ops": ops}, separators=(",", ":")))
    # many events waiting, many listeners
    for (n, nl) in ((300, 3), (5000, 1), (12000, 2), (70000, 1), (30, 300)) if ctx.quick else ((300, 3), (5000, 2), (70000, 2), (200000, 1), (30, 1000)):
        for kind in ("plain", "safe", "same"):
            add = [{"op": "add", "x": l, "own": 1} for l in range(1, nl + 1)]
            ops = add + [{"op": "flood", "x": 1, "own": 0, "n": n}, {"op": "dispatch", "x": n + 1, "own": 0},
                         {"op": "process", "x": 0, "own": 1}, {"op": "flood", "x": 7, "own": 0, "n": 3}, {"op": "dispatch", "x": 99, "own": 1},
                         {"op": "remove", "x": (nl + 1) // 2, "own": 1}, {"op": "flood", "x": 20, "own": 1, "n": 30}, {"op": "process", "x": 0, "own": 1}]
            out.append(json.dumps({"kind": kind, "ops": [o for o in ops if kind != "plain" or o["op"] != "process"]}, separators=(",", ":")))
    return out


def concurrent(ctx):
    rnd = random.Random(ctx.seed * 7 + 3)
    L = []
    m = 1500 if ctx.quick else 30000
    pb = 2 if ctx.quick else 3
    progs = ["p.p/d2/d2", "p.p/a1.r1.a1/d2", "p.p/a1.a2.r1/d1", "p.d1.p/d1.d1/a1.r1", "d1.p/a1.d1.r1/a2.d1", "p/r1.a1.r1/d1/d1"]
    for i, p in enumerate(progs):
        for kind in ("safe", "same"):
            L.append("id=x%d%s kind=%s pol=dfs pb=%d max=%d prog=%s seed=%d" % (i, kind, kind, pb, m, p, i + 1))
    for j in range(300 if ctx.quick else 6000):
        nt = rnd.choice([1, 2, 3, 4])
        ths = []
        for t in range(nt):
            ops, inn = [], False
            for _ in range(rnd.choice([2, 4, 7])):
                if rnd.random() < 0.5:
                    ops.append("d%d" % rnd.choice([1, 2, 3]))
                else:
                    ops.append(("r%d" if inn else "a%d") % (t + 1))
                    inn = not inn
            ths.append(".".join(ops))
        main = ".".join(rnd.choice(["p", "p", "d1"]) for _ in range(rnd.choice([1, 3, 6])))
        L.append("id=r%d kind=%s pol=%s seed=%d prog=%s" % (j, rnd.choice(["safe", "same"]), rnd.choice(["random", "pct", "random", "free"]),
                                                           rnd.randrange(10**6), "/".join([main] + ths)))
    rnd.shuffle(L)
    return L


def reentrant(ctx):
    """Listeners that dispatch, add and remove while they are being called."""
    rnd = random.Random(ctx.seed * 19 + 5)
    L = []
    for j in range(1500 if ctx.quick else 30000):
        nl = rnd.choice([2, 3, 5])
        # each listener is registered by the main program or by a reaction, once
        ls = list(range(1, nl + 1))
        rnd.shuffle(ls)
        first = ls[:rnd.randrange(0, nl + 1)]
        later = [l for l in ls if l not in first]
        react = {}
        for _ in range(rnd.choice([1, 2, 4])):
            w = rnd.random()
            if w < 0.5:
                what = "d%d" % rnd.choice([1, 1, 2])
            elif w < 0.7 and later:
                what = "a%d" % later.pop()
            elif w < 0.9 and first:
                what = "r%d" % first[rnd.randrange(len(first))]
            else:
                what = "p"
            react.setdefault((rnd.choice([0, 0] + ls), rnd.choice([1, 1, 2, 3])), []).append(what)
        main = ["a%d" % l for l in first] + [rnd.choice(["d1", "d2", "p", "p", "d3"]) for _ in range(rnd.choice([2, 5, 9]))]
        L.append("id=n%d kind=%s pol=free prog=%s react=%s" % (j, rnd.choice(["safe", "same"]), ".".join(main),
                 ",".join("%d:%d:%s" % (k[0], k[1], ".".join(v)) for k, v in react.items())))
    return L


def races(ctx):
    e = vp.build("dispatch", [os.path.join(vp.HARNESS, f) for f in ("dispatch.cpp", "sched.cpp")]
                 + [s for s in vp.cmake_sources() if os.path.basename(s) == "Events.cpp"], "tsan", ["-DNO_INTERPOSE"])
    many = ".".join(["p", "p", "d1"] * 25)
    text = "".join("id=%s%d kind=%s pol=free norec=1 reps=%d prog=%s\n" % (kind, i, kind, 30 if ctx.quick else 600, "/".join([many] + th))
                   for kind in ("safe", "same") for i, th in enumerate(
                       [["d40", "d40"], [".".join(["a1", "r1"] * 20), ".".join(["a2", "d2", "r2"] * 15)],
                        [".".join(["a%d" % t, "d3", "r%d" % t] * 8) for t in (1, 2, 3, 4)]]))
    pool.race_run(ctx, e, text, "a dispatcher")


def run(ctx):
    ctx.model("DispatcherImpl")
    if not ctx.quick:
        ctx.model("DispatcherImpl", open(os.path.join(vp.SPEC, "DispatcherImpl.cfg")).read()
                  .replace("{1, 2}", "{1, 2, 3}"), timeout=1500)
    hs = histories(ctx)
    exe = vp.build_harness("dispatch", extra_sources=[os.path.join(vp.HARNESS, "sched.cpp")])
    out = parallel(ctx, exe, hs, what="a dispatcher crashes or hangs", timeout=200 if ctx.quick else 900)
    for i in range(0, len(out), 60000):
        ctx.validate("DispatcherTrace", out[i:i + 60000], name="s%d" % i)
    out = parallel(ctx, exe, concurrent(ctx), what="a dispatcher crashes, hangs or deadlocks", timeout=300 if ctx.quick else 1200)
    for i in range(0, len(out), 20000):
        ctx.validate("DispatcherConc", out[i:i + 20000], name="c%d" % i)
    out = parallel(ctx, exe, reentrant(ctx), what="a dispatcher crashes or deadlocks when a listener uses it", timeout=60 if ctx.quick else 600)
    for i in range(0, len(out), 20000):
        ctx.validate("DispatcherReent", out[i:i + 20000], name="n%d" % i)
    races(ctx)
    ctx.assumptions.append("no listener is registered twice at once; listeners of the plain dispatcher do not call back into it")
