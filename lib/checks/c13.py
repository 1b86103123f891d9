import json, os, random, re
import vp
from estep import parallel

LEVEL = "model_checking"


def word(o):
    if o["op"] in ("it", "wk"):
        return "%s:%d" % (o["op"], o["n"])
    if o["op"] in "EM":
        return "%s:%s:%d:%s" % (o["op"], o["kind"], o["p"], o["via"])
    if o["op"] == "T":
        return "T:%s:%d" % (o["how"], o["id"])
    if o["op"] == "H":
        return "H:%s:%d" % (o["how"], o["id"] if o["how"] == "copy" else o["C"])
    return o["op"]


def hists(r):
    return [[word(o) for o in json.loads(h.replace('\\"', '"'))] for h in re.findall(r'<<"HIST",\s*"(.*?)">>', r.out)]


def run(ctx):
    base = open(os.path.join(vp.SPEC, "BuilderMC.cfg")).read()
    rnd = random.Random(ctx.seed * 17 + 1)
    ctx.model("BuilderMC", base.replace("MaxOps = 3", "MaxOps = 4") if not ctx.quick else base, timeout=2400)
    H = []
    # every pair of calls of the whole interface, every triple of a smaller one
    r = ctx.model("BuilderMC", base.replace("Wide = FALSE", "Wide = TRUE").replace("Emit = FALSE", "Emit = TRUE").replace("MaxOps = 3", "MaxOps = 2"))
    H2 = hists(r)
    if ctx.quick:
        H2 = [h for i, h in enumerate(H2) if i % 2 == ctx.seed % 2]
    H += H2
    r = ctx.model("BuilderMC", base.replace("Emit = FALSE", "Emit = TRUE"), timeout=1200)
    H3 = hists(r)
    if ctx.quick:
        H3 = [h for i, h in enumerate(H3) if i % 7 == ctx.seed % 7]
    H += H3
    # long ones
    cfg = base.replace("Wide = FALSE", "Wide = TRUE").replace("Emit = FALSE", "Emit = TRUE").replace("MaxOps = 3", "MaxOps = 9")
    cfg = re.sub(r"INVARIANTS.*", "INVARIANT Dump", cfg)
    n = 1500 if ctx.quick else 20000
    r = vp.tlc("BuilderMC", cfg, args=["-simulate", "num=%d" % n, "-depth", "12", "-seed", str(ctx.seed)], workers=1, timeout=600)
    long = hists(r)
    if len(long) < n // 2:
        raise vp.CheckError("simulation printed %d histories\n%s" % (len(long), r.out[-2000:]))
    H += rnd.sample(long, min(n, len(long)))
    L = []
    for i, h in enumerate(H):
        # short histories are also continued to something that can be built and trained
        tails = [["mut", "build"]] if len(h) > 3 else [["build"], ["build", "T:copy:1", "H:copy:1", "mut", "build"]]
        if len(h) <= 3 and i % 3 == 0:
            tails.append(["T:rand:1", "H:%s:2" % ("unif" if i % 2 else "zero"), "build"])
        for t in tails:
            L.append("id=b%d sc=%s seed=%d ops=%s" % (len(L), "f" if len(L) % 5 == 4 else "d", rnd.randrange(1 << 20), ",".join(h + t)))
    # counts that need all their bits
    steps = ["E:%s:3:%s" % (k, v) for k in ("classic", "sup", "fast", "multi", "corr") for v in ("get", "set")]
    steps += ["M:%s:3:%s" % (k, v) for k in ("sup", "fast", "semi", "online", "onlinev", "onlinee") for v in ("get", "set")]
    # arguments that are zero
    steps += ["E:%s:%d:%s" % (k, p, v) for k in ("classic", "sup", "fast", "multi", "corr", "semi") for p in (4, 5) for v in ("get", "set")]
    steps += ["M:%s:%d:%s" % (k, p, v) for k in ("sup", "fast", "semi", "online", "onlinev", "onlinee") for p in (4, 5) for v in ("get", "set")]
    steps += ["E:corr:1:set,M:corr:4:%s" % v for v in ("get", "set")] + ["E:multi:1:set,M:multi:4:%s" % v for v in ("get", "set")]
    steps += ["it:0", "it:5,it:0", "it:0,wk:3", "it:0,it:4"]
    steps += ["it:300,wk:2", "it:2,wk:300", "it:260", "it:257,wk:1", "wk:258"]
    for i, w in enumerate(steps):
        more = "" if "M:" in w else ",M:corr:1:set" if "corr" in w else ",M:multi:1:set" if "multi" in w else ""
        for sc in "df":
            L.append("id=n%d%s sc=%s seed=%d ops=T:copy:1,H:copy:1,%s,build" % (i, sc, sc, rnd.randrange(1 << 20), w + more))
    out = parallel(ctx, vp.build_harness("builder"), L, timeout=900, what="building or training what was built crashes")
    probed = sum(1 for l in out if '"probe":1' in l)
    ctx.extra["histories"] = len(L)
    ctx.extra["trained_and_compared"] = probed
    if probed < len(L) // 8:
        raise vp.CheckError("only %d of %d builds could be compared" % (probed, len(L)))
    for i in range(0, len(out), 10000):
        ctx.validate("BuilderTrace", out[i:i + 10000], name="b%d" % i, timeout=1500)
