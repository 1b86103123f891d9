"""Expectation steps of single documents (C18, C19, C22)."""
import os, random
import vp
from concurrent.futures import ThreadPoolExecutor

KINDS = ("unsup", "fast", "sup", "multi", "corr")


def lines(ctx, n):
    rnd = random.Random(ctx.seed * 7919 + 5)
    L = []
    for k in KINDS:
        for i in range(n):
            sc = "f" if i % 4 == 3 else "d"
            shape = ("any", "any", "any", "single", "any", "empty", "any")[i % 7]
            m = 30 if i % 9 == 4 else 6
            extra = ""
            if i % 11 == 0:
                extra = " K=1"
            elif i % 11 == 1:
                extra = " V=1"
            elif i % 13 == 0:
                extra = " K=6 V=14 C=5"
            elif i % 37 == 9:
                extra, m = " K=40 V=110 C=12", 4
            elif i % 37 == 19:
                extra, m = " K=3 V=300 C=3", 4
            elif i % 37 == 29:
                extra, m = " K=110 V=20 C=2", 4
            L.append("id=%s%d kind=%s sc=%s shape=%s seed=%d m=%d%s" % (k, i, k, sc, shape, rnd.randrange(1 << 30), m, extra))
    def add(what, k, extra, m=6, sc="d"):
        L.append("id=%s%s%d kind=%s sc=%s shape=any seed=%d m=%d %s" % (what, k, len(L), k, sc, rnd.randrange(1 << 30), m, extra))
    # many epochs, many iterations, many fixed point iterations, a class that dominates, ...
    for e in [9, 10, 11, 15, 16, 20, 31, 64, 100, 128, 255, 256, 300, 1000] * (1 if ctx.quick else 10):
        add("epochs", "fast", "epochs=%d" % e, sc=rnd.choice("df"))
    for k in KINDS:
        for i in range(1 if ctx.quick else 12):
            add("slow", k, "mode=slow K=2 V=2 fall=0.1 big=400", m=40)
            add("slow", k, "mode=slow K=2 V=3 fall=0.08 big=60000", m=80 + rnd.randrange(20))
            add("slow", k, "mode=slow K=3 V=2 fall=0.08 big=60000", m=115)
            if k != "sup":
                add("slow", k, "mode=slow K=2 V=2 fall=0.04 big=100000", m=240)
        for i in range(3 if ctx.quick else 60):
            add("skewed", k, "mode=skewed V=%d" % rnd.choice([4, 9, 20]))
            add("tiny", k, "mode=tiny", sc=rnd.choice("ddf"))
        for i in range(8 if ctx.quick else 60):
            add("common", k, "mode=common D=%d" % rnd.choice([3, 9, 14, 40]))
    for f in [0, 0, 7, 9, 10, 11, 15, 16, 19, 20, 21, 25, 33, 51, 100, 101, 256, 257] * (1 if ctx.quick else 6):
        add("fpi", "sup", "fpi=%d V=3" % f, m=3)
    rnd.shuffle(L)
    return L


def often(ctx):
    """How often the bound is reported: a fraction of the documents."""
    rnd = random.Random(ctx.seed * 31 + 7)
    return ["id=often%s%d mode=often kind=%s sc=%s n=%d lik=%r seed=%d" %
            (k, i, k, "df"[i % 2], 20000, p, rnd.randrange(1 << 30))
            for k in KINDS for i, p in enumerate([0.0, 1.0, 0.005, 0.01, 0.05, 0.25, 0.5, 0.75, 0.9, 0.95, 0.99, 0.995, rnd.random()])]


def parallel(ctx, exe, L, timeout=300, ok=(0,), what=None, env=None):
    parts = [[] for _ in range(vp.JOBS)]
    for i, l in enumerate(L):
        parts[i % vp.JOBS].append(l)
    parts = [p for p in parts if p]
    with ThreadPoolExecutor(len(parts)) as ex:
        rs = list(ex.map(lambda p: ctx.harness(exe, "\n".join(p) + "\n", timeout=timeout, ok=ok, what=what, env=env), parts))
    out = []
    for r in rs:
        out += r.out.splitlines()
    return out


def run(ctx, focus):
    ctx.model("EStepMC")
    if not ctx.quick:
        ctx.model("EStepMC", open(os.path.join(vp.SPEC, "EStepMC.cfg")).read()
                  .replace("MaxCount = 2", "MaxCount = 5").replace("MaxIt = 4", "MaxIt = 12"), timeout=1200)
    exe = vp.build_harness("estep")
    cfg = "SPECIFICATION Spec\nCONSTANT Focus = {%s}\nINVARIANT Accepted\n" % ", ".join('"%s"' % f for f in focus)
    out = parallel(ctx, exe, lines(ctx, 240 if ctx.quick else 4000) + (often(ctx) if "C22" in focus else []), timeout=600,
                   what="the expectation step crashes or hangs")
    chunk = 4000
    for i in range(0, len(out), chunk):
        ctx.validate("EStepTrace", out[i:i + chunk], cfg, name="e%d" % i, timeout=1500, heap="8g")
    ctx.assumptions += ["documents use only words to which some topic gives probability",
                        "exp is accurate to the resolution of the lookup table (bound in EStep.tla)"]
