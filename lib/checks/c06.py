import os, random
import vp
from estep import parallel
from framework import Violation

LEVEL = "model_checking"
KINDS = ("unsup", "sup", "fast", "decay", "semi", "multi", "corr")


def lines(ctx):
    rnd = random.Random(ctx.seed * 31 + 3)
    L, big = [], []
    for i in range(60 if ctx.quick else 1500):
        for k in KINDS:
            runs = ["1:free:0", "1:nonpre:%d" % rnd.randrange(1000)]
            for _ in range(3 if ctx.quick else 5):
                runs.append("%d:%s:%d" % (rnd.choice([2, 2, 3, 4, 6]), rnd.choice(["random", "pct", "nonpre", "random"]), rnd.randrange(1 << 20)))
            runs.append("%d:free:0" % rnd.choice([2, 3, 8]))
            L.append("id=%s%d kind=%s seed=%d runs=%s" % (k, i, k, rnd.randrange(1 << 30), ",".join(runs)))
    for i in range(2 if ctx.quick else 20):
        for k in KINDS:
            big.append("id=big-%s%d kind=%s seed=%d runs=1:free:0,8:free:0,8:free:0,3:free:0 K=10 V=150 N=80 it=3" % (k, i, k, rnd.randrange(1 << 30)))
        big.append("id=many-%s%d kind=%s seed=%d runs=1:free:0,70:free:0,13:free:0 K=3 V=6 N=%d it=2" % ("x", i, KINDS[i % 7], rnd.randrange(1 << 30), 330))
        for k in KINDS:
            big.append("id=wide-%s%d kind=%s seed=%d runs=1:free:0,16:free:0,33:free:0 K=25 V=40 C=9 N=30 it=2" % (k, i, k, rnd.randrange(1 << 30)))
            big.append("id=long-%s%d kind=%s seed=%d runs=1:free:0,1:free:0,5:free:0 K=2 V=4 N=5 it=12" % (k, i, k, rnd.randrange(1 << 30)))
            if k != "decay":   # (a weight above one grows without bound)
                big.append("id=longer-%s%d kind=%s seed=%d runs=1:free:0,1:free:0 K=2 V=4 N=5 it=60" % (k, i, k, rnd.randrange(1 << 30)))
    return L, big


def run(ctx):
    ctx.model("TrainOrder")
    if not ctx.quick:
        ctx.model("TrainOrder", open(os.path.join(vp.SPEC, "TrainOrder.cfg")).read().replace("{1, 2, 3, 4}", "{1, 2, 3, 4, 5, 6}")
                  .replace("{1, 2, 3}", "{1, 2, 3, 4}"), timeout=1200)
    src = [os.path.join(vp.HARNESS, "sched.cpp")]
    exe = vp.build_harness("train", extra_sources=src)
    L, big = lines(ctx)
    out = parallel(ctx, exe, L, timeout=600, what="training crashes or hangs under some schedule")
    # these want the cores for themselves: threads really overlap
    r = ctx.harness(exe, "\n".join(big) + "\n", timeout=600, ok=(0,), what="training crashes or hangs")
    out += r.out.splitlines()
    for i in range(0, len(out), 1000):
        ctx.validate("TrainTrace", out[i:i + 1000], name="t%d" % i, timeout=1200)
    # threads share nothing but what they synchronise on
    texe = vp.build_harness("train", "tsan", extra_sources=src, extra=["-DNO_INTERPOSE"])
    T = ["id=ts%s%d kind=%s seed=%d runs=4:free:0,3:free:0 K=3 V=8 N=12 it=2" % (k, i, k, i * 77 + ctx.seed) for k in KINDS for i in range(2 if ctx.quick else 20)]
    # the C library's lgamma writes the global signgam, which nobody reads
    sup = os.path.join(vp.scratch("tsan"), "supp")
    open(sup, "w").write("race:signgam\nrace:lgamma\n")
    env = {"TSAN_OPTIONS": "exitcode=66 halt_on_error=1 suppressions=" + sup}
    for attempt in (1, 2):
        r = vp.run([texe], input="\n".join(T) + "\n", timeout=900, env=env)
        if r.rc == 0:
            break
    if r.timeout or r.rc not in (0, 66):
        raise vp.CheckError("tsan run: rc=%s %s" % (r.rc, r.err[-1500:]))
    if r.rc == 66:
        raise Violation("workers race on unsynchronised memory", {"stderr": r.err[-6000:]})
    ctx.extra["tsan_runs"] = 2 * len(T)
    ctx.assumptions += ["double precision; passes whose settings make the result a continuous function of the data",
                        "batch training (online training updates the model while documents are processed, by design)"]
