import random
import vp, pool
from estep import parallel

LEVEL = "model_checking"


BIG = ("K=20 V=100 C=12 N=60 w=12", "K=2 V=3 C=3 N=300 w=3", "K=3 V=4 C=2 N=20 w=70", "K=2 V=400 C=2 N=6", "K=70 V=5 C=3 N=10",
       "K=3 V=4 C=150 N=10", "K=2 V=3 C=3 N=1100 w=9", "K=1 V=2 C=2 N=270 w=1")


def run(ctx):
    pool.models(ctx)
    ctx.model("InferMC")
    # schedules: which mixture ends up in which column
    traces = pool.record(ctx, pool.scenario_lines(ctx, only="t"))
    pool.validate(ctx, traces, ["C03"])
    pool.big(ctx, ["C03"])
    # what the numbers are
    rnd = random.Random(ctx.seed * 7 + 5)
    L = ["id=i%d sc=%s seed=%d" % (i, "d" if i % 4 else "f", rnd.randrange(1 << 30)) for i in range(1200 if ctx.quick else 20000)]
    for j, shape in enumerate(BIG):
        for sc in "df":
            L.append("id=big%d%s sc=%s seed=%d %s" % (j, sc, sc, rnd.randrange(1 << 30), shape))
    out = parallel(ctx, vp.build_harness("infer"), L, what="inference crashes or hangs")
    for i in range(0, len(out), 3000):
        ctx.validate("InferTrace", out[i:i + 3000], name="i%d" % i)
