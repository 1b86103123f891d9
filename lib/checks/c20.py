import random
import vp, mstep
from estep import parallel
LEVEL = "model_checking"


def run(ctx):
    ctx.model("DescentMC")
    exe = vp.build_harness("descent")
    rnd = random.Random(ctx.seed * 13 + 1)
    n = 1600 if ctx.quick else 40000
    longs = ["id=l%d sc=%s seed=%d stop=%d" % (i, "df"[i % 2], rnd.randrange(1 << 30), n)
             for i, n in enumerate([0, 1, 50, 99, 100, 101, 127, 128, 255, 256, 257, 300, 999, 1000, 1001, 5000, 10001, 33000, 66000]
                                   + ([] if ctx.quick else [400000, 1000001]) + [rnd.randrange(2, 3000) for _ in range(6)])]
    out = parallel(ctx, exe, ["id=%d sc=%s seed=%d" % (i, "f" if i % 4 == 3 else "d", rnd.randrange(1 << 30)) for i in range(n)] + longs,
                   what="a line search or descent crashes or does not end", timeout=120 if ctx.quick else 600)
    for i in range(0, len(out), 8000):
        ctx.validate("DescentTrace", out[i:i + 8000], name="d%d" % i)
    mstep.run(ctx, ["C20"], ("sup", "fast", "semi"), 200 if ctx.quick else 4000)
    ctx.assumptions.append("objectives finite and descent directions; decisions closer than rounding are left open")
