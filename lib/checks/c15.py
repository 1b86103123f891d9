import random
import vp, mstep
from estep import parallel
LEVEL = "model_checking"


def run(ctx):
    ctx.model("SemiEMC")
    exe = vp.build_harness("semi")
    rnd = random.Random(ctx.seed * 17 + 2)
    n = 1000 if ctx.quick else 30000
    out = parallel(ctx, exe, ["id=%d sc=%s seed=%d n=%d" % (i, "f" if i % 4 == 3 else "d", rnd.randrange(1 << 30), rnd.choice([3, 12, 40]))
                              for i in range(n)], what="the semi-supervised expectation step crashes")
    for i in range(0, len(out), 8000):
        ctx.validate("SemiETrace", out[i:i + 8000], name="s%d" % i)
    mstep.run(ctx, ["C15"], ("semi",), 500 if ctx.quick else 10000)
