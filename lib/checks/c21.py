import random
import vp
from estep import parallel

LEVEL = "model_checking"


def run(ctx):
    ctx.model("LogRegMC")
    exe = vp.build_harness("logreg")
    rnd = random.Random(ctx.seed * 31 + 7)
    L = []
    for i in range(1600 if ctx.quick else 40000):
        extra = " N=%d K=%d C=%d" % (rnd.choice([40, 90]), 5, 6) if i % 97 == 0 else ""
        L.append("id=%d sc=%s seed=%d%s" % (i, "f" if i % 4 == 3 else "d", rnd.randrange(1 << 30), extra))
    out = parallel(ctx, exe, L, what="a logistic loss crashes")
    for i in range(0, len(out), 8000):
        ctx.validate("LogRegTrace", out[i:i + 8000], name="l%d" % i)
