import os, random
import vp
from estep import parallel

LEVEL = "model_checking"


BIG = ("K=30 V=300 D=3 N=1 C=20", "K=150 V=4 D=2 N=2 C=130", "K=2 V=6 D=2 N=300 C=2", "K=2 V=3 D=1 N=1100 C=3", "K=3 V=2000 D=2 N=3 C=2")


def run(ctx):
    base = open(os.path.join(vp.SPEC, "StartMC.cfg")).read()
    ctx.model("StartMC", base if ctx.quick else base.replace("MaxCount = 2", "MaxCount = 3").replace("MaxDraws = 3", "MaxDraws = 5"), timeout=1500)
    rnd = random.Random(ctx.seed * 5 + 11)
    L = []
    for i in range(4000 if ctx.quick else 30000):
        L.append("id=i%d sc=%s how=%s seed=%d cover=%d" % (i, "f" if i % 4 == 3 else "d", ("rand", "seed", "cseed", "lseed")[i // 2 % 4],
                                                          rnd.randrange(1 << 30), i % 20 == 0))
    for j, shape in enumerate(BIG):
        for how in ("rand", "seed", "cseed", "lseed"):
            for sc in "df":
                L.append("id=big%d%s%s sc=%s how=%s seed=%d %s" % (j, how, sc, sc, how, rnd.randrange(1 << 30), shape))
    for mode in ("plain",) if ctx.quick else ("plain", "asan"):
        out = parallel(ctx, vp.build_harness("start", mode), L, what="initialisation crashes")
    for i in range(0, len(out), 4000):
        ctx.validate("StartTrace", out[i:i + 4000], name="s%d" % i, timeout=1500)
    B = ["id=g%d%s%s big=1 sc=%s how=%s D=%d K=400 seed=%d" % (D, how, sc, sc, how, D, rnd.randrange(1 << 30))
         for D in (300, 3000, 9000, 40000, 70000) + (() if ctx.quick else (300000,)) for how in ("seed", "cseed", "lseed") for sc in "df"]
    ctx.validate("StartBig", parallel(ctx, vp.build_harness("start"), B, what="initialisation crashes"), name="big")
