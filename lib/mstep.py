"""Histories of maximization steps (C15, C16, C17, C20, C22)."""
import random
import vp
from estep import parallel


BIG = ("K=14 V=60 C=8 docs=40 passes=2",
       "K=2 V=3 C=3 mindocs=280 docs=290 passes=2 batch=270",
       "K=2 V=3 C=2 mindocs=520 docs=530 passes=1 batch=128",
       "K=2 V=2 C=2 mindocs=1060 docs=1070 passes=1 batch=1030 iters=2",
       "K=3 V=4 C=2 docs=2 passes=60",
       "K=4 V=300 C=2 docs=5 passes=2",
       "K=3 V=5 C=40 docs=60 passes=2")


def lines(ctx, kinds, n):
    rnd = random.Random(ctx.seed * 104729 + 3)
    L = []
    for k in kinds:
        for i in range(n):
            extra = ""
            if i % 17 == 0:
                extra = " K=5 V=12 C=5 docs=20"
            elif i % 17 == 1:
                extra = " docs=1 passes=6"
            elif i % 17 == 2:
                extra = " iters=40"
            L.append("id=%s%d kind=%s sc=%s seed=%d%s" % (k, i, k, "f" if i % 5 == 4 else "d", rnd.randrange(1 << 30), extra))
        # sizes no ordinary test reaches: many topics, words, classes, documents, passes, whole batches
        for j, shape in enumerate(BIG):
            for sc in ("d", "f"):
                L.append("id=%sbig%d%s kind=%s sc=%s seed=%d %s" % (k, j, sc, k, sc, rnd.randrange(1 << 30), shape))
    rnd.shuffle(L)
    return L


def run(ctx, focus, kinds, n):
    ctx.model("MStepMC")
    exe = vp.build_harness("mstep")
    out = parallel(ctx, exe, lines(ctx, kinds, n), what="a maximization step crashes or hangs")
    cfg = "SPECIFICATION Spec\nCONSTANT Focus = {%s}\nINVARIANT Accepted\n" % ", ".join('"%s"' % f for f in focus)
    for i in range(0, len(out), 3000):
        ctx.validate("MStepTrace", out[i:i + 3000], cfg, name="m%d" % i, timeout=1500, heap="8g")
