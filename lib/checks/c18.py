import random
import estep, vp

LEVEL = "model_checking"


def run(ctx):
    estep.run(ctx, ["C18"])
    # documents with words that no topic explains: the formulas are undefined, but
    # the step comes back and leaves everything else alone
    rnd = random.Random(ctx.seed * 101)
    L = ["id=u%s%d kind=%s sc=%s shape=unseen seed=%d m=3" % (k, i, k, "f" if i % 2 else "d", rnd.randrange(1 << 30))
         for k in estep.KINDS for i in range(60 if ctx.quick else 2000)]
    out = estep.parallel(ctx, vp.build_harness("estep"), L, timeout=600,
                         what="the expectation step crashes or hangs on a document with a word without probability")
    ctx.extra["documents_with_unexplained_words"] = len(out)
    if any('"same":1' not in l for l in out):
        from framework import Violation
        raise Violation("the expectation step changes the model", {"lines": [l for l in out if '"same":1' not in l][:1]})
