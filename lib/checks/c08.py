import random
import vp, npy
from estep import parallel
LEVEL = "model_checking"


def run(ctx):
    ctx.model("NpyMC")
    d = vp.scratch("npyfiles")
    rnd = random.Random(ctx.seed * 3 + 1)
    L = []
    for i in range(1200 if ctx.quick else 20000):
        L.append("mode=write type=%s seed=%d%s" % (list(npy.TYPES)[i % 10], rnd.randrange(1 << 30),
                                                 " dir=%s" % vp.scratch("npyfiles/%d" % (i % vp.JOBS)) if i % 3 == 0 else ""))
    for (r, c) in ((1, 70000), (70000, 1), (300, 400), (0, 100000), (1000, 1), (99999, 1), (1, 123456)) + (() if ctx.quick else ((4000, 4000), (1, 10**7))):
        for t in ("f8", "f4", "i4"):
            L.append("mode=big type=%s rows=%d cols=%d rm=%d" % (t, r, c, (r + c) % 2))
            L.append("mode=big type=%s rows=%d cols=%d rm=%d" % (t, r, c, 1 - (r + c) % 2))
    # lengths around those of buffers
    sizes = [(n, 1) for k in range(5, 22 if ctx.quick else 24) for n in (2 ** k - 1, 2 ** k, 2 ** k + 1)]
    sizes += [(256, 2 ** k) for k in range(0, 10)] + [(3 * 2 ** k, 5) for k in range(4, 15)] + [(10 ** k, 7) for k in range(1, 6)]
    for i, (r, c) in enumerate(sizes):
        for t in ("f8", list(npy.TYPES)[i % 9]):
            if rnd.random() < 0.5:
                r, c = c, r
            L.append("mode=big type=%s rows=%d cols=%d rm=%d dir=%s" % (t, r, c, rnd.choice([0, 1]), vp.scratch("npyfiles/b")))
    out = parallel(ctx, npy.exe(), L, what="writing or reading an array crashes")
    for i in range(0, len(out), 2000):
        ctx.validate("NpyTrace", out[i:i + 2000], name="w%d" % i)
