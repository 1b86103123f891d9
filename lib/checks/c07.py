import random
import vp
from estep import parallel
LEVEL = "model_checking"


def run(ctx):
    ctx.model("CorpusMC")
    exe = vp.build("corpus", [vp.HARNESS + "/corpus.cpp", *vp.cmake_sources()])
    rnd = random.Random(ctx.seed * 19 + 5)
    n = 3000 if ctx.quick else 60000
    L = ["id=%d seed=%d n=%d%s" % (i, rnd.randrange(1 << 30), rnd.choice([4, 10, 25]), " N=%d" % rnd.choice([20, 33, 60]) if i % 6 == 0 else "")
         for i in range(n)]
    out = parallel(ctx, exe, L, what="a corpus crashes")
    # the same histories with the memory checker watching
    asan = vp.build("corpus", [vp.HARNESS + "/corpus.cpp"] + [s for s in vp.cmake_sources() if s.endswith("Document.cpp")], "asan")
    parallel(ctx, asan, L[:400], what="a corpus reads or writes outside its data", env={"ASAN_OPTIONS": "detect_leaks=0"})
    for i in range(0, len(out), 10000):
        ctx.validate("CorpusTrace", out[i:i + 10000], name="k%d" % i)
    # more documents than 16 bits count
    big = [(70000, 1), (66000, 0), (300, 1), (257, 0)] + ([] if ctx.quick else [(200000, 1), (140000, 0)])
    out = parallel(ctx, exe, ["id=big%d big=1 N=%d lab=%d seed=%d" % (i, n, lab, rnd.randrange(1 << 30)) for i, (n, lab) in enumerate(big)],
                   what="a large corpus crashes")
    ctx.validate("CorpusBig", out, name="big")
