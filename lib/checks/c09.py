import vp, npy
from estep import parallel
LEVEL = "model_checking"


def run(ctx):
    ctx.model("NpyMC")
    d = vp.scratch("npyfiles")
    q = ctx.quick
    L = npy.read_lines(ctx, 600 if q else 15000) + npy.reject_lines(ctx, 40 if q else 1200, d)
    L += npy.bigread_lines(ctx, not q)
    H = ["id=huge mode=huge type=%s hex=%s" % (t, npy.header("<" + t if z > 1 else "|" + t, False, [65537, 65536]).hex())
         for t, z in npy.TYPES.items()]
    out = parallel(ctx, npy.exe(), L + H, what="reading an array crashes or hangs")
    # again with the memory checker watching
    parallel(ctx, npy.exe("addr"), L if not q else L[::2], what="reading an array touches memory outside its data",
             env={"ASAN_OPTIONS": "detect_leaks=0"})
    for i in range(0, len(out), 2000):
        ctx.validate("NpyTrace", out[i:i + 2000], name="r%d" % i)
    ctx.assumptions.append("headers in the layout numpy itself writes (keys descr, fortran_order, shape)")
