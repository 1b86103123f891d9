import mstep
LEVEL = "model_checking"


def run(ctx):
    mstep.run(ctx, ["C17"], ('unsup','sup','fast','multi','corr',), 300 if ctx.quick else 6000)
