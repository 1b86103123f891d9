import estep, mstep

LEVEL = "model_checking"


def run(ctx):
    estep.run(ctx, ["C22"])
    mstep.run(ctx, ["C22"], ("multi", "corr"), 60 if ctx.quick else 2000)
