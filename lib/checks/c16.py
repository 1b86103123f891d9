import mstep
LEVEL = "model_checking"


def run(ctx):
    mstep.run(ctx, ["C16"], ('online',), 300 if ctx.quick else 6000)
