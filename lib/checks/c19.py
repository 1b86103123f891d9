import estep

LEVEL = "model_checking"


def run(ctx):
    estep.run(ctx, ["C19"])
