import pool

LEVEL = "model_checking"


def run(ctx):
    pool.models(ctx)
    traces = pool.record(ctx, pool.scenario_lines(ctx))
    pool.validate(ctx, traces, ["C01"])
    pool.big(ctx, ["C01"])
    pool.races(ctx)
