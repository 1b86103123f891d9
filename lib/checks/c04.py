import pool

LEVEL = "model_checking"


def run(ctx):
    pool.models(ctx)
    traces = pool.record(ctx, pool.scenario_lines(ctx))
    pool.validate(ctx, traces, ["C04"])
    pool.big(ctx, ["C04"])
    pool.races(ctx)
