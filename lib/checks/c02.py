import pool

LEVEL = "model_checking"


def run(ctx):
    pool.models(ctx)
    traces = pool.record(ctx, pool.scenario_lines(ctx))
    pool.validate(ctx, traces, ["C02"])
    pool.big(ctx, ["C02"])
    pool.races(ctx)
