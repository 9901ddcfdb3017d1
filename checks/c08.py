from vlib import engine, specs      # noqa: F401


def run(ctx):
    engine.run_cid(ctx, 'C08', 6000)
