from vlib import engine, specs, wrappers      # noqa: F401


def errors(ctx):
    def run(case):
        case.ctx = ctx
        wrappers.errors(ctx, case)
    ctx.each('errors', 1, run)


def run(ctx):
    engine.run_cid(ctx, 'C12', 6000)
    for f in (wrappers.convert_to_base, wrappers.one_hot):
        ctx.each('wrapper:' + f.__name__, ctx.n(2500, 50000), lambda case, f=f: f(ctx, case))
    errors(ctx)
