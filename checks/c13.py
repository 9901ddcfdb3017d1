from checks.c12 import errors
from vlib import engine, specs, wrappers      # noqa: F401


def run(ctx):
    engine.run_cid(ctx, 'C13', 6000)
    for name, up in (('nextn_greater', True), ('nextn_less', False)):
        f = wrappers.nextn(name, up)
        ctx.each('wrapper:' + name, ctx.n(1200, 25000), lambda case, f=f: f(ctx, case))
    errors(ctx)
