"""Floating point error reports.  NumPy's error handling (errstate 'call') is the monitor: a call with finite arguments and
finite results must not report 'invalid value' or 'divide by zero', and a call without floating point arguments and results must
not report anything."""
import ctypes

import numpy as np

from vlib import calls, engine, gen, num, specs      # noqa: F401
from vlib.engine import SPECS
from vlib.worker import HarnessError

LIBM = ctypes.CDLL('libm.so.6')

BAND = 2.0 ** 30


class Log:
    def __init__(self):
        self.seen = []

    def __call__(self, what, flag):
        self.seen.append(what)


def control_state():
    """The control settings of the processor: x87 control word, and rounding, masks, FTZ and DAZ of MXCSR."""
    b = ctypes.create_string_buffer(64)
    if LIBM.fegetenv(b):
        raise HarnessError('fegetenv')
    return int.from_bytes(b.raw[:2], 'little'), int.from_bytes(b.raw[28:32], 'little') & 0xffc0


def watched(f):
    """(result, names of the floating point errors reported by the call)"""
    log = Log()
    with np.errstate(all='call', call=log):
        before = control_state()
        r = f()
        after = control_state()
    if after != before:
        LIBM.fesetenv(ctypes.c_void_p(-1))      # FE_DFL_ENV
        log.seen.append(f'control settings changed from {before} to {after}')
    return r, sorted(set(log.seen))


def floating(a):
    return a.dtype.kind in 'fc'


def finite(arrs):
    return all(not floating(a) or np.isfinite(a).all() for a in arrs)


def band(arrs):
    """All floating point values are 0 or of moderate magnitude."""
    for a in arrs:
        if floating(a):
            m = np.abs(a)
            if not ((m == 0) | (m > 1 / BAND) & (m < BAND)).all():
                return False
    return True


def judge(ctx, name, seen, args, outs, info):
    for x in seen:
        if x.startswith('control'):
            ctx.fail(f'{name}:control', f'{info}\n: {x}')
            return
    pure = not any(floating(np.asarray(a)) for a in args + outs)
    ctx.ev()
    if pure:
        ctx.count('no floating point:' + name)
        bad = seen
    else:
        if not finite([np.asarray(o) for o in outs]):
            ctx.count('result not finite')
            return
        ctx.count('finite:' + name)
        bad = [x for x in seen if x in ('divide by zero', 'invalid value')]
        if 'overflow' in seen and band(args + outs):
            bad.append('overflow')
    for x in seen:
        ctx.count('reported: ' + x)
    ctx.distinct(name, *[a.tobytes() if not a.dtype.hasobject else repr(a) for a in args])
    if bad:
        ctx.fail(f'{name}:{bad[0].split()[0]}', f'{info}\n reports {bad}, with arguments {num.show(*args)}\n and results {num.show(*outs)}')


def one(ctx, case, s):
    rng = case.rng
    case.ctx = ctx
    loop = s.types[case.index % len(s.types)] if case.index < 4 * len(s.types) else None
    c = engine.make(case, s, loop=loop)
    if not finite(c.args):
        ctx.count('arguments not finite')
        return
    zero_base = s.name.endswith('convert_to_base') and (c.args[1] == 0).any()
    acc = 'bincount' in s.name

    def call():
        if acc:
            kw, ins = {}, [gen.layout(rng, a) for a in c.args]
            o = np.zeros(c.oshapes[0], c.ot)
            c.ins, c.kw, c.res = ins, kw, [o]
            engine.case_note(case, c)
            s.obj(*ins, out=o)
        else:
            engine.invoke(case, c)
    _, seen = watched(call)
    ctx.count('control settings compared')
    if zero_base:
        ctx.count('base 0')
        seen = [x for x in seen if x != 'divide by zero']
    judge(ctx, s.name, seen, c.args, [np.asarray(r) for r in c.res], engine.describe(c))
    if case.index < 1:
        ctx.sample(engine.describe(c), 3)


def form(ctx, case, name):
    c = calls.make(case.rng, name)
    if not finite(c.args):
        ctx.count('arguments not finite')
        return
    ctx.note(c.describe())
    args = [gen.layout(case.rng, a) for a in c.args]
    r, seen = watched(lambda: c(*args))
    judge(ctx, name, seen, c.args, [np.asarray(r)], c.describe())


def control(ctx, case):
    """The monitor sees what NumPy reports."""
    for f, w in ((lambda: np.log(np.array([-1.0])), ['invalid value']), (lambda: np.array([1.0]) / 0, ['divide by zero']),
                 (lambda: np.exp(np.array([1e4])), ['overflow']), (lambda: np.add(1.0, 2.0), [])):
        _, seen = watched(f)
        if seen != w:
            raise HarnessError(f'errstate reports {seen}, expected {w}')
        ctx.count('control')
    _, seen = watched(lambda: LIBM.fesetround(0x400))
    if len(seen) != 1 or not seen[0].startswith('control') or LIBM.fegetround() != 0:
        raise HarnessError(f'a changed rounding mode is not seen: {seen}')


def run(ctx):
    ctx.each('control', 8, lambda case: control(ctx, case))
    for s in SPECS.values():
        if s.cid is None and 'bincount' not in s.name:
            continue
        q = max(900, 4 * len(s.types))
        ctx.each('call:' + s.name, ctx.n(q, 12 * q), lambda case, s=s: one(ctx, case, s))
    for name in calls.WRAPPERS:
        if name != 'gendot':
            ctx.each('form:' + name, ctx.n(500, 8000), lambda case, name=name: form(ctx, case, name))
