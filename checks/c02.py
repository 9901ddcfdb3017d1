"""Every call returns completely written, reproducible outputs.

The same call is made several times in one process while everything it must not depend on changes:
the previous contents of the outputs, freshly allocated and freed heap memory (M_PERTURB), the calls made
in between.  Any element that is not written, or is computed from uninitialised memory or from leftover
state, differs between the repetitions.  Inputs range over valid and hostile values."""
import ctypes

import numpy as np

from checks.c01 import OKEXC, hostile_args
from vlib import calls, engine, gen, num, specs      # noqa: F401
from vlib.engine import SPECS
from vlib.engine import TOL
from vlib.gendots import GENDOTS

_libc = ctypes.CDLL(None)
M_PERTURB = -6


def perturb(k):
    _libc.mallopt(M_PERTURB, k)


def scribble(k):
    """Leave bytes of value k in freed heap blocks of many sizes (numpy's small-block cache too)."""
    for n in (8, 16, 24, 40, 64, 120, 256, 400, 800, 1016, 2000, 8000):
        lst = [np.full(n, k, dtype=np.uint8) for _ in range(4)]
        del lst


def fill(o, k):
    if o.dtype.hasobject:
        o[...] = [None, 'rubbish', 12345][k % 3]
    elif o.dtype.kind == 'b':
        o[...] = bool(k & 1)
    elif o.flags.c_contiguous:
        o.reshape(-1).view(np.uint8)[...] = k
    else:
        b = np.empty(1, o.dtype)
        b.view(np.uint8)[...] = k
        o[...] = b[0]


def attempt(f, ins, kw):
    try:
        r = f(*ins, **kw)
    except OKEXC as e:
        return type(e).__name__ + ': ' + str(e)[:80]
    return tuple(np.array(x, copy=True) for x in (r if isinstance(r, tuple) else (r,)))


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    for x, y in zip(a, b):
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype.hasobject:
            if not all((p is q) or (type(p) is type(q) and (p == q or p != p)) for p, q in
                       zip(x.ravel().tolist(), y.ravel().tolist())):
                return False
        elif not num.same(x, y):
            return False
    return True


def other_call(ctx, case):
    lst = [s for s in SPECS.values() if s.cid is not None and not s.native_only]
    s = lst[int(case.rng.integers(0, len(lst)))]
    c = engine.make(case, s, long_ok=False)
    attempt(s.obj, c.args, dict(out=tuple(np.empty(h, t) for h, t in zip(c.oshapes, c.ot))))
    return s.name


def one(ctx, case, s):
    rng = case.rng
    case.ctx = ctx
    loop = s.types[case.index % len(s.types)] if case.index < 4 * len(s.types) else None
    dims = None
    if s.sig and rng.random() < .2:
        dims = s.rdims(rng)
        if not s._dims:
            for d in dims:
                if not d.isdigit() and rng.random() < .6:
                    dims[d] = int(rng.integers(max(0, s.min_n - 1), 3))
        try:
            c = engine.make(case, s, loop=loop, dims=dims)
        except Exception:
            c, dims = engine.make(case, s, loop=loop), None
    else:
        c = engine.make(case, s, loop=loop)
    hostile = rng.random() < .6
    args = hostile_args(c, c.args, s) if hostile and c is not None and _has(c, rng) else c.args
    ins, kw, oax = args, {}, None
    if s.sig and not s.native_only and rng.random() < .25:
        ins, axes, oax = engine.rand_axes(rng, s, args, c.L)
        kw['axes'] = axes + oax
    if not s.native_only and rng.random() < .5:
        ins = [gen.layout(rng, a) for a in ins]
    kw['sig'] = c.it + '->' + c.ot
    c.ins, c.kw = ins, kw
    engine.case_note(case, c)
    outs = []
    from checks.c01 import out_shape
    for k, (sh, tc) in enumerate(zip(c.oshapes, c.ot)):
        if oax and s.ocore[k]:
            sh = out_shape(sh, len(s.ocore[k]), oax[k])
        outs.append(engine.poison_out(rng, sh, tc, contiguous=s.native_only))
    acc = 'bincount' in s.name
    pats = [0x00, 0xff, int(rng.integers(1, 255))]
    res = []
    between = []
    for rep, k in enumerate(pats):
        for o in outs:
            if acc:
                o[...] = 1
            else:
                fill(o, k)
        perturb((k ^ 0x5a) & 0xff or 1)
        scribble(k)
        res.append(attempt(s.obj, ins, dict(kw, out=tuple(outs))))
        perturb(0)
        ctx.ev()
        if rep == 1:
            for _ in range(int(rng.integers(0, 3))):
                between.append(other_call(ctx, case))
    if not s.outonly and not acc:
        perturb(0xaa)
        r = attempt(s.obj, ins, kw)
        perturb(0)
        if not isinstance(r, str) and not isinstance(res[0], str):
            r = tuple(x.astype(y.dtype) for x, y in zip(r, res[0]))
        res.append(r)
    ctx.count(('hostile:' if hostile else 'valid:') + s.name)
    ctx.count('raised' if isinstance(res[0], str) else 'returned')
    ctx.distinct(s.name, c.it, hostile, *[a.tobytes() if not a.dtype.hasobject else repr(a) for a in args])
    if isinstance(res[0], str) and not hostile and dims is None:
        ctx.fail(f'{s.name}:exception', f'a valid call raised {res[0]}: {engine.describe(c)}')
    for i, r in enumerate(res[1:], 1):
        if i == 3 and s.name in TOL:
            continue        # another strategy for other strides of the output: C03 compares those
        if not same(res[0], r):
            ctx.fail(f'{s.name}:nondeterministic',
                     f'repetition {i} (calls in between: {between}) differs: {engine.describe(c)}\n args {num.show(*args)}\n first '
                     f'{res[0]!r}\n then {r!r}')
            return
    if case.index < 2:
        ctx.sample(engine.describe(c), 4)


def _has(c, rng):
    c.rng = rng
    return True


def gendot_case(ctx, case):
    rng = case.rng
    f, desc = GENDOTS(case)
    t = f.types[int(rng.integers(0, len(f.types)))]
    it, ot = t.split('->')
    L = gen.shape_nd(rng, 2, 4)
    n = int(rng.choice([0, 1, 2, 5, 30]))
    args = [np.asarray(gen.values(rng, x, L + (n,))) for x in it]
    o = np.empty(L, ot)
    ctx.note(f'gendot {desc} {t} n={n} L={L} {[a.tolist() for a in args]}'[:4000])
    res = []
    for k in (0, 255, 77):
        fill(o, k)
        perturb(k ^ 0x5a)
        res.append(attempt(f, args, dict(out=o, sig=t)))
        perturb(0)
        ctx.ev()
    ctx.count('gendot')
    ctx.distinct('gendot', desc, t, n, L)
    for r in res[1:]:
        if not same(res[0], r):
            ctx.fail('gendot:nondeterministic', f'gendot({desc}) {t} n={n} {args!r}\n {res[0]!r}\n {r!r}')
            return


def other_form(ctx, case, name):
    """The same for the Python wrappers and for composed functions: called three times, anything in between."""
    rng = case.rng
    c = calls.make(rng, name)
    ctx.note(c.describe())
    args = [gen.layout(rng, a) for a in c.args]
    res = []
    for rep, k in enumerate((0, 255, int(rng.integers(1, 255)))):
        out = None
        if rep < 2:
            out = np.empty(c.oshape, c.ot)
            fill(out, k) if not c.acc else out.fill(1)
        perturb((k ^ 0x5a) & 0xff or 1)
        scribble(k)
        r = attempt(lambda *a, **kw: c(*a, **kw), args, dict(out=out))
        perturb(0)
        ctx.ev()
        if rep == 2 and not isinstance(r, str) and not isinstance(res[0], str):
            r = ((r[0] + np.ones((), c.ot) if c.acc else r[0]).astype(c.ot),)
        res.append(r)
        if rep == 1:
            for _ in range(int(rng.integers(0, 3))):
                if rng.random() < .5:
                    other_call(ctx, case)
                else:
                    d = calls.make(rng, name if rng.random() < .6 else calls.WRAPPERS[int(rng.integers(0, len(calls.WRAPPERS)))])
                    attempt(lambda *a: d(*a), d.args, {})
    ctx.count('form:' + name)
    ctx.count('raised' if isinstance(res[0], str) else 'returned')
    ctx.distinct(name, c.describe(), *[a.tobytes() for a in c.args])
    for i, r in enumerate(res[1:], 1):
        if not same(res[0], r):
            ctx.fail(f'{name}:nondeterministic', f'repetition {i} differs: {c.describe()}\n args {num.show(*args)}\n first '
                     f'{res[0]!r}\n then {r!r}')
            return


def run(ctx):
    for name in calls.WRAPPERS:
        ctx.each('form:' + name, ctx.n(400, 8000), lambda case, name=name: other_form(ctx, case, name))
    for s in SPECS.values():
        if s.cid is None and 'bincount' not in s.name:
            continue
        q = max(500, 3 * len(s.types))
        ctx.each('call:' + s.name, ctx.n(q, 12 * q), lambda case, s=s: one(ctx, case, s))
    ctx.each('gendot', ctx.n(600, 8000), lambda case: gendot_case(ctx, case))
