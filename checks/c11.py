"""bincount: a history checker.  Every element of out must be its value before the call plus the
count (or the sum of the weights) of the entries equal to its index."""
import numpy as np

from vlib import engine, gen, num, specs      # noqa: F401
from vlib.specs_a import S_BC, S_BCW


def model(start, x, w, m):
    """start: array (..., m) of exact values (object); x, w: (..., n) broadcast."""
    out = start.copy()
    for ix in np.ndindex(*start.shape[:-1]):
        row = out[ix]
        xs = x[ix].tolist()
        ws = [1] * len(xs) if w is None else w[ix].tolist()
        for k, v in zip(xs, ws):
            if 0 <= k < m:
                row[k] = row[k] + v
        out[ix] = row
    return out


def exact(a):
    o = np.empty(a.shape, dtype=object)
    o[...] = a.astype('G').astype('D') if a.dtype.kind == 'c' else a
    if a.dtype.kind == 'f':
        o[...] = a.astype('d')
    return o


def equal(got, want):
    g = got.astype('D') if got.dtype.kind == 'c' else got.astype('d') if got.dtype.kind == 'f' else got
    return all(complex(a) == complex(b) for a, b in zip(g.ravel().tolist(), want.ravel().tolist()))


def start_values(rng, shape, tc):
    if tc in '?':
        return np.zeros(shape, dtype=tc)
    a = rng.integers(0, 6, size=shape)
    if tc in 'FDG':
        a = a + 1j * rng.integers(-3, 4, size=shape)
    return np.asarray(a).astype(tc)


def out_types(ot):
    if ot in 'lLqQ':
        return ot * 6 + ('hiqfdg' if ot in 'lq' else 'LQ')
    if ot in gen.INTS:
        return ot * 6 + ('ifd' if ot in 'bhi' else 'Ifd')
    return ot * 6 + ('dg' if ot in 'fd' else 'G')


def gufunc_case(ctx, case, s, s0=None, dims=None):
    rng = case.rng
    wide = dims is not None
    s0 = s0 or s.types[case.index % len(s.types)]
    reps = int(rng.integers(1, 4)) if not wide else 1
    f = s.obj
    out = want = None
    for rep in range(reps):
        kw = dict(dims=dims, L=()) if wide else {}
        if rep:
            kw = dict(dims=c.dims, L=c.L)
        c = engine.make(case, s, loop=s0, **kw)
        if rep and c.L != L:
            break
        L, m = c.L, c.dims['m']
        if rep == 0:
            ot = str(rng.choice(list(out_types(c.ot))))
            if wide and ot in 'bBhH':        # too small for the counts
                ot = c.ot
            start = start_values(rng, c.oshapes[0], ot)
            out = gen.layout(rng, start.copy(), rng.choice(['C', 'F', 'strided', 'neg', 'swap', 'pad',
                                                            'misaligned', 'byteswapped']))
            want = exact(start)
            if wide and 0 < m < 9 and rng.random() < .7:
                c.args[0] = np.sort(c.args[0])      # long runs of the same value
                if rng.random() < .7:
                    c.args[0][:-3] = int(rng.integers(m))
        ins = c.args
        axes = None
        if rng.random() < .4:
            ins, axes, oax = engine.rand_axes(rng, s, ins, L)
        ins = [gen.layout(rng, a) for a in ins]
        c.ins, c.kw = ins, {}
        o = out
        kw = {}
        if wide and rng.random() < .6:
            ins, axes = [np.array(a) for a in c.args], None
            c.ins = ins
        if axes:
            o = np.moveaxis(out, -1, oax[0][0])
            kw['axes'] = axes + oax
        if rng.random() < .3 and out.dtype == np.dtype(c.ot):
            kw['sig'] = c.it + '->' + c.ot
        engine.case_note(case, c)
        r = f(*ins, out=o, **kw)
        if r is not o:
            ctx.fail(f'{s.name}:return', 'the return value is not out')
        bx = np.broadcast_to(c.args[0], L + c.args[0].shape[-1:])
        bw = np.broadcast_to(c.args[1], L + c.args[1].shape[-1:]) if len(c.args) > 1 else None
        want = model(want, bx, bw, m)
        ctx.ev()
        ctx.count(f'gufunc:{s.name}:' + ('native' if out.dtype == np.dtype(c.ot) and out.flags.aligned else 'buffered'))
        ctx.count('repeated' if rep else 'first')
        ctx.distinct(s.name, tuple(s0), c.L, m, bx.tobytes())
        if not equal(out, want):
            ctx.fail(f'{s.name}:value', f'after call {rep + 1}: {engine.describe(c)}\nout dtype {out.dtype} '
                     f'strides {out.strides} {num.show(*c.args)}\n got {out!r}\nwant {want!r}')
            return


def wrapper_case(ctx, case):
    import ufunclab
    from ufunclab import bincount
    rng = case.rng
    L = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(0, 3))))
    weighted = rng.random() < .6
    xb = gen.sub_shape(rng, L) if weighted else L
    wb = gen.sub_shape(rng, L)
    L = np.broadcast_shapes(xb, wb) if weighted else L
    low = min(len(xb), len(wb)) if weighted else len(L)
    axis = int(rng.integers(-low - 1, low + 1))

    def put(sh, k):
        ax = axis % (len(sh) + 1)
        return sh[:ax] + (k,) + sh[ax:]
    n = int(rng.choice([0, 1, 2, 5, 9, 30], p=[.04, .16, .2, .3, .2, .1]))
    shape = put(xb, n)
    tc = str(rng.choice(list('bBhHiIlLqQ')))
    hi = int(rng.choice([1, 3, 7, 20, 126]))
    lo = 0 if tc.isupper() or rng.random() < .5 else -3
    x = rng.integers(lo, hi, size=shape, endpoint=True).astype(tc)
    if rng.random() < .1:
        x = gen.ints(rng, tc, shape, 'full')
    x0 = x.copy()
    x = gen.layout(rng, x)
    mx = int(x0.max()) + 1 if x0.size else None
    if x0.size and mx < 400 and rng.random() < .5:
        m = None
        mm = max(mx, 0)
    else:
        mm = int(rng.choice([0, 1, 3, 8, 30]))
        m = [mm, np.int64(mm), np.uint8(mm)][int(rng.integers(0, 3))]
    kw = {}
    w = w0 = None
    if weighted:
        wt = str(rng.choice(list('bBhHiIlLqQfdFDfde')))
        wshape = put(wb, n)
        v = rng.integers(0 if wt in 'BHILQ' else -4, 5, size=wshape)
        if wt in 'fdFDe':
            v = v / 4
        w0 = np.asarray(v).astype(wt)
        w = gen.layout(rng, w0)
        kw['weights'] = w
    oshape = put(L, mm)
    ot = 'l' if w is None else w0.dtype.char
    start = np.zeros(oshape, dtype=ot)
    out = None
    if rng.random() < .5:
        t = ot
        if ot != 'e':
            t = str(rng.choice(list(out_types(ot))))
        start = start_values(rng, oshape, t)
        out = gen.layout(rng, start.copy(), rng.choice(['C', 'F', 'strided', 'neg', 'pad', 'misaligned',
                                                     'byteswapped']))
        start = start.copy()
        kw['out'] = out
    ctx.note(f'bincount {x.dtype} {x.shape} m={m!r} axis={axis} {sorted(kw)} {w0 is not None and w0.shape}')
    try:
        r = bincount(x, m, axis=axis, **kw)
    except Exception as e:
        ctx.fail(f'bincount:exception:{type(e).__name__}', f'{e!r}\nx {x!r} m={m!r} weights={w!r} axis={axis} '
                 f'out={None if out is None else (out.dtype, out.shape, start)}')
        return
    ctx.ev()
    ctx.count('wrapper')
    info = f'x {x0!r} m={m!r} weights={w0!r} axis={axis} out={None if out is None else start!r}'
    if out is not None and r is not out:
        ctx.fail('bincount:return', 'the return value is not out\n' + info)
    if r.shape != oshape:
        ctx.fail('bincount:shape', f'shape {r.shape}, expected {oshape}\n' + info)
        return
    if out is None and r.dtype != np.dtype(ot) and not (w is not None and r.dtype == w.dtype):
        ctx.fail('bincount:dtype', f'dtype {r.dtype}, expected {np.dtype(ot)}\n' + info)
    bx = np.broadcast_to(np.moveaxis(x0, axis, -1), L + (n,))
    bw = None if w is None else np.broadcast_to(np.moveaxis(w0, axis, -1), L + (n,))
    want = model(exact(np.moveaxis(start, axis, -1)), bx, bw, mm)
    ctx.distinct('w', x0.dtype.char, x0.tobytes(), axis, mm, None if w0 is None else w0.tobytes())
    ctx.count('wrapper:' + ('weights' if w is not None else 'plain') + (':out' if out is not None else '') + (':default m' if m is None else ''))
    if not equal(np.moveaxis(r, axis, -1), want):
        ctx.fail('bincount:value', f'{info}\n got {r!r}\nwant {want!r} (axis last)')
    if not np.array_equal(np.asarray(x), x0) or (w is not None and not np.array_equal(w, w0)):
        ctx.fail('bincount:input', 'an input was modified\n' + info)


def error_cases(ctx, case):
    from ufunclab import bincount
    rng = case.rng
    x = rng.integers(0, 5, size=(3, 4))
    bad = [
        ('noninteger x', lambda: bincount(x * 1.0), ValueError),
        ('bool x', lambda: bincount(x > 2), ValueError),
        ('object x', lambda: bincount(x.astype(object)), ValueError),
        ('negative m', lambda: bincount(x, -1), ValueError),
        ('float m', lambda: bincount(x, 3.0), ValueError),
        ('str m', lambda: bincount(x, '3'), ValueError),
        ('out shape', lambda: bincount(x, 5, out=np.zeros((3, 4), int)), ValueError),
        ('out shape weights', lambda: bincount(x, 5, weights=x, out=np.zeros((3, 4), int)), ValueError),
        ('axis', lambda: bincount(x, axis=2), np.exceptions.AxisError),
        ('axis', lambda: bincount(x, axis=-3), np.exceptions.AxisError),
        ('axis weights', lambda: bincount(x, weights=x, axis=2), np.exceptions.AxisError),
        ('0-d', lambda: bincount(np.array(3)), np.exceptions.AxisError),
        ('broadcast', lambda: bincount(x, weights=np.ones((2, 4))), ValueError),
        ('length', lambda: bincount(x, weights=np.ones(5)), ValueError),
        ('unsafe out', lambda: bincount(x, 5, out=np.zeros((3, 5), dtype=bool)), TypeError),
    ]
    for name, fn, exc in bad:
        ctx.ev()
        try:
            r = fn()
        except exc:
            ctx.count('rejected')
            ctx.distinct('error', name)
            continue
        except Exception as e:
            ctx.fail('bincount:error', f'{name}: {e!r}, expected {exc.__name__}')
            continue
        ctx.fail('bincount:error', f'{name}: accepted, returned {r!r}')


def run(ctx):
    for s in (S_BC, S_BCW):
        ctx.each(s.name, ctx.n(1800, 40000), lambda case, s=s: gufunc_case(ctx, case, s))
        engine.run_wide(ctx, s, ctx.n(60, 400), lambda case, t, d, s=s: gufunc_case(ctx, case, s, t, d))
    ctx.each('wrapper', ctx.n(2500, 60000), lambda case: wrapper_case(ctx, case))
    ctx.each('errors', 6, lambda case: error_cases(ctx, case))
