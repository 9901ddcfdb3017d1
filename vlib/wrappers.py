"""Cases for the Python wrappers convert_to_base, one_hot, nextn_greater and nextn_less: the position
of the new axis, out, the integer arguments, the dtype of the result, the errors."""
from fractions import Fraction      # noqa: F401

import numpy as np

from vlib import gen, num, specs_a

OUTL = ['C', 'F', 'strided', 'neg', 'pad', 'misaligned', 'byteswapped']


def _n(rng, n):
    return [n, np.int64(n), np.uint8(n)][int(rng.integers(0, 3))]


def _call(ctx, case, name, f, args, n, shape, dtype, tcs, values, kw0=None):
    """Call f(*args, n, axis=, out=) and compare the slices along the new axis with values(index)."""
    rng = case.rng
    nd = len(shape)
    axis = int(rng.integers(-nd - 1, nd + 1))
    pos = axis % (nd + 1)
    oshape = shape[:pos] + (n,) + shape[pos:]
    kw = {}
    if axis != -1 or rng.random() < .3:
        kw['axis'] = axis
    out = None
    if rng.random() < .5:
        tc = str(rng.choice(list(tcs)))
        out = gen.layout(rng, np.full(oshape, 77, dtype=tc), rng.choice(OUTL))
        kw['out'] = out
    keep = [np.array(a, copy=True) for a in args]
    how = rng.random()
    if how < .15 and all(a.ndim for a in args) and dtype == 'l' and name != 'one_hot':
        call = [a.tolist() if a.dtype.char == 'l' else a for a in args]
    elif how < .3 and all(a.ndim == 0 for a in args):
        call = [a[()] for a in args]
    else:
        call = [gen.layout(rng, a) for a in args]
    ctx.note(f'{name} shapes={[a.shape for a in args]} n={n} {axis} {sorted(kw)}')
    info = f'{name} args={args!r} n={n} axis={kw.get("axis")} out=' \
        f'{None if out is None else (out.dtype, out.strides)}'
    r = f(*call, _n(rng, n), **kw)
    ctx.ev()
    ctx.count('wrapper:' + name + (':out' if out is not None else ''))
    ctx.distinct(name, n, axis, *[a.tobytes() for a in args])
    if out is not None and r is not out:
        ctx.fail(f'{name}:return', 'the result is not out\n' + info)
        return
    if r.shape != oshape:
        ctx.fail(f'{name}:shape', f'shape {r.shape}, expected {oshape}\n{info}')
        return
    want_t = out.dtype if out is not None else np.dtype(dtype)
    if r.dtype.newbyteorder('=') != want_t.newbyteorder('='):
        ctx.fail(f'{name}:dtype', f'dtype {r.dtype}, expected {want_t}\n{info}')
        return
    v = np.moveaxis(r, pos, -1)
    for ix in np.ndindex(*shape):
        want = values(ix, r.dtype)
        if not num.same(np.asarray(v[ix]).astype(want.dtype), want):
            ctx.fail(f'{name}:value', f'at {ix}: got {num.show(v[ix])} expected {num.show(want)}\n{info}')
            return
    for a, b, c in zip(call, keep, args):
        if isinstance(a, np.ndarray) and not num.same(np.asarray(a).astype(b.dtype), b):
            ctx.fail(f'{name}:input', 'an input was modified\n' + info)


def convert_to_base(ctx, case):
    from ufunclab import convert_to_base as f
    rng = case.rng
    t = str(rng.choice(list('bBhHiIlL')))
    L = gen.shape_nd(rng, 2, 4)
    sh = [gen.sub_shape(rng, L), gen.sub_shape(rng, L)]
    L = np.broadcast_shapes(*sh)
    k = gen.ints(rng, t, sh[0])
    if t == 'L':
        k = (k >> np.uint64(1)).astype('L')
    # bases of any integer type that leaves the loop's type at t
    b = rng.integers(2, 17, size=sh[1]).astype(t if t in 'BHIL' or rng.random() < .5 else 'b')
    if t in 'bhil' and rng.random() < .3:
        b = (-b).astype(b.dtype)
    k, b = np.asarray(k), np.asarray(b)
    n = int(rng.choice([0, 1, 2, 5, 9, 30, 70]))
    kb, bb = np.broadcast_to(k, L), np.broadcast_to(b, L)

    def values(ix, dt):
        kk, base = int(kb[ix]), int(bb[ix])
        w = []
        for _ in range(n):
            q = specs_a._cdiv(kk, base)
            w.append(kk - q * base)
            kk = q
        return np.array(w, dtype='l')
    tcs = {'b': 'bhild', 'B': 'BHILhild'}.get(t, 'l' if t in 'hHiIl' else 'lL')
    if t in 'BHIL' and t != 'L':
        tcs += t
    _call(ctx, case, 'convert_to_base', f, [k, b], n, L, 'l', tcs, values)


def one_hot(ctx, case):
    from ufunclab import one_hot as f
    rng = case.rng
    t = str(rng.choice(list('bBhHiIlLqQ')))
    L = gen.shape_nd(rng, 2, 4)
    n = int(rng.choice([0, 1, 2, 5, 9, 30]))
    k = rng.integers(0 if t.isupper() else -2, n + 2, size=L).astype(t)
    if rng.random() < .2:
        k = gen.ints(rng, t, L, 'extreme')
    k = np.asarray(k)
    _call(ctx, case, 'one_hot', f, [k], n, L, t, 'bBhHiIlLfd' + t * 5,
          lambda ix, dt: np.array([int(i == int(k[ix])) for i in range(n)], dtype='l'))


def nextn(name, up):
    def run(ctx, case):
        import ufunclab
        f = getattr(ufunclab, name)
        rng = case.rng
        t = str(rng.choice(list('fdg')))
        L = gen.shape_nd(rng, 2, 3)
        n = int(rng.choice([0, 1, 2, 5, 9, 30]))
        x = np.asarray(gen.floats(rng, t, L))
        if rng.random() < .3:
            x = np.asarray(rng.choice(gen.specials(t), size=L)).astype(t)
        tcs = t * 4 + {'f': 'dg', 'd': 'g', 'g': 'g'}[t]
        _call(ctx, case, name, f, [x], n, L, t, tcs,
              lambda ix, dt: np.array(specs_a._next_n(x[ix], t, n, up), dtype=t))
    return run


def errors(ctx, case):
    """Documented refusals: a bad call must raise, and leave out alone."""
    import ufunclab as u
    k = np.arange(6).reshape(2, 3)
    x = k * 1.0
    A, V, T = np.exceptions.AxisError, ValueError, (ValueError, TypeError)
    bad = []
    for name, args in (('convert_to_base', (k, 2)), ('one_hot', (k,)), ('nextn_greater', (x,)),
                       ('nextn_less', (x,))):
        f = getattr(u, name)
        ok = x.dtype if name[0] == 'n' else k.dtype
        bad += [(name, 'float n', f, (*args, 2.0), {}, V), (name, 'str n', f, (*args, '2'), {}, V),
                (name, 'None n', f, (*args, None), {}, V),
                (name, 'negative n', f, (*args, -1), {}, V),
                (name, 'axis', f, (*args, 4), dict(axis=3), A),
                (name, 'axis', f, (*args, 4), dict(axis=-4), A),
                (name, 'axis', f, (*args, 4), dict(axis=11), A),
                (name, 'axis', f, (*args, 4), dict(axis=-11), A),
                (name, 'out shape', f, (*args, 4), dict(out=np.full((2, 3, 5), 7, ok)), V),
                (name, 'out shape', f, (*args, 4), dict(out=np.full((2, 4, 3), 7, ok)), V),
                (name, 'out shape', f, (*args, 4), dict(out=np.full((2, 3), 7, ok)), V),
                (name, 'out shape', f, (*args, 4), dict(out=np.full((1, 2, 3, 4), 7, ok)), V),
                (name, 'out shape', f, (*args, 4), dict(axis=0, out=np.full((2, 3, 4), 7, ok)), V)]
    for name in ('nextn_greater', 'nextn_less'):
        for t in ('e', 'l', 'F', 'O', '?'):
            bad.append((name, 'x of type ' + t, getattr(u, name), (k.astype(t), 2), {}, V))
    for t in ('d', '?', 'O', 'D'):
        bad.append(('one_hot', 'k of type ' + t, u.one_hot, (k.astype(t), 2), {}, V))
    for t in ('d', 'O', 'D'):
        bad.append(('convert_to_base', 'k of type ' + t, u.convert_to_base, (k.astype(t), 2, 3), {}, T))
    bad.append(('convert_to_base', 'broadcast', u.convert_to_base, (k, np.array([2, 3]), 3), {}, V))
    for name, what, f, args, kw, exc in bad:
        if case.ctx.cid == 'C12' and name[0] == 'n' or case.ctx.cid == 'C13' and name[0] != 'n':
            continue
        ctx.ev()
        ctx.note(f'{name} {what}')
        try:
            r = f(*args, **kw)
        except exc:
            ctx.count('rejected:' + name)
            ctx.distinct(name, what, str(kw.keys()))
            if 'out' in kw and not (kw['out'] == 7).all():
                ctx.fail(f'{name}:error', f'{what}: out was modified by a call that failed')
            continue
        except Exception as e:
            ctx.fail(f'{name}:error', f'{what}: {e!r}, expected {exc}')
            continue
        ctx.fail(f'{name}:error', f'{what}: accepted, returned {r!r}')
