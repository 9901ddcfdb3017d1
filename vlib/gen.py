"""Generators: values, shapes and memory layouts."""
import mmap

import numpy as np

INTS = 'bBhHiIlLqQ'
FLOATS = 'efdg'


def shape_nd(rng, maxnd=3, maxlen=4, allow0=False):
    nd = int(rng.integers(0, maxnd + 1))
    return tuple(int(rng.integers(0 if allow0 and rng.random() < .2 else 1, maxlen + 1))
                 for _ in range(nd))


def sub_shape(rng, L):
    """A shape that broadcasts to L."""
    s = [1 if rng.random() < .2 else d for d in L]
    k = 0
    if L and rng.random() < .3:
        k = int(rng.integers(0, len(L) + 1))
    return tuple(s[k:])


def ints(rng, tc, shape, mode=None):
    ii = np.iinfo(tc)
    if mode is None:
        mode = rng.choice(['tiny', 'small', 'full', 'extreme'], p=[.3, .3, .25, .15])
    if mode == 'tiny':
        a = rng.integers(max(-2, ii.min), 3, size=shape)
    elif mode == 'small':
        a = rng.integers(max(-50, ii.min), 51, size=shape)
    elif mode == 'full':
        return rng.integers(ii.min, ii.max, size=shape, dtype=np.dtype(tc).type, endpoint=True)
    else:
        pool = np.array([ii.min, ii.max, ii.min + 1, ii.max - 1, 0, 1, ii.max // 2, ii.max // 2 + 1],
                        dtype=tc)
        return pool[rng.integers(0, len(pool), size=shape)]
    return a.astype(tc)


def specials(tc):
    fi = np.finfo(tc)
    t = np.dtype(tc).type
    return np.array([t('nan'), -t('nan'), t('inf'), t('-inf'), t(0.0), t(-0.0), fi.max, -fi.max, fi.tiny,
                     -fi.tiny, fi.smallest_subnormal, -fi.smallest_subnormal, t(1), t(-1),
                     t(1) + fi.eps, t(1) - fi.epsneg], dtype=tc)


def floats(rng, tc, shape, mode=None):
    if mode is None:
        mode = rng.choice(['tie', 'normal', 'log', 'special', 'nans'], p=[.25, .3, .2, .15, .1])
    if mode == 'tie':
        return rng.integers(-3, 4, size=shape).astype(tc)
    if mode == 'pos':
        return np.asarray(np.exp(rng.normal(size=shape) * 2)).astype(tc)
    if mode == 'unit':
        return np.asarray(rng.random(size=shape)).astype(tc)
    a = rng.normal(size=shape) * 10.0 ** rng.integers(-2, 3)
    if mode in ('normal', 'nans', 'special'):
        a = np.asarray(a).astype(tc)
        if tc == 'g':
            a = np.asarray(a + np.asarray(rng.normal(size=shape)).astype('g')
                           * np.longdouble(2) ** -55)
    else:
        span = {'e': 10, 'f': 60, 'd': 400, 'g': 4000}[tc]
        e = rng.integers(-span, span, size=shape)
        a = np.ldexp(np.asarray(rng.normal(size=shape)).astype('g'), e).astype(tc)
    a = np.array(a, dtype=tc)
    if mode == 'nans':
        m = rng.random(size=shape) < rng.choice([.1, .4, .9])
        a[m] = np.nan
        a = np.where(m & (rng.random(size=shape) < .3), -a, a).astype(tc)      # sign of nan
    elif mode == 'special':
        sp = specials(tc)
        m = rng.random(size=shape) < rng.choice([.2, .6, 1.0])
        a = np.where(m, sp[rng.integers(0, len(sp), size=shape)], a).astype(tc)
    return a


def finite(rng, tc, shape, mode=None):
    return floats(rng, tc, shape, mode or rng.choice(['tie', 'normal', 'log']))


def values(rng, tc, shape, mode=None):
    if tc in INTS:
        return ints(rng, tc, shape, mode)
    if tc in FLOATS:
        return floats(rng, tc, shape, mode)
    if tc in 'FDG':
        r = tc.lower()
        a = np.empty(shape, dtype=tc)
        a.real = floats(rng, r, shape, mode)
        a.imag = floats(rng, r, shape, mode)
        return a
    if tc == '?':
        return rng.random(size=shape) < .5
    if tc == 'O':
        return objects(rng, shape)
    raise ValueError(tc)


def objects(rng, shape, kind=None):
    kind = kind or rng.choice(['int', 'bigint', 'frac', 'float', 'str', 'mixed'])
    from fractions import Fraction
    n = int(np.prod(shape)) if shape else 1
    v = rng.integers(-4, 5, size=n).tolist()
    if kind == 'bigint':
        lst = [x * 10**25 + 7 for x in v]
    elif kind == 'frac':
        lst = [Fraction(x, 7) for x in v]
    elif kind == 'float':
        lst = [x / 4 for x in v]
    elif kind == 'mixed':          # equal values of different types
        lst = [[int, float, Fraction][j](x // 2) for x, j in zip(v, rng.integers(0, 3, size=n).tolist())]
    elif kind == 'str':
        lst = ['s%02d' % (x + 10) for x in v]
    else:
        lst = [x * 1000 for x in v]
    a = np.empty(n, dtype=object)
    a[:] = lst
    return a.reshape(shape)


# ---------------------------------------------------------------------------- memory layouts
GIANT = .008        # probability of strides of more than 2**31 bytes (in a sparse mapping)
LAYOUTS = ['C', 'F', 'strided', 'neg', 'swap', 'offset', 'misaligned', 'byteswapped', 'readonly',
           'pad', 'zero']


def layout(rng, a, kind=None):
    """An array equal to `a` with some other memory layout.  Unused memory around the elements holds
    `a`'s own values in a scrambled order or extreme bytes, so a wrong stride shows."""
    a = np.asarray(a)
    if kind is None:
        kind = 'giant' if a.ndim and rng.random() < GIANT else rng.choice(LAYOUTS)
    if kind == 'giant':
        v = giant(rng, a)
        if v is not None:
            return v
        kind = 'strided'
    if kind in ('misaligned', 'byteswapped') and a.dtype.hasobject:
        kind = 'strided'
    if a.ndim == 0 and kind in ('F', 'strided', 'neg', 'swap', 'pad'):
        kind = 'offset'
    return _layout(rng, a, kind)


def giant(rng, a):
    """`a` with a stride near or above 2**31 or 2**32 bytes along one axis (None if that cannot be had)."""
    ax = [k for k, d in enumerate(a.shape) if d > 1]
    if not ax or a.dtype.hasobject or a.size == 0:
        return None
    k = ax[int(rng.integers(len(ax)))]
    base = [1 << 31, 1 << 32, (1 << 32) + (1 << 31), 1 << 33][int(rng.choice(4, p=[.35, .4, .15, .1]))]
    rest = [d for j, d in enumerate(a.shape) if j != k]
    inner = a.itemsize * int(np.prod(rest))
    st = base + 16 * int(rng.integers(-3, 4)) * (1 if rng.random() < .5 else a.itemsize)
    st = max(st, inner)
    size = st * (a.shape[k] - 1) + inner + 4096
    if size > 1 << 38:
        return None
    try:
        m = mmap.mmap(-1, size, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000)        # MAP_NORESERVE
    except (OSError, ValueError):
        return None
    strides = [0] * a.ndim
    s = a.itemsize
    for j in reversed([j for j in range(a.ndim) if j != k]):
        strides[j] = s
        s *= a.shape[j]
    if rng.random() < .5:
        strides[k] = st
        off = 64
    else:
        strides[k] = -st
        off = 64 + st * (a.shape[k] - 1)
    v = np.ndarray(a.shape, a.dtype, m, off, strides)
    v[...] = a
    return v


def _poison(shape, dtype):
    b = np.empty(shape, dtype=dtype)
    if dtype.hasobject:
        b[...] = -987654321
    else:
        b.reshape(-1).view(np.uint8)[...] = 0x5b
    return b


def _layout(rng, a, kind):
    if kind == 'C':
        return np.ascontiguousarray(a) if a.ndim else np.array(a)
    if kind == 'F':
        return np.asfortranarray(a)
    if kind == 'strided':
        steps = [int(rng.integers(1, 4)) for _ in a.shape]
        b = _poison(tuple(max(1, d * s) for d, s in zip(a.shape, steps)), a.dtype)
        v = b[tuple(slice(0, d * s, s) for d, s in zip(a.shape, steps))]
        v[...] = a
        return v
    if kind == 'neg':
        neg = [bool(rng.random() < .6) for _ in a.shape]
        ix = tuple(slice(None, None, -1 if f else 1) for f in neg)
        b = np.array(a[ix], order='C')
        return b[ix]
    if kind == 'swap':
        p = rng.permutation(a.ndim)
        b = np.array(np.transpose(a, p), order='C')
        return np.transpose(b, np.argsort(p))
    if kind == 'pad':
        b = _poison(tuple(d + 3 for d in a.shape), a.dtype)
        v = b[tuple(slice(1, 1 + d) for d in a.shape)]
        v[...] = a
        return v
    if kind == 'offset':
        b = _poison((a.size + 5,), a.dtype)
        v = b[3:3 + a.size].reshape(a.shape)
        v[...] = a
        return v
    if kind == 'misaligned':
        raw = np.full(a.nbytes + 16, 0x5b, dtype=np.uint8)
        v = raw[1:1 + a.nbytes].view(a.dtype).reshape(a.shape)
        v[...] = a
        return v
    if kind == 'byteswapped':
        return a.astype(a.dtype.newbyteorder('S'))
    if kind == 'readonly':
        b = np.array(a)
        b.flags.writeable = False
        return b
    if kind == 'zero':
        return zero_strides(a)
    raise ValueError(kind)


def zero_strides(a):
    """`a` itself, with stride 0 along every axis along which all its elements are the same."""
    if 0 in a.strides and a.size > 1:
        return a
    ix = []
    for k, d in enumerate(a.shape):
        one = a[(slice(None),) * k + (slice(0, 1),)]
        if a.dtype.hasobject:
            eq = all(x is y for x, y in zip(a.ravel().tolist(), np.broadcast_to(one, a.shape).ravel().tolist()))
        else:
            eq = a.tobytes() == np.broadcast_to(one, a.shape).tobytes()
        ix.append(slice(0, 1) if eq and d > 1 else slice(None))
    if all(i == slice(None) for i in ix):
        return a
    return np.broadcast_to(np.array(a[tuple(ix)]), a.shape)


def flatten_axes(rng, a, ncore):
    """Make `a` constant along some of its axes (more often the core axes, its last `ncore`)."""
    b = a
    for k in range(a.ndim):
        if a.shape[k] > 1 and rng.random() < (.7 if k >= a.ndim - ncore else .3):
            b = np.broadcast_to(b[(slice(None),) * k + (slice(0, 1),)], a.shape)
    return b


def windows(rng, a):
    """Overlapping windows of one vector, in the shape of `a`: the strides of the last two axes are the same."""
    if a.ndim < 2 or not a.size:
        return a
    m, n = a.shape[-2:]
    flat = a.ravel()
    base = np.array(flat[rng.integers(0, flat.size, size=m + n - 1)])
    return np.broadcast_to(np.lib.stride_tricks.sliding_window_view(base, n)[:m], a.shape)


def native_layout(rng, a):
    """Layouts whose data reaches the loops without a buffered copy."""
    k = rng.choice(['C', 'F', 'strided', 'neg', 'swap', 'offset', 'readonly', 'pad', 'zero'])
    return layout(rng, a, k)
