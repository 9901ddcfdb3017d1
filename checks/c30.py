"""Dimensions of more than 2**31 elements.

The arrays are virtual: one small block of memory is mapped again and again over gigabytes of address space, and only the end has
memory of its own, so the input is a long constant or periodic part followed by a tail of values made for the case, and of an output
the tail can be read back.  The expected result follows from the tail and the length (core dimensions) or is that of the call on the
tail alone (loop dimensions)."""
import ctypes
import math
import mmap
import os
import resource
import time

import numpy as np

import ufunclab as ul
from vlib import num, specs      # noqa: F401
from vlib.specs_a import KIND

CH = 1 << 21
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
FIXED = 0x10


class Ring:
    """n elements of the type; the chunks before the last ones share one block."""

    def __init__(self, dtype, n, fill=0):
        dtype = np.dtype(dtype)
        self.nb = n * dtype.itemsize
        k = self.nb // CH
        self.size = (k + 2) * CH
        self.base = base = self._map(None, self.size, mmap.PROT_READ, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000, -1)
        fd = os.memfd_create('ring')
        try:
            os.ftruncate(fd, CH)
            rw = mmap.PROT_READ | mmap.PROT_WRITE
            for i in range(k - 1):
                self._map(base + i * CH, CH, rw, mmap.MAP_SHARED | FIXED, fd)
        finally:
            os.close(fd)
        self._map(base + (k - 1) * CH, 3 * CH, rw, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | FIXED, -1)
        self.a = np.frombuffer((ctypes.c_char * self.size).from_address(base), dtype=dtype, count=n)
        self.own = (k - 1) * CH // dtype.itemsize       # from here on the elements have their own memory
        self.a[:CH // dtype.itemsize] = fill
        self.a[self.own:] = fill

    def _map(self, at, size, prot, flags, fd):
        r = _libc.mmap(at, size, prot, flags, fd, 0)
        if r is None or r == ctypes.c_void_p(-1).value:
            raise MemoryError('mmap')
        return r

    def close(self):
        self.a = None
        _libc.munmap(self.base, self.size)


class Pool:
    def __init__(self):
        self.r = []

    def __call__(self, dtype, n, fill=0):
        r = Ring(dtype, n, fill)
        self.r.append(r)
        return r.a

    def close(self):
        for r in self.r:
            r.close()


# ------------------------------------------------------------------------------------------------ core dimensions
def tail(rng, a, vals, k=None):
    """Put values at random places of the last 5000 elements; returns the places in order."""
    k = k or len(vals)
    p = np.sort(rng.choice(5000, size=k, replace=False)) + (len(a) - 5000)
    a[p] = vals
    return [int(v) for v in p]


def near(got, want, rel):
    got, want = float(got), float(want)
    return got == want or abs(got - want) <= rel * abs(want)


def tuple_of(r):
    return tuple(np.asarray(x).tolist() for x in (r if isinstance(r, tuple) else (r,)))


CORE = {}


def core(name, quick=True):
    def deco(f):
        CORE[name] = (f, quick)
        return f
    return deco


def _extreme(name, f):
    @core(name)
    def case(ctx, rng, n, R):
        tc = str(rng.choice(list('bBhf')))
        a = R(tc, n, 5)
        lo, hi = tail(rng, a, [2, 9, 9, 2][::1 if rng.random() < .5 else -1])[:2]
        if a[lo] > a[hi]:
            lo, hi = hi, lo
        want = {'argmin': (lo,), 'argmax': (hi,), 'min_argmin': (2, lo), 'max_argmax': (9, hi), 'minmax': ([2, 9],), 'argminmax': ([lo, hi],),
                'peaktopeak': (7,)}[name]
        return tc, tuple_of(f(a)), want


for _n in ('argmin', 'argmax', 'min_argmin', 'max_argmax', 'minmax', 'argminmax', 'peaktopeak'):
    _extreme(_n, getattr(ul, _n))


@core('argfirst')
def _(ctx, rng, n, R):
    tc = str(rng.choice(list('bhf')))
    a = R(tc, n, 3)
    p = tail(rng, a, [7, 7])
    op = int(rng.choice([ul.op.EQ, ul.op.GE]))
    return tc, tuple_of(ul.argfirst(a, op, np.array(7, tc))), (p[0],)


@core('first')
def _(ctx, rng, n, R):
    tc = str(rng.choice(list('bhf')))
    a = R(tc, n, 3)
    tail(rng, a, [7, 8])
    return tc, tuple_of(ul.first(a, ul.op.GT, np.array(3, tc), np.array(-1, tc))), (7,)


@core('all_same')
def _(ctx, rng, n, R):
    tc = str(rng.choice(list('?bhf')))
    a = R(tc, n, 1)
    w = rng.random() < .5
    if not w:
        tail(rng, a, [0])
    return tc, tuple_of(ul.all_same(a)), (w,)


@core('ordered')
def _(ctx, rng, n, R):
    tc = str(rng.choice(list('bhf')))
    a = R(tc, n, 3)
    w = rng.random() < .5
    a[tail(rng, a, [4])[0]:] = 4
    if not w:
        tail(rng, a, [2])
    return tc, tuple_of(ul.ordered(a, ul.op.LE)), (w,)


@core('searchsorted')
def _(ctx, rng, n, R):
    tc = str(rng.choice(list('bBhief')))
    a = R(tc, n, 3)
    p, q = tail(rng, a, [0, 0])
    a[p:] = 4
    a[q:] = 9
    got, want = [], []
    for v, lo, hi in ((3, 0, p), (4, p, q), (5, q, q), (9, q, n), (10, n, n), (2, 0, 0)):
        got += [int(ul.searchsortedl(a, np.array(v, tc))), int(ul.searchsortedr(a, np.array(v, tc)))]
        want += [lo, hi]
    return tc, got, want


@core('bincount')
def _(ctx, rng, n, R):
    tc = str(rng.choice(list('bBhi')))
    a = R(tc, n, 1)
    tail(rng, a, [0, 2, 2, 3, 3, 3, 4, 5])
    return tc, tuple_of(ul.bincount(a, 5)), ([1, n - 8, 2, 3, 1],)


@core('bincountw', False)
def _(ctx, rng, n, R):
    tc = str(rng.choice(list('bi')))
    a = R(tc, n, 1)
    w = R('f', n, 0)
    p = tail(rng, a, [0, 2, 2, 3])
    w[p] = [4, 5, 6, 7]
    w[-1] = 8
    want = [0.0] * 5
    for i in set(p + [n - 1]):
        want[int(a[i])] += float(w[i])
    return tc, tuple_of(ul.bincount(a, 5, weights=w)), (want,)


@core('one_hot')
def _(ctx, rng, n, R):
    o = R('l', n, 7)
    k = n - int(rng.integers(1, 4000))
    ul.one_hot(k, n, out=o)
    t = np.zeros(5000, 'b')
    t[k - n] = 1
    return 'l', tuple_of(o[-5000:]), tuple_of(t)


@core('convert_to_base', False)
def _(ctx, rng, n, R):
    o = R('b', n, 7)
    ul.convert_to_base(np.int8(5), np.int8(2), n, out=o)
    # the block at the start was overwritten by the zeros that follow in the chunks that share it
    return 'b', tuple_of(o[-5000:]), ([0] * 5000,)


@core('nextn_greater')
def _(ctx, rng, n, R):
    o = R('f', n, 7)
    ul.nextn_greater(np.float32(0), n, out=o)
    # the k-th float32 after 0 has the bits k (all n of them up to infinity)
    t = np.minimum(np.arange(n - 4999, n + 1), 0x7f800000).astype('i')
    return 'f', tuple_of(o[-5000:].view('i')), tuple_of(t)


@core('percentileofscore')
def _(ctx, rng, n, R):
    tc = str(rng.choice(list('bhi')))
    a = R(tc, n, 3)
    tail(rng, a, [2, 4, 4, 5, 5, 5])
    got, want = [], []
    for v, k in ((3, 'mean'), (int(rng.choice([4, 5])), 'strict'), (int(rng.integers(2, 6)), str(rng.choice(['rank', 'weak'])))):
        less, eq = {2: (0, 1), 3: (1, n - 6), 4: (n - 5, 2), 5: (n - 3, 3)}[v]
        code = dict(zip(('rank', 'weak', 'strict', 'mean'), KIND()))[k]
        w = {'rank': 50 * (2 * less + eq + 1) / n, 'weak': 100 * (less + eq) / n, 'strict': 100 * less / n, 'mean': 50 * (2 * less + eq) / n}[k]
        g = float(ul.percentileofscore(a, np.array(v, tc), code))
        got.append(near(g, w, 4e-16) or (v, k, g, w))
        want.append(True)
    return tc, got, want


@core('vnorm')
def _(ctx, rng, n, R):
    a = R('f', n, 0)
    v = [3, -4, 12, 84]
    tail(rng, a, v)
    o, want = [(1.0, 103.0), (2.0, math.sqrt(7225.0)), (math.inf, 84.0), (3.0, (27 + 64 + 1728 + 592704) ** (1 / 3))][int(rng.integers(4))]
    got = float(ul.vnorm(a, o))
    return f'f order {o}', [near(got, want, 1e-5) or (got, want)], [True]


@core('rms')
def _(ctx, rng, n, R):
    a = R('f', n, 0)
    tail(rng, a, [3e8, -4e8])
    got, want = float(ul.rms(a)), 5e8 / math.sqrt(n)
    return 'f', [near(got, want, 1e-5) or (got, want)], [True]


@core('meanvar')
def _(ctx, rng, n, R):
    tc = str(rng.choice(list('bhi')))
    a = R(tc, n, 1)
    tail(rng, a, [101, 101, -99, 51])
    ddof = int(rng.integers(0, 2))
    s1, s2 = (100 + 100 - 100 + 50), (3 * 10000 + 2500)
    mean, var = 1 + s1 / n, (s2 - s1 * s1 / n) / (n - ddof)
    m, v = [float(x) for x in ul.meanvar(a, ddof)]
    return tc, [near(m, mean, 1e-12) or (m, mean), near(v, var, 1e-10) or (v, var)], [True, True]


@core('kbnsum')
def _(ctx, rng, n, R):
    a = R('f', n, 0)
    tail(rng, a, [1, 1e30, 3, -1e30])
    return 'f', tuple_of(ul.kbnsum(a)), (4.0,)


@core('wjaccard')
def _(ctx, rng, n, R):
    tc = str(rng.choice(list('Bf')))
    a = R(tc, n, 0)
    b = R(tc, n, 0)
    a[tail(rng, a, [0])[0]] = 8
    p = tail(rng, a, [6, 9])
    b[p] = [8, 3]
    x, y = a[-5000:].astype(float), b[-5000:].astype(float)
    want = np.minimum(x, y).sum() / np.maximum(x, y).sum()
    got = float(ul.wjaccard(a, b))
    return tc, [near(got, want, 1e-6) or (got, want)], [True]


@core('pearson_corr')
def _(ctx, rng, n, R):
    tc = str(rng.choice(list('bB')))
    a = R(tc, n, 0)
    b = R(tc, n, 0)
    p = tail(rng, a, [9, 3, 0, 7])
    b[p] = [9, 0, 5, 7]
    got, want = float(ul.pearson_corr(a, b)), 130 / math.sqrt(139.0 * 155)
    return tc, [near(got, want, 1e-5) or (got, want)], [True]


@core('gendot')
def _(ctx, rng, n, R):
    if rng.random() < .5:
        f, tc, zero = ul.gendot(np.logical_and, np.logical_or), '?', 0
        a, b = R(tc, n, 0), R(tc, n, 1)
        w = rng.random() < .5
        if w:
            a[-1] = 1
        return 'logical', tuple_of(f(a, b)), (w,)
    f, tc = ul.gendot(np.multiply, np.maximum), str(rng.choice(list('bh')))
    a, b = R(tc, n, 1), R(tc, n, 2)
    tail(rng, a, [30])
    return 'max of products', tuple_of(f(a, b)), (60,)


@core('vdot')
def _(ctx, rng, n, R):
    a, b = R('f', n, 0), R('f', n, 2)
    tail(rng, a, [30, 12])
    got = float(ul.vdot(a, b))
    return 'f', [got], [84.0]


@core('tri_area')
def _(ctx, rng, n, R):
    k = n // 3 + 1
    p = R('f', 3 * k, 2).reshape(k, 3)
    p[-3, 1] = 5
    p[-2, 2] = 6
    got = float(ul.tri_area(p.T))
    return 'f', [near(got, 6.0, 1e-6) or got], [True]


@core('linear_interp1d')
def _(ctx, rng, n, R):
    x, y = R('f', n, 0), R('f', n, 2)
    x[-1000:] = np.arange(1, 1001)
    y[-1000:] = np.arange(1, 1001) * 3.0
    q = float(rng.integers(8, 7992)) / 8
    got = float(ul.linear_interp1d(np.float32(q), x, y))
    return 'f', [near(got, 3 * q, 1e-6) if q >= 1 else 2 <= got <= 3] , [True]


@core('backlash')
def _(ctx, rng, n, R):
    a, o = R('f', n, 1), R('f', n, 9)
    p, q = tail(rng, a, [1, 1])
    a[p:] = 4
    a[q:] = -3
    ul.backlash(a, np.float32(1), np.float32(.5), out=o)
    w = np.full(5000, .5)
    w[p - n:] = 3.5
    w[q - n:] = -2.5
    return 'f', tuple_of(o[-5000:]), tuple_of(w)


@core('backlash_sum')
def _(ctx, rng, n, R):
    a, o = R('f', n, 1), R('f', n, 9)
    p = tail(rng, a, [1])[0]
    a[p:] = 4
    f = ul.backlash_sum(a, np.float32([2, 1]), np.float32([1, 2]), np.float32([.5, 0]), out=(o, None))[1]
    w = np.full(5000, 1.)
    w[p - n:] = 2 * 3.5 + 3
    return 'f', tuple_of((o[-5000:], f)), tuple_of((w, np.array([3.5, 3])))


@core('hysteresis_relay')
def _(ctx, rng, n, R):
    a, o = R('f', n, 0), R('f', n, 9)
    p, q = tail(rng, a, [5, -5])
    ul.hysteresis_relay(a, *np.float32([-1, 1, 3, 4, 7]), out=o)
    w = np.full(5000, 7.)
    w[p - n:] = 4
    w[q - n:] = 3
    return 'f', tuple_of(o[-5000:]), tuple_of(w)


@core('fillnan1d')
def _(ctx, rng, n, R):
    a, o = R('f', n, 1), R('f', n, 9)
    a[-3] = 3
    a[-4] = np.nan
    a[-1] = np.nan
    ul.fillnan1d(a, out=o)
    w = np.full(5000, 1.)
    w[-4:] = [2, 3, 1, 1]
    return 'f', tuple_of(o[-5000:]), tuple_of(w)


@core('unwrap', False)
def _(ctx, rng, n, R):
    a, o = R('f', n, 1), R('f', n, 9)
    p, q = tail(rng, a, [4, 3])
    a[q:] = 9
    ul.unwrap(a, np.float32(8), out=o)
    w = np.full(5000, 1.)
    w[p - n] = 4
    return 'f', tuple_of(o[-5000:]), tuple_of(w)


@core('softmax', False)
def _(ctx, rng, n, R):
    a, o = R('f', n, -200), R('f', n, 9)
    p = tail(rng, a, [0, math.log(3)])
    ul.softmax(a, out=o)
    w = np.zeros(5000)
    w[p[0] - n], w[p[1] - n] = .25, .75
    return 'f', [bool(np.allclose(o[-5000:], w, atol=1e-6))], [True]


@core('sosfilter')
def _(ctx, rng, n, R):
    a, o = R('f', n, 1), R('f', n, 9)
    p = tail(rng, a, [1])[0]
    a[p:] = 5
    ul.sosfilter(np.float32([[.5, 0, 0, 1, -.5, 0]]), a, out=o)
    w = np.full(5000, 1.)
    for k in range(5000 + p - n, 5000):
        w[k] = .5 * 5 + .5 * w[k - 1]
    return 'f', [bool(np.allclose(o[-5000:], w, rtol=1e-6))], [True]


@core('hmean', False)
def _(ctx, rng, n, R):
    a = R('f', n, 1e30)
    tail(rng, a, [.25, .5])
    got = float(ul.hmean(a))
    return 'f', [near(got, n / 6, 1e-6) or got], [True]


# ------------------------------------------------------------------------------------------------ loop dimensions
LOOP = {
    # name: (function, input types and core shapes, output type and core shape, in the quick tier)
    'step': (ul.step, ('f', 'f', 'f', 'f', 'f'), ('f',), True),
    'abs_squared': (ul.abs_squared, ('f',), ('f',), False),
    'deadzone': (ul.deadzone, ('f', 'f', 'f'), ('f',), False),
    'hypot3': (ul.hypot3, ('f', 'f', 'f'), ('f',), False),
    'next_greater': (ul.next_greater, ('f',), ('f',), False),
    'logistic': (ul.logistic, ('f',), ('f',), False),
    'issnan': (ul.issnan, ('e',), ('?',), True),
    'nan_to_num': (ul.nan_to_num, ('f', 'f'), ('f',), False),
    'logfactorial': (ul.logfactorial, ('i',), ('d',), False),
    'debye1': (ul.debye1, ('f',), ('f',), False),
    'loggamma1p': (ul.loggamma1p, ('f',), ('f',), False),
    'all_same': (ul.all_same, (('b', 2),), ('?',), True),
    'peaktopeak': (ul.peaktopeak, (('b', 2),), ('B',), True),
    'first': (ul.first, (('b', 2), 'b', 'b', 'b'), ('b',), False),
    'rms': (ul.rms, (('f', 2),), ('f',), True),
    'vdot': (ul.vdot, (('f', 2), ('f', 2)), ('f',), False),
    'searchsortedl': (ul.searchsortedl, (('b', 2), 'b'), ('l',), False),
    'linear_interp1d': (ul.linear_interp1d, ('f', ('f', 2), ('f', 2)), ('f',), True),
    'gendot': (None, (('?', 2), ('?', 2)), ('?',), True),
    'minmax': (ul.minmax, (('b', 2),), (('b', 2),), False),
}


def loop_case(ctx, rng, n, R, name):
    f, ins, outs, _ = LOOP[name]
    if f is None:
        f = ul.gendot(np.logical_and, np.logical_or)
    args, tails = [], []
    for k, t in enumerate(ins):
        tc, sh = (t, ()) if isinstance(t, str) else (t[0], t[1:])
        m = int(np.prod(sh)) if sh else 1
        one = k > 0 and rng.random() < .3
        cnt = 5000 * m
        if tc in 'bBli?':
            v = rng.integers(0, 2 if tc == '?' else 5, size=cnt).astype(tc)
        else:
            v = (rng.integers(-16, 17, size=cnt) / 4).astype(tc)
            if name == 'issnan':
                v = np.random.default_rng(int(rng.integers(1 << 30))).integers(0x7bf0, 0x7dff, size=cnt).astype('u2').view('e')
        if name == 'linear_interp1d' and k == 1:
            v = np.sort(v.reshape(5000, 2), axis=-1).reshape(-1)
            v[1::2] += 1
        if one:
            v = v[:m]
            a = np.broadcast_to(v.reshape((1,) + sh), (n,) + sh)
        else:
            a = R(tc, n * m, v[0])
            if name == 'linear_interp1d' and k == 1:
                a[:CH // a.itemsize] = np.tile([0, 1], CH // a.itemsize // 2)
            a[-cnt:] = v
            a = a.reshape((n,) + sh)
        args.append(a)
    oo = []
    for t in outs:
        tc, sh = (t, ()) if isinstance(t, str) else (t[0], t[1:])
        m = int(np.prod(sh)) if sh else 1
        oo.append(R(tc, n * m, 1).reshape((n,) + sh))
    r = f(*args, out=tuple(oo))
    r = r if isinstance(r, tuple) else (r,)
    want = f(*[np.array(a[-5000:]) for a in args])
    want = want if isinstance(want, tuple) else (want,)
    msg = []
    for o, w in zip(oo, want):
        got = np.array(o[-5000:])
        if not num.same(got, w):
            bad = np.flatnonzero((got != w).reshape(5000, -1).any(axis=1))
            msg.append((int(bad[0]) - 5000 if bad.size else 'nan', got[bad[:3]].tolist(), w[bad[:3]].tolist()))
    return ''.join(t if isinstance(t, str) else t[0] for t in ins), msg, []


# ------------------------------------------------------------------------------------------------
def length(rng, big):
    u = rng.random()
    return ((1 << 32) if big and u < .3 else (1 << 31) + (1 << 30) if big and u < .5 else 1 << 31) + int(rng.integers(6000, 20000))


def one(ctx, case, item):
    kind, name = item
    rng = case.rng
    if kind == 'loop':
        n = length(rng, False)
    else:
        n = length(rng, ctx.tier == 'thorough')
    R = Pool()
    t0 = time.time()
    ctx.note(f'{name} with {n} elements along the {kind} dimension')
    old = resource.getrlimit(resource.RLIMIT_DATA)
    resource.setrlimit(resource.RLIMIT_DATA, (9500 << 20, old[1]))      # private memory only: the shared chunks do not count
    try:
        if kind == 'core':
            t, got, want = CORE[name][0](ctx, rng, n, R)
        else:
            t, got, want = loop_case(ctx, rng, n, R, name)
    except MemoryError:
        ctx.count(f'not enough memory for copies: {name}')      # nothing is claimed about the memory that a call needs
        return
    finally:
        resource.setrlimit(resource.RLIMIT_DATA, old)
        R.close()
    ctx.ev()
    ctx.distinct(kind, name, n, t)
    ctx.count(f'{kind}:{name}')
    ctx.count('elements', n)
    if os.environ.get('VERIF_TRACK'):
        print(f'{kind}:{name} n={n} {time.time() - t0:.1f} s', flush=True)
    if list(got) != list(want):
        ctx.fail(f'{name}:{kind}', f'{name} ({t}) of {n} elements along the {kind} dimension\n got {str(got)[:700]}\nwant {str(want)[:700]}')


def run(ctx):
    thorough = ctx.tier == 'thorough'
    items = [('core', k) for k, v in CORE.items() if v[1] or thorough] + [('loop', k) for k, v in LOOP.items() if v[3] or thorough]
    for rep in range(2 if thorough else 1):
        ctx.each_item(f'long:{rep}', items, lambda case, it: one(ctx, case, it))
