"""Reference semantics: searches, order statistics, integer tools, next/nan tools."""
import math
import operator
from fractions import Fraction

import numpy as np

from vlib import gen, num
from vlib.engine import spec

OPS = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge]


def pylist(a):
    """Elements as exact Python objects (longdouble stays a NumPy scalar)."""
    a = np.asarray(a)
    if a.dtype.char == 'g':
        return [a[i] for i in range(len(a))]
    return a.tolist()


def pyval(x):
    if isinstance(x, np.longdouble):
        return x
    return x.item() if isinstance(x, np.generic) else x


# ------------------------------------------------------------------------------- first & friends
def _gen_first(g):
    """x with late or no matches as well as early ones; all ops, some invalid."""
    rng, t = g.rng, g.it[0]
    n = g.dims['n']
    kind = rng.choice(['rand', 'late', 'const'], p=[.6, .3, .1])
    if t == 'O':
        k = rng.choice(['int', 'bigint', 'frac', 'float', 'str', 'mixed'])
        mk = lambda shape: gen.objects(rng, shape, k)
    else:
        mode = None if kind == 'rand' and rng.random() < .5 else ('tie' if t in 'fdg' else 'tiny')
        mk = lambda shape: gen.values(rng, t, shape, mode)
    x = mk(g.shapes[0])
    target = mk(g.shapes[2])
    if kind != 'rand' and n > 0:
        x = np.array(np.broadcast_to(x[..., :1], x.shape))
        if kind == 'late':
            p = int(rng.integers(max(0, n - 3), n))
            x[..., p:] = mk(x[..., p:].shape)
    u = rng.random()
    if u < .7:
        op = rng.integers(0, 6, size=g.shapes[1])
    else:
        op = np.array([0, 1, 2, 3, 4, 5, -1, 6, 7, 100, 127, -128])[rng.integers(0, 12, size=g.shapes[1])]
    out = [x, np.asarray(op).astype('b'), target]
    if len(g.it) == 4:
        out.append(mk(g.shapes[3]))
    return out


def _first_index(x, op, target):
    if not 0 <= op <= 5:
        return -1
    f = OPS[op]
    for k, v in enumerate(pylist(x)):
        if bool(f(v, target)) or (op == 2 and v is target and isinstance(x, np.ndarray) and x.dtype == object):
            return k
    return -1


@spec('first', cid='C07', gen=_gen_first, min_n=0)
def first(T, ins, outs):
    x, op, target, other = ins
    k = _first_index(x, int(op), pyval(target))
    want = other if k < 0 else x[k]
    if T[0][0] == 'O':
        ok = outs[0] is want
    else:
        ok = num.identical(np.asarray(outs[0]), np.asarray(want))
    if not ok:
        return f'expected {want!r} (first match at index {k})'


@spec('argfirst', cid='C07', gen=_gen_first, min_n=0)
def argfirst(T, ins, outs):
    k = _first_index(ins[0], int(ins[1]), pyval(ins[2]))
    if int(outs[0]) != k:
        return f'expected {k}'


def _gen_ordered(g):
    rng, t = g.rng, g.it[0]
    kind = rng.choice(['rand', 'sorted', 'rsorted', 'const', 'almost', 'strict'],
                      p=[.2, .2, .2, .1, .2, .1])
    n = g.dims['n']
    if kind == 'strict' and t != 'O':
        base = np.arange(n)
        if t in 'bB':
            base = np.minimum(base, 120)
        x = np.broadcast_to(base, g.shapes[0]).astype(t)
        if rng.random() < .5:
            x = x[..., ::-1]
        x = np.array(x)
    else:
        x = gen.objects(rng, g.shapes[0]) if t == 'O' else g.val(0, None if kind == 'rand' else
                                                                ('tie' if t in 'fdg' else 'small'))
        if kind in ('sorted', 'almost', 'strict'):
            x = np.sort(x, axis=-1)
        elif kind == 'rsorted':
            x = np.array(np.sort(x, axis=-1)[..., ::-1])
        elif kind == 'const' and n:
            x = np.array(np.broadcast_to(x[..., :1], x.shape))
    if n > 1 and (kind == 'almost' or rng.random() < .25):
        p = int(rng.integers(0, n - 1)) if rng.random() < .5 else n - 2
        x[..., p], x[..., p + 1] = x[..., p + 1].copy(), x[..., p].copy()
    if n and t in 'fdg' and rng.random() < .12:
        x[..., int(rng.integers(0, n))] = np.nan
    op = rng.integers(0, 6, size=g.shapes[1])
    if rng.random() < .08:
        op = np.array([6, -1, 127, -128])[rng.integers(0, 4, size=g.shapes[1])]
    return [x, np.asarray(op).astype('b')]


@spec('ordered', cid='C07', gen=_gen_ordered, min_n=0)
def ordered(T, ins, outs):
    x, op = ins
    op = int(op) if 0 <= int(op) <= 5 else 5
    v = pylist(x)
    want = all(bool(OPS[op](a, b)) for a, b in zip(v, v[1:]))
    if bool(outs[0]) != want:
        return f'expected {want}'


def _gen_allsame(g):
    x = g.val(0, None if g.rng.random() < .3 else ('tie' if g.it[0] in 'fdg' else None))
    n = g.dims['n']
    if n and g.rng.random() < .75:
        x = np.array(np.broadcast_to(x[..., :1], x.shape))
        if g.it[0] == 'O' and g.rng.random() < .5:      # equal but distinct objects
            from fractions import Fraction as F
            x = np.array([F(str(v)) if not isinstance(v, str) else v for v in x.ravel().tolist()] + [None],
                         dtype=object)[:-1].reshape(x.shape)
        if g.rng.random() < .5:
            p = n - 1 if g.rng.random() < .5 else int(g.rng.integers(0, n))
            x[..., p] = gen.values(g.rng, g.it[0], x[..., p].shape, 'tie' if g.it[0] in 'fdg' else None)
    return [x]


@spec('all_same', cid='C07', gen=_gen_allsame, min_n=0)
def all_same(T, ins, outs):
    v = pylist(ins[0])
    want = all(bool(a == v[0]) for a in v[1:])
    if bool(outs[0]) != want:
        return f'expected {want}'


# ------------------------------------------------------------------------------- min / max family
def _gen_minmax(g):
    rng, t = g.rng, g.it[0]
    x = g.val(0, 'tie' if t in 'fdg' and rng.random() < .4 else None)
    n = g.dims['n']
    if n > 2 and rng.random() < .3:      # extreme value at a chosen place (first, last, anywhere)
        p = [0, n - 1, int(rng.integers(0, n))][int(rng.integers(0, 3))]
        if t == 'O':
            x = gen.objects(rng, g.shapes[0], 'int')
            x[..., p] = int(rng.choice([-1, 1])) * 10**30
        elif t in gen.INTS:
            x[..., p] = np.iinfo(t).max if rng.random() < .5 else np.iinfo(t).min
        else:
            x[..., p] = np.inf if rng.random() < .5 else -np.inf
    return [x]


def _fold(x):
    v = pylist(x)
    i = j = 0
    for k in range(1, len(v)):
        if v[k] < v[i]:
            i = k
        if v[k] > v[j]:
            j = k
    return i, j


def _same1(T, got, want):
    if T == 'O':
        return got is want
    return num.same(np.asarray(got), np.asarray(want))


@spec('argmin', cid='C08', gen=_gen_minmax)
def argmin(T, ins, outs):
    i, j = _fold(ins[0])
    if int(outs[0]) != i:
        return f'expected {i}'


@spec('argmax', cid='C08', gen=_gen_minmax)
def argmax(T, ins, outs):
    i, j = _fold(ins[0])
    if int(outs[0]) != j:
        return f'expected {j}'


@spec('argminmax', cid='C08', gen=_gen_minmax)
def argminmax(T, ins, outs):
    want = list(_fold(ins[0]))
    if outs[0].tolist() != want:
        return f'expected {want}'


@spec('minmax', cid='C08', gen=_gen_minmax)
def minmax(T, ins, outs):
    i, j = _fold(ins[0])
    x = ins[0]
    if not (_same1(T[0], outs[0][0], x[i]) and _same1(T[0], outs[0][1], x[j])):
        return f'expected {[x[i], x[j]]!r}'


@spec('min_argmin', cid='C08', gen=_gen_minmax)
def min_argmin(T, ins, outs):
    i, j = _fold(ins[0])
    if int(outs[1]) != i or not _same1(T[0], outs[0], ins[0][i]):
        return f'expected {ins[0][i]!r}, {i}'


@spec('max_argmax', cid='C08', gen=_gen_minmax)
def max_argmax(T, ins, outs):
    i, j = _fold(ins[0])
    if int(outs[1]) != j or not _same1(T[0], outs[0], ins[0][j]):
        return f'expected {ins[0][j]!r}, {j}'


def _gen_ptp(g):
    if g.it[0] == 'O':
        return [gen.objects(g.rng, g.shapes[0], g.rng.choice(['int', 'bigint', 'frac', 'float', 'mixed']))]
    return _gen_minmax(g)


@spec('peaktopeak', cid='C08', gen=_gen_ptp)
def peaktopeak(T, ins, outs):
    i, j = _fold(ins[0])
    a, b = ins[0][j], ins[0][i]
    if T[0] in gen.INTS:
        want = int(a) - int(b)
        if int(outs[0]) != want:
            return f'expected {want}'
    elif T[0] == 'O':
        want = a - b
        if outs[0] != want or type(outs[0]) is not type(want):
            return f'expected {want!r}'
    else:
        with np.errstate(all='ignore'):
            want = a - b
        if not num.same(np.asarray(outs[0]), np.asarray(want)):
            return f'expected {want!r}'


# ------------------------------------------------------------------------------- searchsorted
def _gen_ss(g):
    rng, t = g.rng, g.it[0]
    m = g.dims['m']
    if t == 'O':
        k = rng.choice(['int', 'bigint', 'frac', 'float', 'str', 'mixed'])
        a = gen.objects(rng, g.shapes[0], k)
        v = gen.objects(rng, g.shapes[1], k)
        return [np.sort(a, axis=-1), v]
    mode = rng.choice(['tie', 'log', 'normal', 'nans']) if t in 'efdg' else None
    a = np.sort(g.val(0, mode), axis=-1)
    u = rng.random()
    if u < .3:
        v = g.val(1, mode)
    elif u < .85 and m:
        # a member of the array, possibly nudged
        L = np.broadcast_shapes(g.shapes[0][:-1], g.shapes[1])
        v = g.val(1, mode)
        flat = a.reshape(-1)
        if flat.size:
            v = flat[rng.integers(0, flat.size, size=g.shapes[1])]
            w = rng.random()
            if t in 'efdg' and w < .4:
                v = np.nextafter(v, np.asarray(np.inf if w < .2 else -np.inf, dtype=t))
            elif t in gen.INTS and w < .3:
                ii = np.iinfo(t)
                v = np.where(v < ii.max, v + np.dtype(t).type(1), v)
        v = np.asarray(v).astype(t)
    else:
        if t in gen.INTS:
            v = g.val(1, 'extreme')
        else:
            v = g.choice(1, [np.inf, -np.inf, 0., -0., np.nan])
    return [a, v]


def _ss_check(side):
    def chk(T, ins, outs):
        a, v = pylist(ins[0]), pyval(ins[1])
        if T[0][0] in 'efdg':
            # nan is greater than any other value
            a = [(x != x, 0 if x != x else x) for x in a]
            v = (v != v, 0 if v != v else v)
        if side == 'l':
            want = sum(1 for x in a if x < v)
        else:
            want = len(a) - sum(1 for x in a if x > v)
        if int(outs[0]) != want:
            return f'expected {want}'
    return chk


for _s in 'lr':
    spec('searchsorted' + _s, cid='C09', gen=_gen_ss, min_n=0)(_ss_check(_s))


# ------------------------------------------------------------------------------- percentileofscore
def _gen_pos(g):
    rng, t = g.rng, g.it[0]
    x = g.val(0, rng.choice(['tie', 'normal', 'nans', 'special']) if t in 'fd' else None)
    if rng.random() < .7 and x.size:
        s = x.reshape(-1)[rng.integers(0, x.size, size=g.shapes[1])]
    else:
        s = g.val(1)
    k = rng.integers(0, 4, size=g.shapes[2])
    if rng.random() < .06:
        k = np.array([-1, 4, 99, 2**32, 2**32 + 1, -2**63, 2**63 - 1])[rng.integers(0, 7, size=g.shapes[2])]
    return [x, np.asarray(s).astype(g.it[1]), np.asarray(k).astype('l')]


def KIND():
    import ufunclab
    return [int(getattr(ufunclab.op, 'KIND_' + s)) for s in ('RANK', 'WEAK', 'STRICT', 'MEAN')]


def _pos_dims(rng):
    return {}


@spec('percentileofscore', cid='C10', gen=_gen_pos, min_n=0)
def percentileofscore(T, ins, outs):
    x, s, kind = pylist(ins[0]), pyval(ins[1]), int(ins[2])
    n = len(x)
    less = sum(1 for v in x if v < s)
    eq = sum(1 for v in x if v == s)
    rank, weak, strict, mean = KIND()
    got = float(outs[0])
    if n == 0 or kind not in (rank, weak, strict, mean):
        return None if math.isnan(got) else 'expected nan'
    if kind == rank:
        want = Fraction(50 * (2 * less + eq + (1 if eq else 0)), n)
    elif kind == weak:
        want = Fraction(100 * (less + eq), n)
    elif kind == strict:
        want = Fraction(100 * less, n)
    else:
        want = Fraction(50 * (2 * less + eq), n)
    if math.isnan(got) or abs(Fraction(got) - want) > Fraction(2, 10**14):
        return f'expected {float(want)!r}'


# ------------------------------------------------------------------------------- bincount
def _bc_dims(rng):
    return {'m': int(rng.choice([0, 1, 2, 5, 9, 17, 40, 130, 260, 300], p=[.03, .07, .1, .3, .2, .1, .08, .04, .04, .04]))}


def _gen_bincount(g):
    rng, t = g.rng, g.it[0]
    m = g.dims['m']
    u = rng.random()
    ii = np.iinfo(t)
    if u < .8:
        lo, hi = max(ii.min, -2), min(ii.max, m + 2)
        x = rng.integers(lo, hi, size=g.shapes[0], endpoint=True).astype(t)
    else:
        x = g.val(0, 'full' if u < .9 else 'extreme')
    out = [x]
    if len(g.it) == 2:
        w = g.it[1]
        if w in gen.INTS:
            lim = max(1, min(np.iinfo(w).max, 2**31 - 1) // max(1, 4 * (g.dims['n'] + 1)))
            lim = min(lim, 50)
            lo = 0 if w.isupper() else -lim
            a = rng.integers(lo, lim, size=g.shapes[1], endpoint=True)
            room = np.iinfo(w).max // 4
            if lim * a.shape[-1] > room:            # the sums have to stay in the range of the type
                a[rng.random(a.shape) > room / (2 * lim * a.shape[-1])] = 0
            out.append(a.astype(w))
        elif w in 'fd':
            # dyadic values: every partial sum is exact, so the order does not matter
            out.append((rng.integers(-64, 65, size=g.shapes[1]) / 8).astype(w))
        else:
            out.append(((rng.integers(-64, 65, size=g.shapes[1])
                         + 1j * rng.integers(-64, 65, size=g.shapes[1])) / 8).astype(w))
    return out


def _pre_bincount(c, outs):
    """out is accumulated into: start from known contents instead of rubbish."""
    rng = np.random.default_rng(int(c.args[0].size) + c.dims['m'])
    c.start = []
    for o in outs:
        o[...] = rng.integers(0, 7, size=o.shape).astype(o.dtype)


def _bincount_check(T, ins, outs):
    raise NotImplementedError


# the gufuncs accumulate into out, which the engine's stateless judge cannot see: checks/c11.py drives them
S_BC = spec('_bincount.bincount', cid=None, gen=_gen_bincount, dims=_bc_dims, min_n=0,
            pre=_pre_bincount)(_bincount_check)
S_BCW = spec('_bincount.bincountw', cid=None, gen=_gen_bincount, dims=_bc_dims, min_n=0,
             pre=_pre_bincount, loops=None)(_bincount_check)


# ------------------------------------------------------------------------------- convert_to_base
def _gen_ctb(g):
    rng, t = g.rng, g.it[0]
    ii = np.iinfo(t)
    k = g.val(0)
    u = rng.random()
    if u < .55:
        b = rng.integers(2, min(ii.max, 17), size=g.shapes[1], endpoint=True).astype(t)
    elif u < .8 and ii.min < 0:
        b = rng.integers(-12, -1, size=g.shapes[1], endpoint=True).astype(t)
    else:
        b = g.val(1)
    return [k, b]


def _cdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


@spec('_convert_to_base.convert_to_base', cid='C12', gen=_gen_ctb, min_n=0,
      dims=lambda rng: {'n': int(rng.choice([0, 1, 2, 3, 5, 8, 11, 33, 70]))})
def convert_to_base(T, ins, outs):
    k, b = int(ins[0]), int(ins[1])
    want = []
    for _ in range(len(outs[0])):
        if b in (0, -1):
            want.append(0)
        else:
            q = _cdiv(k, b)
            want.append(k - q * b)
            k = q
    if outs[0].tolist() != want:
        return f'expected {want}'


def _gen_onehot(g):
    n = g.dims['n']
    k = g.rng.integers(-2, n + 2, size=g.shapes[0], endpoint=True)
    if g.rng.random() < .15:
        k = g.val(0, 'extreme')
    return [np.asarray(k).astype('l')]


@spec('_one_hot.one_hot', cid='C12', gen=_gen_onehot, min_n=0)
def one_hot(T, ins, outs):
    k = int(ins[0])
    want = [int(i == k) for i in range(len(outs[0]))]
    if outs[0].tolist() != want:
        return f'expected {want}'


# ------------------------------------------------------------------------------- next / nan tools
MANT = {'f': 24, 'd': 53, 'g': 64}
EMIN = {'f': -149, 'd': -1074, 'g': -16445}


def _next_up(x, tc):
    """The next representable value above x, from exact rational arithmetic."""
    t = np.dtype(tc).type
    if np.isnan(x) or (np.isinf(x) and x > 0):
        return x
    if np.isinf(x):
        return -np.finfo(tc).max
    q = num.frac(x)
    if q == 0:
        return t(np.finfo(tc).smallest_subnormal)
    p = MANT[tc]
    a = abs(q)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    # 2**e <= a < 2**(e+1)
    if q < 0 and a == Fraction(2) ** e:
        e -= 1          # stepping towards zero across a power of two
    u = Fraction(2) ** max(e - p + 1, EMIN[tc])
    return num.round_to(q + u, tc)


def _next_n(x, tc, n, up):
    out = []
    for _ in range(n):
        y = _next_up(x, tc) if up else -_next_up(-x, tc)
        x = np.copysign(y, x) if y == 0 else y          # as IEEE 754 nextUp and nextDown
        out.append(x)
    return out


def _gen_next(g):
    rng, t = g.rng, g.it[0]
    u = rng.random()
    if u < .35:
        return [g.choice(0, gen.specials(t))]
    x = g.val(0)
    if u < .6:     # powers of two and their neighbours
        span = {'f': 126, 'd': 1022, 'g': 16380}[t]
        x = np.ldexp(np.ones((), dtype=t), rng.integers(-span, span, size=g.shapes[0])).astype(t)
        x = x * np.where(rng.random(size=g.shapes[0]) < .5, -1, 1).astype(t)
        if rng.random() < .4:
            x = np.nextafter(x, np.asarray(0, dtype=t))
        x = np.asarray(x, dtype=t)
    elif u < .75:  # a few steps from the special values
        x = g.choice(0, gen.specials(t))
        up = np.asarray(np.where(rng.random(size=g.shapes[0]) < .5, np.inf, -np.inf), dtype=t)
        for _ in range(int(rng.integers(1, 9))):
            x = np.where(rng.random(size=g.shapes[0]) < .8, np.nextafter(x, up), x)
        x = np.asarray(x, dtype=t)
    return [x]


def _mk_next(up):
    def chk(T, ins, outs):
        got = np.atleast_1d(outs[0])
        want = np.array(_next_n(ins[0], T[0], len(got), up), dtype=T[0])
        if not num.identical(got, want):
            return f'expected {num.show(want)}'
    return chk


for _nm, _up in (('greater', True), ('less', False)):
    spec('next_' + _nm, cid='C13', gen=_gen_next)(_mk_next(_up))
    spec('_nextn.nextn_' + _nm, cid='C13', gen=_gen_next, min_n=0, maxlong=300)(_mk_next(_up))


def _bits_pool(tc):
    """Bit patterns of nans, infinities and their neighbours."""
    nb, mb = {'e': (16, 10), 'f': (32, 23), 'd': (64, 52)}[tc]
    emax = ((1 << (nb - 1)) - 1) >> mb << mb
    out = []
    for s in (0, 1 << (nb - 1)):
        for m in (0, 1, 1 << (mb - 1), (1 << (mb - 1)) - 1, (1 << mb) - 1, (1 << (mb - 1)) + 1,
                  1 << (mb - 2), 1 << (mb // 2)):
            out.append(s | emax | m)
        out += [s, s | 1, s | (emax - 1), s | (1 << mb), s | (emax >> 1)]
    return out, nb, mb, emax


def _gen_issnan(g):
    rng, t = g.rng, g.it[0]
    pool, nb, mb, emax = _bits_pool(t)
    u = {16: 'u2', 32: 'u4', 64: 'u8'}[nb]
    b = np.array(pool, dtype=u)[rng.integers(0, len(pool), size=g.shapes[0])]
    b = np.asarray(b)
    if rng.random() < .5:
        b = np.asarray(rng.integers(0, 2**nb - 1, size=g.shapes[0], dtype=u, endpoint=True))
        if rng.random() < .6:
            b = b | np.array(emax, dtype=u)
    return [np.ascontiguousarray(b).reshape(g.shapes[0]).view(t)]


def _sbits(x):
    a = np.asarray(x)
    return int(a.reshape(1).view({2: 'u2', 4: 'u4', 8: 'u8'}[a.dtype.itemsize])[0])


@spec('issnan', cid='C13', gen=_gen_issnan)
def issnan(T, ins, outs):
    _, nb, mb, emax = _bits_pool(T[0])
    b = _sbits(ins[0])
    man = b & ((1 << mb) - 1)
    want = (b & emax) == emax and man != 0 and not (man >> (mb - 1))
    if bool(outs[0]) != want:
        return f'expected {want} for bits {b:#x}'


def _gen_nan_to_num(g):
    rng, t = g.rng, g.it[0]
    if rng.random() < .5:
        return [g.val(0), g.val(1)]
    x = g.val(0, rng.choice(['nans', 'special']))
    if t in 'fd' and rng.random() < .4:
        x = _gen_issnan(g)[0]
    return [x, g.val(1, 'special')]


@spec('nan_to_num', cid='C13', gen=_gen_nan_to_num)
def nan_to_num(T, ins, outs):
    want = ins[1] if np.isnan(ins[0]) else ins[0]
    if not num.identical(np.asarray(outs[0]), np.asarray(want)):
        return f'expected {want!r}'
