"""Reference semantics: means, statistics, norms, sums.  References are exact rationals or 200-bit
floating point; the error bounds are derived from the conditioning of each formula."""
import math
from fractions import Fraction

import mpmath
import numpy as np

from vlib import gen, num
from vlib.engine import spec

mpf = mpmath.mpf
F0 = Fraction(0)
mlog, mexp = mpmath.log, mpmath.exp


def els(a):
    a = np.asarray(a)
    return [a[i] for i in range(len(a))]


def fr(a):
    return [num.frac(v) for v in els(a)]


def F(x):
    return num.F2mp(x)


# ------------------------------------------------------------------------------- means
def _pos(g, i, wide=None):
    """Positive values, exponent range moderate so that quotients stay in range."""
    rng, t = g.rng, g.it[i]
    span = {'f': 12, 'd': 60, 'g': 60}[t] if wide is None else wide
    u = rng.random()
    sh = g.shapes[i]
    if u < .45:
        a = np.exp(rng.normal(size=sh) * rng.choice([.01, .3, 2.]))
    elif u < .6:
        a = rng.integers(1, 9, size=sh)
    elif u < .8:
        c = rng.uniform(-span, span)
        a = 10.0 ** (c * .5 + rng.uniform(-span, span, size=sh) * .5)
    elif u < .88:                   # close to the limits of the type
        lim = {'f': 36, 'd': 305, 'g': 4900}[t]
        b = rng.integers(0, 3) if g.spec.name.startswith('gmean') else 1
        c = rng.choice([-1., 1.]) * lim if b else 0.
        r = rng.uniform(-lim, lim, size=sh) if b == 0 else rng.uniform(-1, 1, size=sh) if b == 1 else rng.uniform(-lim, lim) * rng.random(size=sh)
        a = np.longdouble(10) ** np.clip(np.asarray(c + r), -lim, lim).astype('g')
    else:
        v = np.exp(rng.normal() * 3)
        a = np.full(sh, v)
        if rng.random() < .5 and a.size:
            a.reshape(-1)[int(rng.integers(0, a.size))] *= 1 + rng.uniform(0, .1)
    return g.cast(i, a)


def _sprinkle(g, a, vals, p=.25):
    """Put special values into some calls."""
    if a.size and g.rng.random() < p:
        a = np.array(a)
        k = int(g.rng.integers(1, 3))
        f = a.reshape(-1)
        for _ in range(k):
            f[int(g.rng.integers(0, a.size))] = g.rng.choice(vals)
    return a


def _gen_mean(g):
    x = _sprinkle(g, _pos(g, 0), [0., -0., np.nan, np.inf, -1.5, -np.inf])
    out = [x]
    for i in range(1, len(g.it)):
        if len(g.shapes[i]) and g.spec.icore[i]:
            w = g.uni(i, .05, 3)
            if g.rng.random() < .3:
                w = np.asarray(g.rng.integers(0, 4, size=g.shapes[i])).astype(g.it[i])
                if g.dims['n']:
                    w[..., 0] = 1
            out.append(w)
        else:
            rng = g.rng
            u = rng.random()
            sh = g.shapes[i]
            if u < .25:
                p = rng.choice([0., -0., 1., -1., 2., -2., .5, -.5, 3., -3.], size=sh)
            elif u < .4:
                p = rng.choice([np.inf, -np.inf, 40., -40., 100., 0., np.nan], size=sh)
            elif u < .55:
                p = rng.uniform(-1, 1, size=sh) * 10.0 ** rng.integers(-12, -4, size=sh)
            elif u < .65:
                p = rng.choice([2e-6, -2e-6, 1.99e-6, -1.99e-6, 2.01e-6, 1e-300], size=sh)
            else:
                p = rng.normal(size=sh) * 10.0 ** rng.integers(-3, 2, size=sh)
            out.append(np.asarray(p).astype(g.it[i]))
    return out


def _weights(ins):
    x = els(ins[0])
    w = els(ins[1]) if len(ins) > 1 else None
    return x, w


def _gmean_core(name, tc, got, x, w):
    if w is not None:
        if any((v == 0 or np.isinf(v) or v < 0) and q == 0 for v, q in zip(x, w)):
            return 'skip'
    if any(np.isnan(v) or v < 0 for v in x):
        return num.isnan_msg(got)
    z, i = any(v == 0 for v in x), any(np.isinf(v) for v in x)
    if z and i:
        return num.isnan_msg(got)
    if i:
        return num.exact_msg(got, np.inf)
    if z:
        return num.exact_msg(got, 0.)
    if all(v == x[0] for v in x):
        return num.exact_msg(got, x[0])
    L = [mlog(num.tomp(v)) for v in x]
    n = len(x)
    if w is None:
        m, sa = sum(L) / n, sum(map(abs, L)) / n
    else:
        W = [num.tomp(v) for v in w]
        sw = sum(W)
        m = sum(a * b for a, b in zip(L, W)) / sw
        sa = sum(abs(a * b) for a, b in zip(L, W)) / sw
    ref = mexp(m)
    return num.within(name, got, ref, ref * num.meps(tc) * (3 + sa * (3 + mpf(n) / 2)), tc)


def _hmean_core(name, tc, got, x, w):
    if any(np.isinf(v) and v < 0 for v in x):
        return 'skip'
    z, nan = any(v == 0 for v in x), any(np.isnan(v) for v in x)
    if z:
        return 'skip' if nan else num.exact_msg(got, 0.)
    if nan:
        return num.isnan_msg(got)
    q = [F0 if np.isinf(v) else 1 / num.frac(v) for v in x]
    W = [Fraction(1)] * len(x) if w is None else [num.frac(v) for v in w]
    s = sum(a * b for a, b in zip(q, W))
    sa = sum(abs(a * b) for a, b in zip(q, W))
    sw = sum(W)
    if all(np.isinf(v) for v in x):
        return num.exact_msg(got, np.inf)
    if s == 0 or sa > num.FMAX[tc] / 4 or sa / abs(s) > 1000 or min((a for a in map(abs, q) if a), default=1) < num.TINY[tc]:
        return 'skip'
    ref = sw / s
    n = len(x)
    return num.within(name, got, ref, abs(ref) * num.EPS[tc] * (4 + (3 + Fraction(n, 2)) * sa / abs(s)), tc)


def _pmean_core(name, tc, got, x, w, p):
    if np.isnan(p):
        return num.isnan_msg(got)
    if w is not None and any((v == 0 or np.isinf(v) or v < 0) and q == 0 for v, q in zip(x, w)):
        return 'skip'
    if any(np.isnan(v) or v < 0 for v in x):
        return num.isnan_msg(got)
    if p == 0:
        return _gmean_core(name, tc, got, x, w)
    if p == -1:
        return _hmean_core(name, tc, got, x, w)
    if all(v == x[0] for v in x):
        if abs(p) < 2.1e-6 and 0 < x[0] < np.inf:
            ref = num.tomp(x[0])            # (the variance of the logarithms may have a rounding error)
            return num.within(name, got, ref, ref * num.meps(tc) * (4 + num.tomp(abs(p)) * mlog(ref) ** 2 * (len(x) + 4)), tc)
        return num.exact_msg(got, x[0])
    if any(np.isinf(v) for v in x) and p > 0:
        return num.exact_msg(got, np.inf)
    if any(v == 0 for v in x) and p < 0:
        return num.exact_msg(got, 0.)
    if np.isinf(p):
        return num.exact_msg(got, max(x) if p > 0 else min(x))
    P = num.tomp(p)
    n = len(x)
    if abs(p) < 1e-9 and all(v > 0 and not np.isinf(v) for v in x):
        lg = [mlog(num.tomp(v)) for v in x]
        W = [mpf(1)] * n if w is None else [num.tomp(v) for v in w]
        m = sum(a * b for a, b in zip(lg, W)) / sum(W)
        var = sum(b * (a - m) ** 2 for a, b in zip(lg, W)) / sum(W)
        ref = mexp(m + P * var / 2)
        R, sa = max(lg) - min(lg), max(map(abs, lg))
        return num.within(name, got, ref, ref * (P * P * (R ** 3 + R ** 4) + num.meps(tc)
                          * (4 + sa * (3 + mpf(n) / 2) + abs(P) * sa * sa * n)), tc)
    W = [mpf(1)] * n if w is None else [num.tomp(v) for v in w]
    sc = num.tomp(max(x) if p > 0 else min(x))
    T = [mpf(0) if (v == 0 or np.isinf(v)) else q * (num.tomp(v) / sc) ** P for v, q in zip(x, W)]
    s = sum(T) / sum(W)
    eps = num.meps(tc)
    if s < mpmath.sqrt(F(num.TINY[tc])):
        return 'skip'
    e = eps * (5 + (mpf(n) / 2 + 3 + abs(mlog(s))) / abs(P) + abs(mlog(s) / P))
    if abs(p) < 2.1e-6:
        # documented small-p approximation, second order in p
        fin = [v for v in x if v > 0 and not np.isinf(v)]
        if len(fin) == n:
            lg = [mlog(num.tomp(v)) for v in x]
            R = max(lg) - min(lg)
            sa = max(map(abs, lg))
            e2 = P * P * (R ** 3 / 6 + R ** 4 / 8) + eps * (4 + sa * (3 + mpf(n) / 2) + abs(P) * sa * sa * n)
            e = max(e, e2)
    if e > mpf('.01'):
        return 'skip'
    r = s ** (1 / P)
    if max(r, 1 / r) > F(num.FMAX[tc]) / 4:
        return 'skip'           # (the intermediate power may overflow or underflow)
    ref = sc * r
    return num.within(name, got, ref, ref * e, tc)


@spec('gmean', cid='C14', gen=_gen_mean)
def gmean(T, ins, outs):
    return _gmean_core('gmean', T[1], outs[0], els(ins[0]), None)


@spec('gmeanw', cid='C14', gen=_gen_mean)
def gmeanw(T, ins, outs):
    return _gmean_core('gmeanw', T[1], outs[0], els(ins[0]), els(ins[1]))


def _gen_hmean(g):
    out = _gen_mean(g)
    if g.rng.random() < .3:
        x = out[0]
        out[0] = np.where(g.rng.random(size=x.shape) < .3, -x, x).astype(x.dtype)
    return out


@spec('hmean', cid='C14', gen=_gen_hmean)
def hmean(T, ins, outs):
    return _hmean_core('hmean', T[1], outs[0], els(ins[0]), None)


@spec('hmeanw', cid='C14', gen=_gen_hmean)
def hmeanw(T, ins, outs):
    return _hmean_core('hmeanw', T[1], outs[0], els(ins[0]), els(ins[1]))


@spec('pmean', cid='C14', gen=_gen_mean)
def pmean(T, ins, outs):
    return _pmean_core('pmean', T[1], outs[0], els(ins[0]), None, ins[1])


@spec('pmeanw', cid='C14', gen=_gen_mean)
def pmeanw(T, ins, outs):
    return _pmean_core('pmeanw', T[1], outs[0], els(ins[0]), els(ins[1]), ins[2])


# ------------------------------------------------------------------------------- statistics
def _gen_data(g, i=0, special=True):
    """Data of all kinds: offsets, ties, small ints, spread over magnitudes, constants."""
    rng, t = g.rng, g.it[i]
    sh = g.shapes[i]
    if t in gen.INTS:
        return g.val(i)
    r = t.lower() if t in 'FDG' else t
    if t in 'FDG':
        a = np.empty(sh, dtype=t)
        a.real = _real_data(g, r, sh)
        a.imag = _real_data(g, r, sh) if rng.random() < .9 else 0
    else:
        a = _real_data(g, r, sh)
    if special:
        a = _sprinkle(g, a, [np.nan, np.inf, -np.inf, 0.], .15)
    return a


def _real_data(g, r, sh):
    rng = g.rng
    u = rng.random()
    if u < .3:
        a = rng.normal(size=sh) * 10.0 ** rng.integers(-3, 4)
    elif u < .5:
        a = rng.integers(-5, 6, size=sh)
    elif u < .7:
        a = rng.normal() * 10.0 ** rng.integers(0, 5 if r == 'f' else 9) + rng.normal(size=sh)
    elif u < .8:
        a = rng.normal(size=sh) * 10.0 ** rng.uniform(-8, 8, size=sh)
    elif u < .9:
        a = np.full(sh, rng.normal() * 10.0 ** rng.integers(-3, 4))
    else:
        a = rng.normal(size=sh) * 10.0 ** float(rng.integers(*{'f': (-34, 36), 'd': (-300, 300), 'g': (-300, 300)}[r]))
    with np.errstate(all='ignore'):
        a = np.asarray(a).astype(r)
        if r == 'g':
            a = a * (1 + np.asarray(rng.integers(-400, 401, size=sh)).astype('g') * np.longdouble(2) ** -62)
    return np.asarray(a, dtype=r)


def _gen_meanvar(g):
    n = g.dims['n']
    x = _gen_data(g)
    d = np.asarray(g.rng.choice([0, 1, 1, 0, n, max(0, n - 1), n - 3 if n > 3 else 0], size=g.shapes[1]))
    return [x, d.astype('l')]


@spec('meanvar', cid='C15', gen=_gen_meanvar, maxlong=1500, longp=.08)
def meanvar(T, ins, outs):
    x, ddof = els(ins[0]), int(ins[1])
    tc = T[1][0]
    mean, var = outs[0][0], outs[0][1]
    n = len(x)
    if T[0][0] not in gen.INTS:
        if any(np.isnan(v) for v in x):
            return num.isnan_msg(mean) or num.isnan_msg(var)
        if any(np.isinf(v) for v in x):
            return 'skip'
    q = fr(ins[0])
    eps = num.EPS[tc]
    mx = max(map(abs, q))
    if mx * mx * n * 4 > num.FMAX[tc]:
        return 'skip'
    m = sum(q) / n
    spread = max(q) - min(q)
    r = num.within('meanvar.mean', mean, m, eps * (2 * abs(m) + 4 * spread + 2 * mx), tc)
    if r:
        return ('mean', r)
    if ddof > n:
        return 'skip'
    if spread == 0:
        want = np.nan if ddof == n else 0.
        return num.exact_msg(var, want)
    if T[0][0] in 'lL' and spread < 4 * eps * mx:
        return 'skip'
    ss = sum((v - m) ** 2 for v in q)
    if ddof == n:
        return num.exact_msg(var, np.inf) if ss > num.TINY[tc] * 100 else 'skip'
    v = ss / (n - ddof)
    sd = Fraction(math.sqrt(v)) if num.TINY['d'] < v < num.FMAX['d'] else spread
    rat = Fraction(n, n - ddof)
    bound = eps * (8 * v + 6 * rat * sd * mx) + 8 * rat * (eps * mx) ** 2 + n * num.SUB[tc]
    return num.within('meanvar.var', var, v, bound, tc)


def _gen_mad(g):
    return [_gen_data(g), np.asarray(g.rng.random(size=g.shapes[1]) < .5)]


def _mad_ref(q):
    s = F0
    tot = F0
    for k, v in enumerate(sorted(q)):
        s += k * v - tot
        tot += v
    return s, tot


def _mad_pre(x, got):
    if any(np.isnan(v) for v in x):
        return num.isnan_msg(got) or 'ok'
    if any(np.isinf(v) for v in x):
        return 'skip'
    return None


@spec('mad', cid='C15', gen=_gen_mad)
def mad(T, ins, outs):
    x, unb, got, tc = els(ins[0]), bool(ins[1]), outs[0], T[1]
    r = _mad_pre(x, got)
    if r:
        return None if r == 'ok' else r
    n = len(x)
    if n == 1:
        return num.isnan_msg(got) if unb else num.exact_msg(got, 0.)
    q = fr(ins[0])
    mx = max(map(abs, q))
    if mx * n * n * 4 > num.FMAX[tc]:
        return 'skip'
    s, tot = _mad_ref(q)
    den = n * (n - 1) if unb else n * n
    ref = 2 * s / den
    return num.within('mad', got, ref, num.EPS[tc] * (4 * ref + mx * (2 + Fraction(n, 2))), tc)


def _gini(name, T, ins, outs, mult):
    x, unb, got, tc = els(ins[0]), bool(ins[1]), outs[0], T[1]
    r = _mad_pre(x, got)
    if r:
        return None if r == 'ok' else r
    n = len(x)
    q = fr(ins[0])
    mx = max(map(abs, q))
    if mx * n * n * 4 > num.FMAX[tc] or 0 < mx < num.TINY[tc] * 2**20:
        return 'skip'
    s, tot = _mad_ref(q)
    if n == 1 and unb or mx == 0:
        return num.isnan_msg(got)
    small = all(v.denominator == 1 and abs(v) < 2**10 for v in q)
    if tot == 0:
        return num.exact_msg(got, np.inf) if small and s > 0 else 'skip'
    cond = mx * n / abs(tot)
    if cond > 10**4:
        return 'skip'
    den = (n - 1 if unb else n) * tot
    ref = mult * s / den
    b = num.EPS[tc] * (5 * abs(ref) + (cond * (2 + Fraction(n, 2))) * mult * Fraction(n, n - 1 if unb else n)
                       + abs(ref) * cond * Fraction(n, 2))
    return num.within(name, got, ref, b, tc)


@spec('gini', cid='C15', gen=_gen_mad)
def gini(T, ins, outs):
    return _gini('gini', T, ins, outs, 1)


@spec('rmad', cid='C15', gen=_gen_mad)
def rmad(T, ins, outs):
    return _gini('rmad', T, ins, outs, 2)


def _absq(v, tc):
    """Exact |v|**2."""
    if isinstance(v, np.complexfloating):
        return num.frac(v.real) ** 2 + num.frac(v.imag) ** 2
    return num.frac(v) ** 2


@spec('rms', cid='C15', gen=lambda g: [_gen_data(g)])
def rms(T, ins, outs):
    x, got, tc = els(ins[0]), outs[0], T[1]
    if any(np.isnan(v) for v in x):
        return num.isnan_msg(got)
    if any(np.isinf(v) for v in x):
        return num.exact_msg(got, np.inf)
    q = [_absq(v, tc) for v in x]
    mx = max(q)
    n = len(x)
    if mx == 0:
        return num.exact_msg(got, 0.)
    if mx * n * 2 > num.FMAX[tc] or mx < num.TINY[tc] / num.EPS[tc]:
        return 'skip'
    ref = mpmath.sqrt(F(sum(q) / n))
    return num.within('rms', got, ref, ref * num.meps(tc) * (2 + mpf(n) / 2), tc)


def _gen_vnorm(g):
    rng = g.rng
    o = rng.choice([1, 2, 3, np.inf, .5, 1.5, 2.5, 7, 40, 0, -1, np.nan, -np.inf, 4, 65, 101, 300, 1025, 1e6, .1], size=g.shapes[1],
                   p=[.14, .15, .07, .14, .07, .06, .06, .04, .03, .03, .02, .02, .02, .02, .02, .03, .03, .02, .01, .02])
    return [_gen_data(g), np.asarray(o).astype(g.it[1])]


@spec('vnorm', cid='C15', gen=_gen_vnorm, min_n=0)
def vnorm(T, ins, outs):
    x, p, got, tc = els(ins[0]), ins[1], outs[0], T[1]
    if np.isnan(p) or p <= 0 or any(np.isnan(np.abs(v)) for v in x):
        return num.isnan_msg(got)
    if any(np.isinf(v) for v in x):
        return num.exact_msg(got, np.inf)
    if not x or all(v == 0 for v in x):
        return num.exact_msg(got, 0.)
    a = [mpmath.sqrt(F(_absq(v, tc))) if T[0][0] in 'FDG' else F(abs(num.frac(v))) for v in x]
    mx = max(a)
    eps = num.meps(tc)
    if mx < F(num.TINY[tc] / num.EPS[tc]):
        return 'skip'
    n = len(x)
    if np.isinf(p):
        return num.within('vnorm', got, mx, mx * eps * (1 if T[0][0] in 'FDG' else 0), tc)
    if p == 1:
        s = sum(a)
        return num.within('vnorm', got, s, s * eps * (1 + mpf(n) / 2), tc)
    P = num.tomp(p)
    if any(0 < v / mx < F(num.TINY[tc]) * 4 for v in a):
        return 'skip'
    s = sum((v / mx) ** P for v in a if v)
    ref = mx * s ** (1 / P)
    e = eps * (6 + (mpf(n) / 2 + 3 + abs(mlog(s))) / P)
    return num.within('vnorm', got, ref, ref * e, tc)


def _gen_two(g):
    x = _gen_data(g, 0)
    y = _gen_data(g, 1)
    return [x, y]


@spec('vdot', cid='C15', gen=_gen_two, min_n=0)
def vdot(T, ins, outs):
    x, y, got, tc = els(ins[0]), els(ins[1]), outs[0], T[1]
    pi = ni = nan = False
    s = sa = F0
    for a, b in zip(x, y):
        if np.isfinite(a) and np.isfinite(b):
            v = num.frac(a) * num.frac(b)
            s += v
            sa += abs(v)
            continue
        c = a * b
        if np.isnan(c):
            nan = True
        elif c > 0:
            pi = True
        else:
            ni = True
    if nan or (pi and ni):
        return num.isnan_msg(got)
    if sa * 2 > num.FMAX[tc]:
        return 'skip'
    if pi or ni:
        return num.exact_msg(got, np.inf if pi else -np.inf)
    n = len(x)
    return num.within('vdot', got, s, sa * num.EPS[tc] * (1 + Fraction(n, 2)) + n * num.SUB[tc], tc)


def _gen_corr(g):
    rng = g.rng
    x = _gen_data(g, 0)
    y = _gen_data(g, 1)
    u = rng.random()
    if g.shapes[0] == g.shapes[1] and u < .4:
        if g.it[0] in gen.INTS:
            y = x if rng.random() < .5 else np.asarray(np.clip(x // 2, -100, 100), dtype=g.it[1])
        else:
            y = g.cast(1, x.astype('d') * rng.normal() + rng.normal()
                       + rng.normal(size=x.shape) * rng.choice([0, .01, 1]) * (1 + np.abs(x).astype('d')))
    return [x, y]


@spec('pearson_corr', cid='C15', gen=_gen_corr, min_n=2)
def pearson_corr(T, ins, outs):
    x, y, got, tc = els(ins[0]), els(ins[1]), outs[0], T[1]
    if T[0][0] not in gen.INTS and not all(np.isfinite(v) for v in x + y):
        return num.isnan_msg(got)
    a, b = fr(ins[0]), fr(ins[1])
    if all(v == a[0] for v in a) or all(v == b[0] for v in b):
        return num.isnan_msg(got)
    n = len(x)
    if n == 2:
        return num.exact_msg(got, 1. if (a[0] < a[1]) == (b[0] < b[1]) else -1.)
    eps = num.EPS[tc]
    out = []
    for q in (a, b):
        mx = max(map(abs, q))
        m = sum(q) / n
        d = [v - m for v in q]
        dm = max(map(abs, d))
        if mx * n * 4 > num.FMAX[tc] or dm < num.TINY[tc] / eps * 4:
            return 'skip'
        ss = F(sum(v * v for v in d))
        kappa = F(mx) * mpmath.sqrt(n) / mpmath.sqrt(ss)
        out.append((d, ss, kappa))
    (dx, sx, kx), (dy, sy, ky) = out
    e = num.meps(tc) * (6 + mpf(n) / 2 + 4 * (kx + ky)) + 4 * n * ((kx + ky) * num.meps(tc)) ** 2
    if (kx + ky) * num.meps(tc) > mpf('1e-3'):
        return 'skip'
    ref = F(sum(p * q for p, q in zip(dx, dy))) / mpmath.sqrt(sx * sy)
    return num.within('pearson_corr', got, ref, e, tc)


def _gen_wj(g):
    x, y = _gen_data(g, 0), _gen_data(g, 1)
    rng = g.rng
    u = rng.random()
    if u < .6:
        if g.it[0] in gen.INTS:
            ii = np.iinfo(g.it[0])
            x = np.where(x < 0, ~x, x).astype(g.it[0])
            y = np.where(y < 0, ~y, y).astype(g.it[1])
        else:
            x, y = np.abs(x), np.abs(y)
    elif u < .7:
        x = np.zeros_like(x)
        y = np.zeros_like(y) if rng.random() < .5 else np.asarray(-np.abs(y), dtype=g.it[1]) if g.it[1] in 'fd' else y
    elif u < .8 and g.shapes[0] == g.shapes[1]:
        y = x.copy()
    return [x, y]


@spec('wjaccard', cid='C15', gen=_gen_wj)
def wjaccard(T, ins, outs):
    x, y, got, tc = els(ins[0]), els(ins[1]), outs[0], T[1]
    if T[0][0] not in gen.INTS:
        if any(np.isnan(v) for v in x + y):
            return num.isnan_msg(got)
        if any(np.isinf(v) and v < 0 for v in x + y):
            return 'skip'
        if any(np.isinf(v) for v in x + y):
            if any(np.isinf(a) and np.isinf(b) for a, b in zip(x, y)):
                return num.isnan_msg(got)
            return num.exact_msg(got, 0.)
    a, b = fr(ins[0]), fr(ins[1])
    lo = [min(p, q) for p, q in zip(a, b)]
    hi = [max(p, q) for p, q in zip(a, b)]
    nu, de = sum(lo), sum(hi)
    sl, sh = sum(map(abs, lo)), sum(map(abs, hi))
    if sl * 2 > num.FMAX[tc] or sh * 2 > num.FMAX[tc]:
        return 'skip'
    if sh == 0 or (de == 0 and sh < 2**20 and all(v.denominator == 1 for v in a + b)):
        return num.isnan_msg(got) if nu == 0 else num.exact_msg(got, -np.inf)
    if de == 0 or sh / abs(de) > 1000 or sh < num.TINY[tc] * 2**20:
        return 'skip'
    n = len(x)
    ref = nu / de
    e = num.EPS[tc] * (2 * abs(ref) + (1 + Fraction(n, 2)) * (sl / abs(de) + abs(ref) * sh / abs(de)))
    return num.within('wjaccard', got, ref, e, tc)


# ------------------------------------------------------------------------------- kbnsum
def _gen_kbn(g):
    rng, t = g.rng, g.it[0]
    sh = g.shapes[0]
    n = g.dims['n']
    u = rng.random()
    if u < .2:
        x = g.fin(0)
    elif u < .75:
        # heavy cancellation over many magnitudes
        span = {'f': 16, 'd': 80, 'g': 80}[t]
        x = np.ldexp(rng.normal(size=sh), rng.integers(-span, span, size=sh)).astype(t)
        if n > 1 and rng.random() < .7:
            h = n // 2
            x[..., h:2 * h] = -x[..., :h]
            x = rng.permuted(x, axis=-1)
    elif u < .85:
        x = _gen_data(g)
    else:
        x = _sprinkle(g, np.asarray(rng.integers(-3, 4, size=sh)).astype(t), [np.inf, -np.inf, np.nan], 1.0)
        if rng.random() < .5:
            x = _sprinkle(g, x, [np.inf, -np.inf], 1.)
    return [np.asarray(x, dtype=t)]


@spec('kbnsum', cid='C16', gen=_gen_kbn, min_n=0, maxlong=3000, longp=.08)
def kbnsum(T, ins, outs):
    x, got, tc = els(ins[0]), outs[0], T[1]
    nan = any(np.isnan(v) for v in x)
    pi, ni = any(v == np.inf for v in x), any(v == -np.inf for v in x)
    if nan or (pi and ni):
        return num.isnan_msg(got)
    if pi or ni:
        return num.exact_msg(got, np.inf if pi else -np.inf)
    q = fr(ins[0])
    s, sa = sum(q, F0), sum(map(abs, q), F0)
    if sa * 2 > num.FMAX[tc]:
        return 'skip'
    eps = num.EPS[tc]
    n = len(x)
    return num.within('kbnsum', got, s, eps * abs(s) + 2 * n * eps * eps * sa, tc)
