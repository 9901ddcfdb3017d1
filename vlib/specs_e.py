"""Reference semantics: signal operations with state, interpolation, softmax, geometry."""
from fractions import Fraction

import mpmath
import numpy as np

from vlib import gen, num
from vlib.engine import spec
from vlib.specs_b import els, F
from vlib.specs_c import M, eps, tiny, fmax
from vlib.specs_d import _small, anynan, anyinf

mp = mpmath.mp
mpf = mpmath.mpf


# ------------------------------------------------------------------------------- C22
def _signal(g, i):
    """A signal: random walk, steps, constants, exact ties."""
    rng, t = g.rng, g.it[i]
    sh = g.shapes[i]
    u = rng.random()
    if u < .3:
        x = np.cumsum(rng.normal(size=sh), axis=-1) if len(sh) else rng.normal(size=sh)
    elif u < .6:
        x = rng.integers(-4, 5, size=sh)
    elif u < .75:
        x = np.round(rng.normal(size=sh) * 4) / 4
    elif u < .9:
        x = rng.normal(size=sh) * 3
    else:
        x = np.sin(np.arange(sh[-1]) * rng.uniform(.1, 2)) * rng.uniform(.5, 5) + np.zeros(sh)
    return g.cast(i, x)


def _gen_backlash(g):
    rng = g.rng
    out = [_signal(g, 0)]
    for i in range(1, len(g.it)):
        a = rng.choice([0, .5, 1, 2, 3, 4], size=g.shapes[i]) if rng.random() < .5 else np.abs(rng.normal(size=g.shapes[i]))
        if i == len(g.it) - 1 or (len(g.it) == 4 and i == 1):
            a = a * rng.choice([-1, 1], size=g.shapes[i])
        out.append(g.cast(i, a))
    if rng.random() < .08 and out[0].size:
        out[0] = np.array(out[0])
        out[0].reshape(-1)[int(rng.integers(0, out[0].size))] = rng.choice([np.inf, -np.inf, np.nan])
    return out


def _backlash_exact(x, band, y):
    """The outputs in exact arithmetic; None is nan, which is not beyond any threshold and moves nothing."""
    out = []
    for v in x:
        if v is None:
            pass
        elif v - band / 2 > y:
            y = v - band / 2
        elif v + band / 2 < y:
            y = v + band / 2
        out.append(y)
    return out


def _clipinf(v):
    """Infinite samples as huge rationals, so that the exact recursion still works."""
    if np.isnan(v):
        return None
    if np.isinf(v):
        return Fraction(10) ** 6000 * (1 if v > 0 else -1)
    return num.frac(v)


@spec('backlash', cid='C22', gen=_gen_backlash, min_n=0)
def backlash(T, ins, outs):
    x, db, init = els(ins[0]), ins[1], ins[2]
    if anynan(db, init) or anyinf(db, init) or db < 0:
        return 'skip'
    tc = T[1]
    X = [_clipinf(v) for v in x]
    ref = _backlash_exact(X, num.frac(db), num.frac(init))
    e = num.EPS[tc]
    s = num.frac(db) + abs(num.frac(init))
    for k, (r, got) in enumerate(zip(ref, els(outs[0]))):
        if np.isfinite(x[k]):
            s = max(s, abs(X[k]))
        if abs(r) > num.FMAX[tc]:
            if not (np.isinf(got) and (got > 0) == (r > 0)):
                return ('value', f'sample {k}: expected an infinity')
            continue
        m = num.within('backlash', got, r, 2 * e * s, tc)
        if m:
            return ('value', f'sample {k}: {m}')


def _bsdims(rng):
    if rng.random() > .01:
        return {}
    a, b = int(rng.choice([129, 257, 520])), int(rng.integers(1, 4))
    return dict(n=a, m=b) if rng.random() < .7 else dict(n=b, m=a)


@spec('backlash_sum', cid='C22', gen=_gen_backlash, dims=_bsdims, min_n=0, maxlong=60)
def backlash_sum(T, ins, outs):
    x, w, db, init = [els(a) for a in ins]
    tc = T[1][0]
    if anynan(*w, *db, *init) or anyinf(*x, *w, *db, *init) or any(v < 0 for v in db):
        return 'skip'
    e = num.EPS[tc]
    X = [None if np.isnan(v) else num.frac(v) for v in x]
    W = [num.frac(v) for v in w]
    tr = [_backlash_exact(X, num.frac(d), num.frac(i)) for d, i in zip(db, init)]
    m = len(w)
    s = max([Fraction(0)] + [abs(v) for v in X if v is not None]) + max([Fraction(0)] + [num.frac(d) for d in db]) \
        + max([Fraction(0)] + [abs(num.frac(i)) for i in init])
    aw = sum(map(abs, W))
    for k, got in enumerate(els(outs[0])):
        ref = sum((W[j] * tr[j][k] for j in range(m)), Fraction(0))
        msg = num.within('backlash_sum', got, ref, e * (m + 4) * aw * s, tc)
        if msg:
            return ('value', f'sample {k}: {msg}')
    for j, got in enumerate(els(outs[1])):
        ref = tr[j][-1] if X else num.frac(init[j])
        msg = num.within('backlash_sum.final', got, ref, 2 * e * s, tc)
        if msg:
            return ('final', f'final state {j}: {msg}')


def _gen_relay(g):
    rng = g.rng
    out = [_signal(g, 0)]
    odd = rng.random() < .1
    if odd and out[0].size and rng.random() < .5:
        out[0] = np.array(out[0])
        out[0].reshape(-1)[int(rng.integers(out[0].size))] = np.nan
    lo = rng.choice([-2., -1, 0, .5, -np.inf] if odd else [-2., -1, 0, .5], size=g.shapes[1])
    out.append(g.cast(1, lo))
    hi = rng.choice([.5, 1, 2, 3., np.inf] if odd else [.5, 1, 2, 3.], size=g.shapes[2])
    out.append(g.cast(2, hi))
    for i in (3, 4, 5):
        a = _small(rng, g.shapes[i], g.it[i])
        if rng.random() < .3:
            a = g.choice(i, [0., -0., 1., -1., np.inf, 7., np.nan])
        out.append(np.asarray(a))
    return out


@spec('hysteresis_relay', cid='C22', gen=_gen_relay, min_n=0)
def hysteresis_relay(T, ins, outs):
    x, lo, hi, lov, hiv, init = els(ins[0]), *ins[1:]
    if anynan(lo, hi) or lo > hi:
        return 'skip'
    y = init        # a nan in x is neither below nor above: the state is kept
    for k, v in enumerate(x):
        if v < lo:
            y = lov
        elif v > hi:
            y = hiv
        if not num.same(np.asarray(outs[0][k]), np.asarray(y)):
            return ('value', f'sample {k} is {outs[0][k]!r}, expected {y!r}')


def _gen_unwrap(g):
    rng = g.rng
    u = rng.random()
    p = rng.choice([1., 2., 360., 2 * np.pi, 10., 4., 1e-3], size=g.shapes[1])
    if u < .4:
        x = np.cumsum(rng.normal(size=g.shapes[0]), axis=-1) * rng.choice([.3, 3., 100.])
        if rng.random() < .6:
            x = np.mod(x, 2 * np.pi if rng.random() < .5 else 10)
    elif u < .6:
        x = rng.integers(-20, 21, size=g.shapes[0])
    elif u < .8:
        x = np.round(rng.normal(size=g.shapes[0]) * 8) / 4
    elif u < .9:
        x = rng.normal(size=g.shapes[0]) * 10.0 ** rng.uniform(0, 6, size=g.shapes[0])
    else:
        x = rng.normal(size=g.shapes[0]) * 10.0 ** rng.uniform(5, 18)
    x = g.cast(0, x)
    if rng.random() < .2 and x.size:
        x = np.array(x)
        x.reshape(-1)[int(rng.integers(0, x.size))] = rng.choice([np.nan, np.inf, -np.inf])
    return [x, g.cast(1, p)]


@spec('unwrap', cid='C22', gen=_gen_unwrap, min_n=0)
def unwrap(T, ins, outs):
    """Online checker: every sample is the input plus a whole number of periods, within half a
    period of the sample before it."""
    x, p, y, tc = els(ins[0]), ins[1], els(outs[0]), T[1]
    if not x:
        return None
    if not (np.isfinite(p) and p > 0):
        return 'skip'
    if not num.same(np.asarray(y[0]), np.asarray(x[0])):
        return ('value', f'first sample {y[0]!r} differs from the input')
    e = num.EPS[tc]
    P = num.frac(p)
    bad = not np.isfinite(x[0])
    for k in range(1, len(x)):
        bad = bad or not np.isfinite(x[k])
        if bad:
            if not np.isnan(y[k]):
                return ('nonfinite', f'sample {k} follows a nonfinite value, expected nan')
            continue
        if not np.isfinite(y[k]):
            return ('value', f'sample {k} is not finite')
        X, Y, Y0 = num.frac(x[k]), num.frac(y[k]), num.frac(y[k - 1])
        tol = 4 * e * (abs(X) + abs(Y0) + P)
        if tol > P / 8:
            return 'skip'
        q = (Y - X) / P
        if abs(q - round(q)) * P > tol:
            return ('value', f'sample {k} is not a whole number of periods away from the input')
        if abs(Y - Y0) > P / 2 + tol:
            return ('jump', f'sample {k} jumps by {float((Y - Y0) / P)} periods')


def _gen_sos(g):
    rng = g.rng
    sh = g.shapes[0]
    sos = np.empty(sh)
    u = rng.random()
    m = sh[:-1]
    if u < .4:
        r = rng.uniform(0, .98, size=m)
        th = rng.uniform(0, np.pi, size=m)
        sos[..., 0] = rng.normal(size=m)
        sos[..., 1] = rng.normal(size=m)
        sos[..., 2] = rng.normal(size=m)
        sos[..., 4] = -2 * r * np.cos(th)
        sos[..., 5] = r * r
    elif u < .7:
        sos[...] = rng.integers(-3, 4, size=sh)
    elif u < .85:
        sos[...] = rng.normal(size=sh)
    else:
        sos[...] = rng.integers(-1, 2, size=sh) * .5
    sos[..., 3] = 1
    out = [g.cast(0, sos)]
    out[0][..., 3] = 1
    out.append(_signal(g, 1))
    if len(g.it) == 3:
        out.append(g.cast(2, rng.integers(-3, 4, size=g.shapes[2]) if rng.random() < .5 else rng.normal(size=g.shapes[2])))
    if rng.random() < .25:
        # the filter is linear: tiny and huge signals and states, and numerators of any size
        s = float(rng.choice([-60, -40, -20, 30, 60]))
        for k in range(1, len(out)):
            if np.all(np.isfinite(out[k])):
                out[k] = (out[k] * out[k].dtype.type(2.0 ** s)).astype(out[k].dtype)
        if rng.random() < .4:
            out[0][..., :3] = out[0][..., :3] * out[0].dtype.type(2.0 ** float(rng.choice([-12, -6, 6])))
    return out


def _sos_check(T, ins, outs, ic):
    tc = T[1][0]
    sos, x = ins[0], els(ins[1])
    m = len(sos)
    S = [[M(v) for v in els(r)] for r in sos]
    Z = [[M(v) for v in els(r)] for r in ins[2]] if ic else [[mpf(0)] * 2 for _ in range(m)]
    E = [[mpf(0)] * 2 for _ in range(m)]
    e = eps(tc)
    big = fmax(tc) / 1024
    # running error analysis of the direct form II transposed recursion
    for i, v in enumerate(x):
        X, EX = M(v), mpf(0)
        for k in range(m):
            b0, b1, b2, _, a1, a2 = S[k]
            z0, z1 = Z[k]
            e0, e1 = E[k]
            Y = b0 * X + z0
            EY = abs(b0) * EX + e0 + e * (abs(b0 * X) + abs(Y) + abs(b0) * EX + e0)
            Z[k][0] = z1 + b1 * X - a1 * Y
            E[k][0] = (abs(b1) * EX + abs(a1) * EY + e1) * (1 + 3 * e) + 3 * e * (abs(z1) + abs(b1 * X) + abs(a1 * Y))
            Z[k][1] = b2 * X - a2 * Y
            E[k][1] = (abs(b2) * EX + abs(a2) * EY) * (1 + 3 * e) + 2 * e * (abs(b2 * X) + abs(a2 * Y))
            X, EX = Y, EY
            if abs(X) + EX > big or abs(Z[k][0]) > big or abs(Z[k][1]) > big:
                return 'skip'
        msg = num.within('sosfilter', outs[0][i], X, 2 * EX + tiny(tc), tc)
        if msg:
            return ('value', f'sample {i}: {msg}')
    if ic:
        for k in range(m):
            for j in range(2):
                msg = num.within('sosfilter.zf', outs[1][k, j], Z[k][j], 2 * E[k][j] + tiny(tc), tc)
                if msg:
                    return ('final', f'zf[{k}, {j}]: {msg}')


def _sosdims(rng):
    m = int(rng.choice([0, 1, 1, 2, 2, 3, 4, 6]))
    n = int(rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 40, 90], p=[.05, .08, .12, .15, .15, .15, .12, .1, .06, .02]))
    if rng.random() < .15:
        m = int(rng.choice([7, 8, 9, 10, 12, 16, 17, 24, 33]))
        n = min(n, 8)
    elif rng.random() < .01:
        m, n = min(m, 2), int(rng.choice([128, 257, 513, 1030]))
    return dict(m=m, n=n)


@spec('sosfilter', cid='C22', gen=_gen_sos, dims=_sosdims, nloop=8)
def sosfilter(T, ins, outs):
    return _sos_check(T, ins, outs, False)


@spec('sosfilter_ic', cid='C22', gen=_gen_sos, dims=_sosdims, nloop=8)
def sosfilter_ic(T, ins, outs):
    return _sos_check(T, ins, outs, True)


@spec('sosfilter_ic_contig', cid='C22', gen=_gen_sos, dims=_sosdims, nloop=8, native_only=True)
def sosfilter_ic_contig(T, ins, outs):
    return _sos_check(T, ins, outs, True)


# ------------------------------------------------------------------------------- C23
def _gen_fillnan(g):
    rng = g.rng
    x = np.array(_small(rng, g.shapes[0], g.it[0]))
    m = rng.random(size=x.shape) < rng.choice([0, .1, .4, .8, .97, 1.0], p=[.05, .25, .3, .25, .1, .05])
    if rng.random() < .4 and x.shape[-1]:
        a, b = sorted(int(v) for v in rng.integers(0, x.shape[-1] + 1, size=2))
        m[..., a:b] = True
    if rng.random() < .15:
        x[rng.random(size=x.shape) < .5] = -0.
    x[m] = np.nan
    if rng.random() < .08 and x.size:
        x.reshape(-1)[int(rng.integers(0, x.size))] = rng.choice([np.inf, -np.inf])
    return [x]


@spec('fillnan1d', cid='C23', gen=_gen_fillnan, min_n=0)
def fillnan1d(T, ins, outs):
    x, y, tc = els(ins[0]), els(outs[0]), T[1]
    good = [k for k, v in enumerate(x) if not np.isnan(v)]
    if not good:
        return None if all(np.isnan(v) for v in y) else 'all values are nan'
    e = eps(tc)
    j = 0
    for k in range(len(x)):
        if not np.isnan(x[k]):
            if not num.identical(np.asarray(y[k]), np.asarray(x[k])):
                return ('value', f'element {k}: {y[k]!r}, not nan in the input: expected {x[k]!r}')
            continue
        if k < good[0] or k > good[-1]:
            w = x[good[0] if k < good[0] else good[-1]]
            if not num.identical(np.asarray(y[k]), np.asarray(w)):
                return ('edge', f'element {k}: {y[k]!r}, expected the nearest value {w!r}')
            continue
        while good[j + 1] < k:
            j += 1
        a, b = good[j], good[j + 1]
        if np.isinf(x[a]) or np.isinf(x[b]):
            continue
        A, B = M(x[a]), M(x[b])
        ref = A + (B - A) * (k - a) / (b - a)
        # computed in long double and rounded once
        bnd = e * abs(ref) + 4 * eps('g') * (abs(A) + abs(B))
        msg = num.within('fillnan1d', y[k], ref, bnd, tc)
        if msg:
            return ('interp', f'element {k}: {msg}')


def _gen_interp(g):
    rng, t = g.rng, g.it[0]
    n = g.dims['n']
    sh = g.shapes[1]
    u = rng.random()
    if u < .3:
        d = rng.integers(1, 4, size=sh)
        xp = np.cumsum(d, axis=-1) - 3
    elif u < .8:
        xp = np.cumsum(rng.exponential(size=sh) + 1e-3, axis=-1)
    else:
        xp = np.cumsum(10.0 ** rng.uniform(-3, 3, size=sh), axis=-1)
    xp = np.asarray(xp).astype(t)
    if n and rng.random() < .5:
        xp = xp - xp[..., :1] * np.asarray(rng.integers(0, 3)).astype(t)
    xp = np.asarray(xp).astype(t)
    # strictly increasing after rounding
    for _ in range(3):
        if n > 1:
            bad = ~(np.diff(xp, axis=-1) > 0)
            if not bad.any():
                break
            xp = (np.arange(n) + np.zeros(sh)).astype(t)
    fp = np.asarray(_small(rng, g.shapes[2], t))
    if rng.random() < .15 and fp.size:
        fp = np.array(fp)
        fp.reshape(-1)[int(rng.integers(0, fp.size))] = rng.choice([np.nan, np.inf, -np.inf])
    sx = g.shapes[0]
    if n and xp.size:
        row = xp.reshape(-1, n)[0]
        u = rng.random()
        lo, hi = float(row[0]), float(row[-1])
        x = rng.uniform(lo - (hi - lo) * .1 - .1, hi + (hi - lo) * .1 + .1, size=sx)
        x = np.asarray(x).astype(t)
        pick = row[rng.integers(0, n, size=sx)]
        nx = np.nextafter(pick, pick + rng.choice([-1, 1]).astype(t))
        k = rng.integers(0, 3, size=sx)
        x = np.where(k == 0, x, np.where(k == 1, pick, nx if rng.random() < .5 else x)).astype(t)
    else:
        x = g.uni(0, -1, 1)
    if rng.random() < .1:
        x = g.choice(0, gen.specials(t))
    return [np.asarray(x), xp, fp]


@spec('linear_interp1d', cid='C23', gen=_gen_interp, min_n=0)
def linear_interp1d(T, ins, outs):
    x, xp, fp, got, tc = ins[0], els(ins[1]), els(ins[2]), outs[0], T[1]
    if not xp or np.isnan(x) or x < xp[0] or x > xp[-1]:
        return num.isnan_msg(got)
    k = max(i for i, v in enumerate(xp) if v <= x)
    if xp[k] == x:
        return num.exact_msg(got, fp[k])
    if not (np.isfinite(fp[k]) and np.isfinite(fp[k + 1])):
        return 'skip'
    X, A, B, FA, FB = M(x), M(xp[k]), M(xp[k + 1]), M(fp[k]), M(fp[k + 1])
    if max(abs(FA), abs(FB)) > fmax(tc) / 16 or abs(FB - FA) / (B - A) > fmax(tc) / 16 \
            or (FA != FB and abs(FB - FA) / (B - A) < tiny(tc) * 16):
        return 'skip'
    ref = FA + (FB - FA) * (X - A) / (B - A)
    return num.within('interp', got, ref, 6 * eps(tc) * (abs(FA) + abs(FB)) + tiny(tc), tc)


def _gen_softmax(g):
    rng, t = g.rng, g.it[0]
    sh = g.shapes[0]
    u = rng.random()
    if u < .35:
        x = rng.normal(size=sh) * rng.choice([.1, 1, 10])
    elif u < .5:
        x = rng.integers(-5, 6, size=sh)
    elif u < .7:
        x = rng.normal(size=sh) + rng.normal() * 10.0 ** rng.uniform(2, 6)
    elif u < .85:
        x = rng.normal(size=sh) * 400
    else:
        x = rng.normal(size=sh) * 10.0 ** rng.uniform(2, {'f': 37, 'd': 300, 'g': 300}[t])
    x = g.cast(0, x)
    if rng.random() < .3 and x.size:
        x = np.array(x)
        f = x.reshape(-1)
        pool = [np.inf, -np.inf] if rng.random() < .6 else [np.nan, np.inf, -np.inf]
        for _ in range(int(rng.integers(1, 4))):
            f[int(rng.integers(0, f.size))] = rng.choice(pool)
        if rng.random() < .15:
            x[...] = -np.inf
    return [x]


@spec('softmax', cid='C23', gen=_gen_softmax, min_n=0)
def softmax(T, ins, outs):
    x, y, tc = els(ins[0]), els(outs[0]), T[1]
    if not x:
        return None
    npos = sum(1 for v in x if v == np.inf)
    if anynan(*x) or npos > 1 or all(v == -np.inf for v in x):
        return None if all(np.isnan(v) for v in y) else ('nan', 'expected all nan')
    if npos:
        ok = all(v == (1 if u == np.inf else 0) for u, v in zip(x, y))
        return None if ok else ('inf', 'expected 1 at the infinity and 0 elsewhere')
    mx = M(max(x))
    d = [M(v) - mx if v != -np.inf else None for v in x]
    E = [mpmath.exp(v) if v is not None and v > -12000 else mpf(0) for v in d]
    s = sum(E)
    e = eps(tc)
    n = len(x)
    wd = sum(abs(v) * E_ for v, E_ in zip(d, E) if E_) / s
    for k in range(n):
        ref = E[k] / s
        a = abs(d[k]) if E[k] else 0
        msg = num.within('softmax', y[k], ref, ref * e * (4 + a + wd + mpf(n) / 2) + tiny(tc), tc)
        if msg:
            return ('value', f'element {k}: {msg}')


# ------------------------------------------------------------------------------- C24
def _gen_cross(g):
    rng = g.rng
    out = []
    k = rng.choice(['int', 'bigint', 'frac', 'float'])
    wide = rng.random()
    for i in range(2):
        t = g.it[i]
        if t == 'O':
            out.append(gen.objects(rng, g.shapes[i], k))
        elif t in 'il':
            lim = 32000 if t == 'i' else 2 ** 31 - 1
            lim = lim if wide < .5 else 9
            out.append(rng.integers(-lim, lim + 1, size=g.shapes[i]).astype(t))
        elif wide < .85:
            out.append(np.asarray(_small(rng, g.shapes[i], t)))
        else:
            out.append(np.asarray(g.val(i)))
    return out


def _det2(T, a, b, c, d, got):
    """a*d - b*c"""
    tc = T[1]
    if tc == 'O':
        want = a * d - b * c
        return None if got == want and type(got) is type(want) else f'expected {want!r}'
    if tc in 'il':
        want = int(a) * int(d) - int(b) * int(c)
        return None if int(got) == want else f'expected {want}'
    with np.errstate(all='ignore'):
        p, q = a * d, b * c
        r = p - q
    if not (np.isfinite(p) and np.isfinite(q) and np.isfinite(r)):
        return None if num.same(np.asarray(got), np.asarray(r)) else f'expected {r!r}'
    A, B, C, D = map(num.frac, (a, b, c, d))
    e = num.EPS[tc]
    return num.within('cross', got, A * D - B * C, e * (abs(A * D) + abs(B * C)) * Fraction(3, 2), tc)


@spec('cross2', cid='C24', gen=_gen_cross)
def cross2(T, ins, outs):
    u, v = ins
    return _det2(T, u[0], u[1], v[0], v[1], outs[0])


@spec('cross3', cid='C24', gen=_gen_cross)
def cross3(T, ins, outs):
    u, v = ins
    for k in range(3):
        i, j = (k + 1) % 3, (k + 2) % 3
        m = _det2(T, u[i], u[j], v[i], v[j], outs[0][k])
        if m:
            return ('value', f'component {k}: {m}')


def _points(rng, sh, t):
    u = rng.random()
    if u < .3:
        p = rng.integers(-5, 6, size=sh)
    elif u < .55:
        p = rng.normal(size=sh) * 10.0 ** rng.integers(-4, 5)
    elif u < .7:       # far from the origin
        p = rng.normal() * 10.0 ** rng.integers(2, 5) + rng.normal(size=sh)
    elif u < .9:       # needle-like and degenerate triangles
        a = rng.normal(size=sh[:-2] + (1,) + sh[-1:])
        b = rng.normal(size=a.shape)
        s = rng.normal(size=sh[:-1] + (1,))
        p = a + s * b + rng.choice([0, 1e-3, 1e-6]) * rng.normal(size=sh)
    else:
        p = np.zeros(sh) + rng.integers(-2, 3, size=sh[:-2] + (1,) + sh[-1:])
        if rng.random() < .5:
            p = p + rng.integers(0, 2, size=sh)
    return np.asarray(p).astype(t)


def _gen_tri(g):
    rng = g.rng
    p = _points(rng, g.shapes[0], g.it[0])
    if rng.random() < .05 and p.size:
        p = np.array(p)
        p.reshape(-1)[int(rng.integers(0, p.size))] = np.nan
    out = [p]
    if len(g.it) == 2:
        m = g.dims['m']
        out.append(np.asarray(rng.integers(-m - (rng.random() < .2), m + (rng.random() < .2) or 1, size=g.shapes[1])).astype('l'))
        if rng.random() < .05 and out[1].size:
            out[1].reshape(-1)[0] = rng.choice([m, -m - 1, 2 ** 62, -2 ** 63, 2 ** 63 - 1, 2 ** 32])
    return out


def _area(tc, got, p):
    P = [[M(v) for v in els(r)] for r in p]
    if any(mpmath.isnan(v) for r in P for v in r):
        return num.isnan_msg(got)
    n = len(P[0])
    D = []
    lim, low = mpmath.sqrt(mpmath.sqrt(fmax(tc))) / (64 * (n + 1)), mpmath.sqrt(mpmath.sqrt(tiny(tc))) * 64
    for i, j in ((0, 1), (0, 2), (1, 2)):
        dx = [P[i][k] - P[j][k] for k in range(n)]
        L = mpmath.sqrt(sum(v * v for v in dx))
        if L > lim or (L and L < low):
            return 'skip'
        D.append(L)
    c, b, a = sorted(D)
    with mp.workprec(500):
        f1, f2, f3, f4 = a + b + c, c - (a - b), c + (a - b), a + (b - c)
        # in exact coordinates: half the root of the Gram determinant
        u = [P[1][k] - P[0][k] for k in range(n)]
        v = [P[2][k] - P[0][k] for k in range(n)]
        uu, vv, uv = sum(x * x for x in u), sum(x * x for x in v), sum(x * y for x, y in zip(u, v))
        ref = mpmath.sqrt(max(uu * vv - uv * uv, 0)) / 2
    e = eps(tc)
    d = e * (mpf(n) / 2 + 4)
    h = 4 * d * a
    E = f1 * f4 / 16 * ((abs(f3) + h) * (abs(f2) + h) - abs(f2 * f3)) + ref * ref * 8 * d
    b = min(mpmath.sqrt(E), E / ref if ref else mpmath.sqrt(E)) + 2 * e * ref
    return num.within('tri_area', got, ref, 2 * b + tiny(tc), tc)


def _tridims(rng):
    return dict(n=int(rng.choice([0, 1, 2, 2, 3, 3, 4, 7] if rng.random() < .9 else [9, 16, 17, 18, 25, 33, 65, 130])))


@spec('tri_area', cid='C24', gen=_gen_tri, dims=_tridims)
def tri_area(T, ins, outs):
    return _area(T[1], outs[0], ins[0])


@spec('tri_area_indexed', cid='C24', gen=_gen_tri, dims=_tridims)
def tri_area_indexed(T, ins, outs):
    p, ix = ins[0], [int(v) for v in els(ins[1])]
    m = len(p)
    if any(v < -m or v >= m for v in ix):
        return num.isnan_msg(outs[0])
    return _area(T[1], outs[0], [p[v] for v in ix])
