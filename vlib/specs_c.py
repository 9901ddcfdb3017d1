"""Reference semantics of the elementwise functions, in 200-bit (or higher) floating point."""
import math
from fractions import Fraction

import mpmath
import numpy as np

from vlib import gen, num
from vlib.engine import spec
from vlib.specs_b import els, fr, F

mp = mpmath.mp
mpf = mpmath.mpf


def M(x):
    return num.tomp(x)


def eps(tc):
    return num.meps(tc)


def tiny(tc):
    return F(num.TINY[tc.lower()])


def fmax(tc):
    return F(num.FMAX[tc.lower()])


def rel(name, got, ref, tc, k, extra=0):
    """Relative error of at most k eps (+ extra, absolute); results in or below the subnormal range
    may be anything of that size."""
    return num.within(name, got, ref, abs(ref) * eps(tc) * k + extra + tiny(tc), tc)


def _gen1(lo, hi, pts=(), big=True, neg=True):
    """One-argument generator: uniform on [lo, hi], near the points pts, all magnitudes, specials."""
    def g_(g):
        rng, t = g.rng, g.it[0]
        sh = g.shapes[0]
        u = rng.random()
        if u < .4:
            return [g.uni(0, lo, hi)]
        if u < .65 and pts:
            p = np.asarray(pts, dtype='g')[rng.integers(0, len(pts), size=sh)]
            d = rng.choice([0., 1., -1.], size=sh) * 2.0 ** rng.uniform(-60, 1, size=sh)
            with np.errstate(all='ignore'):
                return [np.asarray(p * (1 + d) + (p == 0) * d).astype(t)]
        if u < .85 and big:
            x = np.asarray(g.val(0, 'log'))
            return [x if neg else np.abs(x)]
        if u < .92:
            return [g.choice(0, gen.specials(t))]
        return [np.asarray(rng.integers(int(max(lo, -1e9)) - 1, int(min(hi, 1e9)) + 2, size=sh)).astype(t)]
    return g_


# ------------------------------------------------------------------------------- C17
def _gen_logfact(g):
    rng, t = g.rng, g.it[0]
    u = rng.random()
    if u < .5:
        k = rng.integers(-3, 140, size=g.shapes[0])
    elif u < .75:
        k = (10.0 ** rng.uniform(2, 9.3 if t == 'i' else 18.9, size=g.shapes[0]))
    else:
        return [g.val(0)]
    return [np.asarray(k).astype(t)]


@spec('logfactorial', cid='C17', gen=_gen_logfact)
def logfactorial(T, ins, outs):
    k = int(ins[0])
    if k < 0:
        return num.isnan_msg(outs[0])
    if k < 2:
        return num.exact_msg(outs[0], 0.)
    with mp.workprec(260):
        ref = mpmath.loggamma(mpf(k) + 1)
    return num.within('logfactorial', outs[0], ref, ref * eps('d') * 4, 'd')


@spec('loggamma1p', cid='C17', gen=_gen1(-1, 6, (-1, 0, 1, -.25, .9, -.5)))
def loggamma1p(T, ins, outs):
    x, got, tc = ins[0], outs[0], T[1]
    if np.isnan(x) or x <= -1:
        return num.isnan_msg(got)
    if np.isinf(x):
        return num.exact_msg(got, np.inf)
    X = M(x)
    if X == 0 or X == 1:
        return num.exact_msg(got, 0.)
    with mp.workprec(2400 if abs(X) < mpf('1e-20') else 260):
        ref = +mpmath.loggamma(1 + X)
    e = eps(tc)
    # away from the zero at 1 the error is relative; next to it, it is relative to 1
    b = abs(ref) * e * 32 + eps('d') * (32 if x > .5 else 0)
    return num.within('loggamma1p', got, ref, b, tc)


_B = None


def debye1_ref(X):
    """The Debye function D1 for real X, to 1e-40 or better."""
    if X < 0:
        return debye1_ref(-X) - X / 2
    if X == 0:
        return mpf(1)
    if X < mpf('2.5'):
        s, p = 1 - X / 4, mpf(1)
        k = 1
        while True:
            p *= X * X / ((2 * k) * (2 * k - 1))
            t = mpmath.bernoulli(2 * k) * p / (2 * k + 1)
            s += t
            if abs(t) < mpf(10) ** -45:
                return s
            k += 1
    s = mp.pi ** 2 / 6
    k = 1
    while True:
        ek = mpmath.exp(-k * X)
        t = ek * (X / k + mpf(1) / k ** 2)
        s -= t
        if abs(t) < mpf(10) ** -50:
            return s / X
        k += 1


@spec('debye1', cid='C17', gen=_gen1(-50, 50, (0, 10, 20, 30, 40, -10, -40)))
def debye1(T, ins, outs):
    x, got, tc = ins[0], outs[0], T[1]
    if np.isnan(x):
        return num.isnan_msg(got)
    if np.isinf(x):
        return num.exact_msg(got, 0. if x > 0 else np.inf)
    ref = debye1_ref(M(x))
    # (the approximations of the generator script reach 30 eps around 9, and full precision elsewhere)
    a = abs(x)
    k = 5 if a < 3.9 else 20 if a < 5.9 else 90 if a < 13 else 25 if a < 15.5 else 6
    return num.within('debye1:' + tc, got, ref, ref * (eps(tc) * 2 + k * eps('d')) + tiny(tc), tc)


def _e1(X):
    """E1(X) * exp(X) for X > 0."""
    if X > 60:
        # the asymptotic series is accurate enough beyond 60
        s, t = mpf(1), mpf(1)
        for k in range(1, 200):
            t2 = -t * k / X
            if abs(t2) >= abs(t) or abs(t2) < mpf(10) ** -40:
                break
            t = t2
            s += t
        return s / X
    with mp.workprec(300):
        return mpmath.e1(X) * mpmath.exp(X)


@spec('expint1', cid='C17', gen=_gen1(0, 30, (0, 1, 500, 700, 88), neg=False))
def expint1(T, ins, outs):
    x, got, tc = ins[0], outs[0], T[1]
    if np.isnan(x) or x < 0:
        return num.isnan_msg(got)
    if x == 0:
        return num.exact_msg(got, np.inf)
    if np.isinf(x):
        return num.exact_msg(got, 0.)
    X = M(x)
    if X > 12000:
        return num.exact_msg(got, 0.)
    ref = _e1(X) * mpmath.exp(-X)
    return num.within('expint1:' + tc, got, ref, ref * (eps(tc) * 16 + (mpf('5e-16') if tc == 'g' else 0)) + tiny(tc), tc)


@spec('logexpint1', cid='C17', gen=_gen1(0, 30, (0, 1, 500, 700, .265), neg=False))
def logexpint1(T, ins, outs):
    x, got, tc = ins[0], outs[0], T[1]
    if np.isnan(x) or x < 0:
        return num.isnan_msg(got)
    if x == 0:
        return num.exact_msg(got, np.inf)
    if np.isinf(x):
        return 'skip'
    X = M(x)
    ref = mpmath.log(_e1(X)) - X
    return num.within('logexpint1:' + tc, got, ref, max(abs(ref), mpf(1)) * (eps(tc) * 16 + (mpf('5e-16') if tc == 'g' else 0)), tc)


def _gen_mvlb(g):
    rng, t = g.rng, g.it[0]
    u = rng.random()
    sh = g.shapes[0]
    if u < .3:
        a = rng.integers(1, 12, size=sh)
    elif u < .6:
        a = np.exp(rng.normal(size=sh) * 2)
    elif u < .9:
        a = 10.0 ** rng.uniform(-6, 5, size=sh)
    else:
        a = rng.uniform(.5, 3, size=sh)
    a = g.cast(0, a)
    if a.size and rng.random() < .1:
        a = np.array(a)
        a.reshape(-1)[int(rng.integers(0, a.size))] = rng.choice([0., np.nan, np.inf])
    return [a]


@spec('multivariate_logbeta', cid='C17', gen=_gen_mvlb, min_n=0)
def multivariate_logbeta(T, ins, outs):
    x, got, tc = els(ins[0]), outs[0], T[1]
    if not x or any(np.isnan(v) for v in x):
        return num.isnan_msg(got)
    if any(np.isinf(v) for v in x):
        return 'skip'
    if all(v == 0 for v in x):
        return 'skip'
    if any(v == 0 for v in x):
        return num.exact_msg(got, np.inf)
    X = [M(v) for v in x]
    L = [mpmath.loggamma(v) for v in X]
    S = sum(X)
    LS = mpmath.loggamma(S)
    ref = sum(L) - LS
    n = len(x)
    e = eps(tc)
    # (summation and rounding of the sum of the arguments are amplified by digamma)
    b = e * ((4 + mpf(n) / 2) * (sum(map(abs, L)) + n * mpf('.2')) + 6 * abs(LS) + (1 + mpf(n) / 2) * S * abs(mpmath.digamma(S)))
    return num.within('mvlb:' + tc, got, ref, b, tc)


# ------------------------------------------------------------------------------- C18
def _erfcx_ref(X):
    if X > 3000:
        s, t = mpf(1), mpf(1)
        z = 2 * X * X
        for k in range(1, 60):
            t *= -(2 * k - 1) / z
            s += t
            if abs(t) < mpf(10) ** -45:
                break
        return s / (X * mpmath.sqrt(mp.pi))
    p = 230 + int(2 * max(0, mpmath.log(1 + X * X, 2)))
    with mp.workprec(p):
        return mpmath.erfc(X) * mpmath.exp(X * X)


@spec('erfcx', cid='C18', gen=_gen1(-9, 60, (0, 50, -3, -6.1, -26, 5e7, 1, 10, -9)))
def erfcx(T, ins, outs):
    x, got, tc = ins[0], outs[0], T[1]
    if np.isnan(x):
        return num.isnan_msg(got)
    if np.isinf(x):
        return num.exact_msg(got, 0. if x > 0 else np.inf)
    X = M(x)
    if X < -110:
        return num.exact_msg(got, np.inf)
    ref = _erfcx_ref(X)
    e = eps(tc)
    # exp(x*x) amplifies the rounding error of x*x
    return num.within('erfcx:' + tc, got, ref, ref * e * (10 + (4 * X * X if X < 0 else 0)) + tiny(tc), tc)


def _cdf(X):
    return mpmath.erfc(-X / mpmath.sqrt(2)) / 2


def _norm(name, sign, log):
    @spec('normal.' + name, cid='C18', gen=_gen1(-9, 9, (0, 1, -1, -38, 38, -14, 14, 5, -5)))
    def chk(T, ins, outs):
        x, got, tc = ins[0], outs[0], T[1]
        if np.isnan(x):
            return num.isnan_msg(got)
        if np.isinf(x):
            up = (x > 0) == (sign > 0)
            if log:
                return num.exact_msg(got, 0. if up else -np.inf) if up else 'skip'
            return num.exact_msg(got, 1. if up else 0.)
        X = M(x) * sign
        e = eps(tc)
        if not log:
            if X < -200:
                return num.exact_msg(got, 0.)
            if X > 200:
                return num.exact_msg(got, 1.)
            ref = _cdf(X)
            return num.within(f'{name}:{tc}', got, ref, ref * e * (2 + (1.2 * X * X if X < 0 else 0)) + tiny(tc), tc)
        if X > 200:
            return num.exact_msg(got, -0.)
        if X > 0:
            q = _cdf(-X)
            ref = mpmath.log1p(-q) if X < 4 else -sum(q ** k / k for k in range(1, 14))
            return num.within(f'{name}:{tc}', got, ref, abs(ref) * e * (6 + 2 * X * X) + tiny(tc), tc)
        z = -X / mpmath.sqrt(2)
        ref = mpmath.log(_erfcx_ref(z) / 2) - z * z
        return num.within(f'{name}:{tc}', got, ref, abs(ref) * e * 6, tc)
    return chk


for _n, _s, _l in (('cdf', 1, False), ('sf', -1, False), ('logcdf', 1, True), ('logsf', -1, True)):
    _norm(_n, _s, _l)


# ------------------------------------------------------------------------------- C19
def _gen_clog(g):
    rng, t = g.rng, g.it[0]
    r = t.lower()
    sh = g.shapes[0]
    u = rng.random()
    z = np.empty(sh, dtype=t)
    if u < .35:       # near the circle |z + 1| = 1
        th = rng.uniform(-np.pi, np.pi, size=sh)
        rad = 1 + rng.choice([0., 1.], size=sh) * rng.choice([-1, 1], size=sh) * 2.0 ** rng.uniform(-60, -2, size=sh)
        z.real = rad * np.cos(th) - 1
        z.imag = rad * np.sin(th)
    elif u < .5:      # tiny, and near the tangent at 0
        y = rng.choice([-1, 1], size=sh) * 2.0 ** rng.uniform(-30 if r == 'f' else -400, 0, size=sh)
        z.imag = y
        z.real = -y * y / 2 * (1 + rng.choice([0, 1e-3, 1], size=sh) * rng.normal(size=sh))
    elif u < .65:
        s = -30 if r == 'f' else -300
        z.real = rng.normal(size=sh) * 10.0 ** rng.uniform(s, 1, size=sh)
        z.imag = rng.normal(size=sh) * 10.0 ** rng.uniform(s, 1, size=sh)
    elif u < .85:
        z.real = rng.uniform(-3, 3, size=sh)
        z.imag = rng.uniform(-3, 3, size=sh) * (rng.random() < .8)
    elif u < .93:
        z = g.val(0, 'log')
    else:
        z = g.val(0, 'special')
    return [np.asarray(z, dtype=t)]


def _clog1p(x, y, neg0):
    """(real, imag) of log(1 + z) for finite x, y (mpf)."""
    with mp.workprec(3500 if (abs(x) < mpf(2) ** -200 or abs(y) < mpf(2) ** -200 or abs(x) > mpf(2) ** 300
                              or abs(y) > mpf(2) ** 300) else 500):
        q = x * x + 2 * x + y * y
        re = mpmath.log1p(q) / 2 if q != -1 else -mpf('inf')
        im = mpmath.atan2(y, x + 1)
    return +re, (-im if y == 0 and neg0 else +im)


@spec('log1p_doubledouble', cid='C19', gen=_gen_clog)
def log1p_doubledouble(T, ins, outs):
    z, w = ins[0], outs[0]
    r = T[0][0].lower()
    if np.isnan(z.real) or np.isnan(z.imag):
        return num.isnan_msg(w.real) or num.isnan_msg(w.imag)
    if np.isinf(z.real) or np.isinf(z.imag):
        m = num.exact_msg(w.real, np.inf)
        return m or num.within('ddinf', w.imag, M(np.arctan2(z.imag, z.real)), eps(r) * 8, r)
    x, y = M(z.real), M(z.imag)
    re, im = _clog1p(x, y, np.signbit(z.imag))
    e = eps(r)
    ed = eps('d')
    if mpmath.isinf(re):
        m = num.exact_msg(w.real, -np.inf)
        return m or num.exact_msg(w.imag, 0.)
    if r == 'd':
        b = abs(re) * 3 * e + 8 * e * e * (abs(2 * x) + x * x + y * y) + tiny(r)
    else:
        b = abs(re) * 3 * e + 2 * ed * (abs(2 * x) + x * x + y * y) + tiny(r)
    # (outside the neighbourhood of the circle the error is relative to the logarithm's argument)
    if abs(re) > mpf('.15'):
        b += 2 * e
    m = num.within('dd.re:' + r, w.real, re, b, r)
    if m:
        return ('real', m)
    m = num.within('dd.im:' + r, w.imag, im, abs(im) * 4 * e + tiny(r) * e * 4, r)
    if m:
        return ('imag', m)
    if y == 0 and np.signbit(w.imag) != np.signbit(z.imag):
        return ('branch', 'the sign of a zero imaginary part selects the branch')


@spec('log1p_theorem4', cid='C19', gen=_gen_clog)
def log1p_theorem4(T, ins, outs):
    z, w = ins[0], outs[0]
    r = T[0][0].lower()
    if np.isnan(z.real) or np.isnan(z.imag):
        return num.isnan_msg(w.real) or num.isnan_msg(w.imag)
    if np.isinf(z.real) or np.isinf(z.imag):
        return 'skip'
    x, y = M(z.real), M(z.imag)
    a = max(abs(x), abs(y))
    if a > mpmath.sqrt(fmax(r)) / 4 or a < mpmath.sqrt(tiny(r)) * 4:
        return 'skip'
    re, im = _clog1p(x, y, np.signbit(z.imag))
    if mpmath.isinf(re):
        return num.exact_msg(w.real, -np.inf)
    e = eps(r)
    nrm = mpmath.sqrt(re * re + im * im)
    b = (nrm * 8 + (4 if a > mpf('.4') else 0)) * e + tiny(r)
    m = num.within('t4.re:' + r, w.real, re, b, r) or num.within('t4.im:' + r, w.imag, im, b, r)
    return m


def _gen_pow1(g):
    rng = g.rng
    u = rng.random()
    sh0, sh1 = g.shapes
    if u < .3:
        x = rng.uniform(-1, 4, size=sh0)
    elif u < .7:
        x = rng.choice([-1, 1], size=sh0) * 10.0 ** rng.uniform(-18, 0, size=sh0)
    elif u < .8:
        x = rng.choice([0., -1., 1., -.5, 3., -2., 1e10], size=sh0)
    else:
        x = np.asarray(g.val(0, 'special'))
    y = rng.choice([0., 1., 2., -1., .5, 3., -3.], size=sh1) if rng.random() < .3 else \
        rng.normal(size=sh1) * 10.0 ** rng.uniform(-14, 2, size=sh1)
    if rng.random() < .05:
        y = np.asarray(g.val(1, 'special'))
    return [np.asarray(x).astype(g.it[0]), np.asarray(y).astype(g.it[1])]


@spec('pow1pm1', cid='C19', gen=_gen_pow1)
def pow1pm1(T, ins, outs):
    x, y, got, tc = ins[0], ins[1], outs[0], T[1]
    if not np.isfinite(x) or not np.isfinite(y):
        if np.isnan(x) or np.isnan(y):
            return 'skip' if x == 0 or y == 0 else num.isnan_msg(got)
        return 'skip'
    if x < -1:
        return 'skip' if y == 0 else num.isnan_msg(got)
    if x == -1:
        if y == 0:
            return num.exact_msg(got, 0.)
        return num.exact_msg(got, -1. if y > 0 else np.inf)
    X, Y = M(x), M(y)
    with mp.workprec(400):
        t = Y * mpmath.log1p(X)
    if t == 0:
        return num.exact_msg(got, 0.)
    e = eps(tc)
    if t > 12000 or t < -12000:
        return num.exact_msg(got, np.inf if t > 0 else -1.)
    if abs(t) < tiny(tc):
        return 'skip'
    ref = mpmath.expm1(t)
    return num.within('pow1pm1:' + tc, got, ref, e * (abs(ref) * 3 + 4 * abs(t) * mpmath.exp(t)), tc)


# ------------------------------------------------------------------------------- C20
@spec('logistic', cid='C20', gen=_gen1(-40, 40, (0, 709, -745, 88, -88, 11400)))
def logistic(T, ins, outs):
    x, got, tc = ins[0], outs[0], T[1]
    if np.isnan(x):
        return num.isnan_msg(got)
    if np.isinf(x) or abs(x) > 12000:
        return num.exact_msg(got, 1. if x > 0 else 0.)
    return rel('logistic', got, 1 / (1 + mpmath.exp(-M(x))), tc, 4)


@spec('logistic_deriv', cid='C20', gen=_gen1(-40, 40, (0, 709, -745, 88, -88, 11400)))
def logistic_deriv(T, ins, outs):
    x, got, tc = ins[0], outs[0], T[1]
    if np.isnan(x):
        return num.isnan_msg(got)
    if np.isinf(x) or abs(x) > 12000:
        return num.exact_msg(got, 0.)
    E = mpmath.exp(-abs(M(x)))
    return rel('logistic_deriv', got, E / (1 + E) ** 2, tc, 6)


@spec('log_logistic', cid='C20', gen=_gen1(-40, 40, (0, 709, -745, 88, -88, 11400)))
def log_logistic(T, ins, outs):
    x, got, tc = ins[0], outs[0], T[1]
    if np.isnan(x):
        return num.isnan_msg(got)
    if np.isinf(x):
        return num.exact_msg(got, 0. if x > 0 else -np.inf)
    X = M(x)
    E = mpmath.exp(-abs(X)) if abs(X) < 20000 else mpf(0)
    with mp.workprec(1000 if abs(X) < 600 else 200):
        L = mpmath.log1p(E)
    return rel('log_logistic', got, (X if X < 0 else 0) - L, tc, 4)


def _gen_two(lo, hi, plo, phi):
    def g_(g):
        rng = g.rng
        u = rng.random()
        x = g.uni(0, lo, hi) if u < .6 else np.asarray(g.fin(0)) if u < .8 else g.choice(0, [0., 1., -1., 2., -2., 1e-10, -1e-10, 50, -50])
        u = rng.random()
        p = g.uni(1, plo, phi) if u < .5 else g.choice(1, [0., 1., 2., .5, 3., 1e-3, 10.]) if u < .8 else np.asarray(g.fin(1, 'normal'))
        if rng.random() < .05:
            x = np.asarray(g.val(0, 'special'))
        if rng.random() < .03:
            p = np.asarray(g.val(1, 'special'))
        return [np.asarray(x, dtype=g.it[0]), np.asarray(p, dtype=g.it[1])]
    return g_


def _finite2(ins, outs):
    if any(np.isnan(v) for v in ins):
        return num.isnan_msg(outs[0]) or 'ok'
    if any(np.isinf(v) for v in ins):
        return 'skip'
    return None


@spec('swish', cid='C20', gen=_gen_two(-30, 30, -3, 3))
def swish(T, ins, outs):
    r = _finite2(ins, outs)
    if r:
        return None if r == 'ok' else r
    x, b, got, tc = ins[0], ins[1], outs[0], T[1]
    X, B = M(x), M(b)
    t = B * X
    if abs(t) > 11000:
        ref = X if t > 0 else mpf(0)
    else:
        ref = X / (1 + mpmath.exp(-t))
    # logistic() underflows to 0 when exp overflows, before it is multiplied by x
    return rel('swish', got, ref, tc, 5 + 2 * min(abs(t), mpf(20000)), extra=abs(X) * tiny(tc))


def _ramp_pre(ins, outs):
    x, a, got = ins[0], ins[1], outs[0]
    if np.isnan(x) and a < 0 or np.isnan(a) and x == 0:
        return 'skip'
    if np.isnan(a) or (np.isnan(x) and a != 0) or a < 0:
        return num.isnan_msg(got) or 'ok'
    if np.isnan(x) or np.isinf(a):
        return 'skip'
    if a == 0:
        return num.exact_msg(got, max(x, 0)) or 'ok'
    if np.isinf(x):
        return num.exact_msg(got, np.inf if x > 0 else 0.) or 'ok'
    return None


@spec('hyperbolic_ramp', cid='C20', gen=_gen_two(-10, 10, 0, 4))
def hyperbolic_ramp(T, ins, outs):
    r = _ramp_pre(ins, outs)
    if r:
        return None if r == 'ok' else r
    X, A, tc = M(ins[0]), M(ins[1]), T[1]
    z = abs(X / A)
    if z > fmax(tc) / 4 or (z and z < tiny(tc) * 4):
        return 'skip'
    with mp.workprec(260):
        s = mpmath.sqrt(X * X + 4 * A * A)
        ref = (X + s) / 2 if X > 0 else 2 * A * A / (s - X)
    return rel('hyperbolic_ramp', outs[0], ref, tc, 8, extra=A * tiny(tc) * 4)


@spec('exponential_ramp', cid='C20', gen=_gen_two(-30, 30, 0, 4))
def exponential_ramp(T, ins, outs):
    r = _ramp_pre(ins, outs)
    if r:
        return None if r == 'ok' else r
    X, A, tc = M(ins[0]), M(ins[1]), T[1]
    z = X / A
    if abs(z) > fmax(tc) / 4:
        return 'skip'
    if z < -17000:
        ref = mpf(0)
    elif z > 17000:
        ref = X
    else:
        with mp.workprec(300):
            L = mpmath.log1p(mpf(2) ** -abs(z)) / mpmath.ln(2) if abs(z) < 300 else mpf(2) ** -abs(z) / mpmath.ln(2)
        ref = (X if z > 0 else 0) + A * L
    return rel('exponential_ramp', outs[0], ref, tc, 6 + (abs(z) if -17000 <= z < 0 else 0), extra=A * tiny(tc) * 4)


def _gen_yj(g):
    rng = g.rng
    u = rng.random()
    x = g.uni(0, -5, 5) if u < .5 else np.asarray(g.cast(0, rng.normal(size=g.shapes[0]) * 10.0 ** rng.uniform(-12, 4, size=g.shapes[0])))
    if rng.random() < .15:
        x = g.choice(0, [0., -0., 1., -1., 1e-20, -1e-20])
    if rng.random() < .06:
        x = np.asarray(g.val(0, 'special'))
    u = rng.random()
    lam = g.uni(1, -3, 5) if u < .5 else g.choice(1, [0., 1., 2., -1., 3., .5, 1e-8, 2 - 1e-8, -1e-8, 2 + 1e-6, -0.]) if u < .9 \
        else np.asarray(g.cast(1, 10.0 ** rng.uniform(-12, 1, size=g.shapes[1])))
    if rng.random() < .12:
        # next to 0 and 2, at any distance
        k = rng.uniform(4, 62, size=g.shapes[1])
        lam = g.cast(1, rng.choice([0., 2.], size=g.shapes[1]) + rng.choice([-1, 1], size=g.shapes[1]) * 2.0 ** -k)
    return [np.asarray(x, dtype=g.it[0]), np.asarray(lam, dtype=g.it[1])]


@spec('yeo_johnson', cid='C20', gen=_gen_yj)
def yeo_johnson(T, ins, outs):
    x, lam, got, tc = ins[0], ins[1], outs[0], T[1]
    if np.isnan(x) or np.isnan(lam):
        return 'skip' if x == 0 or lam in (0, 2) else num.isnan_msg(got)
    if np.isinf(lam):
        return 'skip'
    X, A = M(x), M(lam)
    sg = 1
    if x < 0:
        X, A, sg = -X, 2 - A, -1
    e = eps(tc)
    if np.isinf(x):
        if A < 0:
            return num.within('yj.inf', got, sg * (-1 / A), abs(1 / A) * e * (4 + (8 / abs(A) if sg < 0 else 0)), tc)
        return num.exact_msg(got, sg * np.inf)
    with mp.workprec(260):
        L = mpmath.log1p(X)
        if A == 0:
            ref, b = L, L * e * 2
        else:
            t = A * L
            if t > 11900:
                return num.exact_msg(got, sg * np.inf)
            if 0 < abs(t) < tiny(tc) * 4:
                return 'skip'
            # the rounding error of 2 - lambda counts when x < 0 (the difference is exact for 1 <= lambda <= 4)
            da = e * 2 * (max(abs(A), 2) / abs(A) if sg < 0 and not 1 <= lam <= 4 else 1)
            if da > mpf('1e-3'):
                return 'skip'
            ex = mpmath.exp(t)
            ref = mpmath.expm1(t) / A
            b = abs(ref) * e * 8 + abs(t * ex / A) * 2 * (da + 2 * e) + (abs(t * ex / A - ref)) * 2 * da
    return num.within('yj', got, sg * ref, b + tiny(tc), tc)


@spec('inv_yeo_johnson', cid='C20', gen=_gen_yj)
def inv_yeo_johnson(T, ins, outs):
    x, lam, got, tc = ins[0], ins[1], outs[0], T[1]
    if np.isnan(x) or np.isnan(lam):
        return 'skip' if x == 0 or lam in (0, 2) else num.isnan_msg(got)
    if np.isinf(lam) or np.isinf(x):
        return 'skip'
    X, A = M(x), M(lam)
    sg = 1
    if x < 0:
        X, A, sg = -X, 2 - A, -1
    e = eps(tc)
    with mp.workprec(260):
        if A == 0:
            if X > 11900:
                return num.exact_msg(got, sg * np.inf)
            ref = mpmath.expm1(X)
            b = ref * e * 4
        else:
            y = A * X
            if 0 < abs(y) < tiny(tc) * 4 or abs(y) > fmax(tc) / 4:
                return 'skip'
            q = 1 + y
            da = e * 2 * (max(abs(A), 2) / abs(A) if sg < 0 and not 1 <= lam <= 4 else 1)
            # dt: error of log1p(A x)/A caused by the roundings
            if q <= 0:
                return num.isnan_msg(got) if q < -8 * (e + da) else 'skip'
            if y < 0 and q < 64 * (e + da):
                return 'skip'
            t = mpmath.log1p(y) / A
            dt = abs(y / q / A) * (e + da) + abs(t) * (3 * e + da)
            if dt > mpf('1e-3'):
                return 'skip'
            if t > 11900:
                return num.exact_msg(got, sg * np.inf)
            ref = mpmath.expm1(t)
            b = abs(ref) * e * 4 + mpmath.exp(t) * dt * 2
    return num.within('iyj', got, sg * ref, b + tiny(tc), tc)
