"""Exact views of NumPy scalars, and error measures against exact / high precision references."""
import math
from fractions import Fraction

import numpy as np
import mpmath

mpmath.mp.prec = 200
mpf = mpmath.mpf

EPS = {'e': Fraction(1, 2**10), 'f': Fraction(1, 2**23), 'd': Fraction(1, 2**52),
       'g': Fraction(1, 2**63),
       'F': Fraction(1, 2**23), 'D': Fraction(1, 2**52), 'G': Fraction(1, 2**63)}
FMAX = {tc: Fraction(*np.finfo(tc).max.as_integer_ratio()) for tc in 'efdg'}
TINY = {tc: Fraction(*np.finfo(tc).tiny.as_integer_ratio()) for tc in 'efdg'}   # smallest normal
SUB = {tc: Fraction(*np.finfo(tc).smallest_subnormal.as_integer_ratio()) for tc in 'efdg'}


def frac(x):
    """Exact Fraction of a finite NumPy/Python real scalar."""
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, (np.integer, np.bool_)):
        return Fraction(int(x))
    return Fraction(*x.as_integer_ratio())


def F2mp(q):
    if isinstance(q, mpmath.mpf):
        return q
    return mpf(q.numerator) / mpf(q.denominator)


def tomp(x):
    """mpf of a real scalar (nan/inf allowed)."""
    if isinstance(x, (int, np.integer)):
        return mpf(int(x))
    if np.isnan(x):
        return mpf('nan')
    if np.isinf(x):
        return mpf('inf') if x > 0 else mpf('-inf')
    n, d = x.as_integer_ratio()
    return mpf(n) / mpf(d)


def mp2F(m):
    """Fraction of a finite mpf."""
    s, man, exp, bc = m._mpf_
    v = Fraction(int(man)) * (Fraction(2) ** int(exp))
    return -v if s else v


def round_to(q, tc):
    """Correctly rounded (nearest even) NumPy scalar of dtype tc for Fraction q (may be inf)."""
    t = np.dtype(tc).type
    if q == 0:
        return t(0)
    p = {'e': 11, 'f': 24, 'd': 53, 'g': 64}[tc]
    neg = q < 0
    q = abs(q)
    # exponent with 2**(p-1) <= q*2**-e < 2**p
    e = q.numerator.bit_length() - q.denominator.bit_length() - p
    while q / Fraction(2) ** e >= 2 ** p:
        e += 1
    while q / Fraction(2) ** e < 2 ** (p - 1):
        e -= 1
    emin = {'e': -24, 'f': -149, 'd': -1074, 'g': -16445}[tc]
    e = max(e, emin)
    m = q / Fraction(2) ** e
    k = m.numerator // m.denominator
    r = m - k
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and k % 2):
        k += 1
    # k <= 2**64: build exactly
    v = Fraction(k) * Fraction(2) ** e
    if v > FMAX[tc]:
        return t(-np.inf) if neg else t(np.inf)
    hi, lo = k >> 32, k & 0xffffffff
    with np.errstate(all='ignore'):
        x = np.ldexp(np.longdouble(hi), e + 32) + np.ldexp(np.longdouble(lo), e)
        x = t(x)
    return -x if neg else x


def same(a, b):
    """Identical as values, NaN == NaN; zeros of either sign equal."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    return bool(np.all(a == b))


def bits(a):
    """Identity up to NaN payloads and the padding bytes of longdouble: sign of zero matters."""
    a = np.asarray(a)
    return a


def identical(a, b):
    """same() and the signs of zeros agree."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == 'f':
        nan = (a != a) & (b != b)
        return bool(np.all(nan | ((a == b) & (np.signbit(a) == np.signbit(b)))))
    if a.dtype.kind == 'c':
        return identical(a.real, b.real) and identical(a.imag, b.imag)
    if a.dtype.kind == 'O':
        return all(type(x) is type(y) and (x == y or x is y or (x != x and y != y))
                   for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    return bool(np.array_equal(a, b))


def err_ulps(x, ref, tc, scale=None):
    """|x - ref| in units of eps * max(|ref|, scale, smallest normal); math.inf when the classes
    (nan / inf / finite) differ.  ref: Fraction or mpf.  Results that overflow in dtype tc may be
    inf, and results up to a few ulps below overflow too."""
    tc = tc.lower()
    if isinstance(ref, mpmath.mpf):
        if mpmath.isnan(ref):
            return 0.0 if np.isnan(x) else math.inf
        if mpmath.isinf(ref):
            return 0.0 if (np.isinf(x) and (x > 0) == (ref > 0)) else math.inf
        ref = mp2F(ref)
    if np.isnan(x):
        return math.inf
    if np.isinf(x):
        lim = FMAX[tc] * (1 - 64 * EPS[tc])
        ok = (ref >= lim) if x > 0 else (ref <= -lim)
        return 0.0 if ok else math.inf
    if abs(ref) > FMAX[tc]:
        # finite result for a reference just above the range
        pass
    s = max(abs(ref), TINY[tc], Fraction(0) if scale is None else scale)
    q = abs(frac(x) - ref) / (EPS[tc] * s)
    try:
        return float(q)
    except OverflowError:
        return math.inf


def show(*arrs):
    out = []
    with np.printoptions(threshold=60, precision=25, floatmode='unique', linewidth=160):
        for a in arrs:
            if isinstance(a, np.ndarray):
                out.append(f'{a.dtype}{a.shape}strides{a.strides}:{a!r}')
            else:
                out.append(repr(a))
    return '\n   '.join(out)


# --------------------------------------------------------------------------- calibration
TRACK = {}


def within(name, x, ref, bound, tc, digits=12):
    """None when |x - ref| <= bound (absolute, Fraction or mpf; ref and bound both of the same
    kind), else a message.  Results may overflow to inf when the reference is within the bound of
    the overflow threshold, and lose precision below the smallest normal number."""
    tc = tc.lower()
    fmax = FMAX[tc]
    bound = bound + (F2mp(8 * SUB[tc]) if isinstance(ref, mpmath.mpf) else 8 * SUB[tc])
    if np.isnan(x):
        return f'expected {mpmath.nstr(F2mp(ref), digits)}'
    if np.isinf(x):
        ok = (abs(ref) + bound >= fmax_of(ref, tc)) and ((ref > 0) == (x > 0))
        return None if ok else f'expected {mpmath.nstr(F2mp(ref), digits)}'
    v = tomp(x) if isinstance(ref, mpmath.mpf) else frac(x)
    e = abs(v - ref)
    if bound > 0:
        r = float(F2mp(e) / F2mp(bound)) if not isinstance(ref, mpmath.mpf) else float(e / bound)
        if r > TRACK.get(name, 0):
            TRACK[name] = r
    if e <= bound:
        return None
    return (f'expected {mpmath.nstr(F2mp(ref), 25)}, error {mpmath.nstr(F2mp(e), 4)} exceeds '
            f'{mpmath.nstr(F2mp(bound), 4)}')


def fmax_of(ref, tc):
    return F2mp(FMAX[tc]) if isinstance(ref, mpmath.mpf) else FMAX[tc]


def meps(tc):
    return F2mp(EPS[tc.lower()])


def isnan_msg(x):
    return None if np.isnan(x) else 'expected nan'


def exact_msg(x, want):
    return None if same(np.asarray(x), np.asarray(want)) else f'expected {want!r}'
