"""Reference semantics: piecewise elementwise functions."""
import mpmath
import numpy as np

from vlib import gen, num
from vlib.engine import spec
from vlib.specs_b import F
from vlib.specs_c import M, eps, tiny, fmax, rel

mp = mpmath.mp
mpf = mpmath.mpf


def _pick(g, i, refs, lo=-4, hi=4):
    """Values for input i: some equal to one of the reference arrays, some next to them."""
    rng, t = g.rng, g.it[i]
    sh = g.shapes[i]
    return np.asarray(rng.uniform(lo, hi, size=sh)).astype(t)


def _small(rng, sh, t):
    u = rng.random()
    if u < .35:
        a = rng.integers(-4, 5, size=sh)
    elif u < .7:
        a = rng.normal(size=sh) * 3
    elif u < .8:
        a = np.round(rng.normal(size=sh) * 8) / 8
    elif u < .9:
        a = rng.normal(size=sh) * 10.0 ** rng.uniform(-12, 12, size=sh)
    else:
        a = rng.normal(size=sh) * 10.0 ** float(rng.integers(-30, 30))
    a = np.asarray(a).astype(t)
    if t == 'g':
        a = np.asarray(a * (1 + np.asarray(rng.integers(-400, 401, size=sh)).astype('g') * np.longdouble(2) ** -62))
    return np.asarray(a, dtype=t)


def _gen_piece(nf, breaks, order=.8):
    """Input 0 is the argument, breaks the indices of the break points (mostly increasing)."""
    def g_(g):
        rng = g.rng
        out = [_small(rng, g.shapes[i], g.it[i]) for i in range(nf)]
        if rng.random() < order and all(g.shapes[i] == g.shapes[breaks[0]] for i in breaks):
            s = np.sort(np.stack([out[i] for i in breaks]), axis=0)
            for k, i in enumerate(breaks):
                out[i] = np.asarray(s[k])
        elif rng.random() < .9:
            # scalar-like break points: sort along the flattened arrays
            for k, i in enumerate(breaks):
                out[i] = np.asarray((np.abs(out[i]) + 1e-3) * (1 if k else -1) if len(breaks) == 2
                                    else (np.abs(out[i]) % 2 + 2 * k - 3)).astype(g.it[i])
        x = out[0]
        u = rng.random()
        if u < .6 and x.size:
            # place the argument inside, at, or one ulp from a break point
            idx = [tuple(rng.integers(0, d) for d in x.shape) for _ in range(1 + x.size // 2)]
            for ix in idx:
                b = [out[i].reshape(-1)[int(rng.integers(0, max(1, out[i].size)))] for i in breaks if out[i].size]
                if len(b) < 2:
                    break
                v = b[int(rng.integers(0, len(b)))]
                w = rng.random()
                if w < .3:
                    v = v
                elif w < .5:
                    v = np.nextafter(v, v + rng.choice([-1, 1]))
                else:
                    w = np.dtype(g.it[0]).type(rng.random() if w < .8 else 2.0 ** -rng.uniform(1, 60))
                    if rng.random() < .5:
                        b = b[::-1]
                    v = b[0] * (1 - w) + b[-1] * w
                x[ix] = v
        if rng.random() < .12:
            # the whole picture scaled: positions by one power of two, values by another
            lim = {'f': 100, 'd': 900, 'g': 14000}
            kx, ky = rng.uniform(-1, 1, size=2) * (1 if rng.random() < .6 else .3)
            for i in range(nf):
                t = np.dtype(g.it[i])
                if t.char in lim:
                    with np.errstate(all='ignore'):
                        out[i] = np.asarray(np.ldexp(out[i], int((kx if i == 0 or i in breaks else ky) * lim[t.char])), dtype=t)
        for i in range(nf):
            if rng.random() < .03 and out[i].size:
                out[i] = np.array(out[i])
                out[i].reshape(-1)[int(rng.integers(0, out[i].size))] = rng.choice([np.nan, np.inf, -np.inf])
        return out
    return g_


def anynan(*v):
    return any(np.isnan(x) for x in v)


def anyinf(*v):
    return any(np.isinf(x) for x in v)


@spec('deadzone', cid='C21', gen=_gen_piece(3, [1, 2]))
def deadzone(T, ins, outs):
    x, lo, hi = ins
    if anynan(x, lo, hi) or lo > hi:
        return 'skip'
    return num.exact_msg(outs[0], x - lo if x < lo else x - hi if x > hi else 0.)


def _gen_step(g):
    out = [_small(g.rng, g.shapes[i], g.it[i]) for i in range(5)]
    if g.rng.random() < .5:
        out[1] = np.asarray(np.round(out[1] % 3)).astype(g.it[1])
        out[0] = np.asarray(np.round(out[0] % 3)).astype(g.it[0])
    for i in (0, 1, 2, 3, 4):
        if g.rng.random() < .1 and out[i].size:
            out[i] = np.array(out[i])
            out[i].reshape(-1)[0] = g.rng.choice([np.inf, -np.inf, -0., 0.])
    return out


@spec('step', cid='C21', gen=_gen_step)
def step(T, ins, outs):
    x, a, lo, fa, hi = ins
    return num.exact_msg(outs[0], lo if x < a else hi if x > a else fa)


def _stepfn(name, poly, K):
    @spec(name, cid='C21', gen=_gen_piece(5, [1, 2]))
    def chk(T, ins, outs):
        x, a, b, fa, fb = ins
        got, tc = outs[0], T[1]
        if anynan(a, b, fa, fb):
            return 'skip'
        if a > b:
            return num.isnan_msg(got)
        if np.isnan(x):
            return 'skip' if a == b else num.isnan_msg(got)
        if a == b and x == a:
            return 'skip'
        if x <= a:
            return num.exact_msg(got, fa)
        if x >= b:
            return num.exact_msg(got, fb)
        if anyinf(a, b, fa, fb):
            return 'skip'
        X, A, B, FA, FB = map(M, ins)
        if max(abs(A), abs(B), abs(FA), abs(FB)) > fmax(tc) / 16:
            return 'skip'
        u = (X - A) / (B - A)
        ref = FA + (FB - FA) * poly(u)
        return num.within(name, got, ref, eps(tc) * (4 * abs(FA) + K * (abs(FA) + abs(FB)) * poly(u)) + tiny(tc), tc)
    return chk


_stepfn('linearstep', lambda u: u, 4)
_stepfn('smoothstep3', lambda u: u * u * (3 - 2 * u), 12)
_stepfn('smoothstep5', lambda u: u ** 3 * (10 + u * (6 * u - 15)), 64)


@spec('invsmoothstep3', cid='C21', gen=_gen_piece(5, [3, 4], order=.5))
def invsmoothstep3(T, ins, outs):
    y, a, b, fa, fb = ins
    got, tc = outs[0], T[1]
    if anynan(a, b, fa, fb) or anyinf(a, b, fa, fb):
        return 'skip'
    if fa == fb or np.isnan(y):
        return num.isnan_msg(got)
    if y == fa:
        return num.exact_msg(got, a)
    if y == fb:
        return num.exact_msg(got, b)
    if y > max(fa, fb) or y < min(fa, fb):
        return num.isnan_msg(got)
    Y, A, B, FA, FB = map(M, ins)
    if max(abs(A), abs(B), abs(FA), abs(FB)) > fmax(tc) / 16:
        return 'skip'
    t = (Y - FA) / (FB - FA)
    s = mpf(.5) - mpmath.sin(mpmath.asin(1 - 2 * t) / 3)
    e = eps(tc)
    ds = 4 * e * (1 + 1 / (s * (1 - s) + mpmath.sqrt(e)))
    ref = A + (B - A) * s
    return num.within('invsmoothstep3', got, ref, 3 * e * (abs(A) + abs(B)) + abs(B - A) * ds + tiny(tc), tc)


@spec('trapezoid_pulse', cid='C21', gen=_gen_piece(6, [1, 2, 3, 4]))
def trapezoid_pulse(T, ins, outs):
    x, a, b, c, d, amp = ins
    got, tc = outs[0], T[1]
    if not (a <= b <= c <= d):
        return num.isnan_msg(got)
    if np.isnan(x):
        return num.isnan_msg(got)
    if x < a or x > d:
        return num.exact_msg(got, 0.)
    if (x == a and a == b) or (x == d and c == d):
        return 'skip'
    if x == a or x == d:
        return num.exact_msg(got, 0.)
    if b <= x <= c:
        return num.exact_msg(got, amp)
    if anyinf(a, b, c, d, amp) or anynan(amp):
        return 'skip'
    X, A, B, C, D, P = map(M, ins)
    if max(abs(A), abs(B), abs(C), abs(D)) > fmax(tc) / 16:
        return 'skip'
    r = (X - A) / (B - A) if x < b else (D - X) / (D - C)
    if r < tiny(tc):
        return 'skip'
    return rel('trapezoid_pulse', got, P * r, tc, 4, extra=abs(P) * tiny(tc))


def _gen_semivar(g):
    rng = g.rng
    out = [np.abs(_small(rng, g.shapes[i], g.it[i])) for i in range(4)]
    u = rng.random()
    if u < .7:
        for i in range(4):
            out[i] = g.cast(i, rng.uniform(.01, 4, size=g.shapes[i]))
        if rng.random() < .4:
            out[0] = g.cast(0, rng.integers(0, 5, size=g.shapes[0]))
            out[3] = g.cast(3, rng.integers(1, 5, size=g.shapes[3]))
    if rng.random() < .3 and len(g.shapes[3]) == 0:        # next to the range
        out[0] = g.cast(0, out[3] * (1 + rng.choice([0, 1, -1], size=g.shapes[0]) * 2.0 ** -rng.uniform(0, 55, size=g.shapes[0])))
    if rng.random() < .06 and out[0].size:
        out[0] = np.array(out[0])
        out[0].reshape(-1)[0] = rng.choice([np.nan, np.inf, 0.])
    return out


def _semivar(name, fn, cap):
    @spec('semivar.' + name, cid='C21', gen=_gen_semivar)
    def chk(T, ins, outs):
        h, nug, sill, rng = ins
        got, tc = outs[0], T[1]
        if anynan(nug, sill, rng) or anyinf(nug, sill, rng) or rng <= 0 or h < 0:
            return 'skip'
        if np.isnan(h):
            return num.isnan_msg(got)
        H, N, S, R = [M(v) for v in ins]
        if max(N, S) > fmax(tc) / 16:
            return 'skip'
        if np.isinf(h):
            return num.within('semivar', got, S, eps(tc) * 4 * (N + S), tc)
        if cap and h > rng:
            return num.exact_msg(got, sill)
        t = H / R
        # h/range and (sill - nugget)/range must be in range to be formed at all
        if 3 * t > fmax(tc) / 4 or 3 * H > fmax(tc) / 4 or abs(S - N) / R > fmax(tc) / 4 or (abs(S - N) / R < tiny(tc) and S != N):
            return 'skip'
        ref = N + (S - N) * fn(t)
        return num.within('semivar.' + name, got, ref, eps(tc) * (4 * N + (10 * (N + S) * fn(t) if cap else 4 * (N + S))) + tiny(tc), tc)
    return chk


_semivar('exponential', lambda t: 1 - mpmath.exp(-3 * t), False)
_semivar('linear', lambda t: t, True)
_semivar('spherical', lambda t: t * (3 - t * t) / 2, True)
_semivar('parabolic', lambda t: t * (2 - t), True)


def _gen_hypot(g):
    rng = g.rng
    out = []
    c = rng.random()
    for i in range(3):
        if c < .5:
            a = np.asarray(g.fin(i))
        elif c < .7:
            a = _small(rng, g.shapes[i], g.it[i])
        else:
            a = np.asarray(g.val(i, 'special'))
        if rng.random() < .15:
            a = np.zeros_like(a)
        out.append(a)
    return out


@spec('hypot3', cid='C21', gen=_gen_hypot)
def hypot3(T, ins, outs):
    got, tc = outs[0], T[1]
    if anyinf(*ins):
        return num.exact_msg(got, np.inf)
    if anynan(*ins):
        return num.isnan_msg(got)
    X = list(map(M, ins))
    with mp.workprec(250):
        m = max(map(abs, X))
        ref = m * mpmath.sqrt(sum((v / m) ** 2 for v in X)) if m else mpf(0)
    return num.within('hypot3', got, ref, ref * eps(tc) * 4, tc)


def _abs2(name):
    @spec(name, cid='C21')
    def chk(T, ins, outs):
        z, got, tc = ins[0], outs[0], T[1]
        if T[0] in 'FDG':
            if np.isnan(z.real) or np.isnan(z.imag):
                # inf + nan is nan: the square is computed term by term
                return num.isnan_msg(got)
            if np.isinf(z.real) or np.isinf(z.imag):
                return num.exact_msg(got, np.inf)
            ref = M(z.real) ** 2 + M(z.imag) ** 2
            k = 2
        else:
            if np.isnan(z):
                return num.isnan_msg(got)
            if np.isinf(z):
                return num.exact_msg(got, np.inf)
            ref, k = M(z) ** 2, 1
        return num.within(name, got, ref, ref * eps(tc) * k, tc)
    return chk


_abs2('abs_squared')
_abs2('abssq')
