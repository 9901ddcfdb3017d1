"""The scripts that write the C code of debye1 and erfcx: whatever intervals, orders, bounds and numbers of terms they are
given, the code that they write is compiled, run over its whole range, and compared with the function in high precision."""
import ctypes
import importlib.util
import io
import os
import shutil
import subprocess
import sys
import tempfile
from contextlib import redirect_stdout

import mpmath
import numpy as np
from mpmath import mp, mpf

from vlib import build
from vlib.specs_c import M, _erfcx_ref, debye1_ref


DEBYE = os.path.join(build.REPO, 'src', 'debye1', 'generate_debye1_c.py')
ERFCX = os.path.join(build.REPO, 'src', 'normal', 'generate_erfcx_code.py')
EPS = {t: M(np.finfo(t).eps) for t in 'fdg'}
CT = {'f': 'float', 'd': 'double', 'g': 'long double'}


def load(path):
    s = importlib.util.spec_from_file_location('gen_' + os.path.basename(path)[:-3], path)
    m = importlib.util.module_from_spec(s)
    with mp.workdps(mp.dps):
        dps = mp.dps
        s.loader.exec_module(m)
        mp.dps = dps
    return m


class Lib:
    """A compiled file; call(name, type, x) evaluates a function of one variable over an array."""

    def __init__(self, d, text, fns, cxx=False, extra=''):
        src = os.path.join(d, 'unit.' + ('cxx' if cxx else 'c'))
        with open(src, 'w') as f:
            f.write(text + '\n' + extra + '\n')
            f.write('extern "C" {\n' if cxx else '')
            for name, t in fns:
                c = CT[t]
                f.write(f'void run_{name}_{t}(const {c} *p, {c} *q, long n) {{ for (long i = 0; i < n; ++i) q[i] = {name}(p[i]); }}\n')
            f.write('}\n' if cxx else '')
        so = os.path.join(d, 'unit.so')
        p = subprocess.run((['g++', '-std=c++17'] if cxx else ['gcc', '-std=c99']) + ['-O1', '-fPIC', '-shared', '-o', so, src, '-lm'],
                           capture_output=True, text=True, timeout=300)
        self.error = p.stderr if p.returncode else None
        if not self.error:
            self.lib = ctypes.CDLL(so)

    def call(self, name, t, x):
        x = np.ascontiguousarray(x, dtype=t)
        y = np.full(x.shape, -77, dtype=t)
        f = getattr(self.lib, f'run_{name}_{t}')
        f.restype = None
        f(x.ctypes.data_as(ctypes.c_void_p), y.ctypes.data_as(ctypes.c_void_p), ctypes.c_long(x.size))
        return y


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='c34')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def around(rng, x0, x1, n, t='d'):
    """Points of [x0, x1), its ends and their neighbours included."""
    lo, hi = np.dtype(t).type(x0), np.dtype(t).type(x1)
    p = [lo, np.nextafter(lo, hi), np.nextafter(hi, lo), (lo + hi) / 2]
    p += [lo + (hi - lo) * np.dtype(t).type(u) for u in rng.random(n)]
    return np.array([v for v in p if x0 <= v < x1], dtype=t)


# ---- debye1

def horner_bound(poly, x):
    """The rounding error of Horner's rule with the coefficients rounded to double."""
    s = mpf(0)
    for c in poly:                       # highest power first
        s = s * abs(x) + abs(c)
    return s * (2 * len(poly) + 4) * EPS['d'] / 2


def worst(fn, poly, a, b):
    """The largest error of the polynomial on [a, b], ends included."""
    return max(abs(fn(x) - mp.polyval(poly, x)) for x in mpmath.linspace(a, b, 4 * len(poly) + 5))


def intervals(ctx, case, m):
    rng = case.rng
    edges = [0.0]
    spec = []
    for i in range(int(rng.integers(1, 4))):
        b = edges[-1] + float(rng.choice([.5, 1, 2, 2.5, 5, 7.3, 10]))
        edges.append(b)
        spec.append((edges[i], b, int(rng.integers(1, 7)), int(rng.integers(2, 9)), bool(i and rng.random() < .5)))
    if rng.random() < .3:
        spec = [(int(a) if a == int(a) else a, int(b) if b == int(b) else b, *r) for a, b, *r in spec]
    ctx.note(repr(spec))
    ctx.sample(f'debye1 intervals {spec}', 4)
    dps = mp.dps
    f = io.StringIO()
    m.mp_debye1 = debye1_ref
    try:
        with redirect_stdout(io.StringIO()):
            m.generate_code(f, spec)
    finally:
        mp.dps = dps
    with Scratch() as d, mp.workdps(60):
        lib = Lib(d, f.getvalue(), [('debye1', 'd')])
        if lib.error:
            ctx.fail('debye1:compile', f'intervals {spec}: the generated file does not compile\n{lib.error[:1500]}')
            return
        ctx.count('interval lists')
        for a, b, n, order, scale in spec:
            ed = mpmath.linspace(mpf(a), mpf(b), n + 1)
            for k in range(n):
                fn = (lambda t: t * debye1_ref(t)) if scale else debye1_ref
                poly = mp.chebyfit(fn, [ed[k], ed[k + 1]], order)
                err = worst(fn, poly, ed[k], ed[k + 1])
                xs = around(rng, float(ed[k]), float(ed[k + 1]), 5)
                # (the index is computed in floating point, so that a neighbour may be evaluated by the next polynomial)
                xs = np.array([x for x in xs if min(abs(M(x) - ed[k]), abs(M(x) - ed[k + 1])) > 4e-15 * (1 + abs(x)) or n == 1
                               and a <= x < b])
                for sign in (1, -1):
                    ys = lib.call('debye1', 'd', sign * xs)
                    for x, y in zip(sign * xs, ys):
                        X = abs(M(x))
                        ref = debye1_ref(X)
                        tol = mpf('1.2') * err + horner_bound(poly, X)
                        if scale:
                            tol = tol / X
                        tol += 4 * EPS['d'] * abs(ref)
                        if x < 0:
                            ref += X / 2
                            tol += 2 * EPS['d'] * ref
                        ctx.ev()
                        if not abs(M(y) - ref) <= tol:
                            ctx.fail('debye1:value', f'intervals {spec}: debye1({x!r}) is {y!r}, expected {mpmath.nstr(ref, 20)} to within {mpmath.nstr(tol, 3)}')
                            return
                ctx.count('subintervals')
                ctx.distinct('debye1', a, b, n, order, scale, k)
        b = float(spec[-1][1])
        xs = np.array([b, b * 1.5, 1e3, 1e300, np.inf])
        ys = lib.call('debye1', 'd', xs)
        for x, y in zip(xs, ys):
            want = 0. if np.isinf(x) else mp.pi ** 2 / 6 / M(x)
            if not abs(M(y) - want) <= 4 * EPS['d'] * want:
                ctx.fail('debye1:asymptotic', f'intervals {spec}: debye1({x!r}) is {y!r}, expected {mpmath.nstr(want, 20)}')
                return


def polynomial(ctx, case, m):
    rng = case.rng
    n = int(rng.integers(1, 13))
    co = [float(v) for v in rng.normal(size=n) * 10. ** rng.integers(-12, 6, size=n)]
    if rng.random() < .3:
        co[int(rng.integers(0, n))] = 0.0
    scale = bool(rng.random() < .5)
    comment = [None, 'one line', 'two\nlines', 'with // slashes'][int(rng.integers(0, 4))]
    name = f'p_{int(rng.integers(0, 1000))}'
    f = io.StringIO()
    m.generate_polynomial_function(f, name, [mpf(c) for c in co], scale, comment=comment)
    ctx.note(f'{name} {co} {scale} {comment!r}')
    with Scratch() as d, mp.workdps(60):
        lib = Lib(d, f.getvalue(), [(name, 'd')])
        if lib.error:
            ctx.fail('polynomial:compile', f'{co} scale {scale} comment {comment!r}: does not compile\n{f.getvalue()}\n{lib.error[:900]}')
            return
        xs = np.concatenate([rng.uniform(-3, 3, 6), rng.uniform(-40, 40, 6)])
        for x, y in zip(xs, lib.call(name, 'd', xs)):
            X = M(x)
            ref = sum(M(c) * X ** k for k, c in enumerate(co[::-1]))      # coefficients from the highest power on, as chebyfit gives them
            tol = horner_bound([M(c) for c in co], X)
            if scale:
                ref, tol = ref / X, tol / abs(X) + 2 * EPS['d'] * abs(ref / X)
            ctx.ev()
            if not abs(M(y) - ref) <= tol:
                ctx.fail('polynomial:value', f'coefficients {co} (highest power first) scale {scale} at {x!r}: {y!r}, expected {mpmath.nstr(ref, 20)}\n{f.getvalue()}')
                return
        ctx.count('polynomials')
        ctx.distinct('poly', *co, scale)


def quadrature(ctx, case, real):
    rng = case.rng
    x = [0.0, float(rng.uniform(0, 3)), float(rng.uniform(0, 60)), 10. ** rng.uniform(-8, 1.5)][case.index % 4]
    ctx.note(repr(x))
    with mp.workdps(60):
        got, ref = real(mpf(x)), debye1_ref(M(x))
        ctx.ev()
        ctx.count('quadrature')
        ctx.distinct('quad', x)
        if not abs(got - ref) <= mpf('1e-15') * ref:
            ctx.fail('debye1:mp', f'mp_debye1({x!r}) is {mpmath.nstr(got, 25)}, expected {mpmath.nstr(ref, 25)}')


FAST = '''
import sys
sys.path.extend({path!r})
import runpy
import mpmath
from mpmath import mp, mpf
real = mp.quad
def quad(f, pts, *a, **k):
    # the integral of t/(exp(t) - 1) in closed form; anything else is left to the library
    if len(pts) == 2 and pts[0] == 0 and pts[1] > 0:
        x = mpf(pts[1])
        if all(abs(f(x*c) - x*c/mp.expm1(x*c)) < mpf(10)**-40 for c in (mpf(1)/3, mpf(5)/7)):
            return x*ref(x)
    return real(f, pts, *a, **k)
sys.path.insert(0, {verif!r})
from vlib.specs_c import debye1_ref as ref
mp.quad = mpmath.quad = quad
runpy.run_path({script!r}, run_name='__main__')
'''


def scripts(ctx, case):
    """Each script as it is used, in a directory of its own."""
    which = ['erfcx', 'debye1'][case.index % 2]
    rng = case.rng
    ctx.note('script ' + which)
    with Scratch() as d, mp.workdps(60):
        if which == 'erfcx':
            code = f'import sys, runpy\nsys.path.extend({sys.path!r})\nrunpy.run_path({ERFCX!r}, run_name="__main__")\n'
        else:
            code = FAST.format(path=sys.path, verif=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), script=DEBYE)
        try:
            p = subprocess.run([sys.executable, '-B', '-c', code], cwd=d, capture_output=True, text=True, timeout=250)
        except subprocess.TimeoutExpired:
            ctx.count('not_judged')
            ctx.count('script:' + which)
            return
        names = ['erfcx_funcs.cxx', 'erfcx_funcs.h'] if which == 'erfcx' else ['debye1_generated.c', 'debye1_generated.h']
        if p.returncode or any(not os.path.exists(os.path.join(d, n)) for n in names):
            ctx.fail(which + ':script', f'the script ends with {p.returncode} and leaves {os.listdir(d)}\n{p.stderr[-1500:]}')
            return
        inc = f'#include "{names[1]}"\n#include "{names[1]}"\n#include "{names[0]}"\n'
        fns = [('erfcx', t) for t in 'fdg'] if which == 'erfcx' else [('debye1', 'd')]
        lib = Lib(d, inc, fns, cxx=which == 'erfcx')
        if lib.error:
            ctx.fail(which + ':script', f'what the script writes does not compile\n{lib.error[:1500]}')
            return
        ctx.count('script:' + which)
        if which == 'erfcx':
            for t in 'fdg':
                erfcx_points(ctx, rng, lib, t, 400, f'the committed parameters, type {t}', {'f': 5., 'd': 50., 'g': 100.}[t], None)
        else:
            xs = np.concatenate([rng.uniform(0, 45, 700), np.arange(0, 41, .2), np.nextafter(np.arange(.2, 41, .2), 0), [1e-300, 0, 1e10]])
            for s in (1, -1):
                for x, y in zip(s * xs, lib.call('debye1', 'd', s * xs)):
                    ref = debye1_ref(M(x))
                    a = abs(x)
                    k = 5 if a < 3.9 else 20 if a < 5.9 else 90 if a < 13 else 25 if a < 15.5 else 6
                    ctx.ev()
                    ctx.distinct('script', x)
                    if not abs(M(y) - ref) <= (k + 2) * EPS['d'] * ref:
                        ctx.fail('debye1:script', f'the generated debye1({x!r}) is {y!r}, expected {mpmath.nstr(ref, 20)}')
                        return


# ---- erfcx

def cf(x):
    return 1 / mpmath.sqrt(mp.pi) / (x + mpf(1) / 2 / (x + 1 / (x + mpf(3) / 2 / (x + 2 / x))))


def lower(t):
    """The lowest value of type t at which erfcx is finite."""
    mx = M(np.finfo(t).max) * (1 + EPS[t] / 4)
    with mp.workdps(60):
        return mpmath.findroot(lambda x: mpmath.log(2) + x * x - mpmath.log(mx), -mpmath.sqrt(mpmath.log(mx / 2)))


def erfcx_points(ctx, rng, lib, t, n, what, cfbound, fit):
    """fit(k): error of the best polynomials of piece k, or None for the usual tolerance."""
    T = np.dtype(t).type
    lo = lower(t)
    low = float(lo)
    u = rng.random(n)
    xs = np.concatenate([rng.uniform(low * .999, 0, n // 3), rng.uniform(0, cfbound, n // 3), 10. ** rng.uniform(-6, 2, n // 3),
                         10. ** rng.uniform(-20, 8, n // 6), 4 / np.maximum(u, 1e-3) - 4,
                         [0, -0., cfbound, np.nextafter(cfbound, 0), np.nextafter(cfbound, 99)], cfbound * rng.uniform(1, 2, 20)]).astype(t)
    xs = np.concatenate([xs, -xs[:n // 4]])
    ys = lib.call('erfcx', t, xs)
    for x, y in zip(xs, ys):
        X = M(x)
        ctx.ev()
        ctx.distinct('erfcx', t, what, x)
        if X < lo * (1 - 8 * EPS[t]):
            if not np.isinf(y) or y < 0:
                ctx.fail('erfcx:overflow', f'{what}: erfcx({x!r}) is {y!r}, expected inf')
                return
            continue
        if X < lo * (1 - 64 * EPS[t] * X * X):
            ctx.count('not_judged')
            continue
        ref = _erfcx_ref(X)
        tol = abs(ref) * EPS[t] * (10 + (4 * X * X if X < 0 else 0))
        if fit and X != 0:
            if X > cfbound * (1 - 2 * EPS[t]):
                tol += abs(cf(X) - ref)
            if X < cfbound * (1 + 2 * EPS[t]):
                k = int(400 / (4 + abs(X)))
                tol += max(fit(min(99, max(0, k + j))) for j in (-1, 0, 1)
                           if abs(400 / (4 + abs(X)) - k - (j > 0)) < 1e-3 or j == 0) * mpf('1.3')
        if not abs(M(y) - ref) <= tol:
            ctx.fail('erfcx:value', f'{what}: erfcx({x!r}) is {y!r}, expected {mpmath.nstr(ref, 22)} to within {mpmath.nstr(tol, 3)}')
            return
    if not np.isnan(lib.call('erfcx', t, [np.nan])[0]) or lib.call('erfcx', t, [-np.inf])[0] != np.inf or lib.call('erfcx', t, [np.inf])[0] != 0:
        ctx.fail('erfcx:special', f'{what}: at nan, -inf, inf: {lib.call("erfcx", t, [np.nan, -np.inf, np.inf])}')


def erfcx(ctx, case, m):
    """Other bounds and numbers of terms than the committed ones."""
    rng = case.rng
    t = 'fdg'[case.index % 3]
    tp = CT[t]
    dtype, sfx, bound, N = m_info(m)[tp]
    bound = float(rng.choice([bound, bound * 2, bound / 2, 7.25, 30]))
    N = max(2, N + int(rng.integers(-3, 2)))
    what = f'type {tp}, continued fraction from {bound}, {N} terms'
    ctx.note(what)
    ctx.sample('erfcx ' + what, 6)
    old = dict(m._float_type_info)
    dps = mp.dps
    try:
        m._float_type_info[tp] = (dtype, sfx, bound, N)
        with redirect_stdout(io.StringIO()):
            a, errs = m.generate_erfcx_y100(tp)
            b = m.generate_erfcx(tp)
    finally:
        m._float_type_info.clear()
        m._float_type_info.update(old)
        wdps = mp.dps
        mp.dps = dps
    if len(errs) != 100:
        ctx.fail('erfcx:pieces', f'{what}: {len(errs)} polynomials, expected 100')
        return
    cache = {}

    def fit(k):
        if k not in cache:
            with mp.workdps(40):
                def f(u):
                    x = 4 / ((u + 2 * k + 1) / 200) - 4
                    return mpmath.erfc(x) * mpmath.exp(x * x)
                cache[k] = worst(f, mpmath.chebyfit(f, [-1, 1], N), -1, 1) + mpf(10) ** (2 - wdps)
        return cache[k]
    with Scratch() as d, mp.workdps(60):
        lib = Lib(d, '#include <cmath>\n#include <limits>\n' + a + b, [('erfcx', t)], cxx=True)
        if lib.error:
            ctx.fail('erfcx:compile', f'{what}: does not compile\n{lib.error[:1500]}')
            return
        ctx.count('erfcx:' + t)
        erfcx_points(ctx, rng, lib, t, 120, what, bound, fit)


def m_info(m):
    return m._float_type_info


def run(ctx):
    sys.dont_write_bytecode = True
    md, me = load(DEBYE), load(ERFCX)
    real = md.mp_debye1
    ctx.each('script', ctx.n(2, 6), lambda case: scripts(ctx, case))
    ctx.each('intervals', ctx.n(110, 1500), lambda case: intervals(ctx, case, md))
    ctx.each('erfcx', ctx.n(45, 500), lambda case: erfcx(ctx, case, me))
    ctx.each('polynomial', ctx.n(300, 6000), lambda case: polynomial(ctx, case, md))
    ctx.each('quadrature', ctx.n(60, 600), lambda case: quadrature(ctx, case, real))
