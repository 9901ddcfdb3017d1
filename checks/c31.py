"""Wrappers generated by tools/uwrap.  The generator runs on the installed package in a scratch directory; every generated function
is called with its arguments in all the ways that its signature allows and is compared with the ufunc."""
import importlib.util
import inspect
import itertools
import os
import subprocess
import sys
import tempfile

import numpy as np

import ufunclab as ul
from vlib import build, engine, gen, num, specs      # noqa: F401
from vlib.engine import SPECS
from vlib.worker import HarnessError

# Documented in tools/uwrap/uwrap.py.
DEFAULTS = {'vnorm': {'p': 2}, 'step': dict(a=0, flow=0, fa=.5, fhigh=1)}
for _n in ('linearstep', 'smoothstep3', 'smoothstep5'):
    DEFAULTS[_n] = dict(a=0, b=1, fa=0, fb=1)
SETRED = ['all_same', 'gmean', 'hmean', 'mad', 'peaktopeak', 'rmad']
CONTROL = {'out', 'casting', 'order', 'dtype', 'subok', 'where', 'axis', 'kwargs'}


def names(f):
    """The documented argument names: the line after the one that NumPy adds."""
    line = f.__doc__.splitlines()[2].strip()
    if not (line.startswith(f.__name__ + '(') and line.endswith(', /, ...)')):
        raise ValueError(f'{f.__name__}: the first docstring line is {line!r}')
    return line[line.index('(') + 1:-len(', /, ...)')].split(', ')


def generate():
    """(module, None), or (None, what went wrong)"""
    d = tempfile.mkdtemp(prefix='uwrap-', dir=os.getcwd())
    tool = os.path.join(build.REPO, 'tools', 'uwrap', 'uwrap.py')
    p = subprocess.run([sys.executable, '-B', tool], cwd=d, capture_output=True, text=True, timeout=200)
    path = os.path.join(d, 'wrappers.py')
    if p.returncode or not os.path.exists(path):
        return None, f'{tool} ends with status {p.returncode}\n{p.stderr[-1500:]}'
    s = importlib.util.spec_from_file_location('wrappers', path)
    m = importlib.util.module_from_spec(s)
    try:
        s.loader.exec_module(m)
    except Exception as e:
        return None, f'the generated module does not load: {e!r}'
    return m, None


def same(a, b):
    a, b = (x if isinstance(x, tuple) else (x,) for x in (a, b))
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if type(x) is not type(y):
            return False
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype.hasobject:
            if repr(x) != repr(y):
                return False
        elif not np.array_equal(num_bits(x), num_bits(y)):
            return False
    return True


def num_bits(x):
    x = np.ascontiguousarray(x)
    if x.dtype.char in 'gG':
        z = x.view('g') if x.dtype.char == 'G' else x
        return np.stack([np.isnan(z), np.where(np.isnan(z), 0, z), np.signbit(z)])
    return x.reshape(-1).view(np.uint8)


def outcome(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def compare(ctx, name, got, want, info, outs=()):
    (r, e), (r0, e0) = got, want
    ctx.ev()
    if e is not None or e0 is not None:
        ctx.count('both raise')
        if type(e) is not type(e0):
            ctx.fail(f'{name}:raise', f'{info}\n the wrapper: {e!r}, the ufunc: {e0!r}')
        return
    if not same(r, r0):
        ctx.fail(f'{name}:value', f'{info}\n the wrapper returns {num.show(*r) if isinstance(r, tuple) else num.show(r)}'
                 f'\n the ufunc {num.show(*r0) if isinstance(r0, tuple) else num.show(r0)}')
    for o in outs:
        if not any(o is x for x in (r if isinstance(r, tuple) else (r,))):
            ctx.fail(f'{name}:out', f'{info}\n the result is not the out array')


def static(ctx, case, m, f):
    n = f.__name__
    ctx.ev()
    ctx.distinct('static', n)
    ctx.count('wrappers')
    w = getattr(m, n, None)
    if not inspect.isfunction(w):
        ctx.fail(f'{n}:missing', f'the generated module has no function {n}')
        return
    par = inspect.signature(w).parameters
    core = [p for p in par if p not in CONTROL]
    if core != names(f) or len(core) != f.nin:
        ctx.fail(f'{n}:names', f'the wrapper of {n} has the parameters {core}; documented: {names(f)}')
    dflt = {k: par[k].default for k in core if par[k].default is not par[k].empty}
    if dflt != DEFAULTS.get(n, {}):
        ctx.fail(f'{n}:defaults', f'defaults {dflt}, expected {DEFAULTS.get(n, {})}')
    d0 = [x.strip() for x in f.__doc__.splitlines()[4:]]
    d1 = [x.strip() for x in (w.__doc__ or '').splitlines()]
    if d1[:1] == ['']:
        d1 = d1[1:]
    while d1 and not d1[-1]:
        d1.pop()
    while d0 and not d0[-1]:
        d0.pop()
    if d0 != d1:
        bad = [x for x in itertools.zip_longest(d0, d1) if x[0] != x[1]][0]
        ctx.fail(f'{n}:doc', f'the docstring of {n} is not that of the ufunc: {bad}')


def one(ctx, case, m, s):
    rng = case.rng
    case.ctx = ctx
    f = s.obj
    n = f.__name__
    loop = s.types[case.index % len(s.types)] if case.index < 4 * len(s.types) else None
    c = engine.make(case, s, loop=loop)
    args = [gen.layout(rng, a) for a in c.args]
    pn = names(f)
    w = getattr(m, n)
    par = inspect.signature(w).parameters
    dflt = DEFAULTS.get(n, {})
    omit = set()
    if dflt:
        k = len(dflt)
        # defaults exist for a tail of the arguments: any of them may be left out
        omit = {x for x in dflt if rng.random() < .4}
        full = [dflt[x] if x in omit else a for x, a in zip(pn, args)]
    else:
        k = 0
        full = args
    npos = int(rng.integers(0, len(pn) - k + 1))        # the arguments with defaults are keyword only
    pos, kw = args[:npos], {x: a for x, a in list(zip(pn, args))[npos:] if x not in omit}
    kw = dict(sorted(kw.items(), key=lambda q: rng.random()))
    opt = {}
    red = n in SETRED
    if rng.random() < .5 and not omit:
        opt['sig' if 'signature' not in par and rng.random() < .5 else 'dtype'] = None
    if 'dtype' in opt:
        opt['dtype'] = c.ot[0]
    if 'sig' in opt:
        opt['sig'] = c.it + '->' + c.ot
    if rng.random() < .3:
        opt['casting'] = str(rng.choice(['no', 'equiv', 'safe', 'same_kind', 'unsafe']))
    if rng.random() < .3:
        opt['order'] = str(rng.choice(['K', 'C', 'F', 'A']))
    if rng.random() < .2:
        opt['subok'] = bool(rng.random() < .5)
    o1 = o2 = None
    if rng.random() < .4 and not red:
        fill = [engine.poison_out(rng, sh, t) for sh, t in zip(c.oshapes, c.ot)]
        o1, o2 = tuple(fill), tuple(x.copy(order='K') for x in fill)
        if f.nout == 1 and rng.random() < .5:
            o1, o2 = o1[0], o2[0]
    if not s.sig and o1 is not None and rng.random() < .5:
        opt['where'] = rng.random(c.L) < .6
    if red:
        base = np.broadcast_shapes(*[a.shape[:a.ndim - len(cc)] for a, cc in zip(args, s.icore)])
        red_axes(ctx, case, s, w, pn, args, pos, kw, opt, base)
        return
    if s.sig and rng.random() < .4:
        _axes(rng, s, c, opt)
    info = f'{n} {c.it}->{c.ot} positional: {npos} keywords: {list(kw)} left out: {sorted(omit)} options: {opt} out: {o1 is not None} ' \
           f'shapes {[a.shape for a in args]}'
    ctx.note(info)
    if o1 is not None and 'axes' not in opt:
        a1, a2 = dict(opt, out=o1), dict(opt, out=o2)
    else:
        o1 = o2 = None
        a1 = a2 = opt
    got = outcome(lambda: w(*pos, **kw, **a1))
    want = outcome(lambda: f(*full, **a2))
    ctx.count('called:' + n)
    ctx.count('positional' if npos == len(pn) else 'keywords' if npos == 0 else 'mixed')
    if omit:
        ctx.count('defaults')
    ctx.distinct(n, npos, tuple(sorted(opt)), *[a.tobytes() if not a.dtype.hasobject else repr(a) for a in args])
    compare(ctx, n, got, want, info, () if o1 is None else o1 if isinstance(o1, tuple) else (o1,))
    if o1 is not None and got[1] is None and not same(o1, o2):
        ctx.fail(f'{n}:out', f'{info}\n the out array has other contents')
    if case.index < 1:
        ctx.sample(info, 3)


def _axes(rng, s, c, opt):
    """axis/axes that leave the arrays as they are, so that only the passing on is tested"""
    if len(set(sum(s.icore + s.ocore, ()))) == 1 and all(len(x) <= 1 for x in s.icore + s.ocore) and rng.random() < .5:
        opt['axis'] = -1
    else:
        opt['axes'] = [tuple(range(-len(x), 0)) for x in s.icore] + [tuple(range(-len(x), 0)) for x in s.ocore]


def red_axes(ctx, case, s, w, pn, args, pos, kw, opt, base):
    """axis=None: all of the first argument; axis=tuple: these axes together; axis=int: as in the ufunc."""
    rng = case.rng
    f = s.obj
    n = f.__name__
    npos = len(pos)
    x = args[0]
    rest = args[1:]
    mode = str(rng.choice(['none', 'left out', 'tuple', 'int']))
    if mode in ('none', 'left out'):
        y = np.asarray(x).reshape(-1)
        if s.icore[0] and mode == 'none':
            opt['axis'] = None
        want_axis = -1
    elif mode == 'int':
        opt['axis'] = want_axis = int(rng.integers(-x.ndim, x.ndim))
        y = x
    else:
        k = int(rng.integers(1, x.ndim + 1))
        t = [int(q) for q in rng.permutation(x.ndim)[:k]]
        opt['axis'] = tuple(q - x.ndim if rng.random() < .4 else q for q in t)
        keep = [q for q in range(x.ndim) if q not in t]
        # The wrapper takes the axes in the order given, the last one first; the functions do not care, but their rounding may.
        y = np.transpose(x, keep + t[::-1]).reshape([x.shape[q] for q in keep] + [int(np.prod([x.shape[q] for q in t]))])
        want_axis = -1
    if rest:
        # a flag for each loop element of what is left, or one for all
        L = tuple(np.delete(np.array(y.shape), want_axis)) if mode == 'int' else y.shape[:-1]
        flag = rng.integers(0, 2, size=L if rng.random() < .5 else ()).astype(rest[0].dtype)
        rest = [flag]
    if mode in ('none', 'left out', 'tuple') and rng.random() < .3:
        if x.dtype.char in '?dl' and x.ndim and x.size:
            x, y = x.tolist(), y.astype(y.dtype.newbyteorder('='))
    new = [x] + rest
    pos, kw = new[:npos], {k: new[pn.index(k)] for k in kw}
    info = f'{n} {mode} positional: {npos} keywords: {list(kw)} options: {opt} shapes {[np.shape(a) for a in new]} {[getattr(a, "dtype", "list") for a in new]}'
    ctx.note(info)
    ctx.count(f'axis {mode}')
    ctx.count('called:' + n)
    opt2 = {k: v for k, v in opt.items() if k != 'axis'}
    want = outcome(lambda: f(y, *rest, **opt2, axis=want_axis))
    got = outcome(lambda: w(*pos, **kw, **opt))
    ctx.distinct(n, mode, tuple(sorted(opt)), np.shape(x), y.tobytes() if not y.dtype.hasobject else repr(y))
    ctx.ev()
    if got[1] is not None or want[1] is not None:
        ctx.count('both raise')
        if (got[1] is None) != (want[1] is None):
            ctx.fail(f'{n}:raise', f'{info}\n the wrapper: {got[1]!r}, the ufunc on the flattened axes: {want[1]!r}')
        return
    r, r0 = np.asarray(got[0]), np.asarray(want[0])
    if r.shape != r0.shape or r.dtype != r0.dtype:
        ctx.fail(f'{n}:axis', f'{info}\n the wrapper returns {r.shape} {r.dtype}, expected {r0.shape} {r0.dtype}')
    elif not same(r, r0) and not close(r, r0, y):
        ctx.fail(f'{n}:axis', f'{info}\n the wrapper returns {num.show(r)}, expected {num.show(r0)}\n for {num.show(y)}')


def close(a, b, y):
    """Only the order of summation may differ."""
    if a.dtype.kind not in 'fc':
        return False
    with np.errstate(all='ignore'):
        big = np.longdouble(np.max(np.abs(y.astype('g')))) if y.size else np.longdouble(0)
        e = 64 * max(1, y.size) * np.finfo(a.dtype).eps
        a, b = a.astype('g'), b.astype('g')
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= e * np.maximum(np.maximum(np.abs(a), np.abs(b)), big))
                           | ~np.isfinite(big)))


def run(ctx):
    m, msg = generate()
    state = {}

    def made(case):
        ctx.ev()
        ctx.distinct('made')
        ctx.count('generated')
        state['ran'] = 1
        if msg:
            ctx.fail('generate', msg)
    ctx.each_item('generate', range(ctx.nshards), lambda case, _: made(case))
    ufuncs = sorted({f.__name__: f for f in (getattr(ul, n) for n in dir(ul)) if isinstance(f, np.ufunc)}.items())
    if len(ufuncs) < 60:
        raise HarnessError('ufuncs not found')
    if m is None:
        return
    ctx.each_item('static', [f for _, f in ufuncs], lambda case, f: static(ctx, case, m, f))
    for s in SPECS.values():
        f = s.obj
        if isinstance(f, np.ufunc) and getattr(ul, f.__name__, None) is f and not s.native_only:
            ctx.required.add('called:' + f.__name__)
            ctx.each('call:' + f.__name__, ctx.n(max(2400, 6 * len(s.types)), 20000), lambda case, s=s: one(ctx, case, m, s))
