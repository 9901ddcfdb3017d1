"""The shape contract: what every function accepts and refuses, the shapes it returns, and that a refused call has
written nothing and leaves the function usable."""
import numpy as np

from checks.c01 import out_shape
from checks import c11
from vlib import engine, gen, num, specs, wrappers as wr      # noqa: F401
from vlib.engine import SPECS

A, V, T = np.exceptions.AxisError, ValueError, TypeError
# functions whose core dimensions must have a minimum length
MIN1 = {'argmin', 'argmax', 'argminmax', 'minmax', 'min_argmin', 'max_argmax', 'peaktopeak', 'gmean', 'gmeanw', 'hmean',
        'hmeanw', 'pmean', 'pmeanw', 'meanvar', 'mad', 'gini', 'rmad', 'rms', 'wjaccard'}
MIN2 = {'pearson_corr'}
# the result for an empty core dimension n, where the function accepts it (others are judged by their own oracles)
EMPTY = {'first': 'default', 'argfirst': -1, 'ordered': True, 'all_same': True, 'searchsortedl': 0, 'searchsortedr': 0,
         'percentileofscore': 'nan', 'vnorm': 0, 'vdot': 0, 'kbnsum': 0, 'multivariate_logbeta': 'nan', 'linear_interp1d': 'nan'}


def core_max(s):
    return 2 if s.name in MIN2 else 1 if s.name in MIN1 else 0


def fixed_dims(s, n):
    d = {}
    for k in s.dimnames:
        d[k] = int(k) if k.isdigit() else n
    return d


def shapes(s, dims, L):
    return [L + tuple(dims[d] for d in cc) for cc in s.icore], [L + tuple(dims[d] for d in cc) for cc in s.ocore]


def arrays(s, loop, ish, osh):
    a = [np.ones(h).astype(t) for h, t in zip(ish, loop[0])]
    o = []
    for h, t in zip(osh, loop[1]):
        x = np.empty(h, dtype=t)
        if t == 'O':
            x[...] = 'POISON'
        elif t == '?':
            x[...] = True
        elif x.size:
            x.reshape(-1).view(np.uint8)[...] = 0x5b
        o.append(x)
    return a, o


def snap(xs):
    return [x.tobytes() if not x.dtype.hasobject else repr(x.tolist()) for x in xs]


def invalid(rng, s):
    """(what, input shapes, output shapes, keyword arguments, expected exceptions, give out?, extra positional)"""
    L = gen.shape_nd(rng, 2, 3, allow0=True)
    n = int(rng.integers(max(2, core_max(s)), 6))
    dims = fixed_dims(s, n)
    for k in dims:
        if not k.isdigit() and rng.random() < .5:
            dims[k] = n + 1
    ish, osh = shapes(s, dims, L)
    cin = [i for i, cc in enumerate(s.icore) if cc]
    kinds = ['nargs', 'many', 'kw', 'outtype']
    if s.nin > 1:
        kinds += ['loop'] * 2
    kinds += ['outloop'] * 2
    shared = [d for d in s.dimnames if not d.isdigit() and sum(d in cc for cc in s.icore) > 1]
    fixed = [i for i, cc in enumerate(s.icore) if any(d.isdigit() for d in cc)]
    ofix = [i for i, cc in enumerate(s.ocore) if any(d.isdigit() or any(d in c for c in s.icore) for d in cc)]
    if cin:
        kinds += ['few'] * 2
    if shared:
        kinds += ['mismatch'] * 4
    if fixed:
        kinds += ['fixed'] * 3
    if ofix:
        kinds += ['outcore'] * 3
    if core_max(s):
        kinds += ['empty'] * 4
    simple = s.sig and len({cc for cc in s.icore + s.ocore if cc}) == 1 and len(next(cc for cc in s.icore + s.ocore if cc)) == 1
    if s.sig:
        kinds += ['axeslen', 'axesrange', 'where']
        kinds += ['axis'] * 2
        if any(len(cc) > 1 for cc in s.icore + s.ocore):
            kinds += ['axesrep']
        kinds += ['both'] if simple else []
        if any(cc for cc in s.ocore) or len({len(cc) for cc in s.icore}) > 1:
            kinds += ['keepdims']
    k = str(rng.choice(kinds))
    kw, exc, give, extra = {}, V, bool(rng.random() < .7), 0
    if s.outonly:
        give = True
    if k == 'few':
        i = int(rng.choice(cin))
        ish[i] = ish[i][len(ish[i]) - len(s.icore[i]) + int(rng.integers(1, len(s.icore[i]) + 1)):]
    elif k == 'mismatch':
        d = str(rng.choice(shared))
        cand = [i for i, cc in enumerate(s.icore) if d in cc]
        i = int(rng.choice(cand[1:]))
        # 1 does not broadcast in a core dimension
        dims2 = dict(dims)
        dims2[d] = int(rng.choice([dims[d] + 1, 1 if dims[d] > 1 else 3, dims[d] - 1]))
        ish[i] = L + tuple(dims2[x] for x in s.icore[i])
    elif k == 'fixed':
        i = int(rng.choice(fixed))
        sh = list(ish[i])
        p = [j for j, x in enumerate(s.icore[i]) if x.isdigit()]
        j = len(L) + int(rng.choice(p))
        sh[j] += int(rng.choice([-1, 1, 2]))
        ish[i] = tuple(sh)
    elif k == 'loop':
        q = (3,) if rng.random() < .5 else (2, 3)
        r = (2,) if rng.random() < .5 else (3, 2)
        ish = [(q if i == 0 else r if i == s.nin - 1 else ()) + h[len(L):] for i, h in enumerate(ish)]
        give = bool(s.outonly)
    elif k == 'outloop':
        give = True
        if not L or L[-1] < 2:
            L = (3,)
            ish, osh = shapes(s, dims, L)
        i = int(rng.integers(0, s.nout))
        h = osh[i]
        L2 = (L[:-1] + (L[-1] + 1,), L[:-1] + (1,), L[:-1] + (L[-1] - 1,))[int(rng.integers(0, 3))]
        osh[i] = L2 + h[len(L):]
    elif k == 'outcore':
        give = True
        i = int(rng.choice(ofix))
        p = [j for j, d in enumerate(s.ocore[i]) if d.isdigit() or any(d in c for c in s.icore)]
        h = list(osh[i])
        j = len(L) + int(rng.choice(p))
        h[j] += int(rng.choice([-1, 1]))
        osh[i] = tuple(h)
    elif k == 'empty':
        # (the hand written loops refuse when they run, so not for an empty loop shape)
        L = tuple(max(1, d) for d in L)
        low = int(rng.integers(0, core_max(s)))
        d = {x: low if not x.isdigit() else int(x) for x in dims}
        ish, osh = shapes(s, d, L)
    elif k == 'nargs':
        extra, exc = -1, T
        give = False
    elif k == 'many':
        extra, exc = s.nout + 1, T
        give = False
    elif k == 'kw':
        kw[str(rng.choice(['axiss', 'nan_policy', 'initial', 'weights', 'keepdim']))] = 1
        exc = T
    elif k == 'outtype':
        give = True
        exc = T
    elif k == 'axeslen':
        kw['axes'] = [()] * (s.nin + s.nout + 2)
    elif k == 'axesrange':
        nd = 20
        axes = [tuple(range(-len(cc), 0)) for cc in s.icore + s.ocore]
        i = int(rng.choice([i for i, x in enumerate(axes) if x]))
        axes[i] = (int(rng.choice([nd, -nd])),) + axes[i][1:]
        kw['axes'] = axes
        exc = (A, V)
    elif k == 'axesrep':
        axes = [tuple(range(-len(cc), 0)) for cc in s.icore + s.ocore]
        i = int(rng.choice([i for i, x in enumerate(axes) if len(x) > 1]))
        axes[i] = (-1,) * len(axes[i])
        kw['axes'] = axes
    elif k == 'axis':
        kw['axis'] = int(rng.choice([17, -17]))
        exc = (A, T) if not simple else A
    elif k == 'both':
        kw.update(axis=-1, axes=[tuple(range(-len(cc), 0)) for cc in s.icore + s.ocore])
        exc = T
    elif k == 'keepdims':
        kw['keepdims'] = True
        exc = T
    elif k == 'where':
        kw['where'] = np.True_
        exc = T
    return k, ish, osh, kw, exc, give, extra


def errors(ctx, case, s):
    rng = case.rng
    loop = s.types[int(rng.integers(0, len(s.types)))]
    k, ish, osh, kw, exc, give, extra = invalid(rng, s)
    args, outs = arrays(s, loop, ish, osh)
    if k == 'outtype':
        kw['out'] = tuple(x.tolist() for x in outs)
        if s.nout == 1:
            kw['out'] = kw['out'][0]
    elif give:
        kw['out'] = tuple(outs)
    if k not in ('nargs', 'many'):
        kw['sig'] = '->'.join(loop)
    pos = list(args)
    if extra < 0:
        pos = pos[:extra]
    elif extra:
        pos = pos + [np.zeros(3)] * extra
    info = f'{s.path} {"->".join(loop)} {k}: inputs {ish} outputs {osh if give else None} {({x: y for x, y in kw.items() if x not in ("out",)})}'
    ctx.note(info)
    b_in, b_out = snap(args), snap(outs)
    try:
        r = s.obj(*pos, **kw)
    except exc if isinstance(exc, tuple) else (exc,):
        r = None
    except Exception as e:                                              # noqa: BLE001
        ctx.fail(f'{s.name}:error-type', f'{e!r} instead of {exc}: {info}')
        return
    ctx.ev()
    if r is not None:
        ctx.fail(f'{s.name}:accepts', f'the call was accepted and returned {str(r)[:200]}: {info}')
        return
    ctx.count('refused:' + k)
    ctx.count('errors:' + s.name)
    ctx.distinct(s.name, loop[0], k, str(ish), str(osh), str(sorted(kw)))
    if snap(args) != b_in:
        ctx.fail(f'{s.name}:input', f'an input was modified by a refused call: {info}')
    if give and snap(outs) != b_out:
        ctx.fail(f'{s.name}:output', f'an output was written by a refused call: {info}')
    if case.index < 2:
        ctx.sample(info)
    if rng.random() < .2 and 'bincount' not in s.name:
        # the function is still usable
        c = engine.make(case, s, loop=loop)
        engine.invoke(case, c)
        engine.judge(ctx, case, c, 3)


def empty(ctx, case, s):
    """Empty core dimensions where they are allowed, and empty loop dimensions."""
    rng = case.rng
    loop = s.types[case.index % len(s.types)]
    L = gen.shape_nd(rng, 3, 3, allow0=True)
    if rng.random() < .5 and L:
        L = L[:-1] + (0,)
    n = int(rng.integers(max(1, core_max(s)), 5))
    if rng.random() < .5 and not core_max(s):
        n = 0
    dims = fixed_dims(s, n)
    free = [d for d in dims if not d.isdigit()]
    if len(free) > 1 and rng.random() < .5:
        dims[free[0]] = int(rng.integers(0 if not core_max(s) else 1, 4))
    c = engine.make(case, s, loop=loop, L=L, dims=dims) if n or s.min_n == 0 else None
    if c is None:
        ish, osh = shapes(s, dims, L)
        args, outs = arrays(s, loop, ish, osh)
    else:
        args, osh = c.args, c.oshapes
        _, outs = arrays(s, loop, [], osh)
    kw = {}
    given = None
    if s.outonly or rng.random() < .4:
        given = outs
        if 'bincount' in s.name:
            for o in outs:
                o[...] = 0
        kw['out'] = tuple(outs)
    info = f'{s.path} {"->".join(loop)} L={L} dims={dims} inputs {[a.shape for a in args]} out={given is not None}'
    ctx.note(info)
    r = s.obj(*args, sig='->'.join(loop), **kw)
    ctx.ev()
    ctx.count('empty:' + s.name)
    ctx.distinct(s.name, loop[0], L, str(dims), given is None)
    rr = r if isinstance(r, tuple) else (r,)
    for k, (x, h, t) in enumerate(zip(rr, osh, loop[1])):
        if given is not None and x is not given[k]:
            ctx.fail(f'{s.name}:out', f'the result is not out: {info}')
        if given is None and h == () and t != 'O' and not isinstance(x, np.generic):
            ctx.fail(f'{s.name}:scalar', f'a scalar call returned {type(x)}: {info}')
        if np.shape(x) != h or (t != 'O' and np.asarray(x).dtype != np.dtype(t)):
            ctx.fail(f'{s.name}:shape', f'result {k} is {np.shape(x)} {getattr(x, "dtype", None)}, expected {h} {t}: {info}')
    if n == 0 and s.name in EMPTY:
        w = EMPTY[s.name]
        x = np.asarray(rr[0])
        ctx.count('empty value:' + s.name)
        if w == 'default':
            w = np.broadcast_to(args[3], osh[0])
        elif w == 'nan':
            w = np.full(osh[0], np.nan)
        elif s.name == 'vnorm' and not (args[1] > 0).all():
            return
        ok = num.same(x.astype('g') if t in 'fdg' else x, np.broadcast_to(np.asarray(w), osh[0])) if t != 'O' else \
            all(p is q or p == q for p, q in zip(x.ravel().tolist(), np.asarray(w).ravel().tolist()))
        if not ok:
            ctx.fail(f'{s.name}:empty', f'got {x!r}, expected {w!r}: {info}')


def placement(ctx, case, s):
    """Where axis, axes and keepdims put the core dimensions."""
    rng = case.rng
    loop = s.types[int(rng.integers(0, len(s.types)))]
    L = gen.shape_nd(rng, 3, 3)
    c = engine.make(case, s, loop=loop, L=L, long_ok=False)
    L = c.L
    ins, kw = c.args, {}
    cores = [cc for cc in s.icore + s.ocore]
    simple = len({cc for cc in cores if cc}) == 1 and len(next(cc for cc in cores if cc)) == 1 and not s.native_only
    full = [np.broadcast_to(a, L + a.shape[a.ndim - len(cc):]) for a, cc in zip(ins, s.icore)]
    if simple and rng.random() < .6:
        nds = [len(L) + len(cc) for cc in cores if cc]
        ax = int(rng.integers(-min(nds), min(nds)))
        kw['axis'] = ax
        ins = [np.moveaxis(a, -1, ax) if cc else a for a, cc in zip(full, s.icore)]
        osh = []
        for h, cc in zip(c.oshapes, s.ocore):
            if cc:
                osh.append(out_shape(h, 1, (ax,)))
            else:
                osh.append(h)
        if not any(s.ocore) and len({len(cc) for cc in s.icore}) == 1 and rng.random() < .5:
            kw['keepdims'] = True
            osh = [L[:ax % (len(L) + 1)] + (1,) + L[ax % (len(L) + 1):] for _ in osh]
    elif not s.native_only:
        ins, axes, oax = engine.rand_axes(rng, s, full, L)
        kw['axes'] = axes + oax
        osh = [out_shape(h, len(cc), ax) if cc else h for h, cc, ax in zip(c.oshapes, s.ocore, oax)]
        if not any(s.ocore) and rng.random() < .4:
            # axes of the outputs may be left out when they have no core dimensions
            kw['axes'] = axes
    else:
        return
    given = None
    if s.outonly or rng.random() < .4:
        given = arrays(s, loop, [], osh)[1]
        if 'bincount' in s.name:
            for o in given:
                o[...] = 0
        kw['out'] = tuple(given)
    info = f'{s.path} {"->".join(loop)} L={L} inputs {[a.shape for a in ins]} {({x: y for x, y in kw.items() if x != "out"})} out={given is not None}'
    ctx.note(info)
    r = s.obj(*ins, sig='->'.join(loop), **kw)
    ctx.ev()
    ctx.count('placed:' + ('keepdims' if 'keepdims' in kw else 'axis' if 'axis' in kw else 'axes'))
    ctx.distinct(s.name, info)
    for k, (x, h, t) in enumerate(zip(r if isinstance(r, tuple) else (r,), osh, loop[1])):
        if np.shape(x) != h:
            ctx.fail(f'{s.name}:placement', f'result {k} has shape {np.shape(x)}, expected {h}: {info}')
        if given is not None and x is not given[k]:
            ctx.fail(f'{s.name}:out', f'the result is not out: {info}')


def wrappers(ctx, case):
    """Shapes of the Python wrappers with empty dimensions, lists and scalars."""
    import ufunclab as u
    rng = case.rng
    L = gen.shape_nd(rng, 3, 3, allow0=True)
    nd = len(L)
    x = np.asarray(rng.integers(0, 5, size=L))
    n = int(rng.integers(0, 5))
    ax = int(rng.integers(-nd - 1, nd + 1))
    pos = ax % (nd + 1)
    want = L[:pos] + (n,) + L[pos:]
    y = x * 1.0
    k = case.index % 5
    if k == 4:
        if nd == 0:
            return
        ax = int(rng.integers(-nd, nd))
        pos = ax % nd
        want = L[:pos] + (n,) + L[pos + 1:]
        fs = [('bincount', lambda: u.bincount(x, n, axis=ax)), ('bincount', lambda: u.bincount(x, n, y, axis=ax)),
              ('bincount', lambda: u.bincount(x.tolist() if x.size else x, n, axis=ax))]
    else:
        nm = ['convert_to_base', 'one_hot', 'nextn_greater', 'nextn_less'][k]
        g = getattr(u, nm)
        a = {'convert_to_base': (x, 3), 'one_hot': (x,)}.get(nm, (y,))
        fs = [(nm, lambda: g(*a, n, axis=ax)), (nm, lambda: g(*[v.tolist() if getattr(v, 'size', 0) else v for v in a], n, axis=ax))]
        if pos == nd:
            fs.append((nm, lambda: g(*a, n)))
    for nm, f in fs:
        ctx.note(f'{nm} {L} n={n} axis={ax}')
        r = f()
        ctx.ev()
        ctx.count('wrapper:' + nm)
        ctx.distinct(nm, L, n, ax)
        if not isinstance(r, np.ndarray) or r.shape != want:
            ctx.fail(f'{nm}:shape', f'shape {np.shape(r)} expected {want}: x.shape={L} n={n} axis={ax}')


def signature(ctx, case, s):
    f = s.obj
    ctx.ev()
    ctx.count('signatures')
    ctx.distinct('signature', s.name)
    got = (f.signature.replace(' ', '') if f.signature else None, f.nin, f.nout, f.nargs)
    want = (s.sig.replace(' ', '') if s.sig else None, s.nin, s.nout, s.nin + s.nout)
    if got != want:
        ctx.fail(f'{s.name}:signature', f'signature, nin, nout, nargs are {got}, expected {want}')


def run(ctx):
    lst = list(SPECS.values())
    ctx.each('signature', len(lst), lambda case: signature(ctx, case, lst[case.index]))
    for s in lst:
        ctx.each('errors:' + s.name, ctx.n(400 if s.sig else 120, 8000), lambda case, s=s: errors(ctx, case, s))
        if s.sig:
            ctx.each('empty:' + s.name, ctx.n(max(120, 2 * len(s.types)), 3000), lambda case, s=s: empty(ctx, case, s))
            ctx.each('placement:' + s.name, ctx.n(150, 4000), lambda case, s=s: placement(ctx, case, s))
    ctx.each('wrappers', ctx.n(1500, 20000), lambda case: wrappers(ctx, case))
    wrapped(ctx)


def wrapped(ctx):
    for f in (wr.convert_to_base, wr.one_hot, wr.nextn('nextn_greater', True), wr.nextn('nextn_less', False), c11.wrapper_case):
        ctx.each('wrapped:' + f.__name__, ctx.n(1500, 30000), lambda case, f=f: f(ctx, case))

    def errs(case):
        case.ctx = ctx
        wr.errors(ctx, case)
        c11.error_cases(ctx, case)
    ctx.each('wrapped errors', 2, errs)
