"""Layout, broadcasting, axis and batching independence: however the arguments are laid out, batched,
broadcast and addressed, each core slice of the result is the value that the function gives for that slice
alone, in fresh contiguous arrays."""
import numpy as np

from checks.c01 import hostile_args, out_shape
from checks.c02 import same
from vlib import arena, calls, engine, gen, num, specs      # noqa: F401
from vlib.engine import SPECS, TOL





def close(name, a, b):
    if same((a,), (b,)):
        return True
    k = TOL.get(name)
    if not k or a.shape != b.shape or a.dtype != b.dtype:
        return False
    with np.errstate(all='ignore'):
        fin = np.isfinite(a) & np.isfinite(b)
        if not np.array_equal(np.isfinite(a), np.isfinite(b)):
            return None       # an intermediate overflow in one of the two forms
        d = np.abs(a[fin] - b[fin])
        scale = 1 if not fin.any() else max(np.max(np.abs(a[fin])), np.finfo(a.dtype).tiny)
        if (d <= k * np.finfo(a.dtype).eps * scale).all():
            return True
        return None


def single(s, c, ix, bins):
    """The reference: one core slice, contiguous, native, a loop of length 1."""
    ins = [np.array(b[ix], order='C', copy=True) for b in bins]
    if 'O' in c.it:
        ins = []
        for b, cc, t in zip(bins, s.icore, c.it):
            e = np.empty(b.shape[b.ndim - len(cc):], dtype=t)
            e[...] = b[ix]
            ins.append(e)
    outs = tuple(np.zeros(tuple(c.dims[d] for d in cc), dtype=t) for t, cc in zip(c.ot, s.ocore))
    r = s.obj(*ins, out=outs, sig=c.it + '->' + c.ot)
    return r if isinstance(r, tuple) else (r,)


def one(ctx, case, s):
    rng = case.rng
    case.ctx = ctx
    loop = s.types[case.index % len(s.types)] if case.index < 4 * len(s.types) else None
    c = engine.make(case, s, loop=loop)
    c.rng = rng
    if not s.native_only and rng.random() < .3:
        # constant along some axes (stride 0 in the loops), or overlapping windows of one vector
        args = list(c.args)
        win = rng.random() < .3
        for k in (range(len(args)) if rng.random() < .5 else [int(rng.integers(0, len(args)))]):
            if win:
                if len(s.icore[k]) == 1 and s.name not in TOL and k == 0 and not args[k].dtype.hasobject:
                    args[k] = gen.windows(rng, args[k])
            else:
                args[k] = gen.flatten_axes(rng, args[k], len(s.icore[k]))
        c.args = args
        ctx.count('overlapping windows' if win else 'constant along axes')
    hostile = s.name not in TOL and rng.random() < .3
    if hostile:
        c.args = hostile_args(c, c.args, s)
    if s.name in TOL:
        # keep the two forms comparable
        for a in c.args:
            if a.dtype.kind == 'f' and not (np.isfinite(a) & (np.abs(a) < 1e12)).all():
                ctx.count('not_judged')
                return
    bins = [np.broadcast_to(a, c.L + a.shape[a.ndim - len(cc):] if len(cc) else c.L)
            for a, cc in zip(c.args, s.icore)]
    acc = 'bincount' in s.name
    try:
        if acc:
            s_out = None
            L, rngx = c.L, rng
            kw = {}
            ins, oax = c.args, None
            if rng.random() < .4:
                ins, axes, oax = engine.rand_axes(rng, s, ins, c.L)
                kw['axes'] = axes + oax
            ins = [gen.layout(rng, a) for a in ins]
            sh = c.oshapes[0] if not oax else out_shape(c.oshapes[0], 1, oax[0])
            o = gen.layout(rng, np.zeros(sh, c.ot), rng.choice(['C', 'F', 'strided', 'neg', 'pad', 'misaligned', 'giant',
                                                                'byteswapped']))
            c.ins, c.kw = ins, kw
            engine.case_note(case, c)
            s.obj(*ins, out=o, **kw)
            c.res = [np.moveaxis(o, oax[0][0], -1) if oax else o]
        else:
            engine.invoke(case, c)
    except (ValueError, TypeError, OverflowError) as e:
        if hostile:
            ctx.count('rejected')
            return
        raise
    idx = list(np.ndindex(*c.L))
    if len(idx) > 12:
        idx = [idx[i] for i in sorted({0, len(idx) - 1, *map(int, rng.choice(len(idx), 11, replace=False))})]
    for ix in idx:
        ref = single(s, c, ix, bins)
        ctx.ev()
        ctx.distinct(s.name, c.it, ix, *[a.tobytes()[:300] if not a.dtype.hasobject else repr(a)[:200] for a in c.args])
        for k, (x, y) in enumerate(zip(c.res, ref)):
            e = np.empty(np.shape(y), dtype=c.ot[k])
            e[...] = y
            g = np.empty(np.shape(y), dtype=c.ot[k])
            g[...] = x[ix]
            ok = close(s.name, g, e)
            if ok is None:
                ctx.count('not_judged')
            elif not ok:
                ctx.fail(f'{s.name}:layout', f'output {k} at {ix} is {num.show(g)}; the slice alone gives '
                         f'{num.show(e)}\n{engine.describe(c, ix, [b[ix] for b in bins], [r[ix] for r in c.res])}')
                return
    ctx.count('calls:' + s.name)
    for a in c.ins:
        ctx.count('layout:' + ('zero stride' if a.size > 1 and 0 in a.strides else 'giant' if max(map(abs, a.strides), default=0) > 1 << 30 else 'contig' if a.flags.c_contiguous
                               else 'negative' if any(x < 0 for x in a.strides)
                               else 'strided') + ('' if a.dtype.isnative else ':swapped'))
    if c.kw.get('axes'):
        ctx.count('moved axes')


def elementwise(kind):
    return [s for s in SPECS.values() if not s.sig and s.nin == kind and s.nout == 1]


def fold(ctx, case):
    """reduce, accumulate, reduceat and outer are defined by the two-argument function."""
    rng = case.rng
    el = elementwise(2)
    s = el[case.index % len(el)]
    f = s.obj
    t = s.types[int(rng.integers(0, len(s.types)))][0][0]
    sh = tuple(int(v) for v in rng.integers(1, 6, size=int(rng.integers(1, 4))))
    a = np.asarray(gen.values(rng, t, sh))
    ax = int(rng.integers(-len(sh), len(sh)))
    v = gen.layout(rng, a)
    ctx.note(f'{s.path}.reduce {t} {sh} {ax}')
    rows = [r.copy() for r in np.moveaxis(a, ax, 0)]
    want = [rows[0]]
    for r in rows[1:]:
        want.append(np.asarray(f(np.array(want[-1]), r)))
    kind = ['reduce', 'accumulate', 'reduceat', 'outer', 'keepdims', 'where', 'at'][case.index // len(el) % 7]
    ctx.ev()
    ctx.count('method:' + kind)
    ctx.distinct(kind, s.name, a.tobytes())
    if kind == 'reduce':
        got = np.asarray(f.reduce(v, axis=ax))
        exp = want[-1]
    elif kind == 'keepdims':
        got = np.asarray(f.reduce(v, axis=ax, keepdims=True))
        exp = np.expand_dims(want[-1], ax)
    elif kind == 'accumulate':
        got = f.accumulate(v, axis=ax)
        exp = np.moveaxis(np.array(want), 0, ax)
    elif kind == 'reduceat':
        n = len(rows)
        ix = rng.integers(0, n, size=int(rng.integers(1, 5)))
        got = f.reduceat(v, ix, axis=ax)
        exp = []
        for i, b in enumerate(ix):
            e = ix[i + 1] if i + 1 < len(ix) else n
            x = rows[b]
            for j in range(b + 1, e):
                x = np.asarray(f(np.array(x), rows[j]))
            exp.append(x)
        exp = np.moveaxis(np.array(exp), 0, ax)
    elif kind == 'outer':
        b = np.asarray(gen.values(rng, t, (int(rng.integers(1, 6)),)))
        got = f.outer(v, gen.layout(rng, b))
        exp = np.empty(a.shape + b.shape, dtype=t)
        for i in np.ndindex(*a.shape):
            for j in range(len(b)):
                exp[i + (j,)] = f(a[i], b[j])
    elif kind == 'where':
        w = rng.random(size=sh) < .5
        x2 = np.asarray(gen.values(rng, t, sh))
        start = np.asarray(gen.values(rng, t, sh))
        o = gen.layout(rng, start.copy(), rng.choice(['C', 'F', 'strided', 'neg', 'byteswapped', 'misaligned']))
        got = np.array(f(v, gen.layout(rng, x2), where=gen.layout(rng, w), out=o)).astype(t)
        exp = start.copy()
        for i in np.ndindex(*sh):
            if w[i]:
                exp[i] = f(a[i], x2[i])
    else:
        un = elementwise(1)
        u = un[int(rng.integers(0, len(un)))]
        it, ot = u.types[int(rng.integers(0, len(u.types)))]
        if it != ot:
            return
        s, t = u, it
        n = int(rng.integers(1, 20))
        a = np.asarray(gen.values(rng, t, (n,)))
        ix = rng.integers(0, n, size=int(rng.integers(0, 12)))
        got = a.copy()
        ctx.note(f'{u.path}.at {it}')
        u.obj.at(got, ix)
        exp = a.copy()
        for i in ix:
            exp[i] = u.obj(exp[i:i + 1].copy())[0]
    if got.shape != exp.shape or not num.same(np.asarray(got).astype(t), np.asarray(exp).astype(t)):
        ctx.fail(f'{s.name}:{kind}', f'{s.path}.{kind} type {t} shape {sh} axis {ax}\n a={num.show(a)}\n got '
                 f'{num.show(got)}\n expected {num.show(exp)}')


def long_loops(ctx, case):
    """Element-wise functions over long 1-d arrays: the same value whatever the position and the stride."""
    rng = case.rng
    el = [s for s in SPECS.values() if not s.sig]
    s = el[case.index % len(el)]
    it, ot = s.types[case.index // len(el) % len(s.types)]
    n = int(rng.integers(40, 700)) if rng.random() < .8 else int(np.exp(rng.uniform(6, 10.2)))
    args = [np.asarray(gen.values(rng, t, (n,))) for t in it]
    c = engine.make(case, s, loop=(it, ot), L=(n,))
    if rng.random() < .6:
        args = [np.broadcast_to(a, (n,)).copy() for a in c.args]
    ctx.note(f'{s.path} {it} n={n}')
    base = s.obj(*args, sig=it + '->' + ot)
    base = base if isinstance(base, tuple) else (base,)
    k = int(rng.integers(1, 9))
    pos = rng.permutation(n)
    sub = [gen.native_layout(rng, a[pos][::k]) for a in args]
    r = s.obj(*sub, sig=it + '->' + ot)
    r = r if isinstance(r, tuple) else (r,)
    ctx.ev()
    ctx.count('long:' + s.name)
    ctx.distinct('long', s.name, args[0].tobytes())
    for x, y in zip(base, r):
        if not num.same(x[pos][::k], y):
            j = [i for i in range(len(y)) if not num.same(x[pos][::k][i:i + 1], y[i:i + 1])][0]
            ctx.fail(f'{s.name}:position', f'{s.path} {it}->{ot}: inputs {num.show(*[a[j] for a in sub])} give '
                     f'{num.show(y[j])} here and {num.show(x[pos][::k][j])} at position {pos[::k][j]} of {n}')
            return


def axis_keyword(ctx, case):
    """axis= and keepdims= of the reductions over one core dimension."""
    rng = case.rng
    lst = [s for s in SPECS.values() if s.sig and [len(x) for x in s.icore].count(1) >= 1
           and all(len(x) <= 1 for x in s.icore + s.ocore) and len({d for x in s.icore + s.ocore for d in x}) == 1
           and 'ic' not in s.name and s.cid]
    s = lst[case.index % len(lst)]
    c = engine.make(case, s, long_ok=False)
    nd = len(c.L) + 1
    args = []
    ax = int(rng.integers(0, nd))
    neg = rng.random() < .5
    for a, cc in zip(c.args, s.icore):
        if cc:
            full = np.broadcast_to(a, c.L + a.shape[-1:])
            full = np.moveaxis(full, -1, ax)
            args.append(gen.layout(rng, full))
        else:
            args.append(gen.layout(rng, a))
    kw = dict(axis=ax - nd if neg else ax)
    keep = all(x == () for x in s.ocore) and all(len(x) for x in s.icore) and rng.random() < .5
    if keep:
        kw['keepdims'] = True
    ctx.note(f'{s.path} {c.it} {[a.shape for a in args]} {kw}')
    r = s.obj(*args, sig=c.it + '->' + c.ot, **kw)
    r = r if isinstance(r, tuple) else (r,)
    base = s.obj(*c.args, sig=c.it + '->' + c.ot)
    base = base if isinstance(base, tuple) else (base,)
    ctx.ev()
    ctx.count('axis keyword' + (':keepdims' if keep else ''))
    ctx.distinct('axis', s.name, c.it, ax, c.args[0].tobytes() if 'O' not in c.it else repr(c.args[0]))
    for x, y, cc, t in zip(r, base, s.ocore, c.ot):
        if t == 'O' and not isinstance(y, np.ndarray):
            z = np.empty((), dtype=object)
            z[()] = y
            y = z
        if keep:
            y = np.expand_dims(y, ax)
        elif cc:
            y = np.moveaxis(y, -1, ax)
        if np.shape(x) != np.shape(y) or close(s.name, np.asarray(x).astype(t), np.asarray(y).astype(t)) is False:
            ctx.fail(f'{s.name}:axis', f'{s.path} {c.it} {kw}: {x!r} expected {y!r}')


def other_form(ctx, case, name):
    """The Python wrappers and composed functions: batches in any layout against calls for one batch element."""
    rng = case.rng
    c = calls.make(rng, name, total=int(np.exp(rng.uniform(5.5, 10.8))) if case.index % 60 == 59 else None)
    args = list(c.args)
    if rng.random() < .3:
        args = [gen.flatten_axes(rng, a, 0) for a in args]
        c.args = args
    ctx.note(c.describe())
    use = [gen.layout(rng, a) for a in args]
    out = None
    if rng.random() < .6:
        out = gen.layout(rng, np.zeros(c.oshape, c.ot), rng.choice(['C', 'F', 'strided', 'neg', 'pad', 'misaligned', 'byteswapped', 'giant']))
    try:
        r = c(*use, out=out)
    except (ValueError, TypeError) as e:
        if name != 'gendot':
            raise
        ctx.count('rejected')
        return
    r = np.asarray(r)
    if r.shape != c.oshape:
        ctx.fail(f'{name}:shape', f'{c.describe()}: shape {r.shape}, expected {c.oshape}')
        return
    v = r if c.oaxis is None else np.moveaxis(r, c.oaxis, -1)
    idx = list(np.ndindex(*c.L))
    if len(idx) > 16:
        idx = [idx[i] for i in sorted({0, len(idx) - 1, *map(int, rng.choice(len(idx), 15, replace=False))})]
    ctx.count('form:' + name)
    for ix in idx:
        one_ = c.single(ix)
        ref = one_(*one_.args, out=np.zeros(one_.oshape, c.ot))
        ctx.ev()
        ctx.distinct(name, ix, *[a.tobytes()[:300] for a in one_.args])
        g, e = np.asarray(v[ix]).astype(c.ot), np.asarray(ref).astype(c.ot)
        if not (g.shape == e.shape and num.same(g, e)):
            if not c.plain() and g.shape == e.shape:
                ctx.count('not_judged')
                continue
            ctx.fail(f'{name}:layout', f'{c.describe()} at {ix}: {num.show(g)}, alone: {num.show(e)}\n'
                     f' args {num.show(*one_.args)}')
            return


def run(ctx):
    gen.GIANT = .025
    for name in calls.WRAPPERS:
        ctx.each('form:' + name, ctx.n(700, 14000), lambda case, name=name: other_form(ctx, case, name))
    for s in SPECS.values():
        if s.cid is None and 'bincount' not in s.name:
            continue
        q = max(2000, 6 * len(s.types))
        ctx.each('call:' + s.name, ctx.n(q, 8 * q), lambda case, s=s: one(ctx, case, s))
    ctx.each('fold', ctx.n(5000, 60000), lambda case: fold(ctx, case))
    ctx.each('long', ctx.n(4000, 40000), lambda case: long_loops(ctx, case))
    ctx.each('axis', ctx.n(4000, 40000), lambda case: axis_keyword(ctx, case))
