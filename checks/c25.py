"""gendot: the loops of the composed function, and its values against an explicit composition: the product ufunc on
each pair of vectors, folded from left to right with one-element calls of the sum ufunc (or given to the gufunc)."""
import gc

import numpy as np

from vlib import gen, num
from vlib.gendots import pools

OKT = set('?bBhHiIlLqQefdgFDG->')
# SIMD loops of these may round differently for other strides: they get contiguous vectors
INEXACT = {'power', 'float_power', 'arctan2', 'hypot', 'logaddexp', 'logaddexp2', 'pow'}


def chain(p, q):
    """[(loop of the composition, loop of p, loop of q)]"""
    out = []
    for a in p.types:
        if 'O' in a:
            continue
        pi, po = a.split('->')
        for b in q.types:
            qi, qo = b.split('->')
            if qi == po * q.nin and (q.nin == 1 or qo == po):
                out.append((f'{pi}->{qo}', a, b))
    return out


def pick(rng):
    prods, sums, gsum = pools()
    p = prods[int(rng.integers(0, len(prods)))]
    q = gsum if rng.random() < .3 else sums
    return p, q[int(rng.integers(0, len(q)))]


def pair(case):
    prods, sums, gsum = pools()
    al = sums + gsum
    k = case.index % (len(prods) * len(al))
    return prods[k // len(al)], al[k % len(al)]


def make(p, q, **kw):
    from ufunclab import gendot
    try:
        return gendot(p, q, **kw)
    except TypeError:
        if any(c in t for f in (p, q) for t in f.types for c in 'mM'):
            return None                  # dates carry a unit: gendot cannot make their loops
        raise


def table(ctx, case):
    p, q = pair(case)
    ctx.note(f'{p.__name__} {q.__name__}')
    custom = case.index % 3 == 0
    kw = dict(name=f'dot{case.index}', doc=f'documented {case.index}') if custom else {}
    f = make(p, q, **kw)
    ctx.ev()
    if f is None:
        ctx.count('dates, not judged')
        return
    want = [c[0] for c in chain(p, q)]
    ctx.count('tables')
    ctx.distinct('table', p.__name__, q.__name__)
    if f.types != want:
        ctx.fail('gendot:types', f'gendot({p.__name__}, {q.__name__}).types is {f.types}, expected {want}')
    nm = kw.get('name', f'gendot_{p.__name__}_{q.__name__}')
    if f.__name__ != nm or f.signature.replace(' ', '') != '(n),(n)->()' or (f.nin, f.nout) != (2, 1):
        ctx.fail('gendot:attributes', f'{f.__name__} {f.signature} {f.nin} {f.nout}, expected the name {nm}')
    if custom and kw['doc'] not in f.__doc__:
        ctx.fail('gendot:doc', f'the docstring of {nm} is {f.__doc__!r}')


def value(rng, p, tc, shape, k):
    """Values that make folds interesting without all of them overflowing."""
    u = rng.random()
    if tc in gen.INTS:
        if u < .6:
            ii = np.iinfo(tc)
            a = rng.integers(max(-5, ii.min), 6, size=shape).astype(tc)
        else:
            a = gen.ints(rng, tc, shape)
        if p.__name__ == 'power' and k == 1 or 'shift' in p.__name__ and k == 1 or p.__name__ == 'ldexp' and k == 1:
            a = np.abs(a) % 8
            a = a.astype(tc)
        return np.asarray(a)
    return np.asarray(gen.values(rng, tc, shape, None if u < .6 else 'normal'))


def bad_int_power(name, x):
    return name == 'power' and x.dtype.kind in 'i' and x.size and (x < 0).any()


def expect(p, q, ptype, qtype, a, b):
    """The composition on two vectors; None when it cannot be judged."""
    x = p(a, b, sig=ptype)
    x = np.ascontiguousarray(x)
    if q.nin == 1:
        return q(x, sig=qtype)
    if 'shift' in q.__name__ or bad_int_power(q.__name__, x[1:]):
        return None
    if len(x) == 0:
        if q.identity is None:
            return ValueError
        return np.array(q.identity).astype(qtype[-1])[()]
    acc = x[:1].copy()
    for k in range(1, len(x)):
        acc = q(acc, x[k:k + 1].copy(), sig=qtype)
    return acc[0]


def call(ctx, case, f, p, q, c, where):
    rng = case.rng
    loop, pt, qt = c
    n = int(rng.choice([0, 1, 2, 3, 4, 7, 8, 9, 16, 33, 120, 1500], p=[.07, .09, .14, .15, .1, .1, .1, .1, .08, .05, .018, .002]))
    L = gen.shape_nd(rng, 2, 4, allow0=True)
    args = []
    for k in (0, 1):
        sh = gen.sub_shape(rng, L)
        v = value(rng, p, loop[k], sh + (n,), k)
        if bad_int_power(p.__name__, v) and k == 1:
            return
        args.append(v)
    if p.__name__ in ('left_shift', 'right_shift'):
        args[1] = (np.abs(args[1]) % 8).astype(loop[1])
    L = np.broadcast_shapes(args[0].shape[:-1], args[1].shape[:-1])
    lay = p.__name__ not in INEXACT and rng.random() < .7
    if lay and rng.random() < .2:
        # one of the vectors is one repeated element: stride 0 in the loop
        k = int(rng.integers(0, 2))
        args[k] = gen.flatten_axes(rng, args[k], 1)
        ins = [gen.zero_strides(a) for a in args]
    else:
        ins = [gen.layout(rng, a) for a in args] if lay else args
    kw = {'sig': loop}
    if rng.random() < .4 and np.dtype(loop[0]) == np.dtype(loop[1]):
        first = next((t for t in f.types if all(np.can_cast(np.dtype(loop[i]), np.dtype(t[i])) for i in (0, 1))), None)
        if first == loop:
            kw = {}
    if rng.random() < .4:
        kw['out'] = gen.layout(rng, np.full(L, 1).astype(loop[-1]), rng.choice(['C', 'F', 'strided', 'neg', 'pad', 'misaligned', 'byteswapped']))
    if lay and rng.random() < .3 and ins[0].ndim == ins[1].ndim:
        ax = int(rng.integers(0, ins[0].ndim))
        ins = [np.moveaxis(a, -1, ax) for a in ins]
        kw['axis'] = ax
    info = f'gendot({p.__name__}, {q.__name__}) {loop} {where} shapes={[a.shape for a in ins]} strides={[a.strides for a in ins]} {sorted(kw)}'
    ctx.note(info)
    try:
        r = f(*ins, **kw)
    except ValueError as e:
        r = e
    ctx.ev()
    ctx.count('calls')
    ctx.count('sum: ' + q.__name__)
    A, B = [np.broadcast_to(a, L + (n,)) for a in args]
    if n == 0 and (q.identity is None) and 0 not in L:
        ctx.count('empty without identity')
        ctx.distinct(info)
        if not isinstance(r, ValueError):
            ctx.fail('gendot:empty', f'no ValueError for empty vectors without an identity: {r!r} {info}')
        return
    if isinstance(r, ValueError):
        if n == 0 or (q.__name__ == 'power' and 'negative integer powers' in str(r)):
            return
        ctx.fail('gendot:exception', f'{r!r} {info}')
        return
    r = np.asarray(r)
    if r.shape != L or r.dtype.newbyteorder('=') != np.dtype(loop[-1]):
        ctx.fail('gendot:shape', f'result {r.shape} {r.dtype}, expected {L}: {info}')
        return
    for ix in np.ndindex(*L):
        w = expect(p, q, pt, qt, A[ix], B[ix])
        if w is None:
            ctx.count('not judged')
            return
        if n == 0:
            ctx.count('empty with identity')
        ctx.distinct(p.__name__, q.__name__, loop, A[ix].tobytes(), B[ix].tobytes())
        g = np.asarray(r[ix]).astype(loop[-1])
        if not num.same(g, np.asarray(w).astype(loop[-1])):
            ctx.fail('gendot:value', f'at {ix} got {num.show(g)} expected {num.show(w)}\n{info}\n{num.show(A[ix], B[ix])}')
            return
    if case.index < 2:
        ctx.sample(info)


def values(ctx, case):
    p, q = pair(case)
    f = make(p, q)
    if f is None:
        return
    ch = [c for c in chain(p, q) if set(c[0]) <= OKT]
    if not ch:
        ctx.count('no loops')
        return
    for c in ch:
        call(ctx, case, f, p, q, c, '')


def many(ctx, case):
    """Functions are made, called and dropped in random order."""
    rng = case.rng
    alive = []
    for step in range(40):
        u = rng.random()
        if u < .5 or not alive:
            p, q = pick(rng)
            if rng.random() < .3 and alive:
                p, q = alive[int(rng.integers(0, len(alive)))][1:3]          # the same composition again
            kw = {}
            if rng.random() < .5:
                kw['name'] = 'n' * int(rng.choice([1, 2, 3, 60]))
            if rng.random() < .5:
                kw['doc'] = 'd' * int(rng.integers(0, 3000)) + str(step)
            f = make(p, q, **kw)
            if f is not None:
                nm = kw.get('name', f'gendot_{p.__name__}_{q.__name__}')
                if f.__name__ != nm:
                    ctx.fail('gendot:attributes', f'{f.__name__}, expected the name {nm}')
                head, _, tail = (f.__doc__ or '').partition('\n\n')
                if tail != kw.get('doc', ''):
                    ctx.fail('gendot:doc', f'the docstring is {f.__doc__[:200]!r}, given {kw}')
                if any(f is g[0] for g in alive) and kw:
                    ctx.fail('gendot:same object', f'an existing function was returned for {p} {q} {kw}')
                alive.append((f, p, q, f.types, f.__name__, f.__doc__))
            f = None
        elif u < .7:
            del alive[int(rng.integers(0, len(alive)))]
            if rng.random() < .3:
                gc.collect()
        else:
            f, p, q, types, name, doc = alive[int(rng.integers(0, len(alive)))]
            if f.types != types or f.__name__ != name or f.__doc__ != doc:
                ctx.fail('gendot:changed', f'{name}: attributes changed after other functions were made')
            ch = [c for c in chain(p, q) if set(c[0]) <= OKT]
            if ch:
                call(ctx, case, f, p, q, ch[int(rng.integers(0, len(ch)))], f'step {step}, {len(alive)} functions alive')
    ctx.count('histories')


def rejects(ctx, case):
    import ufunclab as u
    ok = np.multiply, np.add
    bad1 = [np.sin, np.matmul, np.vecdot, np.divmod, np.modf, np.clip if isinstance(np.clip, np.ufunc) else np.frexp, u.gmean, u.kbnsum, u.softmax, u.minmax, u.first, u.logistic,
            u.deadzone, u.hypot3, np.sum, sum, lambda a, b: a * b, None, 'multiply', 3, np.multiply.reduce, u.vdot, u.searchsortedl]
    bad2 = [np.sin, np.matmul, np.vecdot, np.divmod, np.frexp, u.softmax, u.minmax, u.argminmax, u.first, u.logistic, u.deadzone, u.hypot3, np.sum, max, None, 'add', 3,
            np.add.reduce, u.vdot, u.pmean, u.meanvar, u.mad, u.cross3, u.min_argmin, u.tri_area, u.searchsortedl, u.fillnan1d]
    for k, (a, b) in enumerate([(x, ok[1]) for x in bad1] + [(ok[0], x) for x in bad2]):
        ctx.ev()
        ctx.count('rejected')
        ctx.distinct('reject', k)
        try:
            r = u.gendot(a, b)
        except ValueError:
            continue
        except Exception as e:                                              # noqa: BLE001
            r = e
        ctx.fail('gendot:accepts', f'gendot({a!r}, {b!r}) gave {r!r} instead of ValueError')


def run(ctx):
    prods, sums, gsum = pools()
    npair = len(prods) * (len(sums) + len(gsum))
    ctx.each('tables', npair, lambda case: table(ctx, case))
    ctx.each('values', ctx.n(10 * npair, 200 * npair), lambda case: values(ctx, case))
    ctx.each('many', ctx.n(500, 9000), lambda case: many(ctx, case))
    ctx.each('rejects', 1, lambda case: rejects(ctx, case))
