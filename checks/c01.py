"""Memory safety and defined behaviour: every compiled entry point is driven, with valid and with
hostile values, shapes, strides, axes and outputs, in the AddressSanitizer + UBSan build and in the
release build, on arrays that lie flush against inaccessible pages inside canary bytes."""
import numpy as np

from vlib import arena, engine, gen, specs, wrappers      # noqa: F401
from vlib.engine import SPECS
from vlib.gendots import GENDOTS

# signed integer arithmetic of these wraps by contract of the inputs: no overflow is provoked
NO_OVERFLOW = {'cross2', 'cross3', '_bincount.bincountw'}
OKEXC = (ValueError, TypeError, OverflowError, ZeroDivisionError, AttributeError)


def hostile_args(g, args, spec):
    """Replace some or all arguments by values the documentation says nothing about."""
    rng = g.rng
    out = []
    full = rng.random() < .5
    for a, t in zip(args, g.it):
        if spec.name in NO_OVERFLOW and t in gen.INTS:
            out.append(a)
        elif t == 'O' or (not full and rng.random() < .5):
            out.append(a)
        else:
            out.append(np.asarray(gen.values(rng, t, a.shape)))
    return out


def place(rng, a, placed):
    u = rng.random()
    if a.dtype.hasobject or u < .12:
        return gen.layout(rng, a)
    if u < .2:
        # broadcast views: zero strides
        return np.broadcast_to(a, a.shape)
    p = arena.Placed(rng, a.shape, a.dtype).set(a)
    placed.append(('input', p))
    return p.view


def out_shape(sh, k, pos):
    nd = len(sh)
    order = [None] * nd
    for p, d in zip([p % nd for p in pos], sh[nd - k:]):
        order[p] = d
    rest = iter(sh[:nd - k])
    return tuple(next(rest) if o is None else o for o in order)


def guarded(ctx, case, name, fn, placed, note):
    ctx.note(note)
    for _, p in placed:
        p.arm()
    exc = None
    try:
        r = fn()
    except OKEXC as e:
        exc, r = e, None
        ctx.count('rejected')
    finally:
        for _, p in placed:
            p.disarm()
    ctx.ev()
    for what, p in placed:
        if what == 'input' and p.changed():
            ctx.fail(f'{name}:input-write', f'memory of an input changed: {note}')
        bad = p.stray()
        if len(bad):
            ctx.fail(f'{name}:stray-write', f'{len(bad)} bytes outside the elements of an {what} changed, first '
                     f'at offset {bad[0]} of {p.region.size}: {note}')
        ctx.count('guarded arrays:' + p.flush)
    for _, p in placed:
        p.release()
    return r, exc


def one(ctx, case, s):
    rng = case.rng
    loop = s.types[case.index % len(s.types)] if case.index < 4 * len(s.types) else None
    dims = None
    if s.sig and rng.random() < .12:
        # core dimensions the function may refuse, and very short ones
        dims = s.rdims(rng)
        for d in dims:
            if not d.isdigit() and rng.random() < .6:
                dims[d] = int(rng.integers(0, 3))
        if s._dims and not all(a >= 1 for a in dims.values()) and s.path.startswith('ufunclab._'):
            dims = None
    try:
        c = engine.make(case, s, loop=loop, dims=dims)
    except Exception:
        if dims is None:
            raise
        c = engine.make(case, s, loop=loop)      # the generator needs longer arrays
    hostile = rng.random() < .5
    args = c.args
    if hostile:
        c.rng = rng
        args = hostile_args(c, c.args, s)
    ins = args
    kw = {}
    oax = None
    if s.sig and not s.native_only and rng.random() < .35:
        ins, axes, oax = engine.rand_axes(rng, s, args, c.L)
        kw['axes'] = axes + oax
    placed = []
    if s.native_only:
        ins2 = []
        for a in ins:
            p = arena.Placed(rng, a.shape, a.dtype, strides=np.empty(a.shape, a.dtype).strides).set(a)
            placed.append(('input', p))
            ins2.append(p.view)
        ins = ins2
    else:
        ins = [place(rng, a, placed) for a in ins]
    c.ins = ins
    outs = None
    if s.outonly or rng.random() < .7:
        outs = []
        for k, (sh, tc) in enumerate(zip(c.oshapes, c.ot)):
            if oax and s.ocore[k]:
                sh = out_shape(sh, len(s.ocore[k]), oax[k])
            if tc == 'O' or rng.random() < .1:
                o = engine.poison_out(rng, sh, tc, contiguous=s.native_only)
                if 'bincount' in s.name:
                    o[...] = 0
                outs.append(o)
                continue
            p = arena.Placed(rng, sh, tc, strides=np.empty(sh, tc).strides if s.native_only else None)
            if tc == '?' or 'bincount' in s.name:
                p.set(0)
            placed.append(('output', p))
            outs.append(p.view)
        kw['out'] = tuple(outs)
    if rng.random() < .4:
        kw['sig'] = c.it + '->' + c.ot
    if not s.sig and rng.random() < .25:
        kw['where'] = gen.layout(rng, rng.random(size=c.L) < .5)
    note = f'{s.path} {c.it}->{c.ot} dims={c.dims} L={c.L} hostile={hostile} ' \
           f'{[(a.shape, a.strides, a.dtype.str) for a in ins]} out=' \
           f'{outs and [(o.shape, o.strides) for o in outs]} {sorted(kw)} {kw.get("axes")} ' \
           f'values={[a.reshape(-1)[:12].tolist() for a in args]}'
    ctx.distinct(s.name, c.it, c.L, str(sorted(c.dims.items())), hostile, [a.tobytes()[:400] for a in args].__repr__())
    r, exc = guarded(ctx, case, s.name, lambda: s.obj(*ins, **kw), placed, note)
    ctx.count(('hostile:' if hostile else 'valid:') + s.name)
    if exc is not None and not hostile and dims is None:
        ctx.fail(f'{s.name}:exception', f'a valid call raised {exc!r}: {note}')


ELEM2 = None


def methods(ctx, case):
    """reduce, accumulate, reduceat, at and outer of the element-wise ufuncs."""
    rng = case.rng
    el = [s for s in SPECS.values() if not s.sig and s.nin == 2 and s.nout == 1]
    un = [s for s in SPECS.values() if not s.sig and s.nin == 1 and s.nout == 1]
    kind = case.index % 6
    if kind == 5:
        s = un[int(rng.integers(0, len(un)))]
        it = s.types[int(rng.integers(0, len(s.types)))]
        if it[0] != it[1]:
            return
        n = int(rng.integers(1, 60))
        p = arena.Placed(rng, (n,), it[0]).set(gen.values(rng, it[0], (n,)))
        ix = rng.integers(-n, n, size=int(rng.integers(0, 30)))
        guarded(ctx, case, s.name, lambda: s.obj.at(p.view, ix), [('output', p)], f'{s.path}.at {it} n={n} {ix}')
        ctx.count('method:at')
        return
    s = el[int(rng.integers(0, len(el)))]
    t = s.types[int(rng.integers(0, len(s.types)))][0][0]
    sh = tuple(int(v) for v in rng.integers(1, 7, size=int(rng.integers(1, 4))))
    if rng.random() < .2:
        sh = (int(rng.integers(1, 400)),) + sh[:1]
    p = arena.Placed(rng, sh, t).set(gen.values(rng, t, sh))
    ax = int(rng.integers(0, len(sh)))
    placed = [('input', p)]
    f = s.obj
    if kind == 0:
        fn, nm = (lambda: f.reduce(p.view, axis=ax)), 'reduce'
    elif kind == 1:
        o = arena.Placed(rng, sh, t)
        placed.append(('output', o))
        fn, nm = (lambda: f.accumulate(p.view, axis=ax, out=o.view)), 'accumulate'
    elif kind == 2:
        ix = rng.integers(0, sh[ax], size=int(rng.integers(1, 6)))
        fn, nm = (lambda: f.reduceat(p.view, ix, axis=ax)), 'reduceat'
    elif kind == 3:
        q = arena.Placed(rng, (5,), t).set(gen.values(rng, t, (5,)))
        o = arena.Placed(rng, sh + (5,), t)
        placed += [('input', q), ('output', o)]
        fn, nm = (lambda: f.outer(p.view, q.view, out=o.view)), 'outer'
    else:
        o = arena.Placed(rng, sh[:ax] + sh[ax + 1:], t)
        placed.append(('output', o))
        fn, nm = (lambda: f.reduce(p.view, axis=ax, out=o.view)), 'reduce out'
    ctx.count('method:' + nm)
    guarded(ctx, case, s.name, fn, placed, f'{s.path}.{nm} {t} {sh} {ax}')


def large(ctx, case):
    """Long contiguous element-wise loops (vector bodies and their tails) and long core dimensions."""
    rng = case.rng
    lst = list(SPECS.values())
    s = lst[case.index % len(lst)]
    if not s.sig:
        L, dims = (int(rng.integers(200, 9000)),), None
    else:
        L, dims = (int(rng.integers(1, 4)),), s.rdims(rng)
        free = [d for d in dims if not d.isdigit()]
        if free:
            for d in free:
                dims[d] = int(rng.integers(1, 40))
            dims[free[int(rng.integers(0, len(free)))]] = int(rng.integers(500, 5000))
        if s.name.startswith('sosfilter'):
            dims['m'] = min(dims['m'], 12)
    loop = s.types[int(rng.integers(0, len(s.types)))]
    if 'O' in loop[0]:
        return
    it = loop[0]
    sh = [L + tuple(dims[d] for d in cc) if dims else L for cc in s.icore]
    args = []
    for t, h in zip(it, sh):
        if s.name in NO_OVERFLOW and t in gen.INTS:
            args.append(rng.integers(0, 50, size=h).astype(t))
        else:
            args.append(np.asarray(gen.values(rng, t, h)))
    placed, ins = [], []
    for a in args:
        p = arena.Placed(rng, a.shape, a.dtype, strides=np.empty(a.shape, a.dtype).strides).set(a)
        placed.append(('input', p))
        ins.append(p.view)
    outs = []
    for t, cc in zip(loop[1], s.ocore):
        h = L + tuple(dims[d] for d in cc) if dims else L
        p = arena.Placed(rng, h, t, strides=np.empty(h, t).strides).set(0)
        placed.append(('output', p))
        outs.append(p.view)
    ctx.count('large:' + s.name)
    guarded(ctx, case, s.name, lambda: s.obj(*ins, out=tuple(outs)), placed,
            f'{s.path} {loop} L={L} dims={dims}')


def bad_shapes(ctx, case):
    """Calls that numpy or the function must refuse: mismatched dimensions, too few dimensions, a
    wrong number of arguments, wrong out shapes, nonsense keyword arguments."""
    rng = case.rng
    lst = list(SPECS.values())
    s = lst[case.index % len(lst)]
    it, ot = s.types[int(rng.integers(0, len(s.types)))]
    args = []
    for i, t in enumerate(it):
        nd = int(rng.integers(0, 4))
        h = tuple(int(v) for v in rng.integers(0, 5, size=nd))
        if s.name in NO_OVERFLOW and t in gen.INTS:
            args.append(rng.integers(0, 9, size=h).astype(t))
        else:
            args.append(np.asarray(gen.values(rng, t, h)))
    u = rng.random()
    if u < .15:
        args = args[:-1] if rng.random() < .5 else args + [args[0]] * 3
    kw = {}
    if rng.random() < .3:
        kw['out'] = tuple(np.zeros(tuple(int(v) for v in rng.integers(0, 5, size=int(rng.integers(0, 3)))),
                                   dtype=t) for t in ot)
        if s.name == 'sosfilter_ic_contig':
            del kw['out']
    if rng.random() < .2:
        kw['axis'] = int(rng.integers(-4, 4))
    if rng.random() < .2:
        kw['axes'] = [tuple(int(v) for v in rng.integers(-3, 3, size=int(rng.integers(0, 3))))
                      for _ in range(int(rng.integers(0, 5)))]
    if rng.random() < .1:
        kw['keepdims'] = True
    if s.outonly and 'out' not in kw:
        pass
    if 'bincount' in s.name and 'out' not in kw:
        kw['out'] = np.zeros(int(rng.integers(0, 5)), dtype=ot)
    ctx.note(f'{s.path} {it}->{ot} {[a.shape for a in args]} {[(k, getattr(v, "shape", v)) for k, v in kw.items()]} '
             f'{[a.tolist() for a in args]}'[:4000])
    ctx.ev()
    try:
        s.obj(*args, **kw)
        ctx.count('odd call accepted')
    except OKEXC + (np.exceptions.AxisError, IndexError, RuntimeError):
        ctx.count('odd call rejected')
    ctx.distinct('odd', s.name, str([a.shape for a in args]), str(kw)[:200])


def gendot_case(ctx, case):
    rng = case.rng
    f, desc = GENDOTS(case)
    t = f.types[int(rng.integers(0, len(f.types)))]
    it, ot = t.split('->')
    L = gen.shape_nd(rng, 2, 4)
    n = int(rng.choice([0, 1, 2, 5, 30, 300]))
    sh = [gen.sub_shape(rng, L) + (n,), gen.sub_shape(rng, L) + (n,)]
    L = np.broadcast_shapes(sh[0][:-1], sh[1][:-1])
    args = [np.asarray(gen.values(rng, x, h, 'tiny' if x in gen.INTS else None)) for x, h in zip(it, sh)]
    placed = []
    ins = [place(rng, a, placed) for a in args]
    kw = {}
    if ot != 'O' and rng.random() < .7:
        o = arena.Placed(rng, L, ot)
        if ot == '?':
            o.set(0)
        placed.append(('output', o))
        kw['out'] = o.view
    if rng.random() < .5:
        kw['sig'] = t
    ctx.count('gendot')
    ctx.distinct('gendot', desc, t, n, L)
    guarded(ctx, case, 'gendot', lambda: f(*ins, **kw), placed, f'gendot {desc} {t} n={n} L={L}')


def python_level(ctx, case):
    import contextlib
    import io
    import ufunclab
    for s in SPECS.values():
        ctx.note(f'ufunc_inspector({s.path})')
        with contextlib.redirect_stdout(io.StringIO()):
            ufunclab.ufunc_inspector(s.obj)
        ctx.ev()
    for f in (np.add, np.sin, np.matmul, np.divmod, np.isnat):
        with contextlib.redirect_stdout(io.StringIO()):
            ufunclab.ufunc_inspector(f)
    for bad in (None, 3, 'x', np.sum, len):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                ufunclab.ufunc_inspector(bad)
        except TypeError:
            ctx.count('inspector rejected')
    ctx.count('inspector')
    ctx.distinct('inspector')


def run(ctx):
    from checks import c11
    q = 300 if ctx.variant == 'asan' else 200
    for s in SPECS.values():
        if s.cid is None and 'bincount' not in s.name:
            continue
        n = ctx.n(max(q, 3 * len(s.types)), 12 * max(q, 3 * len(s.types)))
        ctx.each('call:' + s.name, n, lambda case, s=s: one(ctx, case, s))
    nsp = len(SPECS)
    ctx.each('methods', ctx.n(600, 12000), lambda case: methods(ctx, case))
    ctx.each('large', ctx.n(4 * nsp, 60 * nsp), lambda case: large(ctx, case))
    ctx.each('odd', ctx.n(30 * nsp, 600 * nsp), lambda case: bad_shapes(ctx, case))
    ctx.each('gendot', ctx.n(400, 8000), lambda case: gendot_case(ctx, case))
    ctx.each('inspector', 1, lambda case: python_level(ctx, case))
    for nm, f in (('bincount', c11.wrapper_case), ('convert_to_base', wrappers.convert_to_base),
                  ('one_hot', wrappers.one_hot), ('nextn_greater', wrappers.nextn('nextn_greater', True)),
                  ('nextn_less', wrappers.nextn('nextn_less', False))):
        ctx.each('wrapper:' + nm, ctx.n(300, 6000), lambda case, f=f: f(ctx, case))
