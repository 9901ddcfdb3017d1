"""References, exceptions and heap memory are conserved.

Object loops are run on instrumented objects: every construction, destruction, comparison and arithmetic
operation is logged, and any chosen operation can be made to raise.  After each call the monitor checks the
reference count of every object, the number of live objects, that the exception raised inside the loop is
the one that comes out, and that no operation was made after it.  A second monitor repeats every kind of call,
including failing ones, and watches the size of the C heap and the reference counts of shared objects."""
import ctypes
import gc
import sys

import numpy as np

from vlib import engine, gen, specs      # noqa: F401
from vlib.engine import SPECS
from vlib.gendots import pools


class Boom(Exception):
    pass


class State:
    live = 0
    log = 0
    ncmp = 0            # of which comparisons
    boom = 0            # raise at this operation
    after = 0           # operations made after an exception was raised
    raised = None
    mode = 'raise'


S = State


def reset(boom=0, mode='raise'):
    S.log, S.ncmp, S.boom, S.after, S.raised, S.mode = 0, 0, boom, 0, None, mode


class BadBool:
    def __bool__(self):
        S.raised = Boom('bool')
        raise S.raised


class Truthy:
    """A comparison result that is not a bool."""

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return self.v


class Obj:
    __slots__ = ('v', '__weakref__')

    def __init__(self, v):
        self.v = v
        S.live += 1

    def __del__(self):
        S.live -= 1

    def _op(self, res):
        if S.raised is not None:
            S.after += 1
        S.log += 1
        S.ncmp += isinstance(res, bool)
        if (isinstance(res, bool) and S.ncmp == S.boom) if S.mode == 'bool' else S.log == S.boom:
            if S.mode == 'bool':
                return BadBool()
            if S.mode == 'notimpl':
                return NotImplemented
            S.raised = Boom(S.log)
            raise S.raised
        if S.mode == 'truthy' and isinstance(res, bool):
            return Truthy(res)
        return res

    def _cmp(f):                                                    # noqa: N805
        def m(self, o):
            if not isinstance(o, Obj):
                return NotImplemented
            return self._op(bool(f(self.v, o.v)))
        return m
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    __hash__ = object.__hash__

    def _arith(f):                                                  # noqa: N805
        def m(self, o):
            if not isinstance(o, Obj):
                return NotImplemented
            r = self._op(None)
            if r is NotImplemented:
                return r
            return Obj(f(self.v, o.v))
        return m
    __mul__ = _arith(lambda a, b: a * b)
    __sub__ = _arith(lambda a, b: a - b)
    __add__ = _arith(lambda a, b: a + b)

    def __repr__(self):
        return f'Obj({self.v})'


OBJ = [s for s in SPECS.values() if any('O' in t[0] for t in s.types)]
ARITH = {'cross2', 'cross3', 'peaktopeak'}


def ref(s, ins):
    """What the function gives for one core slice, from the values of the objects: for a result that is one of
    the inputs, the input object itself."""
    x = ins[0]
    v = [o.v for o in x]
    n = s.name
    if n == 'all_same':
        return [all(a == v[0] for a in v)]
    if n in ('first', 'argfirst'):
        op = [lambda a, b: a < b, lambda a, b: a <= b, lambda a, b: a == b, lambda a, b: a != b,
              lambda a, b: a > b, lambda a, b: a >= b][int(ins[1])]
        t = ins[2].v
        for i, a in enumerate(v):
            if op(a, t):
                return [i if n == 'argfirst' else x[i]]
        return [-1 if n == 'argfirst' else ins[3]]
    if n == 'ordered':
        op = [lambda a, b: a < b, lambda a, b: a <= b, lambda a, b: a == b, lambda a, b: a != b,
              lambda a, b: a > b, lambda a, b: a >= b][int(ins[1])]
        return [all(op(a, b) for a, b in zip(v, v[1:]))]
    if n.startswith('searchsorted'):
        import bisect
        return [(bisect.bisect_left if n[-1] == 'l' else bisect.bisect_right)(v, ins[1].v)]
    if n == 'cross2':
        w = [o.v for o in ins[1]]
        return [('val', v[0] * w[1] - v[1] * w[0])]
    if n == 'cross3':
        w = [o.v for o in ins[1]]
        return [[('val', v[1] * w[2] - v[2] * w[1]), ('val', v[2] * w[0] - v[0] * w[2]),
                 ('val', v[0] * w[1] - v[1] * w[0])]]
    lo, hi = min(v), max(v)
    il, ih = v.index(lo), v.index(hi)
    return {'argmin': [il], 'argmax': [ih], 'argminmax': [[il, ih]], 'minmax': [[x[il], x[ih]]],
            'min_argmin': [x[il], il], 'max_argmax': [x[ih], ih], 'peaktopeak': [('val', hi - lo)]}[n]


def build(case, s):
    rng = case.rng
    loop = [t for t in s.types if 'O' in t[0]][0]
    dims = s.rdims(rng, long_ok=False)
    L = gen.shape_nd(rng, 2, 3)
    shapes = [gen.sub_shape(rng, L) for _ in range(s.nin)]
    shapes[0] = L
    pool = [Obj(int(x)) for x in rng.integers(0, int(rng.choice([1, 2, 4, 30])), size=12)]
    args = []
    for i, (t, cc, sh) in enumerate(zip(loop[0], s.icore, shapes)):
        sh = sh + tuple(dims[d] for d in cc)
        if t == 'b':
            args.append(rng.integers(0, 6, size=sh).astype('b'))
            continue
        a = np.empty(sh, dtype=object)
        f = a.reshape(-1)
        shared = rng.random() < .4
        for k in range(f.size):
            f[k] = pool[int(rng.integers(0, 12))] if shared else Obj(int(rng.integers(0, 9)))
        if s.name.startswith('searchsorted') and i == 0:
            for ix in np.ndindex(*a.shape[:-1]):
                row = sorted(a[ix].tolist(), key=lambda o: o.v)
                for k, o in enumerate(row):
                    a[ix + (k,)] = o
        args.append(a)
    oshapes = [np.broadcast_shapes(*shapes) + tuple(dims[d] for d in cc) for cc in s.ocore]
    return loop, L, args, oshapes, pool


def counts(args):
    objs = {}
    for a in args:
        if a.dtype.hasobject:
            for o in a.reshape(-1):
                objs[id(o)] = o
    o = None                                                      # noqa: F841
    return list(objs.values())


def rc(objs):
    return [sys.getrefcount(o) for o in objs]


def objects(ctx, case, s):
    rng = case.rng
    gc.disable()
    live0 = S.live
    _objects(ctx, case, s)
    if S.live != live0:
        ctx.fail(f'{s.name}:object-leak', f'{S.live - live0} objects are still alive after the call and all its '
                 f'arguments are gone ({case.section}#{case.index})')


def _objects(ctx, case, s):
    rng = case.rng
    reset()
    loop, L, args, oshapes, pool = build(case, s)
    views = [gen.layout(rng, a, rng.choice(['C', 'F', 'strided', 'neg', 'offset'])) if a.dtype.hasobject else a
             for a in args]
    kw = dict(sig=loop[0] + '->' + loop[1])
    give = rng.random() < .6
    mode = str(rng.choice(['none', 'truthy', 'raise', 'raise', 'raise', 'bool', 'notimpl']))
    if mode in ('bool', 'truthy') and s.name in ('cross2', 'cross3'):
        mode = 'raise'
    old = []
    outs = None
    if give:
        outs = []
        for sh, t in zip(oshapes, loop[1]):
            o = np.empty(sh, dtype=t)
            if t == 'O':
                for k in range(o.size):
                    q = Obj(-5)
                    old.append(q)
                    o.reshape(-1)[k] = q
                q = None
            outs.append(o)
        o = None                                                  # noqa: F841
        kw['out'] = tuple(outs)
    # how many operations does the call make?
    total = 0
    if mode in ('raise', 'bool', 'notimpl'):
        reset()
        s.obj(*views, sig=kw['sig'])
        # an arithmetic operation may well give a BadBool: only a comparison has to convert it to a bool
        total = S.ncmp if mode == 'bool' else S.log
        if total == 0:
            mode = 'none'
    objs = counts(args)
    before = rc(objs)
    boom = int(rng.integers(1, total + 1)) if total else 0
    reset(boom, mode)
    ctx.note(f'{s.path} O {[a.shape for a in args]} mode={mode} boom={boom}/{total}')
    info = f'{s.path} {kw["sig"]} shapes={[a.shape for a in args]} mode={mode} operation {boom} of {total} out={give}'
    exc = r = None
    try:
        r = s.obj(*views, **kw)
    except Boom as e:
        exc = e
    except TypeError as e:
        exc = e
    ctx.ev()
    ctx.count(f'objects:{s.name}')
    ctx.count('mode:' + mode)
    ctx.count('operations', S.log)
    ctx.distinct(s.name, loop[0], mode, boom, total, repr(args))
    if mode in ('raise', 'bool'):
        if exc is None:
            ctx.fail(f'{s.name}:exception-lost', f'operation {boom} raised, but the call returned: {info}')
        elif exc is not S.raised:
            ctx.fail(f'{s.name}:exception-changed', f'{exc!r} instead of {S.raised!r}: {info}')
        if S.after:
            ctx.fail(f'{s.name}:continues', f'{S.after} operations were made after one had raised: {info}')
    elif mode == 'notimpl':
        ctx.count('notimpl:' + type(exc).__name__)
        if exc is not None and not isinstance(exc, TypeError):
            ctx.fail(f'{s.name}:exception-changed', f'{exc!r}: {info}')
    elif exc is not None:
        ctx.fail(f'{s.name}:exception', f'unexpected {exc!r}: {info}')
    failed = exc is not None
    exc = None
    S.raised = None
    if not failed:
        rr = r if isinstance(r, tuple) else (r,)
        if mode != 'notimpl':
            reset()
            values(ctx, s, args, rr, loop, info)
        rr = None
    del r
    if outs is not None:
        del outs
    kw.clear()
    got = rc(objs)
    if got != before:
        bad = [(o, a, b) for o, a, b in zip(objs, before, got) if a != b][:4]
        ctx.fail(f'{s.name}:refcount', f'reference counts (object, before, after) {bad}: {info}')
        bad = None
    for q in old:
        if sys.getrefcount(q) != 3:
            ctx.fail(f'{s.name}:refcount', f'an object that was in out has {sys.getrefcount(q)} references, expected 3: {info}')
            break
    q = None                                                      # noqa: F841


def values(ctx, s, args, rr, loop, info):
    L = np.broadcast_shapes(*[a.shape[:a.ndim - len(cc)] for a, cc in zip(args, s.icore)])
    bins = [np.broadcast_to(a, L + a.shape[a.ndim - len(cc):]) for a, cc in zip(args, s.icore)]
    for ix in np.ndindex(*L):
        want = ref(s, [b[ix] for b in bins])
        for k, w in enumerate(want):
            g = rr[k]
            if isinstance(g, np.ndarray):
                g = g[ix]
            pairs = zip(list(g), w) if isinstance(w, list) else [(g, w)]
            for p, q in pairs:
                if isinstance(q, tuple):
                    ok = isinstance(p, Obj) and p.v == q[1]
                elif isinstance(q, Obj):
                    # the element itself (or one that compares equal and comes first)
                    ok = p is q
                else:
                    ok = not isinstance(p, Obj) and int(p) == int(q)
                if not ok:
                    ctx.fail(f'{s.name}:object-value', f'at {ix} output {k} is {g!r}, expected {w!r}\n{info} {args!r}')
                    return


# ------------------------------------------------------------------------------- heap
class MallInfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks',
                                               'uordblks', 'fordblks', 'keepcost')]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = MallInfo2


def used():
    m = _libc.mallinfo2()
    return m.uordblks + m.hblkhd


def shared_objects(s):
    return [s.obj] + [np.dtype(t) for t in '?bBhHiIlLefdgFDGO'] + [ValueError, TypeError, np.ndarray]


def heap(ctx, case, s, fn, name):
    """Repeat fn: neither the heap nor the reference counts of shared objects may grow with it."""
    sh = shared_objects(s) if s is not None else []

    def loop(k):
        for _ in range(k):
            fn()
    loop(12)
    gc.collect()
    gc.disable()
    r0 = [sys.getrefcount(o) for o in sh]
    grown, total = [], 0
    # allocator caches fill up in the first calls: only growth that goes on is a leak
    for n in (60, 60, 60, 600, 600, 600, 600):
        gc.collect()
        u0 = used()
        loop(n)
        total += n
        gc.collect()
        grown.append((n, used() - u0))
        ctx.ev(n)
        if grown[-1][1] < 8 * n:
            break
    else:
        ctx.fail(f'{name}:heap-growth', f'the heap grew by (calls, bytes) {grown}: {fn.note}')
    r1 = [sys.getrefcount(o) for o in sh]
    gc.enable()
    ctx.count('heap:' + name)
    ctx.distinct('heap', name, case.index)
    bad = [(o, a, b) for o, a, b in zip(sh, r0, r1) if abs(a - b) >= total // 2]
    if bad:
        ctx.fail(f'{name}:shared-refcount', f'reference counts of shared objects (before, after) {bad}: {fn.note}')


def heap_spec(ctx, case, s):
    rng = case.rng
    loop = s.types[case.index % len(s.types)]
    c = engine.make(case, s, loop=loop)
    kw = {}
    outs = tuple(np.zeros(h, t) for h, t in zip(c.oshapes, c.ot))
    if s.outonly or rng.random() < .5:
        kw['out'] = outs
    args = [gen.layout(rng, a) for a in c.args]
    kind = case.index // len(s.types) % 3
    if kind == 2 and s.sig:
        # calls that fail
        args = [np.zeros((0,) * a.ndim, dtype=a.dtype) for a in args]
        kw = {}
        if 'bincount' in s.name:
            args = [a.astype(complex) for a in args]

    def fn():
        try:
            s.obj(*args, **kw)
        except (ValueError, TypeError, OverflowError):
            pass
    fn.note = f'{s.path} {c.it} {[a.shape for a in args]} {sorted(kw)}'
    ctx.note(fn.note)
    heap(ctx, case, s, fn, s.name)


def heap_python(ctx, case):
    import ufunclab as u
    rng = case.rng
    prods, sums, gsum = pools()
    p = [np.multiply, np.minimum, np.add, np.logical_and][case.index % 4]
    q = [np.maximum, np.add, np.logical_or, u.gmean][case.index // 4 % 4]
    x = np.arange(6).reshape(2, 3)
    e = np.zeros((2, 0))
    v = [np.zeros(3)]

    def attempt(f):
        def fn():
            try:
                f()
            except (ValueError, TypeError, np.exceptions.AxisError):
                pass
        return fn
    md = u.gendot(np.multiply, np.maximum)
    # every kind of sum: an element-wise ufunc, a gufunc that succeeds, one that refuses, one without identity
    gs = gsum[case.index % len(gsum)]
    sm = sums[int(rng.integers(0, len(sums)))]
    gd = u.gendot(prods[int(rng.integers(0, len(prods)))] if rng.random() < .5 else p, gs)
    gp = None
    try:
        gp = u.gendot(p, sm)
    except TypeError:
        pass
    big = np.ones((int(rng.integers(1, 4)), int(rng.choice([1, 2, 30, 300, 3000]))))
    bt = str(rng.choice(list('?bhilfdg')))
    big = big.astype(bt)
    fns = [
        ('gendot', lambda: u.gendot(p, q)), ('gendot', lambda: u.gendot(p, q, name='n', doc='d' * 500)),
        ('gendot', lambda: u.gendot(np.sin, q)), ('gendot', lambda: u.gendot(p, u.softmax)),
        ('gendot call', lambda: md(x * 1.0, x * 2.0)), ('gendot call', lambda: md(e, e)),
        ('gendot call', lambda: md(big, big)), ('gendot gufunc call', lambda: gd(big, big)),
        ('gendot gufunc call', lambda: gd(big[:, :0], big[:, :0])), ('gendot call', lambda: gp(big, big)),
        ('gendot call', lambda: gp(big[:, :0], big[:, :0])),
        ('bincount', lambda: u.bincount(x)), ('bincount', lambda: u.bincount(x, 5, weights=x * .5)),
        ('bincount', lambda: u.bincount(x, -1)), ('convert_to_base', lambda: u.convert_to_base(x, 3, 4)),
        ('convert_to_base', lambda: u.convert_to_base(x, 3, 4, axis=7)), ('one_hot', lambda: u.one_hot(x, 6)),
        ('nextn_greater', lambda: u.nextn_greater(x * 1.0, 3)), ('nextn_less', lambda: u.nextn_less(1.5, 3)),
        ('op', lambda: u.op.LT + u.op.KIND_MEAN),
    ]
    for name, f in fns:
        fn = attempt(f)
        fn.note = name
        ctx.note('heap ' + name)
        heap(ctx, case, None, fn, name)


def inspector_heap(ctx, case):
    import contextlib
    import io
    import ufunclab as u
    lst = list(SPECS.values())
    s = lst[case.index % len(lst)]

    def fn():
        with contextlib.redirect_stdout(io.StringIO()):
            u.ufunc_inspector(s.obj)
    fn.note = f'ufunc_inspector({s.path})'
    ctx.note(fn.note)
    heap(ctx, case, s, fn, 'ufunc_inspector')


def run(ctx):
    for s in OBJ:
        ctx.each('objects:' + s.name, ctx.n(900, 20000), lambda case, s=s: objects(ctx, case, s))
    for s in SPECS.values():
        if s.cid is None and 'bincount' not in s.name:
            continue
        q = len(s.types) * 6 if len(s.types) < 40 else len(s.types)
        ctx.each('heap:' + s.name, ctx.n(q, 6 * q), lambda case, s=s: heap_spec(ctx, case, s))
    ctx.each('heap:python', ctx.n(36, 180), lambda case: heap_python(ctx, case))
    ctx.each('heap:inspector', ctx.n(40, 88), lambda case: inspector_heap(ctx, case))
