"""Types: the table of loops of every function, the loop chosen for any combination of argument types, and the value:
a call with lower types must equal the call on explicitly converted arguments."""
import numpy as np

from checks.c02 import same
from checks.c26 import wrapped
from vlib import engine, gen, specs      # noqa: F401
from vlib.engine import LOOPS, SPECS, resolve

NUM = '?bBhHiIlLqQefdgFDG'


def table(ctx, case, path):
    info = LOOPS[path]
    f = resolve(path)
    ctx.ev()
    ctx.count('tables')
    ctx.distinct('table', path)
    if f.types != info['types'] or f.ntypes != len(info['types']):
        miss = [t for t in info['types'] if t not in f.types]
        new = [t for t in f.types if t not in info['types']]
        ctx.fail(f'{path}:table', f'loops {f.types}, expected {info["types"]} (missing {miss}, new {new})')


def choose(s, tys):
    """The loop for arguments of these types: exact match, else the first one that all can be cast to safely."""
    for t in s.types:
        if t[0] == tys:
            return t
    anyobj = 'O' in tys
    for t in s.types:
        if 'O' in t[0] and not anyobj and len(s.types) > 1:
            continue
        if all(np.can_cast(np.dtype(a), np.dtype(b), 'safe') for a, b in zip(tys, t[0])):
            return t
    return None


def combos(rng, s):
    """A tuple of argument types."""
    u = rng.random()
    t = s.types[int(rng.integers(0, len(s.types)))][0]
    if 'O' in t and u < .5:
        t = s.types[0][0]
    if u < .55:
        # types below those of a loop
        out = ''
        for c in t:
            if c not in NUM:
                out += c
                continue
            low = [a for a in NUM if np.can_cast(np.dtype(a), np.dtype(c), 'safe')]
            out += str(rng.choice(low))
        return out
    if u < .8:
        a = str(rng.choice(list(NUM)))
        return a * len(t)
    if u < .95:
        return ''.join(str(rng.choice(list(NUM))) for _ in t)
    return ''.join(str(rng.choice(list('OmMSUV'))) if rng.random() < .5 else c for c in t)


def values(rng, tys, shapes, wide=False):
    out = []
    for t, sh in zip(tys, shapes):
        v = rng.integers(0, 5, size=sh)
        if t in NUM and wide:
            # any value of the type
            out.append(np.asarray(gen.values(rng, t, sh)))
            continue
        if t in 'efdgFDG' and rng.random() < .5:
            v = v + rng.random(size=sh)
        if t == 'V':
            out.append(np.zeros(sh, dtype='V8'))
        else:
            out.append(np.asarray(np.asarray(v).astype('m8[s]' if t == 'm' else 'M8[s]' if t == 'M' else t)))
    return out


def shapes(rng, s, L=None):
    dims = {}
    for d in s.dimnames:
        dims[d] = int(d) if d.isdigit() else int(rng.integers(2, 5))
    L = gen.shape_nd(rng, 1, 3) if L is None else L
    return [L + tuple(dims[d] for d in cc) for cc in s.icore], [L + tuple(dims[d] for d in cc) for cc in s.ocore]


def outs_for(s, osh, ot):
    if not s.outonly:
        return {}
    return dict(out=tuple(np.zeros(h, t) for h, t in zip(osh, ot)))


def norm(r):
    return tuple(np.asarray(x) for x in (r if isinstance(r, tuple) else (r,)))


def call(f, *a, **kw):
    try:
        return norm(f(*a, **kw))
    except TypeError as e:
        return e
    except (ValueError, OverflowError, ZeroDivisionError, AttributeError) as e:
        return repr(e)


def resolution(ctx, case, s):
    rng = case.rng
    tys = combos(rng, s)
    loop = choose(s, tys)
    ish, osh = shapes(rng, s)
    args = values(rng, tys, ish, rng.random() < .3)
    if 'searchsorted' in s.name:
        args[0] = np.sort(args[0], axis=-1) if args[0].dtype.kind not in 'VO' else args[0]
    kw = outs_for(s, osh, loop[1] if loop else s.types[0][1])
    info = f'{s.path} arguments of types {tys!r}, loop {loop}, shapes {ish}'
    ctx.note(info)
    r = call(s.obj, *args, **kw)
    ctx.ev()
    ctx.count('resolved' if loop else 'refused')
    ctx.count('types:' + s.name)
    ctx.distinct(s.name, tys)
    if loop is None:
        if not isinstance(r, TypeError):
            ctx.fail(f'{s.name}:accepts', f'{info}: expected TypeError, got {r!r}')
        return
    if isinstance(r, TypeError):
        if 'O' in tys or any(c in 'mM' for c in tys):
            return            # an operation of the objects, or of dates without a unit
        ctx.fail(f'{s.name}:refuses', f'{info}: {r!r}')
        return
    cast = [a if 'm8' in a.dtype.str.lower() else a.astype(c) for a, c in zip(args, loop[0])]
    kw = outs_for(s, osh, loop[1])
    w = call(s.obj, *cast, sig='->'.join(loop), **kw)
    if isinstance(r, str) or isinstance(w, (str, TypeError)):
        if not (isinstance(r, str) and isinstance(w, str)):
            ctx.fail(f'{s.name}:cast', f'{info}: {r!r}, but with converted arguments {w!r}')
        return
    for x, t in zip(r, loop[1]):
        if t == 'O' and x.ndim == 0:
            continue              # NumPy returns the object itself
        if x.dtype != np.dtype(t) and not (t in 'mM' and x.dtype.char == t):
            ctx.fail(f'{s.name}:dtype', f'{info}: result of type {x.dtype}')
            return
    if not same(r, w):
        ctx.fail(f'{s.name}:cast', f'{info}: {r!r}, but with converted arguments {w!r}; args {args!r}')
    if case.index < 1:
        ctx.sample(info)


def scalars(ctx, case, s):
    """Python scalars and (nested) lists."""
    rng = case.rng
    loops = [t for t in s.types if set(t[0]) <= set('bBhHiIlLqQfdgFDG')]
    if not loops:
        return
    loop = loops[int(rng.integers(0, len(loops)))]
    ish, osh = shapes(rng, s)
    args = values(rng, loop[0], ish)
    if 'searchsorted' in s.name:
        args[0] = np.sort(args[0], axis=-1)
    u = rng.random()
    info = f'{s.path} {loop}'
    if u < .5:
        # all arguments as nested lists of Python numbers: the types that NumPy gives these lists
        if 'g' in loop[0] or 'G' in loop[0]:
            return
        lists = [a.tolist() for a in args]
        arrs = [np.asarray(x) for x in lists]
        if any(isinstance(x, (int, float, complex)) for x in lists):
            arrs = [np.asarray(x) for x in lists]
        tys = ''.join(a.dtype.char for a in arrs)
        want = choose(s, tys)
        if want is None:
            return
        weak = [isinstance(x, (int, float, complex)) for x in lists]
        if any(weak) and not all(weak):
            return
        kw = outs_for(s, osh, want[1])
        r = call(s.obj, *lists, **kw)
        kw = outs_for(s, osh, want[1])
        w = call(s.obj, *arrs, **kw)
        what = 'lists'
    else:
        # one array of the loop's type; scalar arguments without core dimensions as Python numbers
        k = [i for i, cc in enumerate(s.icore) if not cc and i > 0]
        if not k or len(set(loop[0][i] for i in k) | {loop[0][0]}) != 1 or not args[0].ndim:
            return
        if choose(s, loop[0]) != loop:
            return
        k = [i for i in k if rng.random() < .6] or k
        a = [x.ravel()[0] if i in k else x for i, x in enumerate(args)]
        py = [x.item() if i in k else x for i, x in enumerate(a)]
        if 'g' in loop[0]:
            a = [type(x)(float(x)) if i in k else x for i, x in enumerate(a)]
            py = [float(x) if i in k else x for i, x in enumerate(a)]
        kw = outs_for(s, osh, loop[1])
        r = call(s.obj, *py, **kw)
        kw = outs_for(s, osh, loop[1])
        w = call(s.obj, *a, sig='->'.join(loop), **kw)
        what = f'Python scalars at {k}'
    ctx.note(info + what)
    ctx.ev()
    ctx.count(what.split(' at')[0])
    ctx.distinct(s.name, loop[0], what, str(ish))
    if isinstance(r, str) and isinstance(w, str):
        return
    if isinstance(r, (str, TypeError)) or isinstance(w, (str, TypeError)) or not same(r, w):
        ctx.fail(f'{s.name}:scalars', f'{info} {what}: {r!r}, but with arrays {w!r}; args {args!r}')


def casting(ctx, case, s):
    """sig=, dtype=, casting= and outputs of other types."""
    rng = case.rng
    loops = [t for t in s.types if set(t[0] + t[1]) <= set(NUM)]
    if not loops:
        return
    loop = loops[int(rng.integers(0, len(loops)))]
    ish, osh = shapes(rng, s)
    sig = '->'.join(loop)
    if rng.random() < .3:
        sig = tuple(loop[0] + loop[1])
    if rng.random() < .55:
        # inputs of another type with an explicit loop
        mode = str(rng.choice(['no', 'equiv', 'safe', 'same_kind', 'unsafe']))
        tys = ''.join(c if rng.random() < .4 else str(rng.choice(list(NUM))) for c in loop[0])
        args = values(rng, tys, ish)
        if 'searchsorted' in s.name:
            args[0] = np.sort(args[0], axis=-1)
        ok = all(np.can_cast(np.dtype(a), np.dtype(b), mode) for a, b in zip(tys, loop[0]))
        info = f'{s.path} sig={sig} casting={mode} arguments {tys}'
        ctx.note(info)
        kw = outs_for(s, osh, loop[1])
        r = call(s.obj, *args, sig=sig, casting=mode, **kw)
        kw = outs_for(s, osh, loop[1])
        with np.errstate(all='ignore'):
            w = call(s.obj, *[a.astype(c) for a, c in zip(args, loop[0])], sig='->'.join(loop), **kw) if ok else TypeError()
        ctx.count('casting=' + mode)
    else:
        args = values(rng, loop[0], ish)
        if 'searchsorted' in s.name:
            args[0] = np.sort(args[0], axis=-1)
        mode = str(rng.choice(['same_kind', 'unsafe']))
        ot = ''.join(str(rng.choice(list(NUM[1:]))) for _ in loop[1])
        ok = all(np.can_cast(np.dtype(a), np.dtype(b), mode) for a, b in zip(loop[1], ot))
        info = f'{s.path} sig={sig} casting={mode} outputs {ot}'
        ctx.note(info)
        outs = tuple(np.zeros(h, t) for h, t in zip(osh, ot))
        r = call(s.obj, *args, sig=sig, casting=mode, out=outs)
        kw = outs_for(s, osh, loop[1])
        w = call(s.obj, *args, sig='->'.join(loop), **kw) if ok else TypeError()
        if ok and not isinstance(w, (str, TypeError)):
            with np.errstate(all='ignore'):
                if any(a.dtype.kind in 'fc' and np.dtype(t).kind in 'iub' and not (np.isfinite(a).all() and (abs(a) < 120).all() and (a.real >= 0).all())
                       for a, t in zip(w, ot)):
                    return        # an undefined conversion
                w = tuple(a.astype(t) for a, t in zip(w, ot))
        if 'bincount' in s.name and ok and mode == 'unsafe':
            return
        ctx.count('out types')
    ctx.ev()
    ctx.distinct(info)
    if isinstance(w, TypeError):
        ctx.count('casting refused')
        if not isinstance(r, TypeError):
            ctx.fail(f'{s.name}:casting', f'{info}: expected TypeError, got {r!r}')
    elif isinstance(w, str) or isinstance(r, (str, TypeError)):
        if not isinstance(w, str) or not isinstance(r, str):
            ctx.fail(f'{s.name}:casting', f'{info}: {r!r}, but with converted arguments {w!r}')
    elif not same(r, w):
        ctx.fail(f'{s.name}:casting', f'{info}: {r!r}, but with converted arguments {w!r}; args {args!r}')


def wrapper_types(ctx, case):
    """The result types of the Python wrappers, for every combination of argument types; the values are those of
    the functions that they wrap."""
    import ufunclab as u
    rng = case.rng
    ints = 'bBhHiIlLqQ'
    sh = (0, 3)[case.index % 2], 4
    x = {t: rng.integers(0, 5, size=sh).astype(t) for t in NUM}
    bc, bcw = u.bincount._bincount, u.bincount._bincountw

    def wanted(f):
        try:
            return np.asarray(f())
        except (ValueError, TypeError) as e:
            return type(e)
    rows = []
    for t in ints:
        rows.append((f'bincount {t}', lambda t=t: u.bincount(x[t], 6), lambda t=t: bc(x[t], out=np.zeros((sh[0], 6), np.intp))))
        rows.append((f'one_hot {t}', lambda t=t: u.one_hot(x[t], 5), lambda t=t: (x[t][..., None] == np.arange(5)).astype(t)))
        for w in NUM[1:]:
            rows.append((f'bincount {t} weights {w}', lambda t=t, w=w: u.bincount(x[t], 6, x[w]),
                         lambda t=t, w=w: bcw(x[t], x[w], out=np.zeros((sh[0], 6), w))))
    for t in NUM:
        for w in NUM:
            rows.append((f'convert_to_base {t}{w}', lambda t=t, w=w: u.convert_to_base(x[t], x[w][:1] + x[w].dtype.type(2), 3),
                         lambda t=t, w=w: u.convert_to_base.gufunc(x[t], x[w][:1] + x[w].dtype.type(2), out=np.zeros(sh + (3,), int))))
        for nm in ('nextn_greater', 'nextn_less'):
            rows.append((f'{nm} {t}', lambda t=t, nm=nm: getattr(u, nm)(x[t], 3),
                         lambda t=t, nm=nm: getattr(u, nm).gufunc(x[t], out=np.zeros(sh + (3,), t)) if t in 'fdg' else 1 / 0))
    for what, f, g in rows:
        ctx.note(what)
        ctx.ev()
        ctx.count('wrapper types')
        ctx.distinct(what, sh)
        try:
            w = wanted(g)
        except ZeroDivisionError:
            w = ValueError
        r = wanted(f)
        if isinstance(w, type) or isinstance(r, type):
            if w is not r:
                ctx.fail(f'{what.split()[0]}:wrapper', f'{what} {sh}: {r!r}, expected {w!r}')
        elif r.dtype != w.dtype or not same((r,), (w,)):
            ctx.fail(f'{what.split()[0]}:wrapper', f'{what} {sh}: {r!r} {r.dtype}, expected {w!r} {w.dtype}')


def run(ctx):
    paths = sorted(LOOPS)
    ctx.each('tables', len(paths), lambda case: table(ctx, case, paths[case.index]))
    for s in SPECS.values():
        if s.native_only:
            continue
        n = max(600, 6 * len(s.types))
        ctx.each('resolution:' + s.name, ctx.n(n, 20 * n), lambda case, s=s: resolution(ctx, case, s))
        ctx.each('scalars:' + s.name, ctx.n(300, 6000), lambda case, s=s: scalars(ctx, case, s))
        ctx.each('casting:' + s.name, ctx.n(500, 10000), lambda case, s=s: casting(ctx, case, s))
    wrapped(ctx)
    ctx.each('wrapper types', 3, lambda case: wrapper_types(ctx, case))
