"""Spec engine: generates calls of the ufuncs/gufuncs and compares every core slice of the result
with a reference.  A Spec says how to make inputs and how to judge one core slice; the engine adds
loop shapes, broadcasting, memory layouts, axes, output arrays and type signatures."""
import importlib
import json
import os

import numpy as np

from vlib import gen, num

LOOPS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'loops.json')))
SPECS = {}
# a fast path for some strides reassociates the arithmetic
TOL = {'linear_interp1d': 64}


def resolve(path):
    """'ufunclab.normal.cdf' -> object"""
    parts = path.split('.')
    obj = importlib.import_module(parts[0])
    for p in parts[1:]:
        try:
            obj = getattr(obj, p)
        except AttributeError:
            obj = importlib.import_module(obj.__name__ + '.' + p)
    return obj


def parse_sig(sig, nin, nout):
    if not sig:
        return [()] * nin, [()] * nout
    a, b = sig.replace(' ', '').split('->')

    def side(s):
        out = []
        for part in s[1:-1].split('),('):
            out.append(tuple(x for x in part.split(',') if x))
        return out
    return side(a), side(b)


class Spec:
    def __init__(self, path, check, cid=None, gen=None, dims=None, loops=None, min_n=1, maxlong=400,
                 nloop=24, name=None, nosig=False, native_only=False, pre=None, longp=.06, huge=5000, wide=None):
        self.path = path if path.startswith('ufunclab') else 'ufunclab.' + path
        self.name = name or self.path.split('ufunclab.', 1)[1]
        info = LOOPS[self.path]
        self.info = info
        self.nin, self.nout = info['nin'], info['nout']
        self.sig = info['sig']
        self.icore, self.ocore = parse_sig(self.sig, self.nin, self.nout)
        self.types = [t.split('->') for t in info['types']]
        if loops is not None:
            self.types = [t for t in self.types if '->'.join(t) in loops or t[0] in loops]
        self.check, self.cid, self._gen, self._dims = check, cid, gen, dims
        self.min_n, self.maxlong, self.nloop, self.longp = min_n, maxlong, nloop, longp
        self.huge = huge if maxlong >= 400 else 0       # now and then, beyond the sizes of plausible blocks
        names = []
        for c in self.icore + self.ocore:
            for d in c:
                if d not in names:
                    names.append(d)
        self.dimnames = names
        inn = {d for c in self.icore for d in c}
        self.outonly = [d for d in names if d not in inn and not d.isdigit()]
        self.native_only = native_only       # loops that read raw contiguous memory by contract
        self.pre = pre
        self.wide = wide or dict(C13=1000, C14=1000, C15=600, C22=300, C23=1000, C24=1000).get(cid)   # the longest core dimension the oracle can afford (None: any)
        SPECS[self.name] = self

    @property
    def obj(self):
        if not hasattr(self, '_obj'):
            self._obj = resolve(self.path)
        return self._obj

    def rdims(self, rng, long_ok=True):
        d = {}
        if self._dims:
            d.update(self._dims(rng))
        for n in self.dimnames:
            if n in d:
                continue
            if n.isdigit():
                d[n] = int(n)
                continue
            u = rng.random()
            if long_ok and self.huge and u > .9965:
                k = int(rng.integers(400, self.huge))
                if u > .998:
                    k = min(self.huge, 2 ** int(rng.integers(9, 14)) + int(rng.integers(-1, 4)))
            elif u < .06:
                k = self.min_n
            elif u < .75 or not long_ok:
                k = int(rng.integers(1, 9))
            elif u < 1 - self.longp:
                k = int(rng.integers(9, 34))
            else:
                k = int(rng.integers(34, self.maxlong + 1))
            d[n] = max(k, self.min_n)
        return d


def spec(path, **kw):
    def deco(fn):
        return Spec(path, fn, **kw)
    return deco


class G:
    """What a generator gets."""

    def __init__(self, rng, r, spec, it, ot, dims, L, shapes, hostile):
        self.rng, self.r, self.spec = rng, r, spec
        self.it, self.ot, self.dims, self.L, self.shapes = it, ot, dims, L, shapes
        self.hostile = hostile

    def val(self, i, mode=None):
        return gen.values(self.rng, self.it[i], self.shapes[i], mode)

    def fin(self, i, mode=None):
        return gen.finite(self.rng, self.it[i], self.shapes[i], mode)

    def cast(self, i, a):
        with np.errstate(all='ignore'):
            a = np.asarray(a).astype(self.it[i])
            if self.it[i] == 'g' and a.dtype.kind == 'f':
                # give long double values bits beyond double precision
                a = a * (1 + np.asarray(self.rng.integers(-400, 401, size=a.shape)).astype('g')
                         * np.longdouble(2) ** -62)
        return np.asarray(a, dtype=self.it[i])

    def uni(self, i, lo, hi):
        return self.cast(i, self.rng.uniform(lo, hi, size=self.shapes[i]))

    def choice(self, i, pool):
        pool = np.asarray(pool)
        return np.asarray(pool[self.rng.integers(0, len(pool), size=self.shapes[i])]).astype(self.it[i])


class Call:
    pass


def make(case, spec, **kw):
    from vlib.worker import HarnessError
    try:
        return _make(case, spec, **kw)
    except Exception as e:
        import traceback
        raise HarnessError(f'generator of {spec.name}: {e!r}\n{traceback.format_exc()}')


def _make(case, spec, loop=None, hostile=False, L=None, dims=None, long_ok=True):
    """Inputs for one call, as C-contiguous arrays of the loop's own types."""
    rng = case.rng
    c = Call()
    c.spec = spec
    it, ot = loop if loop else spec.types[int(rng.integers(0, len(spec.types)))]
    c.it, c.ot = it, ot
    c.dims = dims or spec.rdims(rng, long_ok)
    ncore = max([1] + [int(np.prod([c.dims[d] for d in cc])) for cc in spec.icore + spec.ocore])
    if L is None:
        if spec.sig and ncore > 60:
            L = tuple(int(x) for x in rng.integers(1, 3, size=rng.integers(0, 2)))
        elif rng.random() < .03:
            L = (0,) if rng.random() < .5 else (2, 0)
        else:
            L = gen.shape_nd(rng, 3, 4)
            while int(np.prod(L)) > spec.nloop:
                L = L[1:]
        if not spec.sig and rng.random() < .3:
            L = (int(rng.integers(1, 40)),)
    c.L = L
    subs = [gen.sub_shape(rng, L) for _ in range(spec.nin)]
    if subs:
        subs[int(rng.integers(0, spec.nin))] = L      # so that the loop shape is really L
    # a length-1 axis of every argument is fine: recompute the true loop shape
    c.L = np.broadcast_shapes(*subs)
    c.subs = subs
    shapes = [s + tuple(c.dims[d] for d in cc) for s, cc in zip(subs, spec.icore)]
    g = G(rng, case.r, spec, it, ot, c.dims, c.L, shapes, hostile)
    if spec._gen:
        c.args = spec._gen(g)
    else:
        c.args = [g.val(i) for i in range(spec.nin)]
    c.args = [np.ascontiguousarray(a).reshape(s) if np.ndim(a) or s == () else np.asarray(a)
              for a, s in zip(c.args, shapes)]
    for a, t, s in zip(c.args, it, shapes):
        assert a.dtype == np.dtype(t) and a.shape == s, (spec.name, a.dtype, t, a.shape, s)
    c.oshapes = [c.L + tuple(c.dims[d] for d in cc) for cc in spec.ocore]
    return c


def rand_axes(rng, spec, ins, L):
    """Move the core axes of every array somewhere else; returns (views, axes list)."""
    axes, views = [], []
    for a, cc in zip(ins, spec.icore):
        k = len(cc)
        pos = tuple(int(x) for x in rng.permutation(a.ndim)[:k])
        if k:
            a = np.moveaxis(a, range(a.ndim - k, a.ndim), pos)
        axes.append(tuple(p - a.ndim if rng.random() < .4 else p for p in pos))
        views.append(a)
    oax = []
    for cc in spec.ocore:
        k = len(cc)
        nd = len(L) + k
        pos = tuple(int(x) for x in rng.permutation(nd)[:k])
        oax.append(tuple(p - nd if rng.random() < .4 else p for p in pos))
    return views, axes, oax


def poison_out(rng, shape, tc, contiguous=False):
    """An output array full of rubbish, in some layout."""
    a = np.empty(shape, dtype=tc)
    if a.dtype.hasobject:
        a[...] = 'POISON'
    elif a.size:
        a.reshape(-1).view(np.uint8)[...] = int(rng.integers(0, 256))
    if a.dtype.kind == 'b':
        a[...] = rng.random() < .5
    if contiguous or rng.random() < .4:
        return a
    kind = rng.choice(['F', 'strided', 'neg', 'swap', 'offset', 'pad'])
    b = gen.layout(rng, a, kind)
    return b


def invoke(case, c, style=None, layouts=True):
    """Call the function on c.args; returns the outputs with the core axes last."""
    rng, spec = case.rng, c.spec
    f = spec.obj
    st = dict(axes=bool(spec.sig) and rng.random() < .35, out=rng.random() < .5,
              sig=rng.random() < .5, layouts=layouts and rng.random() < .8)
    if style:
        st.update(style)
    if spec.outonly:
        st['out'] = True
    ins = c.args
    kw = {}
    oax = None
    if st['axes']:
        ins, axes, oax = rand_axes(rng, spec, ins, c.L)
        kw['axes'] = axes + oax
    if spec.native_only:
        st['layouts'] = False
        if st['axes']:
            ins, oax, kw = c.args, None, {}
            st['axes'] = False
    if st['layouts']:
        ins = [gen.layout(rng, a) for a in ins]
    c.ins = ins
    if st['sig']:
        kw['sig'] = c.it + '->' + c.ot
    outs = None
    if st['out']:
        outs = []
        for k, (sh, tc) in enumerate(zip(c.oshapes, c.ot)):
            if oax:
                kk = len(spec.ocore[k])
                nd = len(sh)
                pos = [p % nd for p in oax[k]] if nd else []
                order = [None] * nd
                for p, d in zip(pos, sh[nd - kk:]):
                    order[p] = d
                rest = iter(sh[:nd - kk])
                sh = tuple(next(rest) if o is None else o for o in order)
            outs.append(poison_out(rng, sh, tc, contiguous=spec.native_only))
        kw['out'] = tuple(outs)
    if spec.pre:
        spec.pre(c, outs)
    c.kw = kw
    case_note(case, c)
    r = f(*ins, **kw)
    if not isinstance(r, tuple):
        r = (r,)
    c.given = outs
    if outs is not None:
        for x, y in zip(r, outs):
            assert x is y
    res = []
    for k, x in enumerate(r):
        if c.ot[k] == 'O' and not isinstance(x, np.ndarray):
            y = np.empty((), dtype=object)      # numpy unwraps 0-d object results
            y[()] = x
            x = y
        x = np.asarray(x)
        if oax and len(spec.ocore[k]):
            x = np.moveaxis(x, oax[k], range(x.ndim - len(oax[k]), x.ndim))
        res.append(x)
    c.res = res
    return res


def case_note(case, c):
    ctx = getattr(case, 'ctx', None)
    if ctx is not None:
        ctx.note(f'{c.spec.path} {c.it}->{c.ot} dims={c.dims} L={c.L} '
                 f'{[(a.shape, a.strides) for a in c.ins]} {sorted(c.kw)} {c.kw.get("axes")}')


def describe(c, ix=None, ins=None, outs=None):
    s = f'{c.spec.path} {c.it}->{c.ot} dims={c.dims} loop shape={c.L} kw={sorted(c.kw)} ' \
        f'axes={c.kw.get("axes")} layouts={[(a.shape, a.strides, a.dtype.str) for a in c.ins]}'
    if ix is not None:
        s += f'\n  at loop index {ix}\n  inputs: ' + num.show(*ins) + '\n  outputs: ' + num.show(*outs)
    return s


def judge(ctx, case, c, maxcores=40):
    spec = c.spec
    for k, (x, sh, tc) in enumerate(zip(c.res, c.oshapes, c.ot)):
        if x.shape != sh:
            ctx.fail(f'{spec.name}:shape', f'output {k} has shape {x.shape}, expected {sh}\n'
                     + describe(c))
            return
        if x.dtype != np.dtype(tc):
            ctx.fail(f'{spec.name}:dtype', f'output {k} has dtype {x.dtype}, expected '
                     f'{np.dtype(tc)}\n' + describe(c))
            return
    bins = [np.broadcast_to(a, c.L + a.shape[a.ndim - len(cc):] if len(cc) else c.L)
            for a, cc in zip(c.args, spec.icore)]
    idx = list(np.ndindex(*c.L))
    if len(idx) > maxcores:
        idx = [idx[i] for i in sorted({0, len(idx) - 1, *map(int, case.rng.choice(len(idx), maxcores - 1, replace=False))})]
    for ix in idx:
        ins = [b[ix] for b in bins]
        outs = [x[ix] for x in c.res]
        ctx.ev()
        msg = spec.check((c.it, c.ot), ins, outs)
        if msg == 'skip':
            ctx.count('not_judged')
            continue
        ctx.count('judged:' + spec.name)
        ctx.distinct(spec.name, c.it, *[x.tobytes() if not getattr(x, 'dtype', np.dtype('d')).hasobject
                                         else repr(x) for x in map(np.asarray, ins)])
        if msg:
            kind, text = msg if isinstance(msg, tuple) else ('value', msg)
            ctx.fail(f'{spec.name}:{kind}', f'{text}\n' + describe(c, ix, ins, outs))
            return
    if idx and case.index < 3:
        ctx.sample(describe(c, ix, ins, outs), 4)


def tiled(ctx, case, c):
    """The same elements again, many times over and in another order, in one long loop.  An element that does not come out
    with the bits of the first, judged, call is itself judged by the oracle."""
    spec, rng = c.spec, case.rng
    m = int(np.prod(c.L))
    if not m:
        return
    ncore = max([1] + [int(np.prod([c.dims[d] for d in cc])) for cc in spec.icore + spec.ocore])
    top = (600 if 'O' in c.it + c.ot else 40000) // ncore
    if top < 2 * m:
        return
    n = min(top, int(np.exp(rng.uniform(np.log(64), np.log(20000)))))
    if rng.random() < .5:
        n = min(top, 2 ** int(rng.integers(6, 15)) + int(rng.integers(-1, 4)))
    pick = rng.integers(0, m, size=n)
    d = Call()
    d.__dict__.update(c.__dict__)
    args = []
    for a, cc in zip(c.args, spec.icore):
        core = a.shape[a.ndim - len(cc):]
        if a.ndim == len(cc) and rng.random() < .7:
            args.append(a)                 # the same operand for all, a loop stride of 0
            continue
        b = np.broadcast_to(a, c.L + core)
        args.append(np.ascontiguousarray(b.reshape((m,) + core)[pick]))
    two = rng.random() < .25 and n % 2 == 0
    d.L = (2, n // 2) if two else (n,)
    d.args = [a if a.ndim == len(cc) else a.reshape(d.L + a.shape[1:]) for a, cc in zip(args, spec.icore)]
    if not any(a.ndim > len(cc) for a, cc in zip(d.args, spec.icore)):
        return
    d.oshapes = [d.L + tuple(c.dims[x] for x in cc) for cc in spec.ocore]
    first = c.res
    style = dict(layouts=rng.random() < .3, axes=bool(spec.sig) and rng.random() < .1)
    invoke(case, d, style)
    ctx.ev()
    ctx.count('tiled:' + spec.name)
    bad = np.zeros(n, bool)
    for x, y, cc, t in zip(d.res, first, spec.ocore, c.ot):
        core = y.shape[y.ndim - len(cc):] if cc else ()
        if x.shape != d.L + core or x.dtype != y.dtype:
            ctx.fail(f'{spec.name}:shape', f'long loop: shape {x.shape} {x.dtype}, expected {d.L + core}\n' + describe(d))
            return
        x = x.reshape((n,) + core)
        y = y.reshape((m,) + core)[pick]
        if t == 'O':
            e = np.array([repr(i) == repr(j) for i, j in zip(x, y)], dtype=bool)
        else:
            with np.errstate(all='ignore'):
                e = (x == y)
                if x.dtype.kind in 'fcmM':
                    e = e | ((x != x) & (y != y))
                if x.dtype.kind == 'f':
                    e = e & ((x != 0) | (np.signbit(x) == np.signbit(y)))
            e = e.reshape(n, -1).all(axis=1)
        bad |= ~e
    if not bad.any():
        return
    ctx.count('tiled differently:' + spec.name)
    bins = [np.broadcast_to(a, d.L + a.shape[a.ndim - len(cc):] if len(cc) else d.L)
            for a, cc in zip(d.args, spec.icore)]
    at = np.flatnonzero(bad)
    if len(at) > 40:
        at = rng.choice(at, 40, replace=False)
    for j in at:
        ix = np.unravel_index(int(j), d.L)
        ins = [b[ix] for b in bins]
        outs = [x[ix] for x in d.res]
        msg = spec.check((c.it, c.ot), ins, outs)
        if msg and msg != 'skip':
            kind, text = msg if isinstance(msg, tuple) else ('value', msg)
            ctx.fail(f'{spec.name}:{kind}', f'in a loop of {n} elements: {text}\n' + describe(d, ix, ins, outs))
            return


def run_spec(ctx, s, n, **kw):
    if isinstance(s, str):
        s = SPECS[s]

    def one(case):
        case.ctx = ctx
        # every loop gets its turn
        loop = s.types[case.index % len(s.types)] if case.index < 4 * len(s.types) else None
        c = make(case, s, loop=loop, **kw)
        invoke(case, c)
        judge(ctx, case, c)
        k = len(s.types)
        if k <= case.index < 2 * k or case.rng.random() < .03:
            tiled(ctx, case, c)
    ctx.each(s.name, n, one)


def wide_dims(rng, s, obj):
    """One core dimension beyond the range of 8 or 16 bit counters, the others small."""
    names = [d for d in s.dimnames if not d.isdigit()]
    d = {n: max(s.min_n, int(rng.integers(1, 4))) for n in names}
    for n in s.dimnames:
        if n.isdigit():
            d[n] = int(n)
    base = 256 if obj or rng.random() < .25 else int(rng.choice([32768, 65536, 65536, 131072]))
    if s.wide:
        base = min(base, s.wide)
    d[names[int(rng.integers(len(names)))]] = base + int(rng.integers(-1, 300))
    return d


def run_wide(ctx, s, n, work=None):
    """Calls with one very long core dimension."""
    def one(case):
        case.ctx = ctx
        loop = s.types[int(case.rng.integers(len(s.types)))]
        dims = wide_dims(case.rng, s, 'O' in loop[0] + loop[1])
        if work:
            return work(case, loop, dims)
        c = make(case, s, loop=loop, dims=dims, L=() if case.rng.random() < .7 else (2,))
        invoke(case, c)
        judge(ctx, case, c)
    if any(not d.isdigit() for d in s.dimnames):
        ctx.each('wide:' + s.name, n, one)


def run_cid(ctx, cid, quick, thorough=None):
    """All specs of property cid; quick is the number of calls per spec (at least 3 per loop)."""
    for s in list(SPECS.values()):
        if s.cid == cid:
            ctx.required.add('judged:' + s.name)
            n = ctx.n(max(quick, 3 * len(s.types)), thorough or 20 * max(quick, 3 * len(s.types)))
            run_spec(ctx, s, n)
            run_wide(ctx, s, ctx.n(max(8, 2 * len(s.types)), 10 * len(s.types)))
