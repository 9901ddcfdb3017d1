"""Random calls of what is not a generated ufunc: the Python wrappers (bincount, convert_to_base, one_hot, nextn_greater,
nextn_less) and functions composed by gendot; in one form, for the checks about memory, layout, repetition and threads."""
import numpy as np

from vlib import gen
from vlib.gendots import GENDOTS

WRAPPERS = ['bincount', 'bincountw', 'convert_to_base', 'one_hot', 'nextn_greater', 'nextn_less', 'gendot']


# numpy evaluates these in the same way whatever the strides (others have vector versions with other last bits)
PLAIN = {'add', 'subtract', 'maximum', 'minimum', 'fmax', 'fmin', 'copysign', 'equal', 'not_equal', 'less', 'less_equal', 'greater',
         'greater_equal', 'logical_and', 'logical_or', 'logical_xor', 'multiply', 'divide'}


class Call:
    """f(*args, **kw): `axes[i]` is the position of the core axis of argument i (None: no core axis), `oaxis` the one of the
    result, `oshape`/`ot` its shape and type; `acc`: the function accumulates into out; `tail`: arguments after the arrays."""

    def __init__(self, name, f, args, axes, oaxis, oshape, ot, tail=(), kw=None, acc=False, info=''):
        self.name, self.f, self.args, self.axes, self.oaxis = name, f, [np.asarray(a) for a in args], axes, oaxis
        self.oshape, self.ot, self.tail, self.kw, self.acc = oshape, ot, tail, kw or {}, acc
        self.info = info
        self.L = oshape if oaxis is None else oshape[:oaxis] + oshape[oaxis + 1:]

    def __call__(self, *args, out=None):
        if self.name == 'bincountw':
            return self.f(args[0], *self.tail, weights=args[1], out=out, **self.kw)
        return self.f(*args, *self.tail, out=out, **self.kw)

    def describe(self):
        return f'{self.name} {self.info} {[(a.dtype.char, a.shape) for a in self.args]} {self.tail} {self.kw}'

    def plain(self):
        """Every bit of the result is determined by the values alone."""
        if self.name != 'gendot' or all(a.dtype.kind in 'biu' for a in self.args) and self.ot not in 'efdgFDG':
            return True
        if any(a.dtype.kind == 'c' for a in self.args) and ('multiply' in self.info or 'divide' in self.info):
            return False
        return all(p in PLAIN or not hasattr(np, p) for p in self.info.split()[0].split(','))

    def slices(self, ix, args=None):
        """The arguments of the call for the single batch element `ix`."""
        r = []
        for a, ax in zip(args or self.args, self.axes):
            v = a if ax is None else np.moveaxis(a, ax, -1)
            k = 0 if ax is None else 1
            v = np.broadcast_to(v, self.L + v.shape[v.ndim - k:])
            r.append(np.array(v[ix], order='C', copy=True))
        return r

    def single(self, ix):
        kw = {k: v for k, v in self.kw.items() if k not in ('axis', 'axes')}
        c = Call(self.name, self.f, self.slices(ix), [None if a is None else 0 for a in self.axes],
                 None if self.oaxis is None else 0, () if self.oaxis is None else (self.oshape[self.oaxis],), self.ot,
                 self.tail, kw, self.acc)
        return c


def _put(sh, axis, k):
    ax = axis % (len(sh) + 1)
    return sh[:ax] + (k,) + sh[ax:]


def make(rng, name, total=None):
    """A valid call of `name`; with `total`, with about that many elements in the largest array."""
    import ufunclab as u
    if total:
        L = (max(2, total // 30),)
        if rng.random() < .4:
            L = (-(-L[0] // 3), 3)
    else:
        L = gen.shape_nd(rng, 3, 4)
    n = int(rng.choice([0, 1, 2, 5, 9, 30])) if not total else 30
    if name == 'gendot':
        f, desc = GENDOTS(case=_Rng(rng))
        t = f.types[int(rng.integers(0, len(f.types)))]
        it, ot = t.split('->')
        sh = [L if total else gen.sub_shape(rng, L) for _ in it]
        L = np.broadcast_shapes(*sh)
        ax = int(rng.integers(-min(len(s) for s in sh) - 1, 0)) if rng.random() < .5 else -1
        args = [gen.values(rng, x, _put(s, ax, n)) for x, s in zip(it, sh)]
        kw = dict(sig=t)
        if ax != -1:
            kw['axis'] = ax
        return Call('gendot', f, args, [ax, ax], None, L, ot, kw=kw, info=f'{desc} {t}')
    axis = int(rng.integers(-len(L) - 1, len(L) + 1))
    if name in ('bincount', 'bincountw'):
        w = name == 'bincountw'
        xb = gen.sub_shape(rng, L) if w and not total else L
        wb = gen.sub_shape(rng, L) if w and not total else L
        L = np.broadcast_shapes(xb, wb)
        low = min(len(xb), len(wb))
        axis = -1 if rng.random() < .4 else int(rng.integers(-low - 1, low + 1)) if len(xb) == len(wb) else \
            int(rng.integers(-low - 1, 0))
        m = int(rng.choice([0, 1, 3, 8, 30]))
        tc = str(rng.choice(list('bBhHiIlLqQ')))
        x = rng.integers(0 if tc.isupper() else -2, m + 3, size=_put(xb, axis, n)).astype(tc)
        args, ot = [x], 'l'
        if w:
            ot = str(rng.choice(list('bBhHiIlLqQfdFD')))
            v = rng.integers(0 if ot.isupper() else -4, 5, size=_put(wb, axis, n))
            args.append(v.astype(ot))
        ax = axis if axis < 0 else axis - len(L) - 1
        return Call(name, u.bincount, args, [ax] * len(args), axis % (len(L) + 1), _put(L, axis, m), ot, (m,), dict(axis=axis),
                    acc=True)
    n = int(rng.choice([0, 1, 2, 5, 9, 40])) if not total else 30
    kw = dict(axis=axis) if axis != -1 else {}
    if name == 'convert_to_base':
        t = str(rng.choice(list('bBhHiIl')))
        sh = [L if total else gen.sub_shape(rng, L) for _ in '01']
        L = np.broadcast_shapes(*sh)
        axis = int(rng.integers(-len(L) - 1, len(L) + 1))
        args = [gen.ints(rng, t, sh[0]), rng.integers(2, 17, size=sh[1]).astype(t)]
        return Call(name, u.convert_to_base, args, [None, None], axis % (len(L) + 1), _put(L, axis, n), 'l', (n,),
                    dict(axis=axis))
    if name == 'one_hot':
        t = str(rng.choice(list('bBhHiIlLqQ')))
        k = rng.integers(0 if t.isupper() else -2, n + 2, size=L).astype(t)
        return Call(name, u.one_hot, [k], [None], axis % (len(L) + 1), _put(L, axis, n), t, (n,), kw)
    t = str(rng.choice(list('fdg')))
    x = gen.floats(rng, t, L)
    return Call(name, getattr(u, name), [x], [None], axis % (len(L) + 1), _put(L, axis, n), t, (n,), kw)


class _Rng:
    def __init__(self, rng):
        self.rng = rng
