"""gendot compositions: which pairs exist, and the reference composition."""
import numpy as np

_cache = {}
_pools = {}


def pools():
    """(product ufuncs, sum ufuncs) of numpy and ufunclab that gendot accepts and supports."""
    if _pools:
        return _pools['v']
    import ufunclab
    prods, sums = [], []
    seen = set()
    names = [(np, n) for n in dir(np)] + [(ufunclab, n) for n in
                                          ('hyperbolic_ramp', 'exponential_ramp', 'pow1pm1', 'swish',
                                           'nan_to_num', 'yeo_johnson')]
    for mod, n in sorted(names, key=lambda t: (t[0].__name__, t[1])):
        f = getattr(mod, n, None)
        if not isinstance(f, np.ufunc) or f in seen or f.signature is not None:
            continue
        if f.nin != 2 or f.nout != 1:
            continue
        # numpy's dates carry a unit that typecodes cannot express
        if not any(set(t) <= set('?bBhHiIlLqQefdgFDG->') for t in f.types):
            continue
        seen.add(f)
        if any(c in t for t in f.types for c in 'mM'):
            if n not in ('maximum', 'minimum', 'fmax', 'fmin', 'equal', 'less', 'greater'):
                continue
        prods.append(f)
        if mod is np:
            sums.append(f)
    gsum = [getattr(ufunclab, n) for n in ('gmean', 'hmean', 'kbnsum', 'rms', 'argmin', 'argmax', 'peaktopeak',
                                           'all_same', 'multivariate_logbeta')]
    _pools['v'] = prods, sums, gsum
    return _pools['v']


def get(prod, sum_):
    from ufunclab import gendot
    key = (id(prod), id(sum_))
    if key not in _cache:
        try:
            _cache[key] = gendot(prod, sum_)
        except TypeError as e:
            # date types without a unit: a known limitation of gendot
            _cache[key] = e
    return _cache[key]


def GENDOTS(case):
    """A composition with at least one loop."""
    prods, sums, gsum = pools()
    while True:
        p = prods[int(case.rng.integers(0, len(prods)))]
        s = (gsum if case.rng.random() < .3 else sums)
        s = s[int(case.rng.integers(0, len(s)))]
        f = get(p, s)
        if isinstance(f, Exception):
            continue
        if any(set(t) <= set('?bBhHiIlLqQefdgFDG->') for t in f.types):
            f_types = [t for t in f.types if set(t) <= set('?bBhHiIlLqQefdgFDG->')]
            return Sub(f, f_types), f'{p.__name__},{s.__name__}'


class Sub:
    """The gufunc with the list of loops we drive."""

    def __init__(self, f, types):
        self.f, self.types = f, types

    def __call__(self, *a, **k):
        return self.f(*a, **k)
