import numpy as np, ufunclab as ul
np.seterr(all='ignore')

fp = np.random.default_rng(0).random((5, 4))
assert np.allclose(ul.linear_interp1d(0.9, [0., .5, 1., 2.], fp), [np.interp(.9, [0., .5, 1., 2.], f) for f in fp])
