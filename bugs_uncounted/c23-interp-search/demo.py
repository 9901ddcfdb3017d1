import numpy as np, ufunclab as ul
np.seterr(all='ignore')

xp = np.sort(np.random.default_rng(0).random(50)); fp = np.cumsum(xp)
x = np.linspace(xp[0], xp[-1], 1000)
assert np.allclose(ul.linear_interp1d(x, xp, fp), np.interp(x, xp, fp), rtol=1e-10, atol=0)
