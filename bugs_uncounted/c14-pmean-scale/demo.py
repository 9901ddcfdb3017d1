import numpy as np, ufunclab as ul
np.seterr(all='ignore')

r = ul.pmean([1e-200, 1.0], -3.0)
assert abs(r/1e-200 - 2**(1/3)) < 1e-10, r
