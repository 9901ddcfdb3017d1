import numpy as np, ufunclab as ul
np.seterr(all='ignore')

a = ul.pmeanw([1.0, 50.0, 1000.0], [2.0, 3.0, 1.0], 1e-6)
b = ul.pmeanw([1.0, 50.0, 1000.0], [.2, .3, .1], 1e-6)
assert abs(a/b - 1) < 1e-9, (a, b)
