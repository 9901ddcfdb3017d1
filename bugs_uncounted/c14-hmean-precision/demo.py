import numpy as np, ufunclab as ul
np.seterr(all='ignore')

x = np.array([1, 3, 7], dtype=np.longdouble)
assert abs(ul.hmean(x) - 3/(1 + 1/x[1] + 1/x[2])) < 1e-18
