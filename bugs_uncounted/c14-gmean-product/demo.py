import numpy as np, ufunclab as ul
np.seterr(all='ignore')

assert ul.gmean([1e200, 4e200]) < 3e200
