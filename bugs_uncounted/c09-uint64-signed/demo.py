import numpy as np, ufunclab as ul

a = np.array([1, 5, 2**63 + 7], dtype=np.uint64)
assert ul.searchsortedl(a, np.uint64(3)) == 1
