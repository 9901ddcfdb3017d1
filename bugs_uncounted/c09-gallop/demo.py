import numpy as np, ufunclab as ul

for n in range(1, 40):
    a = np.sort(np.arange(n)//3)
    for v in range(15):
        assert ul.searchsortedl(a, v) == np.searchsorted(a, v), (a, v)
