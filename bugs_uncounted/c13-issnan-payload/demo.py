import numpy as np, ufunclab as ul

x = np.array([0x7C80], dtype=np.uint16).view(np.float16)
assert ul.issnan(x)[0]
