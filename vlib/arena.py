"""Monitored memory: arrays placed flush against inaccessible pages, surrounded by canary bytes and,
in the AddressSanitizer build, with every byte that is not an element of the array poisoned.

An access of compiled ufunclab code outside the elements of its arguments is then seen by the kernel (a
fault on the guard page), by AddressSanitizer (poisoned byte) or, for a write, by the canary check."""
import ctypes
import mmap

import numpy as np

PAGE = mmap.PAGESIZE
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int,
                       ctypes.c_long]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
try:
    _poison = _libc.__asan_poison_memory_region
    _unpoison = _libc.__asan_unpoison_memory_region
    for _f in (_poison, _unpoison):
        _f.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
        _f.restype = None
except AttributeError:
    _poison = _unpoison = None

HAVE_ASAN = _poison is not None


class Region:
    """size bytes (a multiple of the page size) between two inaccessible pages."""

    def __init__(self, size):
        self.size = -(-size // PAGE) * PAGE
        base = _libc.mmap(None, self.size + 2 * PAGE, mmap.PROT_READ | mmap.PROT_WRITE,
                          mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS, -1, 0)
        if base in (None, ctypes.c_void_p(-1).value):
            raise MemoryError('mmap')
        self.base = base
        for p in (base, base + PAGE + self.size):
            if _libc.mprotect(p, PAGE, 0):
                raise OSError('mprotect')
        self.start = base + PAGE
        self.bytes = np.frombuffer((ctypes.c_char * self.size).from_address(self.start),
                                   dtype=np.uint8)
        self.bytes = np.asarray(self.bytes)
        self.bytes.flags.writeable = True if self.bytes.flags.writeable else False

    def free(self):
        self.bytes = None
        _libc.munmap(self.base, self.size + 2 * PAGE)


_pool = {}


def get_region(size):
    size = max(PAGE, -(-size // PAGE) * PAGE)
    lst = _pool.setdefault(size, [])
    return lst.pop() if lst else Region(size)


def put_region(r):
    lst = _pool.setdefault(r.size, [])
    if len(lst) < 12 and r.size <= 64 * PAGE:
        lst.append(r)
    else:
        r.free()


class Placed:
    """A view with the wanted shape inside a Region."""

    def __init__(self, rng, shape, dtype, strides=None, flush=None, fill=None, zero_ok=False):
        dtype = np.dtype(dtype)
        k = dtype.itemsize
        if strides is None:
            strides = rand_strides(rng, shape, k)
        lo = sum(min(0, s * (d - 1)) for s, d in zip(strides, shape) if d)
        hi = sum(max(0, s * (d - 1)) for s, d in zip(strides, shape) if d) + k
        if 0 in shape:
            lo, hi = 0, k
        self.region = r = get_region(hi - lo)
        flush = flush or ('end' if rng.random() < .65 else 'start')
        base = r.size - hi if flush == 'end' else -lo
        self.flush = flush
        fill = int(rng.integers(0, 256)) if fill is None else fill
        r.bytes[...] = fill
        self.view = np.ndarray(shape, dtype, buffer=r.bytes, offset=base if 0 not in shape else
                               (r.size if flush == 'end' else 0) - (k if flush == 'end' else 0),
                               strides=strides)
        mask = np.zeros(r.size, dtype=bool)
        if self.view.size:
            off = np.full((), base)
            for s, d in zip(strides, shape):
                off = np.asarray(off)[..., None] + np.arange(d) * s
            off = np.asarray(off).reshape(-1)
            for j in range(k):
                mask[off + j] = True
        self.mask = mask
        self.fill = fill
        self.snap = None

    def set(self, a):
        self.view[...] = a
        return self

    def arm(self):
        """Record the canaries and poison what is not an element."""
        self.snap = self.region.bytes.copy()
        if _poison is not None:
            m = np.concatenate([[True], self.mask, [True]])
            d = np.flatnonzero(m[1:] != m[:-1])
            for a, b in zip(d[::2].tolist(), d[1::2].tolist()):
                _poison(self.region.start + a, b - a)

    def seal(self):
        """Any write from now on is a fault, even one that is undone before the call returns."""
        if _libc.mprotect(self.region.start, self.region.size, mmap.PROT_READ):
            raise OSError('mprotect')

    def unseal(self):
        if _libc.mprotect(self.region.start, self.region.size, mmap.PROT_READ | mmap.PROT_WRITE):
            raise OSError('mprotect')

    def disarm(self):
        if _unpoison is not None:
            _unpoison(self.region.start, self.region.size)

    def stray(self):
        """Offsets outside the elements whose bytes changed."""
        bad = np.flatnonzero((self.region.bytes != self.snap) & ~self.mask)
        return bad

    def changed(self):
        return bool((self.region.bytes != self.snap).any())

    def release(self):
        self.disarm()
        self.view = None
        put_region(self.region)
        self.region = None


def rand_strides(rng, shape, itemsize):
    """Aligned strides: any order of the axes, gaps, negative steps."""
    nd = len(shape)
    order = rng.permutation(nd) if rng.random() < .4 else np.arange(nd)[::-1]
    strides = [0] * nd
    step = itemsize
    style = rng.random()
    for ax in order:
        gap = 0 if style < .35 else int(rng.integers(0, 3))
        if gap and shape[ax] * step < 40000:
            step = step * (1 + gap) if rng.random() < .6 else step + gap * itemsize
        s = step
        if rng.random() < .25:
            s = -s
        strides[ax] = s
        step = step * max(1, shape[ax])
    return tuple(int(s) for s in strides)
