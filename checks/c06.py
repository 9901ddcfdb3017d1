"""Threads.  The same calls are made serially and by several threads at once, released together by a barrier; every
result must have the bits of the serial one.  On the ThreadSanitizer build the same workload is watched for data races
(vlib/tsan.py reads the reports).  Fresh interpreters check that the first, concurrent, use of the lazily loaded names works.

The loops release the GIL only when the problem is large enough, so every call has thousands of elements; the recorded
intervals of the calls tell how many pairs of calls of the same function really ran at the same time."""
import json
import os
import subprocess
import sys
import threading
import time

import numpy as np

from checks.c02 import same
from vlib import calls, engine, gen, specs      # noqa: F401
from vlib.engine import SPECS
from vlib.gendots import pools

OK = (ValueError, TypeError, OverflowError, ZeroDivisionError)


def call(case, s, loop, total):
    """A call with about `total` elements in its largest argument."""
    dims = s.rdims(case.rng, long_ok=False)
    core = max([1] + [int(np.prod([dims[d] for d in cc])) for cc in s.icore + s.ocore])
    L = (max(2, -(-total // core)),)
    if case.rng.random() < .3:
        L = (-(-L[0] // 3), 3)
    return engine.make(case, s, loop=loop, L=L, dims=dims)


class Job:
    """One call: function, arguments, output shapes."""

    def __init__(self, f, args, outs, sig, fill0, give=True):
        self.f, self.args, self.outs, self.sig, self.fill0, self.give = f, args, outs, sig, fill0, give

    def run(self):
        kw = {}
        if self.sig:
            kw['sig'] = self.sig
        if self.give:
            o = tuple(np.zeros(h, t) for h, t in self.outs)
            if not self.fill0:
                for x in o:
                    if x.dtype.kind != 'O' and x.size:
                        x.reshape(-1).view(np.uint8)[...] = 1 if x.dtype.kind == 'b' else 0xa5
            kw['out'] = o
        t0 = time.perf_counter_ns()
        try:
            r = self.f(*self.args, **kw)
        except OK as e:
            return repr(e), t0, time.perf_counter_ns()
        t1 = time.perf_counter_ns()
        return (r if isinstance(r, tuple) else (r,)), t0, t1


def threads(ctx, name, jobs, T, R, info):
    want = [j.run()[0] for j in jobs]
    for j, w in zip(jobs, want):
        if not _eq(w, j.run()[0]):
            ctx.fail(f'{name}:serial', f'two serial calls differ: {info}')
            return
    bar = threading.Barrier(T)
    log = [[] for _ in range(T)]
    errs = []

    def work(t):
        try:
            for r in range(R):
                k = (t + r) % len(jobs)
                bar.wait()
                res, a, b = jobs[k].run()
                log[t].append((a, b, k))
                if not _eq(want[k], res):
                    errs.append((t, r, k, res))
        except Exception as e:                                      # noqa: BLE001
            errs.append((t, -1, -1, repr(e)))
            bar.abort()
    th = [threading.Thread(target=work, args=(t,)) for t in range(T)]
    for x in th:
        x.start()
    for x in th:
        x.join()
    ctx.ev(T * R)
    over = 0
    for i in range(T):
        for j in range(i):
            over += sum(1 for (a, b, _), (c, d, _) in zip(log[i], log[j]) if a < d and c < b)
    ctx.count('overlapping pairs of calls', over)
    ctx.count('pairs of calls', T * (T - 1) // 2 * R)
    order = tuple(tuple(sorted(range(T), key=lambda t: log[t][r][0] if r < len(log[t]) else 0)) for r in range(R))
    ctx.distinct(name, info, order)
    if errs:
        t, r, k, res = errs[0]
        ctx.fail(f'{name}:threads', f'{len(errs)} of {T * R} concurrent calls differ from the serial call: {info}\n'
                 f'thread {t} round {r} call {k}: {str(res)[:600]}\nserial: {str(want[k] if k >= 0 else None)[:600]}')


def _eq(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return same(a, b)


def _job(case, s, loop, total):
    c = call(case, s, loop, total)
    return Job(s.obj, c.args, list(zip(c.oshapes, c.ot)), c.it + '->' + c.ot, 'bincount' in s.name, True), c


def one(ctx, case, s):
    loop = s.types[case.index % len(s.types)]
    ts = ctx.variant == 'tsan'
    total = 2500 if ts else 4000
    if any('O' in x for x in loop):
        total = 300
    jobs = []
    for _ in range(2):
        j, c = _job(case, s, loop, total)
        jobs.append(j)
    info = f'{s.path} {c.it}->{c.ot} {[[a.shape for a in j.args] for j in jobs]}'
    ctx.note(info)
    ctx.count('calls:' + s.name)
    T = 3 if ts else int(case.rng.integers(2, 7))
    threads(ctx, s.name, jobs, T, 3 if ts else int(case.rng.integers(3, 9)), info)
    if case.index < 1:
        ctx.sample(info, 3)


def mixed(ctx, case):
    """Different functions (also wrappers and methods) at once."""
    rng = case.rng
    import ufunclab as u
    lst = list(SPECS.values())
    jobs = []
    names = []
    for _ in range(4):
        s = lst[int(rng.integers(0, len(lst)))]
        loop = s.types[int(rng.integers(0, len(s.types)))]
        j, _ = _job(case, s, loop, 300 if any('O' in x for x in loop) else 3000)
        jobs.append(j)
        names.append(s.name + ':' + loop[0])
    x = rng.integers(0, 9, size=(30, 40))
    y = rng.random((30, 40))
    for nm, f, a in [('bincount', u.bincount, (x,)), ('convert_to_base', u.convert_to_base, (x, 3, 4)),
                     ('one_hot', u.one_hot, (x, 9)), ('nextn_greater', u.nextn_greater, (y, 5)),
                     ('nextn_less', u.nextn_less, (y, 5)), ('softmax', lambda q: u.softmax(q, axis=0), (y,)),
                     ('op', lambda q: u.first(q, u.op.GT, .5, -1.0), (y,))]:
        if rng.random() < .3:
            jobs.append(Job(f, a, (), None, False, give=False))
            names.append(nm)
    ctx.note(f'mixed {names}')
    ctx.count('mixed')
    threads(ctx, 'mixed', jobs, int(rng.integers(2, 8)), 6, f'mixed {names}')


def gendot(ctx, case):
    """Functions made by gendot, made and used by all threads at once."""
    import ufunclab as u
    rng = case.rng
    prods, sums, gsum = pools()
    jobs = []
    names = []
    while len(jobs) < 3:
        p = prods[int(rng.integers(0, len(prods)))]
        q = (gsum if rng.random() < .4 else sums)
        q = q[int(rng.integers(0, len(q)))]
        try:
            f = u.gendot(p, q)
        except TypeError:
            continue
        types = [t for t in f.types if set(t) <= set('?bBhHiIlLqQefdgFDG->')]
        if not types:
            continue
        t = types[int(rng.integers(0, len(types)))]
        n = int(rng.choice([1, 3, 40, 300]))
        K = max(3, 3000 // n)
        args = [np.asarray(gen.values(rng, x, (K, n))) for x in t[:2]]
        make_too = rng.random() < .5

        def call(*a, p=p, q=q, f=f, make_too=make_too, **kw):
            g = u.gendot(p, q) if make_too else f
            return g(*a, **kw)
        jobs.append(Job(call, args, [((K,), t[-1])], t, False))
        names.append(f'gendot({p.__name__},{q.__name__}) {t} n={n} {"made in the threads" if make_too else "shared"}')
    ctx.note(f'{names}')
    ctx.count('gendot')
    threads(ctx, 'gendot', jobs, 3 if ctx.variant == 'tsan' else int(rng.integers(2, 7)), 4, str(names))


def wrappers(ctx, case):
    """The Python wrappers with large arrays, in every type."""
    rng = case.rng
    ts = ctx.variant == 'tsan'
    name = calls.WRAPPERS[case.index % (len(calls.WRAPPERS) - 1)]
    jobs = []
    for _ in range(3):
        c = calls.make(rng, name, total=3000 if ts else 6000)
        jobs.append(Job(c, c.args, [(c.oshape, c.ot)], None, c.acc, give=False))
        if c.name != 'bincountw' and rng.random() < .5:
            def put(*a, c=c):
                o = np.zeros(c.oshape, c.ot)
                return c(*a, out=o)
            jobs.append(Job(put, c.args, [], None, True, give=False))
    ctx.note(f'{name} {c.describe()}')
    ctx.count('wrapper:' + name)
    threads(ctx, name, jobs, 3 if ts else int(rng.integers(2, 7)), 4, c.describe())


def objects(ctx, case):
    """Comparisons in Python code give up the GIL in the middle of an object loop."""
    rng = case.rng
    lst = [s for s in SPECS.values() if any('O' in t[0] for t in s.types)]
    s = lst[case.index % len(lst)]
    loop = [t for t in s.types if 'O' in t[0]][0]

    class V:
        __slots__ = ('v',)

        def __init__(self, v):
            self.v = v

        def __lt__(self, o):
            return self.v < o.v

        def __le__(self, o):
            return self.v <= o.v

        def __gt__(self, o):
            return self.v > o.v

        def __ge__(self, o):
            return self.v >= o.v

        def __eq__(self, o):
            return self.v == o.v

        def __ne__(self, o):
            return self.v != o.v
        __hash__ = None

        def __sub__(self, o):
            return self.v - o.v

        def __mul__(self, o):
            return self.v * o.v
    jobs = []
    for _ in range(2):
        c = call(case, s, loop, 400)
        args, outs = c.args, list(zip(c.oshapes, c.ot))
        if s.name not in ('cross2', 'cross3', 'peaktopeak'):
            for a in args:
                if a.dtype.hasobject:
                    f = a.reshape(-1)
                    for k in range(f.size):
                        f[k] = V(f[k])
        jobs.append(Job(s.obj, args, outs, c.it + '->' + c.ot, False))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ctx.note(f'objects {s.name}')
    ctx.count('objects')
    try:
        threads(ctx, s.name, jobs, 4, 4, f'{s.path} objects with Python comparisons')
    finally:
        sys.setswitchinterval(old)


LAZY = r'''
import json, random, sys, threading
seed, T = int(sys.argv[1]), int(sys.argv[2])
import ufunclab as u
sys.setswitchinterval(1e-6)
names = [n for n in u.__all__] + ['normal', 'semivar', 'erfcx']
bar = threading.Barrier(T)
got, errs = [dict() for _ in range(T)], []
def work(t):
    r = random.Random(seed * 100 + (t if seed % 2 else 0))
    ns = names[:]
    r.shuffle(ns)
    bar.wait()
    for n in ns:
        try:
            if r.random() < .3:
                d = {}
                exec('from ufunclab import ' + n, d)
                got[t][n] = d[n]
            else:
                got[t][n] = getattr(u, n)
        except Exception as e:
            errs.append(f'{n}: {e!r}')
th = [threading.Thread(target=work, args=(t,)) for t in range(T)]
[x.start() for x in th]
[x.join() for x in th]
bad = [n for n in names if any(g.get(n) is not got[0].get(n) and n != '__version__' for g in got)]
print(json.dumps([errs[:5], bad[:10], len(names)]))
'''


def lazy(ctx, case):
    T = int(case.rng.integers(2, 9))
    ctx.note('lazy import')
    p = subprocess.run([sys.executable, '-c', LAZY, str(case.index + 1000 * ctx.seed), str(T)], capture_output=True, text=True,
                       timeout=120, env={k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'})
    ctx.ev()
    ctx.count('lazy import')
    if p.returncode:
        ctx.fail('lazy:crash', f'exit {p.returncode}\n{p.stderr[-1500:]}')
        return
    errs, bad, n = json.loads(p.stdout)
    ctx.count('lazily loaded names', n * T)
    ctx.distinct('lazy', T, case.index)
    if errs:
        ctx.fail('lazy:error', f'{T} threads: {errs}')
    if bad:
        ctx.fail('lazy:identity', f'{T} threads see different objects for {bad}')


def run(ctx):
    ts = ctx.variant == 'tsan'
    for s in SPECS.values():
        n = len(s.types)
        ctx.each('same:' + s.name, ctx.n(max(2 * n, 8) if ts else max(5 * n, 20), 20 * n + 40), lambda case, s=s: one(ctx, case, s))
    ctx.each('gendot', ctx.n(60 if ts else 150, 1500), lambda case: gendot(ctx, case))
    ctx.each('wrappers', ctx.n(36 if ts else 120, 1500), lambda case: wrappers(ctx, case))
    if ts:
        return
    ctx.each('mixed', ctx.n(300, 6000), lambda case: mixed(ctx, case))
    ctx.each('objects', ctx.n(110, 1100), lambda case: objects(ctx, case))
    ctx.each('lazy', ctx.n(24, 200), lambda case: lazy(ctx, case))
