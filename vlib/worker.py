"""One worker process of a check: runs checks/<id>.py:run(ctx) on its shard of the cases.

The worker journals the case it is about to run in a small mmap'ed file, so that the parent can name
the case that killed the process (SIGSEGV, SIGFPE, sanitizer abort ...) or on which it hung.
"""
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import sys
import time
import traceback
import warnings

JSIZE = 65536
MAX_VIOL = 400


SCALE = {'C01': 3, 'C02': 4, 'C03': 2, 'C04': 8, 'C05': 1.5, 'C06': 2, 'C07': 12, 'C08': 10, 'C09': 25, 'C10': 30, 'C11': 30,
         'C12': 18, 'C13': 1.5, 'C14': 1.4, 'C15': 1.4, 'C16': 6, 'C18': 1.3, 'C19': 2, 'C20': 1.8, 'C23': 2, 'C24': 4, 'C25': 5,
         'C26': 4, 'C27': 7, 'C28': 6, 'C29': 5}


class Stop(Exception):
    pass


class HarnessError(Exception):
    """A mistake of the harness itself: makes the run inconclusive, never a violation."""


class Case:
    __slots__ = ('rng', 'index', 'section', 'r', 'ctx')

    def __init__(self, seed, section, index):
        import numpy as np
        h = int.from_bytes(hashlib.sha256(f'{seed}|{section}|{index}'.encode()).digest()[:8], 'little')
        self.rng = np.random.default_rng(h)
        self.r = random.Random(h)
        self.section = section
        self.index = index


class Ctx:
    def __init__(self, cid, tier, seed, shard, nshards, journal, variant, only=None, budget=240.0):
        self.cid, self.tier, self.seed = cid, tier, seed
        self.shard, self.nshards = shard, nshards
        self.variant = variant
        self.only = only                   # (section, index) in replay mode
        self.quick = tier == 'quick'
        self.evals = 0
        self._distinct = set()
        self.counters = {}
        self.required = set()              # monitors that some shard must have reached
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.cur = None
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.cut = []
        self.sections = {}
        if journal:
            with open(journal, 'wb') as f:
                f.write(b'\0' * JSIZE)
            self._jf = open(journal, 'r+b')
            self.j = mmap.mmap(self._jf.fileno(), JSIZE)
        else:
            self.j = None
        self._jn = 0

    # ------------------------------------------------------------------ scheduling
    def n(self, quick, thorough=None):
        # the budgets were written for a few seconds: SCALE brings every quick check to some 30 s
        q = int(quick * SCALE.get(self.cid, 1))
        return q if self.quick else max(thorough if thorough is not None else quick * 20, 4 * q)

    def cases(self, section, n):
        """Yield the cases of `section` that belong to this shard, each with its own PRNG."""
        if self.only is not None:
            if self.only[0] != section:
                return
            c = Case(self.seed, section, self.only[1])
            self.cur = c
            self.note('')
            yield c
            self.cur = None
            return
        done = 0
        for i in range(n):
            # the permuted shard keeps sections with few cases balanced
            if (i + len(section)) % self.nshards != self.shard:
                continue
            if time.time() > self.deadline:
                self.cut.append([section, i, n])
                break
            c = Case(self.seed, section, i)
            self.cur = c
            self.note('')
            yield c
            done += 1
        self.cur = None
        self.sections[section] = self.sections.get(section, 0) + done

    def each(self, section, n, fn):
        """Run fn(case) for every case of this shard; an escaping exception is a violation: the
        generators only make calls that are documented to be valid, and expected errors are
        caught by the check itself."""
        only = os.environ.get('VERIF_ONLY')     # while developing: a prefix of the sections to run
        if only and not section.startswith(only):
            return
        for c in self.cases(section, n):
            self._guard(fn, c)

    def each_item(self, section, seq, fn):
        seq = list(seq)
        for c in self.cases(section, len(seq)):
            self._guard(fn, c, seq[c.index])

    def _guard(self, fn, *args):
        try:
            fn(*args)
        except (MemoryError, KeyboardInterrupt, Stop, HarnessError):
            raise
        except Exception as e:
            self.fail(f'{self.cur.section}:exception:{type(e).__name__}',
                      'unexpected exception\n' + traceback.format_exc())

    # ------------------------------------------------------------------ observation
    def note(self, text):
        """Journal what is about to run (used only if the process dies)."""
        if self.j is None:
            return
        self._jn += 1
        c = self.cur
        b = json.dumps([self._jn, c.section if c else None, c.index if c else None,
                        str(text)[:8000]]).encode()[:JSIZE - 8]
        self.j[:4] = len(b).to_bytes(4, 'little')
        self.j[4:4 + len(b)] = b

    def tick(self):
        """Tell the watchdog that progress was made inside a long case."""
        self._jn += 1
        if self.j is not None:
            self.j[JSIZE - 8:] = self._jn.to_bytes(8, 'little')

    def ev(self, k=1):
        self.evals += k

    def distinct(self, *key):
        self._distinct.add(hash(key))

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def sample(self, text, maxn=3):
        if len(self.samples) < maxn:
            self.samples.append(str(text)[:600])

    def fail(self, key, msg):
        """Record a violation.  `key` names the mechanism (function:kind), never the random data."""
        self.nviol += 1
        if len(self.violations) < MAX_VIOL:
            c = self.cur
            self.violations.append(dict(key=key, msg=str(msg)[:3000],
                                        section=c.section if c else None,
                                        index=c.index if c else None))

    def result(self):
        return dict(required=sorted(self.required), evals=self.evals, distinct=sorted(self._distinct)[:2000000],
                    counters=self.counters, samples=self.samples, violations=self.violations,
                    nviol=self.nviol, cut=self.cut, sections=self.sections,
                    wall=time.time() - self.t0)


def main():
    cfg = json.loads(sys.argv[1])
    vt = cfg['vtsite']
    sys.path.insert(0, cfg['verif'])
    sys.path.append(vt)
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import ufunclab
    if not os.path.realpath(ufunclab.__file__).startswith(os.path.realpath(cfg['site'])):
        raise SystemExit(f'wrong ufunclab imported: {ufunclab.__file__}')
    ctx = Ctx(cfg['cid'], cfg['tier'], cfg['seed'], cfg['shard'], cfg['nshards'], cfg['journal'],
              cfg['variant'], cfg.get('only'), cfg.get('budget', 240.0))
    mod = importlib.import_module('checks.' + cfg['cid'].lower())
    err = None
    try:
        mod.run(ctx)
    except Exception:
        err = traceback.format_exc()
        if ctx.cur is not None:
            err = f'case {ctx.cur.section}#{ctx.cur.index}\n' + err
    res = ctx.result()
    res['error'] = err
    if os.environ.get('VERIF_TRACK'):
        from vlib import num
        print('TRACK', {k: round(v, 3) for k, v in sorted(num.TRACK.items())}, file=sys.stderr)
    with open(cfg['out'] + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(cfg['out'] + '.tmp', cfg['out'])
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    # the checks import this module as vlib.worker: make it the same module
    sys.path.insert(0, json.loads(sys.argv[1])['verif'])
    import vlib.worker
    vlib.worker.main()
