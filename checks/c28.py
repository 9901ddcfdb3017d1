"""Namespace, constants and metadata: histories of imports in fresh interpreters, operation codes against the Python
comparisons, pickling, signatures, and what ufunc_inspector prints."""
import codeop
import ctypes
import importlib
import inspect
import json
import operator
import os
import pickle
import re
import subprocess
import sys
import tempfile

import numpy as np

from vlib import engine, gen, specs      # noqa: F401
from vlib.engine import LOOPS, parse_sig, resolve

# functions that are public attributes of the package, from the table of contents of README.md
PUBLIC = ('first argfirst argmin argmax minmax argminmax min_argmin max_argmax searchsortedl searchsortedr peaktopeak ordered '
          'all_same kbnsum gmean gmeanw hmean hmeanw pmean pmeanw meanvar mad rmad gini rms vnorm vdot pearson_corr wjaccard '
          'cross3 cross2 percentileofscore bincount convert_to_base nextn_greater nextn_less one_hot tri_area tri_area_indexed '
          'multivariate_logbeta softmax unwrap backlash backlash_sum hysteresis_relay fillnan1d linear_interp1d sosfilter '
          'sosfilter_ic sosfilter_ic_contig deadzone step linearstep smoothstep3 invsmoothstep3 smoothstep5 trapezoid_pulse '
          'pow1pm1 debye1 expint1 logexpint1 logistic logistic_deriv log_logistic swish hyperbolic_ramp exponential_ramp '
          'yeo_johnson inv_yeo_johnson loggamma1p logfactorial issnan next_less next_greater log1p_theorem4 '
          'log1p_doubledouble abs_squared abssq erfcx hypot3 nan_to_num gendot ufunc_inspector op normal semivar '
          '__version__').split()
SUB = {'normal': 'cdf logcdf sf logsf'.split(), 'semivar': 'exponential linear parabolic spherical'.split()}
NOTPUB = ['aabbcc', 'numpy', 'np', '_np', 'minmx', 'Gmean', 'normal_cdf', 'gmean_', '']
PYSIG = {
    'bincount': [('x', 1, None), ('m', 1, 'None'), ('weights', 1, 'None'), ('out', 3, 'None'), ('axis', 3, '-1')],
    'convert_to_base': [('k', 1, None), ('base', 1, None), ('ndigits', 1, None), ('out', 3, 'None'), ('axis', 3, '-1')],
    'nextn_greater': [('x', 1, None), ('n', 1, None), ('out', 3, 'None'), ('axis', 3, '-1')],
    'nextn_less': [('x', 1, None), ('n', 1, None), ('out', 3, 'None'), ('axis', 3, '-1')],
    'one_hot': [('k', 1, None), ('n', 1, None), ('out', 3, 'None'), ('axis', 3, '-1')],
}

CHILD = r'''
import json, sys, importlib, threading, io, contextlib
ops = json.loads(sys.argv[1])
import numpy as np
err0, nnp = np.geterr(), len(dir(np))
path0, mods0 = list(sys.path), set(sys.modules)
seen, bad, keep = {}, [], []
def saw(name, o):
    keep.append(o)
    if seen.setdefault(name, o) is not o:
        bad.append(f'{name}: two different objects')
def fetch(kind, name):
    if kind == 'attr':
        import ufunclab
        o = ufunclab
        for p in name.split('.'):
            o = getattr(o, p)
        saw(name, o)
    elif kind == 'from':
        mod, _, nm = ('ufunclab.' + name).rpartition('.')
        ns = {}
        exec(f'from {mod} import {nm} as x', ns)
        saw(name, ns['x'])
    elif kind == 'import':
        saw(name, importlib.import_module('ufunclab.' + name))
    elif kind == 'star':
        ns = {}
        exec('from ufunclab import *', ns)
        import ufunclab
        for n in ufunclab.__all__:
            if n not in ns:
                bad.append(f'star import gives no {n}')
            else:
                saw(n, ns[n])
    elif kind == 'dir':
        import ufunclab
        for n in dir(ufunclab):
            saw(n, getattr(ufunclab, n))
    elif kind == 'unknown':
        import ufunclab
        try:
            o = getattr(ufunclab, name)
            bad.append(f'attribute {name!r} exists: {o!r}')
        except AttributeError as e:
            if repr(name) not in str(e) or 'ufunclab' not in str(e):
                bad.append(f'message {e} for {name!r}')
        if name.isidentifier():
            try:
                exec(f'from ufunclab import {name}', {})
                bad.append(f'from-import of {name!r}')
            except ImportError:
                pass
        if hasattr(ufunclab, name):
            bad.append(f'hasattr {name!r}')
    elif kind == 'noerfcx':
        import ufunclab.normal
        if hasattr(ufunclab.normal, 'erfcx'):
            bad.append('ufunclab.normal.erfcx exists')
    elif kind == 'threads':
        ts = [threading.Thread(target=run, args=('attr', n)) for n in name]
        for t in ts: t.start()
        for t in ts: t.join()
def run(kind, name):
    try:
        fetch(kind, name)
    except Exception as e:
        bad.append(f'{kind} {name}: {type(e).__name__}: {e}')
for kind, name in ops:
    run(kind, name)
if np.geterr() != err0: bad.append('numpy error state changed')
if len(dir(np)) != nnp: bad.append('numpy namespace changed')
if sys.path != path0: bad.append('sys.path changed')
desc = {}
for n, o in seen.items():
    if isinstance(o, np.ufunc):
        desc[n] = [o.__name__, o.nin, o.nout, o.signature or '', o.types]
    elif isinstance(o, str):
        desc[n] = o
    else:
        desc[n] = type(o).__name__
print(json.dumps(dict(bad=bad, desc=desc)))
'''


def full_names():
    return [n for n in PUBLIC] + [f'{m}.{n}' for m in SUB for n in SUB[m]]


def history(ctx, case):
    rng = case.rng
    names = full_names()
    ops = []
    for _ in range(int(rng.integers(1, 14))):
        u = rng.random()
        nm = str(rng.choice(names))
        if u < .35:
            ops.append(['attr', nm])
        elif u < .65:
            ops.append(['from', nm])
        elif u < .70:
            ops.append(['import', str(rng.choice(list(SUB)))])
        elif u < .75:
            ops.append(['star', ''])
        elif u < .80:
            ops.append(['dir', ''])
        elif u < .90:
            ops.append(['unknown', str(rng.choice(NOTPUB))])
        elif u < .94:
            ops.append(['noerfcx', ''])
        else:
            ops.append(['threads', [str(x) for x in rng.choice(names, size=6)]])
    # each name is the first one fetched in some history
    ops.insert(0, [str(rng.choice(['attr', 'from'])), names[case.index % len(names)]])
    ctx.note(f'import history {ops}')
    env = {k: v for k, v in os.environ.items()}
    with tempfile.TemporaryDirectory() as d:
        try:
            p = subprocess.run([sys.executable, '-c', CHILD, json.dumps(ops)], env=env, cwd=d, capture_output=True, timeout=100)
        except subprocess.TimeoutExpired:
            ctx.fail('namespace:hang', f'history {ops} did not end in 100 s')
            return
    ctx.ev()
    ctx.count('histories')
    ctx.count('operations', len(ops))
    ctx.distinct(json.dumps(ops))
    if p.returncode:
        ctx.fail('namespace:crash', f'history {ops}: exit {p.returncode}\n{p.stderr[-1500:].decode(errors="replace")}')
        return
    out = p.stdout.decode().strip().splitlines()
    if p.stderr.strip() or len(out) != 1:
        ctx.fail('namespace:output', f'history {ops} printed {p.stdout[:500]!r} {p.stderr[:500]!r}')
        return
    r = json.loads(out[0])
    if r['bad']:
        ctx.fail('namespace:history', f'history {ops}: {r["bad"]}')
        return
    for n, d in r['desc'].items():
        ctx.count('objects')
        info = LOOPS.get('ufunclab.' + n)
        if info is None:
            if n == '__version__':
                if d != version():
                    ctx.fail('namespace:version', f'__version__ {d!r}, pyproject.toml says {version()!r}')
            elif d not in ('function', 'type', 'module', 'builtin_function_or_method'):
                ctx.fail(f'{n}:kind', f'{n} is a {d}')
        else:
            want = [n.split('.')[-1], info['nin'], info['nout'], info['sig'].replace(' ', ''), info['types']]
            d[3] = d[3].replace(' ', '')
            if d != want:
                ctx.fail(f'{n}:metadata', f'{n}: {d}, expected {want}')
    if case.index < 1:
        ctx.sample(f'{ops}')


def version():
    import tomllib
    with open('/repo/pyproject.toml', 'rb') as f:
        return tomllib.load(f)['project']['version']


def names(ctx, case):
    """What exists in this process, with its documentation, signature and pickle."""
    import ufunclab
    n = full_names()[case.index]
    ctx.ev()
    ctx.count('names')
    ctx.distinct('name', n)
    o = resolve('ufunclab.' + n)
    if n != '__version__':
        if '.' not in n and (n not in ufunclab.__all__ or n not in dir(ufunclab)):
            ctx.fail(f'{n}:all', f'{n} is missing in __all__ or dir()')
    if n in SUB:
        pub = {x for x in dir(o) if not x.startswith('_')}
        if pub != set(SUB[n]):
            ctx.fail(f'{n}:names', f'module {n} has {sorted(pub)}')
        return
    if n == '__version__':
        return
    name = n.split('.')[-1]
    if o.__name__ != name:
        ctx.fail(f'{n}:name', f'{n}.__name__ is {o.__name__}')
    doc = o.__doc__ or ''
    if isinstance(o, np.ufunc):
        # NumPy generates the first line; the text of the function follows
        if not doc.startswith(name + '(') or len(doc.split('\n', 2)[-1].strip()) < 20:
            ctx.fail(f'{n}:doc', f'{n}.__doc__ is {doc[:200]!r}')
        ic, oc = parse_sig(o.signature or '', o.nin, o.nout)
        if o.nargs != o.nin + o.nout or o.ntypes != len(o.types) or len(ic) != o.nin or len(oc) != o.nout:
            ctx.fail(f'{n}:arity', f'{n}: nin {o.nin} nout {o.nout} nargs {o.nargs} signature {o.signature}')
        if repr(o.identity) != LOOPS['ufunclab.' + n]['identity']:
            ctx.fail(f'{n}:identity', f'{n}.identity is {o.identity!r}')
        # the signature of a call in the documentation names nin arguments
        m = re.search(r'^(\w+)\(([^()/]*), /', doc.split('\n', 1)[-1], re.M)
        if not m or m.group(1) != name or len(m.group(2).split(',')) != o.nin:
            ctx.fail(f'{n}:doc', f'{n}: documented as {m and m.group(0)}, nin is {o.nin}')
    elif len(doc.strip()) < 20:
        ctx.fail(f'{n}:doc', f'{n}.__doc__ is {doc[:200]!r}')
    if name in PYSIG:
        s = [(p.name, int(p.kind), None if p.default is p.empty else repr(p.default)) for p in inspect.signature(o).parameters.values()]
        if s != PYSIG[name]:
            ctx.fail(f'{n}:signature', f'{n}{inspect.signature(o)}')
        for a in (['_bincount', '_bincountw'] if name == 'bincount' else ['gufunc']):
            g = getattr(o, a)
            if not isinstance(g, np.ufunc) or g is not getattr(importlib.import_module('ufunclab._' + name.split('_g')[0].split('_l')[0]),
                                                               g.__name__):
                ctx.fail(f'{n}:gufunc', f'{n}.{a} is {g!r}')
    for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
        if pickle.loads(pickle.dumps(o, proto)) is not o:
            ctx.fail(f'{n}:pickle', f'{n} does not survive pickling')


CMP = {'LT': operator.lt, 'LE': operator.le, 'EQ': operator.eq, 'NE': operator.ne, 'GT': operator.gt, 'GE': operator.ge}


def codes(ctx, case):
    """Each operation code means the comparison it names, in every function that takes one."""
    import ufunclab as u
    rng = case.rng
    a, b, c = (int(x) for x in rng.integers(-3, 4, size=3))
    nan = float('nan')
    t = str(rng.choice(list('bhilqfdgO')))
    if t in 'fdg' and rng.random() < .2:
        b = nan
    ctx.ev()
    ctx.count('codes')
    ctx.distinct('codes', t, a, b, c)
    x = np.array([a], t)
    for k, f in CMP.items():
        o = getattr(u.op, k)
        if not isinstance(o, np.int8):
            ctx.fail('op:type', f'op.{k} is a {type(o)}')
            return
        want = f(a, b)
        info = f'op.{k} type {t}: {a} {k} {b}'
        tb = np.array(b, t)[()]
        r = u.argfirst(x, o, tb)
        r2 = u.first(x, o, tb, np.array(c, t)[()])
        r3 = u.ordered(np.array([a, b], t), o)
        if (r == 0) != want or r2 != (a if want else c) or bool(r3) != want:
            ctx.fail('op:meaning', f'{info}: argfirst {r}, first {r2}, ordered {r3}')
    xs = [float(v) for v in rng.integers(0, 4, size=int(rng.integers(1, 7)))]
    s = float(rng.integers(0, 4))
    lt, eq = sum(v < s for v in xs), sum(v == s for v in xs)
    n = len(xs)
    want = {'RANK': 100 / n * (2 * lt + eq + (eq > 0)) / 2, 'WEAK': 100 * (lt + eq) / n, 'STRICT': 100 * lt / n,
            'MEAN': 100 / n * (2 * lt + eq) / 2}
    for k, w in want.items():
        o = getattr(u.op, 'KIND_' + k)
        if not isinstance(o, np.intp):
            ctx.fail('op:type', f'op.KIND_{k} is a {type(o)}')
        r = u.percentileofscore(np.array(xs), s, o)
        if abs(r - w) > 1e-10:
            ctx.fail('op:meaning', f'op.KIND_{k}: percentileofscore({xs}, {s}) is {r}, expected {w}')


LIBC = ctypes.CDLL(None)


def printed(f, *a):
    """What a C function prints to the process's stdout."""
    with tempfile.TemporaryFile() as t:
        sys.stdout.flush()
        LIBC.fflush(None)
        old = os.dup(1)
        os.dup2(t.fileno(), 1)
        try:
            r = f(*a)
        finally:
            LIBC.fflush(None)
            os.dup2(old, 1)
            os.close(old)
        t.seek(0)
        return r, t.read().decode('utf-8', 'replace')


def np_ufuncs():
    import numpy.linalg._umath_linalg as ul
    out = {}
    for mod in (np, np._core.umath, ul):
        for k in dir(mod):
            o = getattr(mod, k)
            if isinstance(o, np.ufunc):
                out[f'{mod.__name__}.{k}'] = o
    return out


def gendots():
    import ufunclab as u
    return {'gendot(multiply, add)': u.gendot(np.multiply, np.add, name='dotty'),
            'gendot(minimum, maximum)': u.gendot(np.minimum, np.maximum),
            'gendot(greater, logical_and)': u.gendot(np.greater, np.logical_and, name='q')}


def inspector(ctx, case, name, f):
    import ufunclab as u
    ctx.note(f'ufunc_inspector({name})')
    ctx.ev()
    ctx.count('inspected')
    ctx.distinct('inspector', name)
    r, text = printed(u.ufunc_inspector, f)
    if r is not None:
        ctx.fail('ufunc_inspector:return', f'{name}: returned {r!r}')
    if not isinstance(f, np.ufunc):
        if text != 'Not a ufunc.\n':
            ctx.fail('ufunc_inspector:other', f'{name}: {text!r}')
        return
    bad = []
    if f"'{f.__name__}'" not in text.splitlines()[0]:
        bad.append('name')
    head = text.splitlines()[0]
    if f.signature is None:
        if 'is a ufunc' not in head:
            bad.append('kind')
    else:
        if 'is a gufunc' not in head or f"'{f.signature}'" not in head:
            bad.append('signature')
    nums = {k: int(v) for k, v in re.findall(r'\b(nin|nout|ntypes) = (-?\d+)', text)}
    if nums != dict(nin=f.nin, nout=f.nout, ntypes=f.ntypes):
        bad.append(f'numbers {nums}')
    loops = re.findall(r'^ *(\d+): +\(?([-\d, ]+?)\)? -> +(-?\d+) +\((\S+)->(\S)\)', text, re.M)
    if f.nout == 1 and 1 <= f.nin <= 4:
        types = f.types[:f.ntypes]
        if len(loops) != len(types):
            bad.append(f'{len(loops)} loops')
        for k, ((i, a, o, ca, co), t) in enumerate(zip(loops, types)):
            ti, to = t.split('->')
            if int(i) != k or ca != ti or co != to or [int(v) for v in a.split(',')] != [np.dtype(c).num for c in ti] \
                    or int(o) != np.dtype(to).num:
                bad.append(f'loop {k}: {(i, a, o, ca, co)} is not {t}')
    elif loops:
        bad.append('loops')
    if f.signature is not None and '|' not in f.signature:
        ic, oc = parse_sig(f.signature, f.nin, f.nout)
        dims, opt = [], set()
        for d in [d for c in ic + oc for d in c]:
            if d.endswith('?'):
                opt.add(d[:-1])
            if d.rstrip('?') not in dims:
                dims.append(d.rstrip('?'))
        want = {'core_dim_sizes': ', '.join(d if d.isdigit() else '-1' for d in dims),
                'core_dim_flags': ', '.join(' | '.join([x for x, y in (('SIZE_INFERRED', not d.isdigit()), ('CAN_IGNORE', d in opt)) if y])
                                            for d in dims),
                'core_num_dims': ', '.join(str(len(c)) for c in ic + oc),
                'core_offsets': ', '.join(str(int(v)) for v in np.cumsum([0] + [len(c) for c in (ic + oc)[:-1]]))}
        for k, w in want.items():
            if not dims and k in ('core_dim_sizes', 'core_dim_flags'):
                continue
            m = re.search(r'^\.\.\.' + k + r'\b.*?= \[(.*)\]$', text, re.M)
            if not m or m.group(1) != w:
                bad.append(f'{k}: {m and m.group(0)} is not {w}')
        m = re.search(r'^\.\.\.core_dim_ixs\b.*?= (.*)$', text, re.M)
        w = ' '.join(str([dims.index(d.rstrip('?')) for d in c]) for c in ic + oc)
        if not m or m.group(1).strip() != w:
            bad.append(f'core_dim_ixs {m and m.group(0)} is not {w}')
        m = re.search(r'^\.\.\.op_flags\b.*?= \[(\d+(?:, \d+)*)\]$', text, re.M)
        if not m or len(m.group(1).split(',')) != f.nargs:
            bad.append('op_flags')
        m = re.search(r'core_num_dim_ix .*= (\d+)', text)
        if not m or int(m.group(1)) != len(dims):
            bad.append('core_num_dim_ix')
    if name == 'from pyfunc 11' and 'PyUFunc_On_Om' not in text:
        bad.append('generic loop')
    if bad:
        ctx.fail('ufunc_inspector:text', f'{name}: {bad}\n{text}')
    if len(ctx.samples) < 2:
        ctx.sample(f'{name}: {text[:200]}')


def user_loops(ctx, case):
    import numpy._core._rational_tests as rt
    import ufunclab as u
    num = np.dtype(rt.rational).num
    f, nin = [(np.add, 2), (np.negative, 1), (np.less, 2), (rt.test_add, 2), (np.numerator if hasattr(np, 'numerator') else np.absolute, 1)][case.index]
    ctx.ev()
    ctx.count('user loops')
    ctx.distinct('user', f.__name__)
    r, text = printed(u.ufunc_inspector, f)
    if 'Registered user loops:' not in text or f'typenum = {num}; type name is' not in text or 'rational' not in text:
        ctx.fail('ufunc_inspector:user', f'{f.__name__}: {text}')
    for m in re.findall(r'arg_types:  in:((?: \d+)+)   out:((?: \d+)+)', text):
        if len(m[0].split()) != f.nin or len(m[1].split()) != f.nout:
            ctx.fail('ufunc_inspector:user', f'{f.__name__}: {m}')


class Doc:
    """The examples of a docstring: pairs of a source and what the documentation shows for it."""

    def __init__(self, text):
        self.items, self.skipped = [], 0
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            s = lines[i].strip()
            i += 1
            if not s.startswith('>>> '):
                continue
            src = s[4:]
            while i < len(lines) and lines[i].strip().startswith('...'):
                src += '\n' + lines[i].strip()[4:]
                i += 1
            while not complete(src) and i < len(lines) and lines[i].strip() and not lines[i].strip().startswith('>>>'):
                src += '\n' + lines[i].strip()          # a continuation line without the dots
                i += 1
            want = []
            while i < len(lines) and lines[i].strip() and not lines[i].strip().startswith('>>>'):
                want.append(lines[i].strip())
                i += 1
            self.items.append((src, '\n'.join(want)))


def complete(src):
    try:
        return codeop.compile_command(src, symbol='exec') is not None
    except (SyntaxError, ValueError, OverflowError):
        return True


SHOWN = {'array': np.array, 'np': np, 'nan': np.nan, 'inf': np.inf, 'True': True, 'False': False, 'dtype': np.dtype,
         'AxisError': np.exceptions.AxisError, '__builtins__': {}}
SHOWN.update({t: np.dtype(t) for t in 'int8 uint8 int16 uint16 int32 uint32 int64 uint64 float32 float64 complex64 complex128 bool object'.split()})


def same_shown(got, want):
    """Does the value agree with the shown one, as far as its digits go?"""
    if isinstance(want, (tuple, list)) and isinstance(got, (tuple, list)):
        return len(got) == len(want) and all(same_shown(g, w) for g, w in zip(got, want))
    if isinstance(want, str) or isinstance(got, str) or want is None:
        return got == want
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        return False
    if g.dtype == object or g.dtype.kind in 'USOMm':
        return bool(np.all(g == w))
    # NumPy shows 8 digits of the elements of an array
    tol = 2e-8 if g.ndim else 1e-13
    if g.dtype.kind == 'f' and g.dtype.itemsize < 8:
        tol = 2e-6
    return bool(np.allclose(g, w, rtol=tol, atol=tol*float(np.max(np.abs(w[np.isfinite(w)]), initial=0)), equal_nan=True))


def examples(ctx, case, n, text):
    """The examples of the documentation, run one after the other as a user would type them."""
    import contextlib
    import io
    import ufunclab
    ns = {'np': np}
    ns.update({k: getattr(ufunclab, k) for k in PUBLIC})
    for src, want in Doc(text).items:
        ctx.ev()
        out = io.StringIO()
        try:
            code = compile(src, '<example>', 'eval')
        except SyntaxError:
            code = None
        try:
            with contextlib.redirect_stdout(out), np.errstate(all='ignore'), np.printoptions():
                if code is None:
                    exec(compile(src, '<example>', 'exec'), ns)
                    got = None
                else:
                    got = eval(code, ns)
        except Exception as e:
            if want.startswith('Traceback') and type(e).__name__ in want:
                ctx.count('examples')
                continue
            if isinstance(e, (ImportError, NameError)):
                ctx.count('examples left out')
                continue
            ctx.fail(f'{n}:example', f'{n}: {src!r} raises {e!r}')
            return
        printed_text = out.getvalue().strip()
        if printed_text:
            ok = re.sub(r'\s', '', printed_text) == re.sub(r'\s', '', want) or '...' in want
            got = printed_text
        elif not want or code is None:
            continue
        else:
            try:
                shown = eval(want, dict(SHOWN))
            except Exception:
                shown = ...
            if shown is ... or '...' in want:
                ctx.count('examples left out')
                continue
            ok = same_shown(got, shown)
            if ok and 'dtype=' in want and isinstance(shown, np.ndarray):
                ok = got.dtype == shown.dtype
        ctx.count('examples')
        ctx.distinct('example', n, src)
        if not ok:
            ctx.fail(f'{n}:example', f'{n}: {src!r} gives {got!r}, the documentation shows {want!r}')
            return


def documented():
    out = {}
    for n in full_names():
        if n in SUB or n == '__version__':
            continue
        t = resolve('ufunclab.' + n).__doc__ or ''
        if '>>> ' in t:
            out[n] = t
    return out


def run(ctx):
    ctx.each('names', len(full_names()), lambda case: names(ctx, case))
    ctx.each('codes', ctx.n(600, 20000), lambda case: codes(ctx, case))
    ctx.each('user', 5, lambda case: user_loops(ctx, case))
    docs = documented()
    ctx.each_item('examples', sorted(docs), lambda case, k: examples(ctx, case, k, docs[k]))
    fs = {p: resolve(p) for p in sorted(LOOPS)}
    fs.update(np_ufuncs())
    fs.update(gendots())
    fs.update({f'from pyfunc {i}{o}': np.frompyfunc(lambda *a: a, i, o) for i in range(1, 6) for o in range(1, 3)})
    fs.update({repr(x): x for x in (None, 3, 'abc', np.sum, type, np.ufunc)})
    ctx.each_item('inspector', sorted(fs), lambda case, k: inspector(ctx, case, k, fs[k]))
    ctx.each('histories', ctx.n(180, 6000), lambda case: history(ctx, case))
