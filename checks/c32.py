"""The generators of tools/cxxgen.  Random definitions of ufuncs are turned into extension modules by the real generators, compiled
and called; the core functions written for them compute a number from all their arguments, so that a wrong pointer, dimension,
stride or type shows in the result."""
import importlib.machinery
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

import numpy as np

from vlib import build, gen, num

TOOLS = os.path.join(build.REPO, 'tools', 'cxxgen')
ITYPES = '?bhilqBHILQfdgFDG'
COMMON = r'''
#ifndef CORE_COMMON_H
#define CORE_COMMON_H
#include <complex>
template<typename T> static inline long long in_(T x) { return (long long) x; }
static inline long long in_(npy_cfloat x) { return (long long) (npy_crealf(x) + 2*npy_cimagf(x)); }
static inline long long in_(npy_cdouble x) { return (long long) (npy_creal(x) + 2*npy_cimag(x)); }
static inline long long in_(npy_clongdouble x) { return (long long) (npy_creall(x) + 2*npy_cimagl(x)); }
static bool failed_ = false;
static inline long long in_(PyObject *x) {
    long long v = x == NULL ? 0 : failed_ ? 0 : PyLong_AsLongLong(x);
    if (v == -1) failed_ = true;        // no object has the value -1
    return v;
}
template<typename T> static inline void out_(T *p, long long v) { *p = (T) v; }
static inline void out_(npy_cfloat *p, long long v) { npy_csetrealf(p, (float) v); npy_csetimagf(p, (float) -v); }
static inline void out_(npy_cdouble *p, long long v) { npy_csetreal(p, (double) v); npy_csetimag(p, (double) -v); }
static inline void out_(npy_clongdouble *p, long long v) { npy_csetreall(p, (long double) v); npy_csetimagl(p, (long double) -v); }
static inline void out_(PyObject **p, long long v) { PyObject *o = *p; *p = PyLong_FromLongLong(v); Py_XDECREF(o); }
#endif
'''


def compiler(srcs, out, incs, ctx):
    cmd = ['g++', '-std=c++17', '-O1', '-shared', '-fPIC', '-w', '-o', out, *srcs]
    for i in [*incs, np.get_include(), sysconfig.get_paths()['include']]:
        cmd += ['-I', i]
    ctx.tick()
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    ctx.tick()
    return p.returncode, p.stderr


def load(name, path):
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_file_location(name, path, loader=loader)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    return m


def word(rng, used, pool=None):
    while True:
        w = str(rng.choice(pool)) if pool is not None else ''.join(rng.choice(list('abcdefghmqrstuvwz')) for _ in range(rng.integers(3, 7)))
        if w not in used and w + '_' not in used:
            used.add(w)
            return w


def docstring(rng, name, args):
    lines = [f'{name}({", ".join(args)}, /, ...)', '']
    pieces = ['A sum.', 'Value of `x`:', '    x*y + 10 % 3', ">>> f('a')", 'a ?? b', 'tab\there', 'see [1]_ {x}']
    hard = ['say "no"', 'C:\\new', '"""'.replace('"""', '""'), '\\']
    for _ in range(int(rng.integers(1, 8))):
        k = rng.random()
        lines.append('' if k < .2 else str(rng.choice(hard)) if k < .45 else str(rng.choice(pieces)))
    return '\n'.join(lines) + ('\n' if rng.random() < .5 else '')


# ---------------------------------------------------------------------------------------------- gufuncs

class GU:
    pass


def typelists(rng, ncol, nin, used, obj):
    """Type signatures of one source: in every column one type, or the types of one or two templates."""
    n = int(rng.integers(1, 5))
    ntem = 0 if n == 1 and rng.random() < .5 else int(rng.integers(1, 4))
    kinds = [int(rng.integers(0, ntem + 1)) for _ in range(ncol)]     # 0: constant
    for _ in range(50):
        pool = list(ITYPES) + (['O'] if obj else [])
        const = [str(rng.choice(pool)) for _ in range(ncol)]
        tem = [[str(x) for x in rng.choice(pool, n, replace=False)] for _ in range(ntem)]
        sigs = [''.join(const[c] if kinds[c] == 0 else tem[kinds[c] - 1][k] for c in range(ncol)) for k in range(n)]
        ins = [s[:nin] for s in sigs]
        if len(set(ins)) == n and not set(ins) & used:
            # two core functions of one name must differ in their template parameters
            used |= set(ins)
            return [s[:nin] + '->' + s[nin:] for s in sigs]
    return None


def ctype(c):
    t = {'?': 'npy_bool', 'b': 'npy_byte', 'h': 'npy_short', 'i': 'npy_int', 'l': 'npy_long', 'q': 'npy_longlong', 'B': 'npy_ubyte', 'H': 'npy_ushort',
         'I': 'npy_uint', 'L': 'npy_ulong', 'Q': 'npy_ulonglong', 'f': 'npy_float', 'd': 'npy_double', 'g': 'npy_longdouble', 'F': 'npy_cfloat',
         'D': 'npy_cdouble', 'G': 'npy_clongdouble', 'O': 'PyObject *'}
    return t[c]


def rand_gufunc(rng, names, cores):
    u = GU()
    u.name = word(rng, names)
    nin, nout = int(rng.integers(1, 5)), int(rng.integers(1, 3))
    pool = [str(x) for x in rng.permutation(['n', 'm', 'k', 'i', 'j', 'rows', 'dim_1', 'p'])][:int(rng.integers(1, 5))]
    fixed = [int(x) for x in rng.permutation([1, 2, 3, 4])[:2]]
    def dims(src, most):
        k = int(rng.choice([0, 1, 1, 1, 2, 2, 3][:most]))
        return tuple(src[int(rng.integers(0, len(src)))] for _ in range(k))
    u.ic = [dims(pool + fixed, 7) for _ in range(nin)]
    if not any(isinstance(d, str) for c in u.ic for d in c):
        u.ic[0] = (pool[0],)
    have = list(dict.fromkeys(d for c in u.ic for d in c if isinstance(d, str)))
    u.proc = None
    u.new = None
    u.nonzero = None
    osrc = have + fixed
    mode = rng.random()
    if mode < .3:
        u.new = 'newdim'
        u.proc = u.name + '_pcd'
        osrc = osrc + ['newdim', 'newdim']
    elif mode < .65:
        u.nonzero = [str(x) for x in rng.permutation(have)[:int(rng.integers(1, len(have) + 1))]]
    u.oc = [dims(osrc, 7) for _ in range(nout)]
    if u.new and not any('newdim' in c for c in u.oc):
        u.oc[0] = ('newdim',)
    u.order = list(dict.fromkeys(d for c in u.ic + u.oc for d in c))        # all core dimensions, in the order of appearance
    sep = [str(rng.choice([',', ', '])) for _ in range(3)]
    def part(cs):
        return sep[1].join('(' + sep[0].join(map(str, c)) + ')' for c in cs)
    u.sig = part(u.ic) + str(rng.choice(['->', ' -> '])) + part(u.oc)
    vnames = set(u.order) | {'args', 'dimensions', 'steps', 'data'}
    u.args = [word(rng, vnames, pool=['x', 'y', 'z', 'w', 'a', 'b', 'tol', 'x1', 'x2', 'init']) for _ in range(nin)]
    u.doc = docstring(rng, u.name, u.args)
    used = set()
    u.sources = []
    for _ in range(int(rng.integers(1, 4))):
        t = typelists(rng, nin + nout, nin, used, obj=rng.random() < .4)
        if t:
            u.sources.append((word(rng, cores) + '_core', t))
    return u if u.sources else rand_gufunc(rng, names, cores)


def columns(types):
    """(template columns as strings of type codes, for every argument: index of its template or its type)"""
    cols = [''.join(x) for x in zip(*[t.replace('->', '') for t in types])]
    tem = []
    out = []
    for c in cols:
        if len(set(c)) == 1:
            out.append(c[0])
        else:
            if c not in tem:
                tem.append(c)
            out.append(tem.index(c))
    return tem, out


def params(u, types):
    """The parameters of the core function: (declaration, type without the name)"""
    tem, col = columns(types)
    p = [(f'npy_intp {d}', 'npy_intp') for d in u.order if isinstance(d, str)]
    for k, c in enumerate(u.ic + u.oc):
        t = ctype(col[k]) if isinstance(col[k], str) else 'T%d' % col[k]
        p.append((f'{t} *p{k}', t + ' *'))
        if len(c) == 1:
            p.append((f'npy_intp s{k}', 'npy_intp'))
        elif len(c) > 1:
            p.append((f'const npy_intp s{k}[]', 'const npy_intp[]'))
    return tem, col, p


WEIGHTS = [3, 5, 2, 7, 4, 6, 1]


def core_code(u, core, types):
    """One accumulator over all dimensions and inputs; every output element adds its output number and index."""
    tem, col, p = params(u, types)
    L = []
    if tem:
        L.append('template<' + ', '.join(f'typename T{j}' for j in range(len(tem))) + '>')
    L.append(f'static void {core}(' + ', '.join(d for d, _ in p) + ')\n{')
    L.append('    long long acc = 0;\n    failed_ = false;')
    for q, d in enumerate(d for d in u.order if isinstance(d, str)):
        L.append(f'    acc += {WEIGHTS[q % 7] + 10*(q + 1)} * (long long) {d};')
    def loops(k, c, body):
        off = []
        L.append('    { long long lin = 0;')
        for a, d in enumerate(c):
            L.append(f'    for (npy_intp i{a}_ = 0; i{a}_ < {d}; ++i{a}_)')
            off.append(f'i{a}_*' + (f's{k}' if len(c) == 1 else f's{k}[{a}]'))
        t = ctype(col[k]) if isinstance(col[k], str) else 'T%d' % col[k]
        at = f'({t} *) ((char *) p{k}' + ''.join(' + ' + o for o in off) + ')'
        L.append('    { ' + body.replace('AT', at) + ' ++lin; } }')
    for k, c in enumerate(u.ic):
        loops(k, c, f'acc += (1 + (lin*{k + 3}) % 5) * in_(*(AT));')
    L.append('    if (failed_) return;')
    for k, c in enumerate(u.oc):
        loops(len(u.ic) + k, c, f'out_(AT, acc + {k + 1} + 2*lin);')
    L.append('}\n')
    return '\n'.join(L)


def model(u, ins, size):
    acc = 0
    for q, d in enumerate(d for d in u.order if isinstance(d, str)):
        acc += (WEIGHTS[q % 7] + 10 * (q + 1)) * size[d]
    for k, x in enumerate(ins):
        for lin, v in enumerate(np.ravel(x)):
            acc += (1 + (lin * (k + 3)) % 5) * (int(v.real + 2 * v.imag) if isinstance(v, np.complexfloating) else 0 if v is None else int(v))
    res = []
    for k, c in enumerate(u.oc):
        sh = tuple(size[d] if isinstance(d, str) else d for d in c)
        res.append((np.arange(int(np.prod(sh)), dtype=np.int64) * 2 + acc + k + 1).reshape(sh))
    return res


def convert(v, t):
    if t == 'O':
        return v.astype(object)
    if t in 'FDG':
        return (v - 1j * v).astype(t)
    if t == '?':
        return (v % 256).astype(np.uint8) != 0       # npy_bool is an unsigned char
    return v.astype(t)


def norm_type(s):
    return re.sub(r'\s+', '', s)


def prototype(text, core):
    """Parameter types of the prototype of `core` in the comments of the generated file, or None."""
    for c in re.findall(r'/\*(.*?)\*/', text, re.S):
        c = re.sub(r'//[^\n]*', '', c)
        m = re.search(rf'\b{core}\s*\((.*)\)\s*;', c, re.S)
        if m:
            out = []
            for p in m.group(1).split(','):
                p = ' '.join(p.split())
                p = re.sub(r'\[\d+\]', '[]', p)
                m2 = re.fullmatch(r'(.*?)([A-Za-z_]\w*)(\[\])?', p)
                out.append(norm_type(m2.group(1) + (m2.group(3) or '')) if m2 else norm_type(p))
            return out
    return None


def gufunc_module(ctx, case):
    rng = case.rng
    names, cores = set(), set()
    us = [rand_gufunc(rng, names, cores) for _ in range(int(rng.integers(1, 5)))]
    mod = word(rng, names) + '_mod'
    hdrs = {u: ('a_gufunc.h' if rng.random() < .6 else 'b_gufunc.h') for u in us}
    moddoc = docstring(rng, mod, ['x'])
    d = tempfile.mkdtemp(prefix='cxxgen-', dir=os.getcwd())
    try:
        src, dst = os.path.join(d, 'def'), os.path.join(d, 'ufunclab')
        os.makedirs(src), os.makedirs(dst)
        shutil.copytree(os.path.join(build.REPO, 'src', 'util'), os.path.join(d, 'src', 'util'))
        text = {}
        for u in us:
            h = text.setdefault(hdrs[u], [f'#ifndef H_{hdrs[u][0]}\n#define H_{hdrs[u][0]}', COMMON])
            for core, types in u.sources:
                h.append(core_code(u, core, types))
            if u.proc:
                i = u.order.index(u.new)
                others = [q for q, x in enumerate(u.order) if x != u.new and isinstance(x, str)]
                h.append(f'extern "C" int {u.proc}(PyUFuncObject *f, npy_intp *s)\n{{\n    npy_intp w = 1' + ''.join(f' + s[{q}]' for q in others) +
                         f';\n    if (s[{i}] == -1) s[{i}] = w;\n    else if (s[{i}] != w) {{ PyErr_SetString(PyExc_ValueError, "bad"); return -1; }}\n    return 0;\n}}\n')
        extra = rng.random() < .4
        if extra:
            hx = sorted(text)[0]
            text[hx].append('static int add_const(PyObject *m) { return PyModule_AddIntConstant(m, "ANSWER", 42); }')
        for h, t in text.items():
            with open(os.path.join(src, h), 'w') as f:
                f.write('\n'.join(t) + '\n#endif\n')
        if extra:
            us.sort(key=lambda u: hdrs[u] != hx)
        with open(os.path.join(src, 'define_cxx_gufunc_extmod.py'), 'w') as f:
            f.write('from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource\n')
            f.write(f'extmod = UFuncExtMod(module={mod!r}, docstring={moddoc!r}, ufuncs=[\n')
            for u in us:
                s = ', '.join(f'UFuncSource(funcname={c!r}, typesignatures={t!r})' for c, t in u.sources)
                f.write(f'    UFunc(name={u.name!r}, header={hdrs[u]!r}, docstring={u.doc!r}, signature={u.sig!r}, sources=[{s}]'
                        + (f', nonzero_coredims={u.nonzero!r}' if u.nonzero else '') + (f', process_core_dims_func={u.proc!r}' if u.proc else '') + '),\n')
            f.write(']' + (", extra_module_funcs=['add_const']" if extra else '') + ')\n')
        what = open(os.path.join(src, 'define_cxx_gufunc_extmod.py')).read()
        ctx.note(what)
        p = subprocess.run([sys.executable, '-B', os.path.join(TOOLS, 'generate_gufunc.py'), src, dst], capture_output=True, text=True, timeout=100, cwd=d)
        cxx = os.path.join(dst, mod + '.cxx')
        ctx.ev()
        if p.returncode or not os.path.exists(cxx):
            ctx.fail('gufunc:generate', f'generate_gufunc.py ends with status {p.returncode}\n{p.stderr[-900:]}\n{what}')
            return
        gtext = open(cxx).read()
        for u in us:
            for core, types in u.sources:
                got = prototype(gtext, core)
                if got is None:
                    ctx.count('prototype not found')
                    continue
                tem, col, pp = params(u, types)
                want = [norm_type(t) for _, t in pp]
                for q in range(len(tem)):
                    want = [re.sub(rf'\bT{q}\b', '@' + chr(ord('T') + q), w) for w in want]
                want = [w.replace('@', '') for w in want]
                ctx.count('prototypes')
                if got != want:
                    ctx.fail('gufunc:prototype', f'the prototype of {core} in the generated file has the parameters {got}, expected {want}\n'
                             f'{u.sig} {types}')
        so = os.path.join(d, mod + '.so')
        rc, err = compiler([cxx], so, [dst], ctx)
        if rc:
            ctx.fail('gufunc:compile', f'the generated module does not compile\n{err[:1200]}\n{what}')
            return
        try:
            m = load(mod, so)
        except Exception as e:
            ctx.fail('gufunc:import', f'the generated module does not load: {e!r}\n{what}')
            return
        ctx.count('gufunc modules')
        if m.__name__ != mod or (m.__doc__ or '').rstrip('\n') != moddoc.rstrip('\n'):
            ctx.fail('gufunc:moddoc', f'name or docstring of the module: {m.__name__} {m.__doc__!r}, defined: {moddoc!r}')
        if extra and getattr(m, 'ANSWER', None) != 42:
            ctx.fail('gufunc:extra', 'extra_module_funcs was not called')
        for u in us:
            use_gufunc(ctx, case, m, u)
        ctx.sample(what, 2)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def use_gufunc(ctx, case, m, u):
    rng = case.rng
    f = getattr(m, u.name, None)
    ctx.ev()
    if not isinstance(f, np.ufunc):
        ctx.fail('gufunc:missing', f'{u.name} is not defined')
        return
    want = [t for _, ts in u.sources for t in ts]
    if (f.__name__, f.nin, f.nout, f.types) != (u.name, len(u.ic), len(u.oc), want) or \
            norm_type(f.signature) != norm_type(u.sig):
        ctx.fail('gufunc:attributes', f'{f.__name__} {f.nin} {f.nout} {f.types} {f.signature}; defined: {u.name} {want} {u.sig}')
        return
    if f.__doc__.split('\n', 2)[2].rstrip('\n') != u.doc.rstrip('\n'):
        ctx.fail('gufunc:doc', f'docstring {f.__doc__!r}, defined: {u.doc!r}')
    for k in range(3 * len(want) + 6):
        t = want[k % len(want)]
        it, ot = t.split('->')
        size = {x: int(rng.choice([0, 1, 2, 3, 5], p=[.06, .24, .25, .25, .2])) for x in u.order if isinstance(x, str)}
        if u.new:
            size[u.new] = 1 + sum(v for x, v in size.items() if x != u.new)
        L = gen.shape_nd(rng, 2, 4) if rng.random() < .9 else (0,)
        subs = [gen.sub_shape(rng, L) for _ in u.ic]
        subs[int(rng.integers(0, len(subs)))] = L
        L = np.broadcast_shapes(*subs)
        args = []
        for s, c, tc in zip(subs, u.ic, it):
            sh = s + tuple(size[x] if isinstance(x, str) else x for x in c)
            v = rng.integers(0, 2 if tc == '?' else 6, size=sh)
            a = convert(v, tc) if tc != '?' else v.astype(bool)
            args.append(a if tc == 'O' else gen.layout(rng, a))
        bad = u.nonzero and any(size[x] == 0 for x in u.nonzero)
        kw = {'sig': t} if rng.random() < .8 or 'O' in it or f.types.count(t) != 1 else {}
        oshapes = [L + tuple(size[x] if isinstance(x, str) else x for x in c) for c in u.oc]
        outs = None
        if rng.random() < .4:
            outs = tuple(np.zeros(s, dtype=tc) for s, tc in zip(oshapes, ot))
            outs = tuple(o if tc == 'O' else gen.layout(rng, o, str(rng.choice(['F', 'strided', 'neg', 'pad']))) for o, tc in zip(outs, ot))
            kw['out'] = outs
        info = f'{u.name} {u.sig} {t} sizes={size} loop shape={L} shapes={[a.shape for a in args]} out={outs is not None} nonzero={u.nonzero} proc={u.proc}'
        ctx.note(info)
        ctx.ev()
        ctx.distinct(u.name, u.sig, t, tuple(sorted(size.items())), L, k)
        try:
            r = f(*args, **dict(kw, sig=t))
        except ValueError as e:
            if bad:
                ctx.count('zero dimension refused')
                continue
            ctx.fail('gufunc:call', f'{info}\n raises {e!r}')
            continue
        if bad:
            ctx.fail('gufunc:nonzero', f'{info}\n is accepted')
            continue
        ctx.count('calls')
        r = r if isinstance(r, tuple) else (r,)
        for x, o in zip(r, outs or r):
            if x is not o:
                ctx.fail('gufunc:out', f'{info}\n returns another array than out')
        r = [np.asarray(x) if not (tc == 'O' and not isinstance(x, np.ndarray)) else np.array(x, dtype=object) for x, tc in zip(r, ot)]
        for x, sh, tc in zip(r, oshapes, ot):
            if x.shape != sh or x.dtype != np.dtype(tc):
                ctx.fail('gufunc:shape', f'{info}\n returns {x.shape} {x.dtype}, expected {sh} {tc}')
                return
        bins = [np.broadcast_to(a, L + a.shape[a.ndim - len(c):]) for a, c in zip(args, u.ic)]
        idx = list(np.ndindex(*L))
        for ix in idx[:30]:
            exp = model(u, [b[ix] for b in bins], size)
            for x, e, tc in zip(r, exp, ot):
                e = convert(e, tc)
                if not np.array_equal(np.asarray(x[ix]), e):
                    ctx.fail('gufunc:value', f'{info}\n at {ix}: {num.show(x[ix])}, expected {num.show(e)}\n inputs {num.show(*[b[ix] for b in bins])}')
                    return
    for t in want:
        if 'O' in t.split('->')[0]:
            failing(ctx, rng, f, u, t)


class Bad:
    calls = 0

    def __index__(self):
        Bad.calls += 1
        raise ZeroDivisionError('bad')


def failing(ctx, rng, f, u, t):
    """The core function raises an exception: it is passed on and the loop ends."""
    it, ot = t.split('->')
    size = {x: 2 for x in u.order if isinstance(x, str)}
    if u.new:
        size[u.new] = 1 + sum(v for x, v in size.items() if x != u.new)
    n = 5
    args = []
    for c, tc in zip(u.ic, it):
        sh = tuple(size[x] if isinstance(x, str) else x for x in c)
        if tc == 'O':
            a = np.empty((n,) + sh, dtype=object)
            for ix in np.ndindex(*a.shape):
                a[ix] = Bad()
        else:
            a = np.ones((n,) + sh, dtype=tc)
        args.append(a)
    Bad.calls = 0
    info = f'{u.name} {u.sig} {t}, all objects fail'
    ctx.note(info)
    ctx.ev()
    ctx.count('core functions that fail')
    try:
        f(*args, sig=t)
    except ZeroDivisionError:
        if Bad.calls != 1:
            ctx.fail('gufunc:loop after exception', f'{info}: {Bad.calls} objects were asked, the loop should end at the first')
        return
    except Exception as e:
        ctx.fail('gufunc:exception', f'{info}: raises {e!r} instead of the exception of the object')
        return
    ctx.fail('gufunc:exception', f'{info}: no exception')


# ---------------------------------------------------------------------------------------------- plain ufuncs

PT = {'f': 'float', 'd': 'double', 'g': 'long double', 'F': 'std::complex<float>', 'D': 'std::complex<double>', 'G': 'std::complex<long double>'}
PCOMMON = r'''
#ifndef P_COMMON_H
#define P_COMMON_H
#include <complex>
template<typename T> static inline long long pin_(T x) { return (long long) x; }
template<typename T> static inline long long pin_(std::complex<T> x) { return (long long) (x.real() + 2*x.imag()); }
template<typename T> struct pout_ { static T make(long long v) { return (T) v; } };
template<typename T> struct pout_<std::complex<T>> { static std::complex<T> make(long long v) { return std::complex<T>((T) v, (T) -v); } };
static inline void raise_(bool b) { volatile double z = 0, o = 1; volatile double r = b ? o/z : 0; (void) r; }
#endif
'''


def plain_module(ctx, case):
    rng = case.rng
    names, cxx = set(), set()
    d = tempfile.mkdtemp(prefix='cxxgen-', dir=os.getcwd())
    try:
        src, dst = os.path.join(d, 'def'), os.path.join(d, 'ufunclab')
        sub = os.path.join(dst, 'mod.so.p')
        os.makedirs(src), os.makedirs(sub)
        mod = word(rng, names) + '_ext'
        hdrs = {}
        fl = []
        extra = rng.random() < .4
        for h in [word(rng, names) + ext for ext in rng.choice(['.h', '.hh', '.hpp', '.h++'], int(rng.integers(1, 3)))]:
            code = [f'#ifndef G_{h.split(".")[0]}\n#define G_{h.split(".")[0]}', PCOMMON]
            fs = []
            if extra:
                code.append('long long extra_value();')
            for _ in range(int(rng.integers(1, 4))):
                name, cn = word(rng, names), word(rng, cxx) + '_fn'
                nin = int(rng.integers(1, 7))
                types = []
                for _ in range(int(rng.integers(1, 5))):
                    i = ''.join(rng.choice(list('fdgFDG'), nin)) if rng.random() < .4 else str(rng.choice(list('fdgFDG'))) * nin
                    if i not in [t.split('->')[0] for t in types]:
                        o = i[0] if rng.random() < .6 else str(rng.choice(list('fdgFDG')))
                        types.append(i + '->' + o)
                # a class for each result type is not needed: overloads by the argument types
                space = f'NS{len(fs)}' if rng.random() < .5 else ''
                if space:
                    code.append(f'namespace {space} {{')
                fe = rng.random() < .3
                for t in types:
                    i, o = t.split('->')
                    code.append(f'static inline {PT[o]} {cn}(' + ', '.join(f'{PT[c]} a{q}' for q, c in enumerate(i)) + ')\n{\n'
                                + f'    long long acc = {len(i)}{" + extra_value()" if extra else ""};\n' + ''.join(f'    acc += {2*q + 1} * pin_(a{q});\n' for q in range(nin))
                                + f'    raise_({"true" if fe else "false"});\n    return pout_<{PT[o]}>::make(acc);\n}}')
                if space:
                    code.append('}')
                doc = docstring(rng, name, [f'x{q}' for q in range(nin)])
                fs.append((name, (space + '::' if space else '') + cn, types, doc, fe))
            code.append('#endif')
            with open(os.path.join(src, h), 'w') as f:
                f.write('\n'.join(code) + '\n')
            hdrs[h] = fs
            fl += fs
        if extra:
            with open(os.path.join(src, 'more.cxx'), 'w') as f:
                f.write('long long extra_value() { return 17; }\n')
        with open(os.path.join(src, 'define_cxxgen_extmods.py'), 'w') as f:
            f.write('from ufunc_config_types import ExtMod, Func\n')
            f.write(f'extmods = [ExtMod(modulename={mod!r}, funcs={{\n')
            for h, fs in hdrs.items():
                f.write(f'  {h!r}: [' + ',\n    '.join(f'Func(cxxname={c!r}, ufuncname={n!r}, types={t!r}, docstring={doc!r})' for n, c, t, doc, _ in fs) + '],\n')
            f.write('  }' + (", extra_sources=['more.cxx']" if extra else '') + ')]\n')
        what = open(os.path.join(src, 'define_cxxgen_extmods.py')).read()
        ctx.note(what)
        ctx.ev()
        p = subprocess.run([sys.executable, '-B', os.path.join(TOOLS, 'generate_ufuncs.py'), src, dst], capture_output=True, text=True, timeout=100, cwd=d)
        cx = [os.path.join(dst, x) for x in sorted(os.listdir(dst)) if x.endswith('.cxx')]
        if p.returncode or os.path.join(dst, mod + '.cxx') not in cx:
            ctx.fail('ufunc:generate', f'generate_ufuncs.py ends with status {p.returncode}\n{p.stderr[-900:]}\n{what}')
            return
        so = os.path.join(d, mod + '.so')
        rc, err = compiler(cx, so, [dst, sub], ctx)
        if rc:
            ctx.fail('ufunc:compile', f'the generated module does not compile\n{err[:1200]}\n{what}')
            return
        try:
            m = load(mod, so)
        except Exception as e:
            ctx.fail('ufunc:import', f'the generated module does not load: {e!r}\n{what}')
            return
        ctx.count('ufunc modules')
        for x in fl:
            use_plain(ctx, case, m, x, extra)
        ctx.sample(what, 4)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def use_plain(ctx, case, m, fdef, extra):
    rng = case.rng
    name, cxx, types, doc, fe = fdef
    f = getattr(m, name, None)
    ctx.ev()
    if not isinstance(f, np.ufunc):
        ctx.fail('ufunc:missing', f'{name} is not defined')
        return
    nin = len(types[0].split('->')[0])
    if (f.__name__, f.nin, f.nout, f.types, f.signature) != (name, nin, 1, types, None):
        ctx.fail('ufunc:attributes', f'{f.__name__} {f.nin} {f.nout} {f.types} {f.signature}; defined: {name} {nin} {types}')
        return
    if f.__doc__.split('\n', 2)[2].rstrip('\n') != doc.rstrip('\n'):
        ctx.fail('ufunc:doc', f'docstring {f.__doc__!r}, defined: {doc!r}')
    for k in range(3 * len(types) + 4):
        t = types[k % len(types)]
        it, ot = t.split('->')
        L = gen.shape_nd(rng, 3, 5)
        subs = [gen.sub_shape(rng, L) for _ in it]
        subs[int(rng.integers(0, nin))] = L
        L = np.broadcast_shapes(*subs)
        args = [gen.layout(rng, convert(rng.integers(0, 9, size=s), c)) for s, c in zip(subs, it)]
        info = f'{name} {t} shapes={[a.shape for a in args]} strides={[a.strides for a in args]}'
        ctx.note(info)
        ctx.ev()
        ctx.distinct(name, t, L, k)
        rep = []
        with np.errstate(all='call', call=lambda *a: rep.append(a)):
            r = f(*args, sig=t)
        if fe:
            ctx.count('loops that set the floating point status')
        if rep:
            ctx.fail('ufunc:status', f'{info}\n reports {rep}')
        v = nin + 17 * extra + sum((2 * q + 1) * ((a.real + 2 * a.imag) if a.dtype.kind == 'c' else a).astype(np.int64) for q, a in enumerate(args))
        e = convert(np.asarray(v), ot)
        ctx.count('calls')
        if np.shape(r) != L or np.asarray(r).dtype != np.dtype(ot) or not np.array_equal(np.asarray(r), e):
            ctx.fail('ufunc:value', f'{info}\n returns {num.show(r)}, expected {num.show(e)}\n inputs {num.show(*args)}')
            return


def run(ctx):
    ctx.each('gufunc', ctx.n(96, 1200), lambda case: gufunc_module(ctx, case))
    ctx.each('ufunc', ctx.n(48, 600), lambda case: plain_module(ctx, case))
