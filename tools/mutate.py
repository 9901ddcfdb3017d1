"""python3 tools/mutate.py --n N [--seed S] [--jobs J] [--files GLOB] [--log FILE]

Random small mutations of the sources, in scratch copies of /repo (as plant.py does): those that the stable tests do not
notice are run against the check of the property that the file belongs to.  Prints killed-by-tests / caught / SURVIVED with
the diff, to be looked at: equivalent, or a gap."""
import argparse
import concurrent.futures
import fnmatch
import glob
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv, argv = [sys.argv[0]], sys.argv[1:]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SKIP = 'check_'
PROP = {'C07': 'first ordered all_same', 'C08': 'minmax peaktopeak', 'C09': 'searchsorted', 'C10': 'percentileofscore', 'C11': 'bincount',
        'C12': 'convert_to_base one_hot', 'C13': 'next nextn issnan nan_to_num', 'C14': 'means',
        'C15': 'meanvar mad vnorm corr wjaccard', 'C16': 'kbnsum', 'C17': 'logfactorial loggamma1p debye1 expint1 multivariate_logbeta',
        'C18': 'normal', 'C19': 'log1p pow1pm1', 'C20': 'logistic ramp yeo_johnson',
        'C21': 'deadzone step trapezoid_pulse semivar hypot3 abs_squared abssq', 'C22': 'backlash hysteresis_relay unwrap sosfilter',
        'C23': 'fillnan1d linear_interp1d softmax', 'C24': 'cross tri_area', 'C25': 'gendot', 'C28': 'ufunc-inspector', 'C14 C15 C22': 'util'}
D = {d: k.split() for k, v in PROP.items() for d in v.split()}


def props(f):
    if f.startswith('src/'):
        return D[f.split('/')[1]]
    return {'ufunclab/_wrapped.py': ['C26', 'C12', 'C11'], 'ufunclab/_gendot_wrap.py': ['C25'], 'ufunclab/__init__.py': ['C28']}.get(f, ['C26'])


OPS = [(r'(?<![<>=\-+])<(?![<=])(?=\s)', ['<=']), (r'<=', ['<']), (r'(?<![<>=\-])>(?![>=])(?=\s)', ['>=']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
       (r'(?<=\s)\+(?=\s)', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'(?<=\s)\*(?=\s)', ['/', '+']), (r'(?<=\s)/(?=\s)', ['*']),
       (r'&&', ['||']), (r'\|\|', ['&&']), (r'\+=', ['-=', '=']), (r'-=', ['+=']),
       (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['1', '3']),
       (r'(?<![\w.])(\d+\.\d+)', ['0.0', '1.0', '\\1 * 1.0001']),
       (r'\b(\w+)_stride\b', ['SWAP']), (r'\bsteps\[(\d+)\]', ['STEP']), (r'\bstrides\[0\]', ['strides[1]']), (r'\bstrides\[1\]', ['strides[0]']),
       (r'!(?=\w|\()', ['']), (r'\bfabs\(', ['(']), (r'\bbreak;', [';']), (r'\breturn;', [';']), (r'\bcontinue;', [';']), (r'\bn\b', ['(n - 1)']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']),
       (r'\bT x', ['float x']), (r'\blong double\b', ['double']), (r'^(\s+)(\w[^;{}]*=[^;=]*;)$', ['\\1;'])]


def candidates(root, pat):
    out = []
    fs = sorted(glob.glob(root + '/src/*/*.h') + glob.glob(root + '/src/*/*.hpp') + glob.glob(root + '/src/*/*.src') + glob.glob(root + '/src/*/*.c')
                + [root + '/ufunclab/_wrapped.py', root + '/ufunclab/_gendot_wrap.py'])
    for f in fs:
        rel = f[len(root) + 1:]
        if SKIP in rel:
            continue
        if pat and not any(fnmatch.fnmatch(rel, p) for p in pat.split(',')):
            continue
        com = doc = False
        lines = open(f).read().split('\n')
        c = []
        for i, ln in enumerate(lines):
            s = ln.strip()
            if f.endswith('.py'):
                if s.count('"""') == 1:
                    doc = not doc
                    continue
                if doc or s.startswith('#') or 'import' in s or s.startswith('>>>'):
                    continue
            else:
                if s.startswith('/*'):
                    com = True
                if com:
                    if '*/' in s:
                        com = False
                    continue
                if s.startswith(('//', '#', '"', '*')) or 'DOCSTRING' in s or 'template' in s or 'assert' in s:
                    continue
            code = ln.split('//')[0] if not f.endswith('.py') else ln.split('#')[0]
            for r, reps in OPS:
                for m in re.finditer(r, code):
                    if code[:m.start()].count('"') % 2:
                        continue
                    for rep in reps:
                        if rep == 'SWAP':
                            others = sorted(set(re.findall(r'\b\w+_stride\b', '\n'.join(lines[max(0, i - 40):i + 1]))) - {m.group(0)})
                            if not others:
                                continue
                            new = random.choice(others)
                        elif rep == 'STEP':
                            new = f'steps[{max(0, int(m.group(1)) + random.choice([-1, 1]))}]'
                        else:
                            new = m.expand(rep) if '\\' in rep else rep
                        t = ln[:m.start()] + new + ln[m.end():]
                        if t != ln:
                            c.append((rel, i, ln, t))
        out.append(c)
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def ns(d, cmd, **kw):
    pre = f'mount --bind {d}/repo /repo && mount --bind {d}/vb {V}/.build && mount --bind {d}/rep {V}/replays && cd /repo && '
    return sh(['unshare', '-m', 'bash', '-c', pre + cmd], **kw)


def one(m, d, shards):
    f, i, old, new = m
    repo = d + '/repo'
    sh(f'git -C {repo} checkout -q -- .')
    p = f'{repo}/{f}'
    ls = open(p).read().split('\n')
    assert ls[i] == old
    ls[i] = new
    open(p, 'w').write('\n'.join(ls))
    sh(f'rm -f {repo}/build/ufunclab/*.cxx {d}/out.json')
    try:
        r = ns(d, f'ulimit -v 20000000; timeout 200 bash /opt/vp/test.sh {d}/out.json', timeout=260)
    except subprocess.TimeoutExpired:
        return 'tests', ''
    try:
        ok = set(json.load(open(d + '/out.json')).get('passed') or [])
    except (OSError, ValueError):
        ok = set()
    if not stable <= ok:
        return ('build' if 'not built' in r.stdout or 'FAILED' in r.stdout and len(ok) == 0 else 'tests'), ''
    for c in props(f) + (['C04', 'C03'] if f.startswith('src') else []):
        r = ns(d, f'VERIF_SEED=1 VERIF_TIER=quick timeout 800 python3 {V}/vlib/driver.py {c} --no-evidence --shards {shards}')
        sh(f'rm -rf {d}/vb/*')
        if r.returncode == 1:
            return 'caught', ' '.join(re.findall(r'^--- (\S+)', r.stdout, re.M)[:2])
        if r.returncode:
            return 'NOANSWER', c + r.stdout[-200:]
    return 'SURVIVED', ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--n', type=int, default=100)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--files', default='')
    ap.add_argument('--log', default='/tmp/mutate.log')
    o = ap.parse_args(argv)
    random.seed(o.seed)
    cs = [c for c in candidates('/repo', o.files) if c]
    pick = []
    # half of them uniform over the files, half over the lines
    for k in range(o.n):
        pick.append(random.choice(random.choice(cs)) if k % 2 else random.choice(random.choice(cs[:])) if len(cs) > 1 and k % 4 == 0
                    else random.choice([x for c in cs for x in c]))
    pick = list(dict.fromkeys(pick))
    q = queue.Queue()
    for k in range(o.jobs):
        d = f'/tmp/mut{o.seed}_{k}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh(f'cp -a /repo {d}/repo && mkdir {d}/vb {d}/rep')
        q.put(d)
    log = open(o.log, 'a')

    def job(m):
        d = q.get()
        try:
            r = one(m, d, max(1, 8 // o.jobs))
        except Exception as e:
            r = ('ERROR', repr(e))
        finally:
            q.put(d)
        log.write(f'{r[0]} {m[0]}:{m[1] + 1} {r[1]}\n   - {m[2].strip()}\n   + {m[3].strip()}\n')
        log.flush()
        return r[0]
    with concurrent.futures.ThreadPoolExecutor(o.jobs) as ex:
        res = list(ex.map(job, pick))
    log.write(f'TOTAL {({x: res.count(x) for x in set(res)})}\n')
    for k in range(o.jobs):
        shutil.rmtree(f'/tmp/mut{o.seed}_{k}', ignore_errors=True)


main()
