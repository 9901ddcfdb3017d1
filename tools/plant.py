"""python3 tools/plant.py BUGS.py [id ...] [--jobs N] [--checks-only] [--all-checks]

Confirms planted bugs in scratch copies of /repo (bind-mounted over /repo in a private mount namespace), writes
/verif/seeded/<id>/ for those that build, pass the stable tests and whose demo tells them apart, and runs the check
of their property against them.  BUGS.py defines BUGS: dicts with id, prop, needs, breaks, edits [(file, old, new)], demo.
--checks-only takes the bugs from /verif/seeded instead."""
import argparse
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '86ba7f3'
DEMO = '''#!/bin/bash
export PYTHONPATH=/repo/build/install/site PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if os.path.exists('/opt/vp/BASELINE.json') else set()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def ns(scratch, cmd, **kw):
    pre = f'mount --bind {scratch}/repo /repo && mount --bind {scratch}/vb {V}/.build && mount --bind {scratch}/rep {V}/replays && cd /repo && '
    return sh(['unshare', '-m', 'bash', '-c', pre + cmd], **kw)


def prepare(k):
    d = f'/tmp/plant{os.getpid()}-{k}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f'cp -a /repo {d}/repo && mkdir {d}/vb {d}/rep')
    return d


def original(repo, diff):
    """Every removed line must be one of the base commit, and there must be one."""
    removed = 0
    f = None
    for ln in diff.splitlines():
        if ln.startswith('--- a/'):
            f = ln[6:]
            bl = {}
            for i, x in enumerate(sh(f'git -C {repo} blame -s --abbrev=40 HEAD -- {f}').stdout.splitlines(), 1):
                bl[i] = x.lstrip('^')
        elif ln.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', ln).group(1))
        elif ln.startswith('-') and not ln.startswith('---'):
            if not bl[n].startswith(BASE):
                return f'changes a line of a fix: {f}:{n} {bl[n]}'
            removed += 1
            n += 1
        elif ln.startswith(' '):
            n += 1
    return '' if removed else 'removes no original line'


def stable_fail(out):
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        return ['no result']
    ok = r.get('passed') or []
    return sorted(stable - set(ok))[:5]


def one(args):
    bug, d, opt = args
    repo = d + '/repo'
    res = dict(id=bug['id'], prop=bug['prop'])
    sh(f'git -C {repo} checkout -q -- . && git -C {repo} clean -fdq')
    sd = f'{V}/seeded/{bug["id"]}'
    if opt.checks_only:
        r = sh(f'git -C {repo} apply {sd}/patch.diff')
        if r.returncode:
            res['error'] = 'patch: ' + r.stdout
            return res
    else:
        for f, old, new in bug['edits']:
            p = f'{repo}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                res['error'] = f'{f}: text found {s.count(old)} times: {old!r}'
                return res
            open(p, 'w').write(s.replace(old, new))
        diff = sh(f'git -C {repo} diff').stdout
        err = original(repo, diff)
        if err:
            res['error'] = err
            return res
        t = tempfile.mkdtemp(dir=d)
        open(t + '/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        open(t + '/demo.sh', 'w').write(DEMO)
        open(t + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=bug['prop'], needs=bug['needs'], what_it_breaks=bug['breaks']), open(t + '/meta.json', 'w'), indent=1)
        r = ns(d, f'rm -f build/ufunclab/*.cxx; bash /opt/vp/test.sh {t}/out.json')
        miss = stable_fail(t + '/out.json')
        if miss:
            res['error'] = f'tests: {miss} {r.stdout[-600:]}'
            return res
        r = ns(d, f'bash {t}/demo.sh', timeout=290)
        if r.returncode == 0:
            res['error'] = 'demo passes with the bug: ' + r.stdout[-300:]
            return res
        res['demo'] = r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else f'exit {r.returncode}'
        r = sh(['unshare', '-m', 'bash', '-c', f'mount --bind /tmp/plant{os.getpid()}-clean/repo /repo && cd /repo && bash {t}/demo.sh'])
        if r.returncode:
            res['error'] = 'demo fails on the clean tree: ' + r.stdout[-600:]
            return res
        os.remove(t + '/out.json') if os.path.exists(t + '/out.json') else None
        if re.search(r'^\+\+\+ .*\.src$', diff, re.M):        # not a file that vcheck counts
            sd = sd.replace('/seeded/', '/bugs_uncounted/')
        shutil.rmtree(sd, ignore_errors=True)
        shutil.copytree(t, sd)
        shutil.rmtree(t)
    cids = [bug['prop']]
    if opt.all_checks:
        cids += [f'C{i:02d}' for i in range(1, 29) if f'C{i:02d}' != bug['prop']]
    res['caught'] = []
    for c in cids:
        r = ns(d, f'VERIF_SEED={opt.seed} VERIF_TIER=quick python3 {V}/vlib/driver.py {c} --no-evidence')
        if r.returncode == 1 and f'VIOLATION property={c}' in r.stdout:
            res['caught'].append(c)
            if c == bug['prop']:
                ks = re.findall(r'^--- (\S+)', r.stdout, re.M)
                res['keys'] = ks[:4]
        elif r.returncode:
            res[c] = f'exit {r.returncode}: {r.stdout[-400:]}'
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('bugs')
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--checks-only', action='store_true')
    ap.add_argument('--all-checks', action='store_true')
    opt = ap.parse_args()
    if opt.checks_only:
        bugs = [dict(id=x, prop=json.load(open(f'{V}/seeded/{x}/meta.json'))['property']) for x in sorted(os.listdir(V + '/seeded'))]
    else:
        g = {}
        exec(open(opt.bugs).read(), g)
        bugs = g['BUGS']
    bugs = [b for b in bugs if not opt.ids or b['id'] in opt.ids or b['prop'] in opt.ids]
    c = prepare('clean')
    r = ns(c, 'bash /opt/vp/build.sh')
    if 'build ok' not in r.stdout:
        sys.exit('clean build failed\n' + r.stdout[-2000:])
    import queue
    q = queue.Queue()
    for k in range(opt.jobs):
        q.put(prepare(k))

    def job(b):
        d = q.get()
        try:
            return one((b, d, opt))
        except Exception as e:
            return dict(id=b['id'], prop=b['prop'], error=repr(e))
        finally:
            q.put(d)
    with concurrent.futures.ThreadPoolExecutor(opt.jobs) as ex:
        for r in ex.map(job, bugs):
            st = 'ERROR ' + r['error'] if 'error' in r else ('caught ' if r['prop'] in r['caught'] else 'MISSED ') + ' '.join(r['caught'])
            print(f"{r['id']:28s} {r['prop']} {st} | {r.get('demo', '')} | {r.get('keys', '')} {r.get(r['prop'], '')}", flush=True)
    for k in list(range(opt.jobs)) + ['clean']:
        shutil.rmtree(f'/tmp/plant{os.getpid()}-{k}', ignore_errors=True)


main()
