"""python3 tools/quiet.py [id ...] [--jobs N]

Edits that keep the behaviour (tools/refactorings/edits.py), each applied in a scratch copy of /repo: the stable tests must pass and the
checks that look at the edited file must stay quiet."""
import argparse
import concurrent.futures
import os
import queue
import shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + '/tools/plant.py').read().replace('\nmain()\n', '\n')
plant = {'__name__': 'plant', '__file__': V + '/tools/plant.py'}
exec(compile(src, 'plant.py', 'exec'), plant)
sh, ns, prepare, stable_fail = (plant[k] for k in ('sh', 'ns', 'prepare', 'stable_fail'))


def one(e, d):
    repo = d + '/repo'
    sh(f'git -C {repo} checkout -q -- . && git -C {repo} clean -fdq')
    for f, old, new in e['edits']:
        p = f'{repo}/{f}'
        s = open(p).read()
        if s.count(old) != 1:
            return f'{f}: text found {s.count(old)} times: {old!r}'
        open(p, 'w').write(s.replace(old, new))
    out = f'{d}/out.json'
    r = ns(d, f'rm -f build/ufunclab/*.cxx; bash /opt/vp/test.sh {out}')
    miss = stable_fail(out)
    if miss:
        return f'tests: {miss} {r.stdout[-500:]}'
    res = []
    for c in e['checks'].split():
        r = ns(d, f'VERIF_SEED=1 VERIF_TIER=quick python3 {V}/vlib/driver.py {c} --no-evidence')
        res.append(c + (' quiet' if r.returncode == 0 else f' ALARM {r.returncode} {r.stdout[-700:]}'))
    return ', '.join(res)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--jobs', type=int, default=2)
    opt = ap.parse_args()
    g = {}
    exec(open(V + '/tools/refactorings/edits.py').read(), g)
    es = [e for e in g['EDITS'] if not opt.ids or e['id'] in opt.ids]
    q = queue.Queue()
    for k in range(opt.jobs):
        q.put(prepare(k))

    def job(e):
        d = q.get()
        try:
            return e['id'], one(e, d)
        except Exception as x:
            return e['id'], repr(x)
        finally:
            q.put(d)
    with concurrent.futures.ThreadPoolExecutor(opt.jobs) as ex:
        for i, r in ex.map(job, es):
            print(f'{i:24s} {r}', flush=True)
    for k in range(opt.jobs):
        shutil.rmtree(f'/tmp/plant{os.getpid()}-{k}', ignore_errors=True)


main()
