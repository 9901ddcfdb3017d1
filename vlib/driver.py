"""python3 /verif/vlib/driver.py <ID> [--replay FILE] [--tier T] [--seed N] [--shards K]

Builds what the check needs from /repo's current tree, runs its workers, decides, writes
evidence/<ID>.json, prints VIOLATION / KNOWN-FINDING lines.  Exit 0 held, 1 violated,
2 inconclusive (build failed, monitor never reached, worker error).
"""
import argparse
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import shutil
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import build                                                      # noqa: E402

VTSITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
HANG_S = 150.0          # one journalled step of any check takes well under a second
TOTAL_S = {'quick': 780.0, 'thorough': 3000.0}


def read_journal(path):
    try:
        with open(path, 'rb') as f:
            b = f.read()
        n = int.from_bytes(b[:4], 'little')
        if n == 0:
            return None, b[-8:]
        return json.loads(b[4:4 + n]), b[-8:]
    except (OSError, ValueError):
        return None, b''


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                out.append(json.loads(line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cid')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--shards', type=int, default=0)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    cid = a.cid.upper()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    meta = importlib.import_module('vlib.meta').META[cid]
    only = None
    seed = a.seed
    if a.replay:
        rp = json.load(open(a.replay))
        only, seed, tier = (rp['section'], rp['index']), rp['seed'], rp['tier']
    variants = meta.get('variants', ['plain'])
    if a.replay and rp.get('variant'):
        variants = [rp['variant']]
        if rp['section'] == 'tsan':
            only = None                 # a race: run the whole workload again
    tmp = tempfile.mkdtemp(prefix=f'verif-{cid}-')
    try:
        return run(a, cid, tier, seed, only, meta, variants, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, cid, tier, seed, only, meta, variants, tmp, t0):
    sites = {}
    try:
        for v in variants:
            sites[v] = build.ensure(v)
    except build.BuildError as e:
        print(f'INCONCLUSIVE property={cid}: the tree does not build\n{e}')
        return 2
    shards = 1 if only else (a.shards or meta.get('shards', 6))
    if a.replay and only:
        shards = 1
    budget = meta.get('budget', {}).get(tier, 240.0 if tier == 'quick' else 1500.0)
    jobs = []
    for v in variants:
        for k in range(shards):
            base = os.path.join(tmp, f'{v}-{k}')
            cfg = dict(cid=cid, tier=tier, seed=seed, shard=k, nshards=shards, journal=base + '.j',
                       variant=v, only=only, out=base + '.out', site=sites[v], verif=HERE,
                       vtsite=VTSITE, budget=budget)
            jobs.append((v, k, base, cfg))
    viol, errors, results = [], [], []
    pend = list(jobs)
    running = []
    maxpar = 8
    end = t0 + TOTAL_S[tier]
    while pend or running:
        while pend and len(running) < maxpar:
            v, k, base, cfg = pend.pop(0)
            env = {x: y for x, y in os.environ.items()
                   if x not in ('PYTHONPATH', 'LD_PRELOAD', 'PYTHONSTARTUP')}
            env.update(build.runtime_env(v))
            env.update(PYTHONPATH=sites[v], PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                       PYTHONFAULTHANDLER='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
                       ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=99:'
                                    'allocator_may_return_null=1:detect_stack_use_after_return=0:'
                                    'handle_segv=1:max_allocation_size_mb=4096',
                       UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99',
                       TSAN_OPTIONS='halt_on_error=0:exitcode=0:report_signal_unsafe=0:'
                                    f'log_path={base}.tsan:suppressions={HERE}/vlib/tsan.supp')
            env.update(meta.get('env', {}))
            log = open(base + '.log', 'wb')
            p = subprocess.Popen([build.PYTHON, os.path.join(HERE, 'vlib', 'worker.py'),
                                  json.dumps(cfg)], env=env, stdout=log, stderr=log,
                                 start_new_session=True, cwd=tmp)
            running.append([v, k, base, p, time.time(), None])
        time.sleep(0.05)
        for rec in list(running):
            v, k, base, p, last, seen = rec
            rc = p.poll()
            if rc is None:
                j = read_journal(base + '.j')
                if j != seen:
                    rec[4], rec[5] = time.time(), j
                elif time.time() - last > meta.get('hang', HANG_S) and j[0]:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    running.remove(rec)
                    viol.append(dict(key='hang', variant=v, section=j[0][1], index=j[0][2],
                                     msg=f'call did not return within {time.time() - last:.0f} s: {j[0][3]}'))
                elif time.time() > end:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    running.remove(rec)
                    errors.append(f'{v}/{k}: watchdog (total time)')
                continue
            running.remove(rec)
            log = open(base + '.log', 'rb').read().decode('utf-8', 'replace')
            if os.environ.get('VERIF_TRACK'):
                print(*[ln for ln in log.splitlines() if ln.startswith('TRACK')], sep='\n')
            if os.path.exists(base + '.out'):
                with open(base + '.out', 'rb') as f:
                    r = pickle.load(f)
                results.append(r)
                for x in r['violations']:
                    x['variant'] = v
                    viol.append(x)
                if r['error']:
                    errors.append(f'{v}/{k}: {r["error"]}')
                if v == 'tsan':
                    viol.extend(importlib.import_module('vlib.tsan').reports(base + '.tsan', v))
            else:
                j = read_journal(base + '.j')[0]
                dead = (rc < 0 or rc == 99 or rc >= 128 or 'ERROR: AddressSanitizer' in log
                        or 'runtime error: ' in log)
                if dead and j:
                    what = f'signal {-rc}' if rc < 0 else f'exit {rc}'
                    san = [ln for ln in log.splitlines()
                           if 'runtime error' in ln or 'ERROR: AddressSanitizer' in ln]
                    viol.append(dict(key='crash', variant=v, section=j[1], index=j[2],
                                     msg=f'process died ({what}) during: {j[3]}\n'
                                         f'{san[0] if san else ""}\n{log[-2500:]}'))
                else:
                    errors.append(f'{v}/{k}: worker exit {rc}\n{log[-3000:]}')
    # ------------------------------------------------------------- aggregate
    evals = sum(r['evals'] for r in results)
    distinct = set()
    counters, sections, samples, cut = {}, {}, [], []
    for r in results:
        distinct.update(r['distinct'])
        for x, y in r['counters'].items():
            counters[x] = counters.get(x, 0) + y
        for x, y in r['sections'].items():
            sections[x] = sections.get(x, 0) + y
        samples += r['samples']
        cut += r['cut']
    known = [x for x in load_known() if x.get('property') == cid and x.get('status') == 'known']
    new, hits = [], {}
    for x in viol:
        m = [q for q in known if x['key'] == q['key']]
        if m:
            hits.setdefault(m[0]['key'], []).append(x)
        else:
            new.append(x)
    if only is None:
        for q in known:
            print(f"KNOWN-FINDING: property={cid} {q['what']}"
                  f" [{len(hits.get(q['key'], []))} observation(s) this run]")
    rc = 0
    if new:
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        shown = {}
        for x in new:
            shown.setdefault(x['key'], x)
        first = None
        for i, (key, x) in enumerate(sorted(shown.items())):
            path = os.path.join(rdir, f'{cid}-{i}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=cid, tier=tier, seed=seed, **x,
                               how=f'python3 {HERE}/vlib/driver.py {cid} --replay {path}'), f, indent=1)
            first = first or path
            if i < 12:
                print(f'--- {key} ({sum(1 for y in new if y["key"] == key)} cases) '
                      f'[{x["variant"]}] {x["section"]}#{x["index"]}\n{x["msg"][:1500]}')
        print(f'VIOLATION property={cid} replay={first}')
        rc = 1
    elif errors:
        print(f'INCONCLUSIVE property={cid}')
        for e in errors[:4]:
            print(e)
        rc = 2
    elif only is None and (evals == 0 or not distinct):
        print(f'INCONCLUSIVE property={cid}: no events observed')
        rc = 2
    else:
        req = [] if only else sorted(set(meta.get('require', [])).union(*[r['required'] for r in results]))
        miss = [c for c in req if not counters.get(c)]
        if miss:
            print(f'INCONCLUSIVE property={cid}: monitors never reached: {miss}')
            rc = 2
    wall = time.time() - t0
    if not a.no_evidence and not a.replay:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        ev = dict(property=cid, tier=tier, seed=seed, level='exploration',
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct),
                                rule=meta['rule'], samples=samples[:6] or ['(none)'],
                                observed=dict(sorted(counters.items())),
                                cases_per_section=dict(sorted(sections.items())),
                                builds=variants, cut_by_time=cut,
                                known_finding_observations={x: len(y) for x, y in hits.items()}),
                  assumptions=meta.get('assumptions', []), wall_s=round(wall, 2),
                  violations=len(new))
        with open(os.path.join(HERE, 'evidence', f'{cid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if rc == 0:
        print(f'HELD property={cid} tier={tier} seed={seed} evaluations={evals} '
              f'distinct={len(distinct)} wall={wall:.1f}s' + (f' cut={cut}' if cut else ''))
    return rc


if __name__ == '__main__':
    sys.exit(main())
