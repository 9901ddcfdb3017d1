"""Writes ../MANIFEST.json from vlib/meta.py and properties.jsonl."""
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vlib.meta import META  # noqa: E402
props = [json.loads(x) for x in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in META and os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')):
        q = META[i]
        checks.append(dict(property=i, quick_cmd=f'python3 vlib/driver.py {i}', thorough_cmd=f'python3 vlib/driver.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=q['technique'], level='exploration', level_note=q['note']))
    else:
        na.append(dict(property=i, reason='the check is not built yet'))
var = sorted({v for q in META.values() for v in q.get('variants', ['plain'])})
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='python3 -m vlib.build ' + ' '.join(var), checks=checks, not_applicable=na,
                   notes='No hooks in /repo: all instrumentation is in the build flags (sanitizers) and in the harness.'), f, indent=1)
    f.write('\n')
