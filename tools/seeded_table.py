"""python3 tools/seeded_table.py: the planted bugs of /verif/seeded by property, for DESIGN.md"""
import collections
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = collections.defaultdict(list)
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    t[d['property']].append(i.split('-', 1)[1])
for p in sorted(t):
    print(f'| {p} | {len(t[p])} | {", ".join(t[p])} |')
