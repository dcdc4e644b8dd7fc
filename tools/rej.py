#!/usr/bin/env python3
"""debug aid: list rejected events of the kept scratch dir of a property, summarised by op"""
import sys, os, re, glob, subprocess, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
pid = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
d = sorted(glob.glob(check.OUT + '/' + pid + '.*'), key=os.path.getmtime)[-1]
conf = check.CHECKS[pid]
seen = {}
for dr in conf['drivers']:
    for f in sorted(glob.glob(d + '/%s.*.ndjson' % dr['name'])):
        if '.re' in f: continue
        try: rej, st, nl = check.validate(conf, dr, f, d, 'rej')
        except check.CheckError as e: print(e); continue
        L = open(f).read().splitlines()
        for i in rej:
            e = json.loads(L[i-1]); k = e.get('op') + '/' + str(e.get('f', e.get('kind',''))) if not isinstance(e.get('f'), list) else e.get('op')
            seen.setdefault(k, [0])
            seen[k][0] += 1
            if seen[k][0] <= n: seen[k].append(L[i-1])
for k, v in seen.items():
    print('==', k, v[0])
    for l in v[1:]: print('   ', l[:700])
