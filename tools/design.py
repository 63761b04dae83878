"""Writes DESIGN.md from tools/design/*, properties.jsonl, the evidence of the last quick runs and seeded/*.
Run: python3 tools/design.py [EVIDENCE_DIR]"""
import json, os, sys, glob
T = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(T)
sys.path.insert(0, os.path.join(T, 'design'))
from oracle import ORACLE
ev = sys.argv[1] if len(sys.argv) > 1 else os.path.join(R, 'evidence')
out = [open(os.path.join(T, 'design/head.md')).read().rstrip(), '']
for line in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(line); i = p['id']
    if i not in ORACLE: continue
    out += ['### %s - %s' % (i, p['title']), '', '*Oracle.* ' + ORACLE[i], '']
    f = os.path.join(ev, i + '.json')
    if os.path.exists(f):
        e = json.load(open(f)); c = e['coverage']
        for s in c['scenarios']:
            out.append('* `%s`: %s' % (s['name'], s['bounds']))
        n = sum(s['executions'] for s in c['scenarios'])
        k = float('%.2g' % max(n, 1)); m = float('%.2g' % max(c['oracle_comparisons'], 1))
        out += ['', '*Size (quick).* about %d executions, %d comparisons, %d s.' % (k, m, max(1, round(e['wall_s']))), '']
        out += ['*Assumptions.* ' + ' '.join(e['assumptions']), '']
    else: print('no evidence for', i)
tail = open(os.path.join(T, 'design/tail.md')).read()
rows = ['| planted bug | property | what it breaks | caught |', '|---|---|---|---|']
res = {}
rf = os.path.join(T, 'design/caught.txt')
if os.path.exists(rf):
    for l in open(rf):
        a = l.split(None, 1)
        if a: res[a[0]] = a[1].strip() if len(a) > 1 else ''
for m in sorted(glob.glob(os.path.join(R, 'seeded/*/meta.json'))):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s | %s |' % (n, d['property'], d['what_it_breaks'].replace('|', '/').replace('\n', ' '), res.get(n, d['property'])))
out.append(tail.replace('@SEEDS@', '\n'.join(rows)))
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')
