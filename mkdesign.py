#!/opt/venv/bin/python
"""DESIGN.md from doc/design.tmpl.md, the checks and doc/seeds.json (results of the quick checks on the seeded changes)."""
import os, sys, json, importlib, collections
HERE = os.path.dirname(os.path.abspath(__file__)); os.chdir(HERE)
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from pyvc import unit as U
U.setup_path(); sys.path.insert(1, HERE)
out = []
for l in open('properties.jsonl'):
    p = json.loads(l)
    m = importlib.import_module('checks.' + p['id'])
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('Level: %s. %s' % (m.LEVEL, m.NOTE))
    out.append('\nBounded part: %s.' % m.BOUND)
    if getattr(m, 'DESIGN', ''): out.append('\n' + m.DESIGN.strip())
    fns = collections.OrderedDict()
    for u in m.UNITS:
        for t in u.target:
            fns.setdefault(t.split('/')[-1], []).append(u)
    if m.UNITS:
        al = [u.name for u in m.UNITS if u.allshape]; fx = [u.name for u in m.UNITS if not u.allshape]
        out.append('\nFunctions under contract: %s.' % ', '.join('`%s`' % f.split(':')[-1] for f in fns))
        if al: out.append('\nUnits for any size: %s.' % '; '.join(al))
        if fx: out.append('\nUnits at fixed shapes (all values): %s.' % '; '.join(fx))
        ass = sorted({x for u in m.UNITS for x in u.assumes})
        if ass: out.append('\nAssumed: %s.' % '; '.join(ass))
    out.append('')
seeds = json.load(open('doc/seeds.json')) if os.path.exists('doc/seeds.json') else {}
rows = ['| change | property | needs | caught |', '|---|---|---|---|']
for n in sorted(seeds): rows.append('| %s | %s | %s | %s |' % (n, seeds[n]['property'], seeds[n]['needs'].replace('|', '/').replace('\n', ' '), seeds[n]['caught']))
kf = json.load(open('known_findings.json'))['findings']
t = open('doc/design.tmpl.md').read()
t = t.replace('@@UNITS@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(rows)).replace('@@NFIX@@', str(sum(f['status'] == 'fixed' for f in kf)))
open('DESIGN.md', 'w').write(t)
