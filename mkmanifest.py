#!/opt/venv/bin/python
"""writes MANIFEST.json from properties.jsonl and checks/*.py"""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from pyvc import unit as U
U.setup_path()
NA = {}
if os.path.exists(os.path.join(HERE, 'not_applicable.json')): NA = json.load(open(os.path.join(HERE, 'not_applicable.json')))
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA:
        na.append(dict(property=p, reason=NA[p])); continue
    if not os.path.exists(os.path.join(HERE, 'checks', p + '.py')):
        na.append(dict(property=p, reason='no check has been built yet')); continue
    m = importlib.import_module('checks.' + p)
    cmd = '/opt/venv/bin/python run.py %s --tier %s'
    checks.append(dict(property=p, quick_cmd=cmd % (p, 'quick'), thorough_cmd=cmd % (p, 'thorough'), evidence_file='evidence/%s.json' % p,
                       technique=getattr(m, 'TECHNIQUE', 'contracts on the real functions; verification conditions by path-complete symbolic execution of the real code, discharged by z3, cvc5 and a ring normaliser'),
                       level=m.LEVEL, level_note=m.NOTE))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, bgem" && cvc5 --version >/dev/null', checks=checks, not_applicable=na,
               notes='pyvc/ is the verification-condition generator, checks/<id>.py the contracts of one property, run.py the driver; see DESIGN.md'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
