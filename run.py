#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough]: decide one property on /repo's current tree."""
import os, sys, time, json, importlib, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import unit as U
U.setup_path()
sys.path.insert(1, HERE)

def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == prop]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None); ap.add_argument('-v', action='store_true')
    ap.add_argument('--noconc', action='store_true'); ap.add_argument('--nobounded', action='store_true')
    ap.add_argument('--secs', type=float, default=None)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    thorough = a.tier == 'thorough'
    t0 = time.time()
    mod = importlib.import_module('checks.' + a.prop)
    units = [u for u in getattr(mod, 'UNITS', []) if thorough or u.tier == 'quick']
    if a.only: units = [u for u in units if a.only in u.name]
    for m in getattr(mod, 'PRELOAD', []):
        importlib.import_module(m)
    jobs, meta = [], []
    for u in units:
        dl = u.deadline * (6 if thorough else 1)
        jobs.append((lambda u=u, dl=dl: U.prove_unit(u, dl), dl + 60, None)); meta.append(('prove', u))
    for u in units:
        if not u.conc or a.noconc: continue
        n = u.samples * (20 if thorough else 1)
        jobs.append((lambda u=u, n=n: U.conc_unit(u, seed, n, 60 if thorough else 6), 200, None)); meta.append(('conc', u))
    nsh = 0
    if hasattr(mod, 'bounded') and not a.nobounded:
        nsh = getattr(mod, 'SHARDS', 6)
        secs = a.secs or getattr(mod, 'BSECS', 8) * (15 if thorough else 1)
        for s in range(nsh):
            jobs.append((lambda s=s: U.harness_run(mod.bounded, seed, s, nsh, secs, a.tier), secs * 4 + 120, None)); meta.append(('bounded', s))
    res = U.run_jobs(jobs, nproc=int(os.environ.get('VERIF_NPROC', '8')))

    violations = []      # (confirmed, what, detail)
    undecided = []
    obl = {}; nob = ndis = 0; solver = 0.0; paths = 0
    ustat = {}
    replay_jobs = []
    for (kind, u), r in zip(meta, res):
        if r.get('kind') == 'crash':
            undecided.append('%s %s: %s' % (kind, getattr(u, 'name', u), r['error'][-300:]))
            if kind == 'prove': ustat[u.name] = 'undecided (%s)' % r['error'][-80:]
            continue
        if kind == 'prove':
            solver += r['solver_secs']; paths += r['paths']
            bad = [o for o in r['obligs'] if o['status'] != 'discharged']
            nob += len(r['obligs']); ndis += len(r['obligs']) - len(bad)
            for o in r['obligs']:
                if o['status'] == 'discharged': obl[o['backend']] = obl.get(o['backend'], 0) + 1
            if a.v:
                print('%-60s %s paths=%d obl=%d bad=%d %.1fs (solver %.1f) %s' % (u.name, r['status'], r['paths'], len(r['obligs']), len(bad), r['secs'], r['solver_secs'], r['notes']))
                for o in bad[:6]: print('     ', o['status'], o['name'], o['model'], o['info'])
            miss = [c for c in u.covers if c not in r['covers']]
            if r['status'] != 'ok':
                ustat[u.name] = 'undecided: %s (%s)' % (r['status'], '; '.join(r['notes'])[:300]); undecided.append(u.name + ' ' + ustat[u.name])
            elif bad: ustat[u.name] = 'FAILED'
            elif not r['obligs'] or miss:
                ustat[u.name] = 'undecided: vacuous (no obligations or covers %s not reached)' % miss; undecided.append(u.name + ' ' + ustat[u.name])
            else: ustat[u.name] = 'proved (%d obligations, %d paths, %.1fs)' % (len(r['obligs']), r['paths'], r['secs'])
            seen = set()
            for o in bad:
                if o['name'] in seen: continue
                seen.add(o['name'])
                replay_jobs.append((u, o))
        elif kind == 'conc':
            if a.v: print('   conc %-50s runs=%d pass=%d skip=%d ens=%d fail=%s %s %.1fs' % (u.name, r['runs'], r['passed'], r['skipped'], r['ensures'], r['fail'], r['unsupported'] or '', r['secs']))
            if r['fail']:
                violations.append((True, '%s: %s' % (u.name, r['fail']['label']), dict(unit=u.name, source='random cross-check on the real code', **r['fail'])))
        else:
            if a.v: print('   bounded shard %d evals=%d distinct=%d fails=%s und=%s notes=%s %.1fs' % (r['shard'], r['evals'], r['distinct'], r['fails'], r['undecided'], r['notes'], r['secs']))
            for f in r['fails']:
                violations.append((True, 'bounded: %s' % f['key'], dict(source='bounded harness on the real code', **f)))
            if r['undecided']: undecided.append('bounded shard: ' + r['undecided'])
    if replay_jobs:
        rr = U.run_jobs([(lambda u=u, o=o: U.replay_unit(u, o['model']), 60, None) for u, o in replay_jobs[:24]])
        for (u, o), r in zip(replay_jobs, rr):
            d = dict(unit=u.name, obligation=o['name'], status=o['status'], backend=o['backend'], solver_info=o['info'], model=o['model'], replay=r)
            if r.get('confirmed'):
                violations.append((True, '%s: %s' % (u.name, o['name']), d))
            elif o['name'].startswith('no unexpected exception'):
                undecided.append('%s: %s (not reproducible on the real code: outside the modelled subset)' % (u.name, o['name']))
            else:
                violations.append((False, '%s: %s' % (u.name, o['name']), d))

    # known findings
    kf = known_findings(a.prop)
    rest = []
    hit = set()
    for v in violations:
        txt = json.dumps(v[2]) + v[1]
        m = next((f for f in kf if f.get('status') == 'open' and f['match'] in txt), None)
        if m: hit.add(m['id'])
        else: rest.append(v)
    for f in kf:
        if f.get('status') == 'open':
            print('KNOWN-FINDING: property=%s %s' % (a.prop, f['what']))
    violations = sorted(rest, key=lambda v: not v[0])

    # evidence
    bres = [r for (k, u), r in zip(meta, res) if k == 'bounded' and r.get('kind') == 'bounded']
    cres = [r for (k, u), r in zip(meta, res) if k == 'conc' and r.get('kind') == 'conc']
    level = mod.LEVEL
    cov = {}
    evals = sum(r['evals'] for r in bres) + sum(r['passed'] for r in cres)
    if level == 'proof':
        tb = sorted(set(getattr(mod, 'TRUSTED', [])) | set(TRUSTED) | {x for u in units for x in u.assumes})
        cov = dict(obligations=nob, discharged=ndis, checker_cmd='/opt/venv/bin/python /verif/run.py %s --tier %s' % (a.prop, a.tier), trusted_base=tb)
    else:
        cov = dict(evaluations=max(evals, 0), distinct_nontrivial=sum(r['distinct'] for r in bres) + sum(r['passed'] for r in cres), rule=getattr(mod, 'RULE', '') or getattr(mod, 'BOUND', '') + '; every case differs', samples=[s for r in bres for s in r['samples']][:8] or ['symbolic only'])
    extra = dict(functions_under_contract=sorted({t for u in units for t in u.target}), unit_status=ustat, backends=obl, solver_seconds=round(solver, 2), paths=paths,
                 units=dict(total=len(units), proved=sum(1 for x in ustat.values() if x.startswith('proved')), all_shapes=sorted(u.name for u in units if u.allshape and ustat.get(u.name, '').startswith('proved')), fixed_shape=sorted(u.name for u in units if not u.allshape and ustat.get(u.name, '').startswith('proved'))),
                 **({} if level == 'proof' else dict(obligations=nob, discharged=ndis)),
                 bounded=dict(**({} if level != 'proof' else dict(evaluations=evals)), shards=len(bres), bound=getattr(mod, 'BOUND', ''), notes={k: sum(r['notes'].get(k, 0) for r in bres) for r0 in bres for k in r0['notes']}),
                 unit_crosscheck={r['unit']: dict(runs=r['runs'], passed=r['passed'], skipped=r['skipped']) for r in cres},
                 undecided=undecided)
    ev = dict(property=a.prop, tier='thorough' if thorough else 'quick', seed=seed, level=level, coverage=dict(cov, **{'x_' + k: v for k, v in extra.items()}), violations=len(violations),
              assumptions=sorted(set(getattr(mod, 'TRUSTED', [])) | set(TRUSTED) | {x for u in units for x in u.assumes}) if level != 'proof' else [], wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1, default=repr)
    rp = os.path.join(HERE, 'evidence', a.prop + '.replay.json')
    if os.path.exists(rp): os.remove(rp)
    if a.v or undecided:
        for x in undecided: print('undecided:', x)
    if violations:
        json.dump(dict(property=a.prop, violations=[dict(confirmed=v[0], what=v[1], detail=v[2]) for v in violations[:20]]), open(rp, 'w'), indent=1, default=repr)
        for v in violations[:5]: print('  ', v[1][:300])
        print('VIOLATION property=%s replay=%s%s' % (a.prop, rp, '' if violations[0][0] else ' no-failing-input-found'))
        return 1
    nbounded = sum(r['evals'] for r in bres)
    print('%s: %d/%d obligations discharged in %d units, %d bounded evaluations, %.1fs' % (a.prop, ndis, nob, len(units), evals, time.time() - t0))
    if nob == 0 and evals == 0 and not a.only:
        print('no obligations and no evaluations: nothing decided'); return 2
    return 0

TRUSTED = ['machine floating point treated as exact real arithmetic in the proofs (the bounded cross-check runs on real floats)',
           'pyvc engine: Python semantics taken from CPython itself (the real function objects run), numpy replaced by pyvc/npshim.py on object arrays',
           'z3 4.x / cvc5 soundness']
if __name__ == '__main__':
    sys.exit(main())
