"""Contract units, the bounded harness and the processes they run in."""
import os, sys, time, json, random, traceback, importlib, multiprocessing as mp
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')
SOLVER_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

def setup_path():
    src = os.path.join(REPO, 'src')
    if sys.path[0] != src:
        sys.path.insert(0, src)
    if SOLVER_SITE not in sys.path:
        sys.path.append(SOLVER_SITE)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    os.environ.setdefault('MPLBACKEND', 'Agg')

class Unit:
    def __init__(self, name, fn, target=(), mods=(), tier='quick', deadline=60, samples=200, extra=None,
                 covers=(), patch=None, tol_replay=True, assumes=(), conc=True, unbounded='', allshape=False):
        self.name, self.fn = name, fn
        self.target = [target] if isinstance(target, str) else list(target)
        self.mods = [mods] if isinstance(mods, str) else list(mods)
        self.tier, self.deadline, self.samples = tier, deadline, samples
        self.extra = extra or {}      # module attribute overrides installed in the symbolic run
        self.covers = list(covers)
        self.patch = patch            # callable(mods dict) run after installation in the symbolic run
        self.assumes = list(assumes)  # assumptions of this unit (assumed contracts, abstractions)
        self.conc = conc
        self.allshape = allshape      # no bound on lengths, degrees, iterations either
        self.unbounded = unbounded    # what the proof quantifies over without bound

def jsonable(v):
    if isinstance(v, Fraction): return "%d/%d" % (v.numerator, v.denominator)
    if isinstance(v, (int, float, str, bool)) or v is None: return v
    if isinstance(v, dict): return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [jsonable(x) for x in v]
    return repr(v)

def unjson(v):
    if isinstance(v, str) and '/' in v:
        a, b = v.split('/')
        try: return Fraction(int(a), int(b))
        except ValueError: return v
    return v

def need(obj, name):
    """access a private part of the code under verification"""
    from . import core
    try:
        return getattr(obj, name)
    except AttributeError:
        raise core.Unsupported("no %s (renamed?)" % name)

# ------------------------------------------------------------------ symbolic run
def prove_unit(u, deadline):
    from . import core, npshim
    t0 = time.time()
    out = dict(unit=u.name, kind='prove', status='ok', obligs=[], paths=0, covers=[], notes=[], solver_secs=0.0)
    ctx = core.SymCtx(deadline=t0 + deadline)
    try:
        mods = {}
        extra = u.extra() if callable(u.extra) else u.extra
        for m in u.mods:
            mods[m] = importlib.import_module(m)
        for m in mods.values():
            npshim.install(m, extra.get(m.__name__))
        if u.patch: u.patch(mods)
        ctx.explore(u.fn)
    except core.Unsupported as e:
        out['status'] = 'unsupported'; out['notes'].append(str(e)); out['notes'].append(short_tb(e))
    except core.Timeout as e:
        out['status'] = 'timeout'; out['notes'].append(str(e))
    except (ImportError, AttributeError) as e:
        out['status'] = 'unsupported'; out['notes'].append(repr(e))
    except Exception as e:
        out['status'] = 'unsupported'; out['notes'].append('engine error: ' + traceback.format_exc()[-1500:])
    out['obligs'] = [o.pack() for o in ctx.obligs]
    for o in out['obligs']: o['model'] = jsonable(o['model'])
    out['paths'] = ctx.paths; out['covers'] = sorted(ctx.covers); out['notes'] += ctx.notes
    out['solver_secs'] = ctx.solver_secs; out['secs'] = time.time() - t0
    return out

def short_tb(e):
    return ' | '.join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in traceback.extract_tb(e.__traceback__)[-6:])

# ------------------------------------------------------------------ concrete runs of units
def run_conc(u, values=None, rng=None):
    """-> (status, label, inputs, n_ensures)"""
    from . import core
    V = core.ConcV(values, rng)
    try:
        u.fn(V)
        return ('pass', None, V.used, V.n_ens, V.covers)
    except core.ConcFail as e:
        return ('fail', e.label, e.inputs, V.n_ens, V.covers)
    except (core.Skip, core.Kill):
        return ('skip', None, V.used, V.n_ens, V.covers)
    except core.Unsupported as e:
        return ('unsupported', str(e), V.used, V.n_ens, V.covers)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = tb[-1]
        if isinstance(e, (AttributeError, ImportError, NameError)) and '/verif/' in loc.filename:
            return ('unsupported', repr(e), V.used, V.n_ens, V.covers)
        at = [f for f in tb if '/repo/' in f.filename or REPO in f.filename] or list(tb)
        return ('fail', 'exception %s: %s at %s:%d %s' % (type(e).__name__, str(e)[:200], os.path.basename(at[-1].filename), at[-1].lineno, at[-1].name), dict(V.used), V.n_ens, V.covers)

def conc_unit(u, seed, n, secs):
    t0 = time.time()
    out = dict(unit=u.name, kind='conc', runs=0, passed=0, skipped=0, ensures=0, fail=None, unsupported=None, covers=[])
    cov = set()
    for k in range(n):
        if time.time() - t0 > secs and k > 5: break
        st, label, inp, ne, cv = run_conc(u, None, random.Random(hash((seed, u.name, k)) if False else "%s/%s/%d" % (seed, u.name, k)))
        out['runs'] += 1; out['ensures'] += ne; cov |= cv
        if st == 'pass': out['passed'] += 1
        elif st == 'skip': out['skipped'] += 1
        elif st == 'unsupported': out['unsupported'] = label; break
        else:
            out['fail'] = dict(label=label, inputs=jsonable(inp), seed=k); break
    out['covers'] = sorted(cov); out['secs'] = time.time() - t0
    return out

def replay_unit(u, model):
    vals = {k: unjson(v) for k, v in (model or {}).items()}
    if not u.conc: return dict(confirmed=False, label=None, inputs=jsonable(vals), status='contract without a concrete form')
    st, label, inp, ne, cv = run_conc(u, vals, random.Random(1))
    if st == 'fail': return dict(confirmed=True, label=label, inputs=jsonable(inp))
    # try perturbations around the model (rounding may hide a boundary case)
    for k in range(60):
        r = random.Random(k)
        v2 = {}
        for n, x in vals.items():
            if isinstance(x, Fraction) and r.random() < 0.5:
                x = Fraction(round(float(x) * 16), 16) if k % 2 else x
            v2[n] = x
        for n in list(v2):
            if r.random() < 0.15: del v2[n]
        st, label, inp, ne, cv = run_conc(u, v2, r)
        if st == 'fail': return dict(confirmed=True, label=label, inputs=jsonable(inp))
    return dict(confirmed=False, label=None, inputs=jsonable(vals), status=st)

# ------------------------------------------------------------------ bounded harness
class Fail(Exception):
    pass

class Harness:
    def __init__(self, seed, shard, nshards, secs, tier):
        self.seed, self.shard, self.nshards, self.secs, self.tier = seed, shard, nshards, secs, tier
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.fails = []
        self.undecided = None
        self.notes = {}
        self.cur = None
    def rng(self, *key):
        return random.Random("%s/%s/%s" % (self.seed, self.shard, '/'.join(map(str, key))))
    def time_left(self):
        return self.time() < self.secs
    def time(self): return time.time() - self.t0
    def case(self, desc, nontrivial=None):
        self.evals += 1
        self.cur = desc
        if nontrivial is not None and len(self.distinct) < 200000:
            self.distinct.add(nontrivial)
        if len(self.samples) < 4: self.samples.append(jsonable(desc))
    def check(self, cond, key, msg=''):
        if not bool(cond): self.fail(key, msg)
    def close(self, a, b, key, msg='', tol=1e-7):
        import numpy as np
        a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            self.fail(key, "%s shape %s vs %s" % (msg, a.shape, b.shape))
        if a.size and not bool(np.all(np.abs(a - b) <= tol * np.maximum(1.0, np.maximum(np.abs(a), np.abs(b))))):
            self.fail(key, "%s: %s != %s" % (msg, a.tolist() if a.size < 20 else a.ravel()[:20].tolist(), b.tolist() if b.size < 20 else b.ravel()[:20].tolist()))
    def fail(self, key, msg=''):
        raise Fail(key, msg() if callable(msg) else msg)
    def count(self, k, n=1): self.notes[k] = self.notes.get(k, 0) + n

def harness_run(fn, seed, shard, nshards, secs, tier):
    H = Harness(seed, shard, nshards, secs, tier)
    try:
        fn(H)
    except Fail as e:
        H.fails.append(dict(key=e.args[0], msg=str(e.args[1])[:2000], case=jsonable(H.cur)))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, (AttributeError, ImportError, NameError)) and '/verif/' in tb[-1].filename:
            H.undecided = repr(e)
        else:
            H.fails.append(dict(key='exception', msg=traceback.format_exc()[-1500:], case=jsonable(H.cur)))
    return dict(kind='bounded', shard=shard, evals=H.evals, distinct=len(H.distinct), samples=H.samples, fails=H.fails,
                undecided=H.undecided, notes=H.notes, secs=H.time())

# ------------------------------------------------------------------ process scheduler
def _child(conn, job):
    setup_path()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'): os.dup2(devnull, 2)
    import warnings; warnings.simplefilter('ignore')
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        r = job()
    except BaseException as e:
        r = dict(kind='crash', error=traceback.format_exc()[-2000:])
    try:
        conn.send(r)
    except Exception as e:
        conn.send(dict(kind='crash', error=repr(e)))
    conn.close()
    os._exit(0)

def run_jobs(jobs, nproc=8):
    """jobs: list of (callable, hard_timeout, meta) -> list of results"""
    ctx = mp.get_context('fork')
    results = [None] * len(jobs)
    pend = list(range(len(jobs)))[::-1]
    live = {}
    while pend or live:
        while pend and len(live) < nproc:
            i = pend.pop()
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(b, jobs[i][0]))
            p.start(); b.close()
            live[i] = (p, a, time.time() + jobs[i][1])
        ready = mp.connection.wait([v[1] for v in live.values()], timeout=0.5)
        for i in list(live):
            p, a, dl = live[i]
            if a in ready:
                try: results[i] = a.recv()
                except EOFError: results[i] = dict(kind='crash', error='process died')
                p.join(5)
                if p.is_alive(): p.kill()
                a.close(); del live[i]
            elif time.time() > dl:
                p.kill(); p.join(); a.close()
                results[i] = dict(kind='crash', error='hard timeout')
                del live[i]
    return results
