import importlib
from pyvc.unit import Unit, need
IM = 'bgem.polygons.idmap'
def im(): return importlib.import_module(IM)
LEVEL = 'proof'
NOTE = 'Proof over identifier maps of any size: with the representation invariant "live and released identifiers are disjoint and together are 0.._next_id" every get_new_id, append and remove keeps it, issues an identifier that is not live, prefers released ones, and leaves every other identifier (generic) alone. The dictionary and the released list are modelled by ghost collections of symbolic size. Bounded random histories against a reference on the real dict.'
T = 'idmap.py:'
UNITS = []

def ghost(V):
    """-> map in an arbitrary reachable state, live(i), released(i), record of dictionary effects"""
    m = im()
    if V.symbolic:
        import z3
        from pyvc import core
        I, B = z3.IntSort(), z3.BoolSort()
        L, F = z3.Function('live', I, B), z3.Function('released', I, B)
        N = V.int('next_id', lo=-1)
        nf = V.int('n_released', lo=0)
        facts = set()
        def inst(t):
            t = core.term(t)
            if t.get_id() in facts: return
            facts.add(t.get_id())
            core.CTX.add(z3.And(z3.Implies(z3.Or(L(t), F(t)), z3.And(t >= 0, t <= N.t)), z3.Implies(z3.And(t >= 0, t <= N.t), z3.Xor(L(t), F(t))), z3.Implies(F(t), nf.t > 0)))
        class Free:
            """list of the released identifiers"""
            def __init__(self): self.added, self.taken, self.n = [], [], nf
            def vc_len(self): return self.n + len(self.added)
            def __bool__(self): return bool(self.vc_len() > 0)
            def __len__(self): return int(self.vc_len())
            def append(self, x): self.added.append(x)
            def __contains__(self, x):
                x = core.lift(x) if isinstance(x, (int, core.SInt)) else None
                if x is None: return False
                inst(x)
                return bool(core.sor(core.sand(core.SBool(F(x.t)), *[y != x for y in self.taken]), *[y == x for y in self.added]))
            def remove(self, x):
                for k, y in enumerate(self.added):
                    if bool(y == x): del self.added[k]; return
                if x not in self: raise ValueError('not in list')
                self.taken.append(core.lift(x)); self.n = self.n - 1
            def pop(self, *a):
                if self.added and not a: return self.added.pop()
                if a not in ((), (0,), (-1,)): raise core.Unsupported('pop')
                if not bool(self.n > 0): raise IndexError('pop from empty list')
                x = core.SInt(core.CTX.fresh_int('rel')); inst(x)
                core.CTX.add(F(x.t))
                for y in self.taken: core.CTX.add(y.t != x.t)
                self.taken.append(x); self.n = self.n - 1
                return x
        class G(m.IdMap):
            def __contains__(self, k): inst(k); return core.CTX.fork(L(core.term(k)))
            def __len__(self): raise core.Unsupported('len')
            keys = values = items = __iter__ = get = pop = __len__
            def __setitem__(self, k, v): self.eff.append(('set', k, v))
            def __delitem__(self, k):
                inst(k)
                if not core.CTX.fork(L(core.term(k))): raise KeyError(k)
                self.eff.append(('del', k))
        g = G(); need(g, '_next_id'); need(g, '_free_ids')
        g._next_id = N; g._free_ids = Free(); g.eff = []
        return g, (lambda i: (inst(i), core.SBool(L(core.term(i))))[1]), (lambda i: (inst(i), core.SBool(F(core.term(i))))[1]), nf
    g = m.IdMap()
    objs = []
    for _ in range(V.rng.randrange(9)):
        if objs and V.rng.random() < .45: g.remove(objs.pop(V.rng.randrange(len(objs))))
        else: objs.append(g.append(m.IdObject()))
    V.used['live'] = sorted(g); 
    before = dict(g)
    top = (max(g) if g else -1)
    fr = set(g._free_ids)
    g.objs = objs
    return g, (lambda i: i in before), (lambda i: i in fr), len(fr)

def new_id(V):
    g, live, rel, nf = ghost(V)
    N = g._next_id
    i = g.get_new_id()
    V.cover('in')
    from pyvc import core
    V.ensure('issued identifier is not in use', core.snot(live(i)) if V.symbolic else not live(i))
    V.ensure('not negative', i >= 0)
    if bool(nf > 0): V.ensure('released identifiers are reused first', rel(i)); V.eq('no new identifier', g._next_id, N); V.cover('reuse')
    else: V.eq('next one', i, N + 1); V.eq('counter', g._next_id, N + 1); V.cover('fresh')
    j = g.get_new_id()
    V.ensure('never issued twice', i != j)
    V.ensure('issued identifier is not in use', core.snot(live(j)) if V.symbolic else not live(j))
UNITS.append(Unit('get_new_id', new_id, T + 'IdMap.get_new_id', IM, covers=['in', 'reuse', 'fresh'], unbounded='number of live and released identifiers', allshape=True))

def append_unit(V):
    from pyvc import core
    g, live, rel, nf = ghost(V)
    N = g._next_id
    o = im().IdObject()
    k = V.choice('object', 3)
    if k == 1: o.id = V.int('old_id')       # an object of another map, or removed before
    if k == 2 and V.symbolic: o.id = V.int('old_id'); V.assume(rel(o.id))
    elif k == 2 and g._free_ids: o.id = V.rng.choice(list(g._free_ids))
    r = g.append(o)
    V.cover('in')
    if not V.symbolic:
        later = [g.append(im().IdObject()) for _ in range(len(g._free_ids) + 1)]
        V.ensure('later identifiers differ', len({x.id for x in later} | {o.id}) == len(later) + 1)
        for x in later: dict.pop(g, x.id)
    V.ensure('returns the object', r is o)
    V.ensure('identifier was not in use', core.snot(live(o.id)) if V.symbolic else not live(o.id))
    V.ensure('not negative', o.id >= 0)
    if V.symbolic:
        V.ensure('only the object is added, under its identifier', len(g.eff) == 1 and g.eff[0][0] == 'set' and g.eff[0][2] is o)
        V.ensure('only the object is added, under its identifier', g.eff[0][1] == o.id)
        V.eq('identifiers up to the counter', g._next_id, core.smax2(N, core.lift(o.id)))
        V.eq('released shrinks by one when reused', g._free_ids.vc_len(), core.smax2(nf - 1, core.lift(0)))
        V.ensure('never issued twice', o.id != g.get_new_id())
    else:
        V.ensure('lookup gives the object', g[o.id] is o)
        V.ensure('others unchanged', all(g[x.id] is x for x in g.objs) and len(g) == len(g.objs) + 1)
    V.eq('hash is the identifier', hash(o) if not V.symbolic else o.__hash__(), o.id)
UNITS.append(Unit('append', append_unit, T + 'IdMap.append', IM, covers=['in'], unbounded='number of live and released identifiers', allshape=True))

def remove_unit(V):
    from pyvc import core
    g, live, rel, nf = ghost(V)
    o = im().IdObject()
    if V.symbolic:
        o.id = V.int('id'); V.assume(live(o.id))
        N = g._next_id
    else:
        if not g.objs: V.assume(False)
        o = V.rng.choice(g.objs)
    i = o.id
    g.remove(o)
    V.cover('in')
    if V.symbolic:
        V.ensure('only this identifier becomes unknown', len(g.eff) == 1 and g.eff[0][0] == 'del')
        V.ensure('only this identifier becomes unknown', g.eff[0][1] == i)
        V.ensure('it is released', len(g._free_ids.added) == 1); V.ensure('it is released', g._free_ids.added[0] == i)
        V.eq('counter kept', g._next_id, N); V.eq('other released kept', g._free_ids.n, nf)
    else:
        V.ensure('unknown', i not in g)
        V.ensure('others unchanged', all(g[x.id] is x for x in g.objs if x is not o) and len(g) == len(g.objs) - 1)
    j = g.get_new_id()
    if V.symbolic: V.ensure('released identifiers are reused first', core.sor(j == i, rel(j)))
    else: V.ensure('released identifiers are reused first', j == i or rel(j))
UNITS.append(Unit('remove', remove_unit, T + 'IdMap.remove', IM, covers=['in'], unbounded='number of live and released identifiers', allshape=True))

def missing(V):
    """removing an object that is not there is refused and changes nothing"""
    from pyvc import core
    g, live, rel, nf = ghost(V)
    o = im().IdObject()
    o.id = V.int('id')
    V.assume(core.snot(live(o.id)) if V.symbolic else not live(o.id))
    try: g.remove(o); ok = False
    except KeyError: ok = True
    V.ensure('refused', ok)
    V.cover('in')
    if V.symbolic: V.ensure('nothing changed', not g.eff and not g._free_ids.added)
    else: V.ensure('nothing changed', len(g) == len(g.objs) and len(g._free_ids) == nf)
UNITS.append(Unit('removing an unknown object', missing, T + 'IdMap.remove', IM, covers=['in'], unbounded='number of live and released identifiers', allshape=True))

def empty(V):
    m = im(); g = m.IdMap()
    V.ensure('empty', len(g) == 0)
    a, b = g.append(m.IdObject()), g.append(m.IdObject())
    V.ensure('distinct', a.id != b.id and not (a == b) and a == a and min(a.id, b.id) >= 0 and g[a.id] is a and g[b.id] is b)
    h = m.IdMap(); c = h.append(m.IdObject())
    V.ensure('maps are independent', len(h) == 1 and len(g) == 2 and h[c.id] is c)
UNITS.append(Unit('new map', empty, T + 'IdMap.__init__', IM, samples=1, allshape=True))

BOUND = 'random histories of up to 80 additions, removals and double removals on two maps and on the maps of a decomposition'
BSECS = 5
SHARDS = 3
def bounded(H):
    import itertools
    m = im()
    for it in itertools.count():
        if not H.time_left(): break
        r = H.rng(it)
        maps = [(m.IdMap(), {}, []) for _ in range(2)]
        hist = []; gone = []
        for step in range(r.randrange(1, 80)):
            w = r.randrange(2)
            g, ref, removed = maps[w]
            released = set(i for i in removed if i not in ref)
            if ref and r.random() < .45:
                i = r.choice(list(ref)); o = ref.pop(i); g.remove(o); gone.append(o); hist.append(('rm', w, i)); removed.append(i)
                if r.random() < .2:
                    try: g.remove(o); H.fail('double removal accepted', str(hist))
                    except KeyError: pass
            else:
                o = m.IdObject()
                if gone and r.random() < .4: o = gone.pop(r.randrange(len(gone)))      # added again, possibly to the other map
                rr = g.append(o); hist.append(('add', w, o.id))
                H.check(rr is o, 'append result', '')
                H.check(o.id not in ref, 'identifier in use issued', str(hist))
                H.check(isinstance(o.id, int) and o.id >= 0, 'identifier', repr(o.id))
                if released: H.check(o.id in released, 'released identifiers are reused first', str(hist))
                ref[o.id] = o
            H.case(hist[-40:], (it, step))
            for g, ref, _ in maps:
                H.check(set(g.keys()) == set(ref) and all(g[i] is ref[i] and ref[i].id == i for i in ref), 'lookup', str(hist))
                H.check(sorted(hash(o) for o in g.values()) == sorted(ref), 'objects', str(hist))
                vs = list(g.values())
                for a in vs[:4]:
                    for b in vs[:4]: H.check((a == b) == (a is b), 'equality', str(hist))
