"""G04: object sets. The real ObjectSet / GeometryOCC run over a geometry kernel with arbitrary answers (checks/gkernel.py);
each operation's contract says which (entity, region) pairs the result holds, given what the kernel returned."""
import importlib, random
from pyvc.unit import Unit, need
from checks.gkernel import kernel
MOD = 'bgem.gmsh.gmsh'
def mod(): return importlib.import_module(MOD)
DEFAULTS = None

def pairs(s): return list(zip(s.dim_tags, s.regions))
def same_tag(a, b): return a[0] == b[0] and (a[1] is b[1] or (isinstance(a[1], int) and a[1] == b[1]))
def multi(got, want, eq=None):
    """equal as multisets of (entity, region)"""
    eq = eq or (lambda x, y: same_tag(x[0], y[0]) and x[1] is y[1])
    got, want = list(got), list(want)
    if len(got) != len(want): return False
    for x in got:
        for i, y in enumerate(want):
            if eq(x, y): del want[i]; break
        else: return False
    return True
def tags_multi(got, want): return multi(got, want, same_tag)

class World:
    """factory, kernel and object sets with their pairs"""
    def __init__(self, E, tags):
        self.E, self.G = E, mod()
        self.K = kernel(E, self.G, tags=tags)
        self.f = self.K.factory()
        self.dims0 = [r.dim for r in self.G.Region.default_region], [r.name for r in self.G.Region.default_region]
    def end(self):
        self.K.end()
        for r, d, n in zip(self.G.Region.default_region, *self.dims0): r.dim, r.name = d, n
    def region(self, dim=None, name='r'): return self.G.Region.get(name, dim)
    def set(self, ents, regs): return self.G.ObjectSet(self.f, list(ents), list(regs))

def check_pairs(E, lab, s, want):
    E.ensure(lab + ': as many regions as entities', len(s.dim_tags) == len(s.regions))
    E.ensure(lab, multi(pairs(s), want))

# contracts of the operations; each takes the sets with their pairs before the call
def c_group(W, sets, P):
    r = W.f.group(*sets)
    check_pairs(W.E, 'grouping', r, [p for q in P for p in q]); return r
def c_copy(W, s, P):
    before = pairs(s); r = s.copy(); a = W.K.calls[-1]
    W.E.ensure('copy of every entity', a[0] == 'copy' and tags_multi(a[1], [t for t, g in P]))
    new, used = [], [False] * len(P)
    for o, n in zip(a[1], a[2]):
        i = next((i for i, p in enumerate(P) if not used[i] and p[0] is o), None)
        if i is None: i = next(i for i, p in enumerate(P) if not used[i] and same_tag(p[0], o))
        used[i] = True; new.append((n, P[i][1]))
    check_pairs(W.E, 'copy', r, new); W.E.ensure('the original is kept', multi(pairs(s), before)); return r
def dup(P): return len({id(t) for t, g in P}) < len(P)
def c_fragment(W, sets, P):
    try: R = W.f.fragment(*sets)
    except AssertionError: raise
    op, a, b, ro, rt, m = W.K.maps[-1]
    W.E.ensure('all entities are fragmented', op == 'fragment' and ro and rt and tags_multi(a + b, [t for q in P for t, g in q]))
    W.E.ensure('one set per object', len(R) == len(sets))
    src = a + b; used = [False] * len(src)
    for r, q in zip(R, P):
        want = []
        for t, g in q:
            i = next(i for i, x in enumerate(src) if not used[i] and x is t or not used[i] and same_tag(x, t)); used[i] = True
            want += [(x, g) for x in m[i]]
        check_pairs(W.E, 'fragments of an object', r, want)
    return R
def c_bool(W, name, s, P, tools, T):
    r = getattr(s, name)(*tools)
    op, a, b, ro, rt, m = W.K.maps[-1]
    W.E.ensure(name + ': operation of the kernel', op == name and ro and rt)
    W.E.ensure(name + ': all entities', tags_multi(a, [t for t, g in P]))
    cp = W.K.calls[-1] if W.K.calls and W.K.calls[-1][0] == 'copy' else None
    W.E.ensure(name + ': the tools are copied', cp is not None and tags_multi(cp[1], [t for q in T for t, g in q]) and tags_multi(b, cp[2]))
    want, used = [], [False] * len(a)
    for t, g in P:
        i = next(i for i, x in enumerate(a) if not used[i] and same_tag(x, t)); used[i] = True
        want += [(x, g) for x in m[i]]
    check_pairs(W.E, name, r, want)
    for s2, q in zip(tools, T): W.E.ensure(name + ': the tools are kept', multi(pairs(s2), q))
    return r
def c_split_region(W, s, P):
    R = s.split_by_region()
    for r in R:
        W.E.ensure('split by region: one region in a set', len(r.dim_tags) == len(r.regions) and len(r.regions) > 0 and all(g is r.regions[0] for g in r.regions))
    W.E.ensure('split by region: a set per region', len({id(r.regions[0]) for r in R}) == len(R))
    W.E.ensure('split by region: nothing lost or invented', multi([p for r in R for p in pairs(r)], P))
    return R
def c_split_dim(W, s, P):
    R = s.split_by_dimension()
    W.E.ensure('split by dimension: four sets', len(R) == 4)
    for d, r in enumerate(R): check_pairs(W.E, 'split by dimension', r, [p for p in P if p[0][0] == d])
    return R
def c_boundary(W, s, P, combined):
    r = s.get_boundary(combined=combined)
    dt, cb, ans = W.K.bounds[-1]
    W.E.ensure('boundary of all entities', tags_multi(dt, [t for t, g in P]) and cb == combined)
    check_pairs(W.E, 'boundary', r, [(t, W.G.Region.default_region[t[0]]) for t in ans])
    W.E.ensure('boundary: the object is kept', multi(pairs(s), P)); return r
def c_boundary_region(W, s, P, fmt):
    n0 = len(W.K.bounds)
    R = s.get_boundary_per_region(fmt)
    regs = []
    for t, g in P:
        if not any(g is x for x in regs): regs.append(g)
    B = W.K.bounds[n0:]
    W.E.ensure('boundary per region: a set per region', len(R) == len(regs) == len(B))
    for g in regs:
        b = [x for x in B if tags_multi(x[0], [t for t, h in P if h is g])]
        W.E.ensure('boundary per region: boundary of the entities of a region', len(b) >= 1)
        ok = False
        for x in b:
            for r in R:
                if tags_multi(r.dim_tags, x[2]) and len(r.regions) == len(r.dim_tags): ok = ok or not r.regions or r.regions[0].name == fmt.format(g.name)
        W.E.ensure('boundary per region: entities and name', ok)
    for r in R: W.E.ensure('boundary per region: one region', all(g is r.regions[0] for g in r.regions))
    for r in R:
        for q in R:
            if r is not q and r.regions and q.regions: W.E.ensure('boundary per region: distinct regions', r.regions[0] is not q.regions[0] and r.regions[0].id != q.regions[0].id)
        for g in r.regions: W.E.ensure('boundary per region: dimension', all(g.dim == t[0] for t in r.dim_tags))
    W.E.ensure('boundary per region: regions of the object are kept', multi(pairs(s), P))
    return R
def c_set_region(W, s, P, reg):
    bad = None
    name = reg if isinstance(reg, str) else None
    g = W.f.get_region_name(name) if name else reg
    ds = {t[0] for t, _ in P} | ({g.dim} if g.dim is not None else set())
    d0 = g.dim
    try: r = s.set_region(reg)
    except AssertionError:
        W.E.ensure('set_region: only a region of another dimension is refused', len(ds) > 1); W.E.cover('refused')
        if d0 is None: g.dim = None
        return None
    W.E.ensure('set_region: a region for one dimension only', len(ds) <= 1)
    check_pairs(W.E, 'set_region', s, [(t, g) for t, _ in P]); W.E.ensure('set_region returns the set', r is s)
    return s
def c_modify(W, s, P, fmt):
    names = [g.name for t, g in P]
    r = s.modify_regions(fmt)
    W.E.ensure('modify_regions: pairing', len(s.regions) == len(P) and tags_multi(s.dim_tags, [t for t, g in P]))
    for (t, g), n in zip(P, names):
        h = [x for y, x in pairs(s) if y is t or same_tag(y, t)]
        W.E.ensure('modify_regions: new name', fmt.format(n) in [x.name for x in h])
    for x in s.regions: W.E.ensure('modify_regions: the region of that name', x is W.f.get_region_name(x.name))
    return s
def c_from_dimtag(W, s, P):
    s.set_region_from_dimtag()
    W.E.ensure('region per entity: pairing', len(s.regions) == len(P) and tags_multi(s.dim_tags, [t for t, g in P]))
    Q = pairs(s)
    for t, g in Q:
        for u, h in Q: W.E.ensure('region per entity: distinct', (g is h) == (t == u))
    return s
def c_small_mass(W, s, P, lim):
    m = [W.K.mass(*t) for t, g in P]
    s.remove_small_mass(lim)
    Q = pairs(s)
    W.E.ensure('remove_small_mass: pairing', len(s.dim_tags) == len(s.regions))
    left = list(Q)
    for p, x in zip(P, m):
        k = [q for q in left if q[0] is p[0] or same_tag(q[0], p[0])]
        if x > lim: W.E.ensure('remove_small_mass: bigger entities stay', any(q[1] is p[1] for q in k))
        elif x < lim: W.E.ensure('remove_small_mass: small entities go', not any(q[1] is p[1] for q in k))
        for q in k[:1]:
            if q[1] is p[1]: left.remove(q)
    W.E.ensure('remove_small_mass: nothing invented', not left)
    return s
def c_select(W, s, P, tools, T):
    G = W.G
    try: r = s.select_by_intersect(*tools)
    except G.BoolOperationError:
        m = W.K.maps[-1][5]
        W.E.ensure('select: only divided entities are refused', any(len(x) > 1 for x in m[:len(P)])); return None
    op, a, b, ro, rt, m = W.K.maps[-1]
    cps = [c for c in W.K.calls if c[0] == 'copy'][-2:]
    W.E.ensure('select: copies are intersected', op == 'intersect' and len(cps) == 2 and tags_multi(a, cps[0][2]) and tags_multi(b, cps[1][2]) and tags_multi(cps[0][1], [t for t, g in P]) and tags_multi(cps[1][1], [t for q in T for t, g in q]))
    W.E.ensure('select: a divided entity is refused', all(len(x) <= 1 for x in m[:len(P)]))
    want = [p for p, x in zip(P, m) if x]      # copies are in the order of the entities
    check_pairs(W.E, 'select', r, want)
    W.E.ensure('select: the object is kept', multi(pairs(s), P))
    for q, t in zip(tools, T): W.E.ensure('select: the tools are kept', multi(pairs(q), t))
    return r
def c_split_cut(W, s, P, tools, T):
    R = s.split_by_cut(*tools)
    op, a, b, ro, rt, m = W.K.maps[-1]
    TT = [p for q in T for p in q]
    W.E.ensure('split_by_cut: all entities', op == 'fragment' and tags_multi(a + b, [t for t, g in P + TT]))
    src = a + b; used = [False] * len(src); res = []
    for q in (P, TT):
        d = []
        for t, g in q:
            i = next(i for i, x in enumerate(src) if not used[i] and same_tag(x, t)); used[i] = True
            d += [(x, g) for x in m[i]]
        res.append(d)
    ko, kt = [[t for t, g in d] for d in res]
    want = [[t for t in uniq(ko) if t not in kt], [t for t in uniq(kt) if t not in ko], [t for t in uniq(ko) if t in kt], [t for t in uniq(kt) if t in ko]]
    W.E.ensure('split_by_cut: four sets', len(R) == 4)
    for r, w, src, lab in zip(R, want, (0, 1, 0, 1), ('remainder', 'tool remainder', 'intersection', 'intersection of the tool')):
        W.E.ensure('split_by_cut: ' + lab, len(r.dim_tags) == len(r.regions) and tags_multi(r.dim_tags, w))
        for t, g in pairs(r): W.E.ensure('split_by_cut: region in the ' + lab, any(x == t and h is g for x, h in res[src]))
    return R
def uniq(L):
    r = []
    for x in L:
        if x not in r: r.append(x)
    return r
def c_physical(W, s, P):
    K = W.K; n0 = len(K.groups)
    regs = []
    for t, g in P:
        if not any(g is x for x in regs): regs.append(g)
    names = [g.name for g in regs]
    dims = [{t[0] for t, h in P if h is g} | ({g.dim} if g.dim is not None else set()) for g in regs]
    d0 = [g.dim for g in regs]
    try: need(W.f, '_assign_physical_groups')(s)
    except AssertionError:
        W.E.ensure('only a region used for two dimensions is refused', any(len(d) > 1 for d in dims)); W.E.cover('refused'); return False
    W.E.ensure('a region is used for entities of one dimension only', all(len(d) == 1 for d in dims))
    new = {k: v for k, v in K.groups.items() if k > n0}
    W.E.ensure('a group per region', len(new) == len(regs))
    left = list(new.items())
    for g in regs:
        tags = uniq_id([t[1] for t, h in P if h is g])
        c = [x for x in left if x[1][0] == g.dim and len(x[1][1]) == len(tags) and multi(x[1][1], tags, lambda a, b: a is b or isinstance(a, int) and a == b) and K.names.get(x[0]) == (g.dim, g.name)]
        W.E.ensure('group of a region lists exactly its entities under its name', len(c) >= 1)
        left.remove(c[0])
    fin = [g.name for g in regs]
    W.E.ensure('distinct regions get distinct names', len(set(fin)) == len(fin))
    for g, n in zip(regs, names):
        if names.count(n) == 1: W.E.ensure('a unique name is kept', g.name == n)
    W.E.ensure('the synchronised model is used', not K.stale)
    return True
def uniq_id(L):
    r = []
    for x in L:
        if not any(x is y or isinstance(x, int) and x == y for y in r): r.append(x)
    return r

# ------------------------------------------------------------------ units: every pairing of up to n entities, arbitrary tags
def world(V, fn, tags='symbolic'):
    W = World(V, tags)
    try: fn(W)
    finally: W.end()
    V.ensure('questions are asked about the synchronised model', not W.K.stale)
def draw(W, V, nm, nmax, dims=None, nreg=2, nmin=0, regs=None):
    """a set of nmin..nmax entities, each with one of nreg regions"""
    n = nmin + V.choice(nm + ' size', nmax - nmin + 1)
    regs = regs if regs is not None else [W.region(None, 'r%d' % i) for i in range(nreg)]
    P = []
    for i in range(n):
        d = V.choice(nm + ' dim', 4) if dims is None else dims[0] if len(dims) == 1 else dims[V.choice(nm + ' dim', len(dims))]
        t = V.int('%s%d' % (nm, i), lo=1) if W.K.tags == 'symbolic' else 10 * (1 + len(nm) + ord(nm[0])) + i
        P.append(((d, t), regs[V.choice(nm + ' region', len(regs))]))
    return W.set([t for t, g in P], [g for t, g in P]) , P
def u(fn, tags='symbolic'):
    return lambda V: world(V, lambda W: (fn(W, V), V.cover('done')), tags)
def u_init(W, V):
    n, m = V.choice('n', 4), V.choice('m', 4)
    dt = [(2, V.int('t%d' % i)) for i in range(n)]; rg = [W.region(2, str(i)) for i in range(m)]
    try: s = W.G.ObjectSet(W.f, list(dt), list(rg))
    except AssertionError: V.ensure('only a wrong number of regions is refused', n != m and m != 1); V.cover('refused'); return
    V.ensure('a wrong number of regions is refused', n == m or m == 1)
    V.ensure('pairing', len(s.regions) == len(s.dim_tags) == n and all(a is b for (a, b) in zip(s.regions, rg if m == n else rg * n)) and all(same_tag(a, b) for a, b in zip(s.dim_tags, dt)))
    V.ensure('pairs', multi([(t, g) for t, g in s.dimtagreg()], list(zip(dt, rg if m == n else rg * n))))
def u_group(W, V):
    k = V.choice('sets', 4); S = [draw(W, V, 'abc'[i], 2, dims=(2,), regs=None if i < 2 else [W.region()]) for i in range(k)]
    c_group(W, [s for s, P in S], [P for s, P in S])
def u_copy(W, V): c_copy(W, *draw(W, V, 'a', 3, dims=(2, 3)))
def u_fragment(W, V):
    k = 1 + V.choice('sets', 2); S = [draw(W, V, 'ab'[i], 2, dims=(2,), nmin=1 - i) for i in range(k)]
    c_fragment(W, [s for s, P in S], [P for s, P in S])
def u_bool(name):
    def f(W, V):
        s, P = draw(W, V, 'a', 2, dims=(3,), nmin=1)
        k = 1 + V.choice('tools', 2); T = [draw(W, V, 'bc'[i], 1, dims=(2,), nmin=1, nreg=1) for i in range(k)]
        c_bool(W, name, s, P, [t for t, p in T], [p for t, p in T])
    return f
def u_splitr(W, V):
    R = [W.region(None, 'x') for i in range(3)]      # equal names
    n = V.choice('n', 4)
    P = [((2, V.int('t%d' % i, lo=1)), R[V.choice('r', 3)]) for i in range(n)]
    c_split_region(W, W.set([t for t, g in P], [g for t, g in P]), P)
def own_dims(W, V, n, nreg=2):
    """entities of any dimension; each region belongs to one dimension"""
    R = [[W.region(None, 'd%d_%d' % (d, i)) for i in range(nreg)] for d in range(4)]
    P = []
    for i in range(n):
        d = V.choice('dim', 4); P.append(((d, V.int('t%d' % i, lo=1) if W.K.tags == 'symbolic' else 10 + i), R[d][V.choice('r', nreg)]))
    return W.set([t for t, g in P], [g for t, g in P]), P
def u_splitd(W, V): c_split_dim(W, *own_dims(W, V, V.choice('n', 4)))
def u_boundary(W, V): c_boundary(W, *draw(W, V, 'a', 2, nmin=1), bool(V.choice('combined', 2)))
def u_bregion(W, V):
    n = 1 + V.choice('n', 3); R = [W.region(2, 'p'), W.region(2, 'q'), W.region(2, 'p')]
    P = [((2, V.int('t%d' % i, lo=1)), R[V.choice('r', 3)]) for i in range(n)]
    W.K.V = Fewer(V)
    c_boundary_region(W, W.set([t for t, g in P], [g for t, g in P]), P, ('.{}', '{}_b')[V.choice('fmt', 2)])
class Fewer:
    def __init__(self, V): self.V = V
    def __getattr__(self, k): return getattr(self.V, k)
    def choice(self, name, n): return 1 + self.V.choice(name, 2)
def u_setreg(W, V):
    s, P = draw(W, V, 'a', 3)
    k = V.choice('kind', 3)
    if k == 0: reg = 'name'
    elif k == 1: reg = W.region(None, 'given')
    else: reg = W.region(V.choice('rdim', 4), 'given')
    c_set_region(W, s, P, reg)
def u_modify(W, V):
    R = [W.region(2, 'a'), W.region(2, 'b'), W.region(2, 'a')]
    n = V.choice('n', 4); P = [((2, V.int('t%d' % i, lo=1)), R[V.choice('r', 3)]) for i in range(n)]
    c_modify(W, W.set([t for t, g in P], [g for t, g in P]), P, ('X_{}', '{}')[V.choice('f', 2)])
def u_dimtag(W, V):
    n = V.choice('n', 4); P = [((V.choice('dim', 3), 1 + V.choice('tag', 3)), W.region()) for i in range(n)]
    c_from_dimtag(W, W.set([t for t, g in P], [g for t, g in P]), P)
def u_mass(W, V): c_small_mass(W, *draw(W, V, 'a', 3, dims=(3,)), V.real('limit'))
def u_select(W, V):
    s, P = draw(W, V, 'a', 2, dims=(3,), nmin=1)
    k = 1 + V.choice('tools', 2); T = [draw(W, V, 'bc'[i], 1, dims=(2,), nmin=1, nreg=1) for i in range(k)]
    c_select(W, s, P, [t for t, p in T], [p for t, p in T])
def u_cutsplit(W, V):
    s, P = draw(W, V, 'a', 2, dims=(3,), nmin=1); t, T = draw(W, V, 'bb', 1, dims=(3,), nmin=1, nreg=1)
    c_split_cut(W, s, P, [t], [T])
def u_physical(names):
    def f(W, V):
        R = [W.region(None, n) for n in names]
        n = V.choice('n', 4)
        P = [((2, 10 + V.choice('t%d' % i, i + 1)), R[V.choice('r', len(R))]) for i in range(n)]
        W.f._need_synchronize = W.K.dirty = bool(V.choice('changed', 2))
        c_physical(W, W.set([t for t, g in P], [g for t, g in P]), P)
    return f
def u_physdim(W, V):
    n = 1 + V.choice('n', 2); R = [W.region(None if V.choice('k', 2) else V.choice('rdim', 4), 'r'), W.region(None, 'q')]
    P = [((V.choice('dim', 4), V.int('t%d' % i, lo=1)), R[V.choice('r', 2)]) for i in range(n)]
    for i in range(n):
        for j in range(i): V.assume(P[i][0][1] != P[j][0][1])
    c_physical(W, W.set([t for t, g in P], [g for t, g in P]), P)
NAMES = (['a', 'b', 'a', 'c'], ['a', ' a', 'a ', ' a', 'a '], ['', 'A', 'a', '', 'A'], ['r.1', 'r_1', 'r', 'r.1'], ['x' * 70 + '1', 'x' * 70 + '2', 'x' * 70 + '1'], ['\u017eula', 'zula', '\u017eula', '{}'], ['0', '00', '0'])
def u_names(W, V):
    L = NAMES[V.choice('names', len(NAMES))]; L = L[:1 + V.choice('n', len(L))]; got = {}
    ids = {}
    for n in L:
        g = W.f.get_region_name(n); V.ensure('name', g.name == n)
        if n in got: V.ensure('asking twice for a name gives the same region', got[n] is g)
        got[n] = g; ids[n] = g.id
        if V.choice('other', 2): h = W.region(None, n); V.ensure('new regions have new numbers', all(h.id != i for i in ids.values()) and h is not g)
    V.ensure('distinct regions have distinct numbers', len(set(ids.values())) == len(ids))
def u_keep(W, V):
    W.K.ents = [(3, 1), (3, 2), (2, 5), (0, 1)]
    P = [(e, W.region()) for e in W.K.ents if V.choice('keep', 2)]
    W.f._need_synchronize = W.K.dirty = bool(V.choice('changed', 2))
    k = V.choice('how', 3)
    if k == 0: W.f.keep_only(W.set([t for t, g in P], [g for t, g in P])); want = {t for t, g in P}
    elif k == 1: W.f.keep_only(W.set([t for t, g in P[:1]], [g for t, g in P[:1]]), W.set([t for t, g in P[1:]], [g for t, g in P[1:]])); want = {t for t, g in P}
    else: W.f.keep_only(); want = set()
    V.ensure('everything else is removed', set(W.K.removed) == set(W.K.ents) - want)
    W.f.synchronize(); V.ensure('the removal reaches the mesher', not W.K.dirty)
def u_mesh(W, V):
    W.K.ents = [(3, 1), (3, 2), (2, 5)]
    R = [W.region(None, 'a'), W.region(None, 'b')]
    A = [((3, 1), R[0])]; B = [((2, 5), R[1])]
    S = [W.set([t for t, g in q], [g for t, g in q]) for q in (A, B)][:1 + V.choice('sets', 2)]
    W.f._need_synchronize = W.K.dirty = bool(V.choice('changed', 2))
    el = V.choice('eliminate', 2); kw = {} if el else dict(eliminate=False)
    W.f.make_mesh(S, **kw)
    P = (A + B)[:len(S)]
    V.ensure('a group per region', sorted(W.K.groups.values()) == sorted((t[0], [t[1]]) for t, g in P)); V.ensure('names', sorted(W.K.names.values()) == sorted((t[0], g.name) for t, g in P))
    V.ensure('other entities are removed', set(W.K.removed) == (set(W.K.ents) - {t for t, g in P} if el else set()))
    V.ensure('meshed', W.K.meshed == 3)
def u_new(W, V):
    f = W.f; k = V.choice('kind', 6)
    if k == 0: d = V.choice('dim', 4); o = f.make_simplex(d)
    elif k == 1: o = f.rectangle(); d = 2
    elif k == 2: L = [2, 3]; o = f.rectangle(L); d = 2; V.ensure('arguments are kept', L == [2, 3])
    elif k == 3: o = f.box([1, 2, 3], [0, 0, 1]); d = 3
    elif k == 4: o = f.cylinder(2, [0, 1, 0]); d = 3
    else: o = f.make_polygon([(0, 0, 0), (1, 0, 0), (1, 1, 0)]); d = 2
    if k == 1: o2 = f.rectangle()
    V.ensure('a single entity of its dimension with the default region', len(o.dim_tags) == 1 and o.dim_tags[0][0] == d and len(o.regions) == 1 and o.regions[0] is W.G.Region.default_region[d])
    V.ensure('default regions have their dimension', W.G.Region.default_region[d].dim == d)
    f.synchronize(); V.ensure('the new entity reaches the model', not W.K.dirty)
def u_move(W, V):
    s, P = draw(W, V, 'a', 2, dims=(3,), nmin=1)
    k = V.choice('op', 3); x = [V.real('x%d' % i) for i in range(3)]; c = [V.real('c%d' % i) for i in range(3)]; al = V.real('al')
    dt = [t for t, g in P]
    if k == 0: r = s.translate(x); want = ['translate', *x]
    elif k == 1: r = s.rotate(x, al, c); want = ['rotate', *c, *x, al]
    else: r = s.scale(x, c); want = ['dilate', *c, *x]
    a = W.K.calls[-1]
    V.ensure('moved by the kernel', a[0] == want[0] and tags_multi(a[1], dt) and all(p is q for p, q in zip(a[2:], want[1:])) and len(a) == 1 + len(want))
    V.ensure('the same set', r is s and multi(pairs(s), P)); W.f.synchronize(); V.ensure('the change reaches the model', not W.K.dirty)

S = dict(mods=[MOD]); O = 'ObjectSet.'
def U(name, fn, target, covers=('done',), tags='symbolic', **k): return Unit(name, u(fn, tags), target, covers=list(covers), samples=60, **dict(S, **k))
UNITS = [U('ObjectSet[0..3]', u_init, [O + '__init__', O + 'dimtagreg'], ['done', 'refused']),
    U('group', u_group, 'GeometryOCC.group'), U('copy', u_copy, O + 'copy'), U('GeometryOCC.fragment', u_fragment, ['GeometryOCC.fragment', 'GeometryOCC.group', O + 'invalidate']),
    U('split_by_region', u_splitr, O + 'split_by_region'), U('split_by_dimension', u_splitd, O + 'split_by_dimension'),
    U('get_boundary', u_boundary, O + 'get_boundary'), U('get_boundary_per_region', u_bregion, O + 'get_boundary_per_region'),
    U('set_region', u_setreg, [O + 'set_region', 'Region.complete', 'GeometryOCC.get_region_name'], ['done', 'refused']),
    U('modify_regions', u_modify, O + 'modify_regions'), U('set_region_from_dimtag', u_dimtag, O + 'set_region_from_dimtag', tags='concrete'),
    U('remove_small_mass', u_mass, O + 'remove_small_mass'), U('select_by_intersect', u_select, O + 'select_by_intersect'), U('split_by_cut', u_cutsplit, O + 'split_by_cut', tags='concrete', deadline=100),
    U('physical groups: dimensions', u_physdim, ['GeometryOCC._assign_physical_groups', 'Region.complete'], ['done', 'refused']), U('region names', u_names, ['GeometryOCC.get_region_name', 'Region.get', 'Region.get_region_id']),
    U('keep_only', u_keep, 'GeometryOCC.keep_only'), U('make_mesh', u_mesh, 'GeometryOCC.make_mesh'), U('new objects', u_new, ['GeometryOCC.make_simplex', 'GeometryOCC.rectangle', 'GeometryOCC.box', 'GeometryOCC.cylinder', 'GeometryOCC.make_polygon', 'GeometryOCC.object', 'GeometryOCC.synchronize'], mods=[]),
    U('moving', u_move, [O + 'translate', O + 'rotate', O + 'scale'])]
for nm in ('cut', 'intersect', 'fragment'): UNITS.append(U(nm, u_bool(nm), [O + nm, O + '_apply_operation']))
for i, names in enumerate((['a', 'b', 'a'], ['x', 'x', 'x_0'], ['x_1', 'x', 'x'], ['x', 'x_0', 'x_0', 'x'])):
    UNITS.append(U('physical groups: names %s' % names, u_physical(names), ['GeometryOCC._assign_physical_groups', 'Region.set_unique_name'], tags='concrete'))

# ------------------------------------------------------------------ bounded: histories over a random kernel, and the real kernel
class E:
    """harness as the environment of the contracts"""
    def __init__(self, H, R): self.H, self.R, self.symbolic = H, R, False
    def ensure(self, lab, c): self.H.check(c, lab, lambda: self.trace())
    def trace(self): return repr(self.log)
    def cover(self, l): pass
    def choice(self, n, k): return self.R.randrange(k)
    def int(self, name, lo=None, hi=None): return self.R.randrange(1, 1000)
    def real(self, name, lo=None, hi=None): return self.R.choice([0, 1, 2, 3, 4])
def bounded(H):
    k = 0
    if H.shard == 0: return real(H)
    while H.time_left():
        R = H.rng(k); k += 1
        env = E(H, R); env.log = log = []
        W = World(env, 'concrete')
        W.K.maxparts = 2
        try: history(H, W, R, log)
        finally: W.end()
        H.check(not W.K.stale, 'questions are asked about the synchronised model', repr(log))
def history(H, W, R, log):
    pool = []        # (set, pairs)
    H.case(log, None)
    def regof(d):
        k = R.randrange(4)
        if k == 0: return W.f.get_region_name(R.choice(['n%d_%d', 'N%d_%d', 'n%d_%d ', 'n%d.%d']) % (d, R.randrange(2)))
        if k == 1: return W.region(None, R.choice(['a', 'a_0', 'a_1', 'b']))
        return W.region(d, R.choice(['a', 'a_0', 'b']))
    def new():
        n = R.randrange(0 if pool else 1, 5); P = []; regs = {}
        one = R.random() < .6; d0 = R.randrange(1, 4)
        for i in range(n):
            d = d0 if one else R.randrange(4); t = W.K.new(d)
            if d not in regs or R.random() < .4: regs.setdefault(d, []).append(regof(d))
            P.append((t, R.choice(regs[d])))
        pool.append((W.set([t for t, g in P], [g for t, g in P]), P)); log.append(('new', [(t, g.name) for t, g in P]))
    def add(s): pool.append((s, pairs(s)))
    def drop(x):
        for i, y in enumerate(pool):
            if y is x: del pool[i]; return
    def alive(): # entity regions may have been completed to a dimension; regions of a set keep one dimension
        return [x for x in pool if x[0].dim_tags is not None]
    new(); new()
    for step in range(R.randrange(3, 12)):
        pool[:] = alive()
        while len(pool) < 3: new()
        op = R.choice(['group', 'copy', 'gfragment', 'cut', 'intersect', 'fragment', 'splitr', 'splitd', 'boundary', 'bregion', 'setreg', 'modify', 'dimtag', 'mass', 'select', 'splitcut', 'physical', 'names'])
        x = R.choice(pool); others = [y for y in pool if y is not x]
        tools = R.sample(others, R.randrange(1, 3))
        S, P = x
        log.append((op, pool.index(x), [pool.index(t) for t in tools]))
        okdim = lambda P: all(len({t[0] for t, h in P if h is g} | ({g.dim} if g.dim is not None else set())) == 1 for t, g in P)
        if op == 'group': add(c_group(W, [S] + [t for t, p in tools], [P] + [p for t, p in tools]))
        elif op == 'copy': add(c_copy(W, S, P))
        elif op == 'gfragment':
            o = [x] + tools
            for r in c_fragment(W, [s for s, p in o], [p for s, p in o]): add(r)
            for y in o: drop(y)
        elif op in ('cut', 'intersect', 'fragment'):
            add(c_bool(W, op, S, P, [t for t, p in tools], [p for t, p in tools])); drop(x)
        elif op == 'splitr':
            if okdim(P):
                for r in c_split_region(W, S, P): add(r)
        elif op == 'splitd':
            if okdim(P):
                for r in c_split_dim(W, S, P): add(r)
        elif op == 'boundary':
            if P: add(c_boundary(W, S, P, R.random() < .5))
        elif op == 'bregion':
            if P and okdim(P) and all(t[0] > 0 for t, g in P):
                for r in c_boundary_region(W, S, P, '.{}'): add(r)
        elif op == 'setreg':
            reg = R.choice(['q%d' % R.randrange(3), W.region(None, 'a'), regof(R.randrange(4))])
            if c_set_region(W, S, P, reg) is None and isinstance(reg, str): W.f._region_names.pop(reg, None)
            drop(x); pool.append((S, pairs(S)))
        elif op == 'modify': c_modify(W, S, P, 'm{}'); drop(x); pool.append((S, pairs(S)))
        elif op == 'dimtag': c_from_dimtag(W, S, P); drop(x); pool.append((S, pairs(S)))
        elif op == 'mass': c_small_mass(W, S, P, R.choice([0, 1, 2.5])); drop(x); pool.append((S, pairs(S)))
        elif op == 'select':
            if not dup(P):
                r = c_select(W, S, P, [t for t, p in tools], [p for t, p in tools])
                if r is not None: add(r)
        elif op == 'splitcut':
            if P or any(p for t, p in tools):
                for r in c_split_cut(W, S, P, [t for t, p in tools], [p for t, p in tools]): add(r)
                drop(x)
                if len(tools) == 1: drop(tools[0])
        elif op == 'physical': c_physical(W, S, P); return
        elif op == 'names':
            n = R.choice(['n1_0', 'zz', 'zz ', 'ZZ', '']); H.check(W.f.get_region_name(n) is W.f.get_region_name(n), 'asking twice for a name gives the same region')
        # other sets are as they were
        for s, p in pool:
            if s.dim_tags is not None: H.check(multi(pairs(s), p), 'other sets are kept', repr(log))
    H.distinct.add(repr(log))
def real(H):
    """boxes with the real kernel: every fragment lies in the box whose region it has, all volume is kept, the mesh file lists every element once under its region"""
    import gmsh, os, tempfile, contextlib, io
    G = mod()
    G.GeometryOCC.__del__ = lambda s: None
    with contextlib.redirect_stdout(io.StringIO()): f = G.GeometryOCC('verif')
    gmsh.option.setNumber('General.AbortOnError', 0)
    IO = importlib.import_module('bgem.gmsh.gmsh_io').GmshIO
    k = 0
    while H.time_left():
        R = H.rng('real', k); k += 1
        gmsh.clear(); f._region_names = {}; f._need_synchronize = False
        B = []
        for i in range(R.randrange(2, 5)):
            c = [R.choice([0, .5, 1, 1.5, 3]) for j in range(3)]; s = [R.choice([1, 1.5, 2]) for j in range(3)]
            B.append((c, s))
        names = ['r%d' % R.randrange(3) for b in B]
        op = R.choice(['fragment', 'fragment', 'cut', 'intersect', 'setfragment', 'splitcut'])
        H.case(dict(op=op, boxes=B, regions=names), repr((op, B, names)))
        O = [f.box(s, c).set_region(n) for (c, s), n in zip(B, names)]
        inside = lambda p, b: all(abs(x - m) <= l / 2 - 1e-9 for x, m, l in zip(p, *b))
        vol = lambda b: b[1][0] * b[1][1] * b[1][2]
        def mid(t): return f.model.getCenterOfMass(*t)
        if op == 'fragment':
            Rs = f.fragment(*O)
            for b, n, r in zip(B, names, Rs):
                H.check(len(r.regions) == len(r.dim_tags) and all(g.name == n for g in r.regions), 'real kernel: regions of fragments')
                H.check(all(inside(mid(t), b) for t in r.dim_tags), 'real kernel: fragments lie in their box'); H.close(r.mass(), vol(b), 'real kernel: nothing lost', tol=1e-6)
            # union of regions in the mesh
            if k % 3 == 0 and len({frozenset(s.dim_tags) for s in Rs}) :
                ent = {}
                for r, n in zip(Rs, names):
                    for t in r.dim_tags: ent.setdefault(t, set()).add(n)
                if all(len(v) == 1 for v in ent.values()):
                    f.box([1, 1, 1], [9, 9, 9])
                    gmsh.option.setNumber('Mesh.MeshSizeMax', 1.0); gmsh.option.setNumber('Mesh.MeshSizeMin', 1.0)
                    with contextlib.redirect_stdout(io.StringIO()):
                        f.make_mesh(Rs)
                        d = tempfile.mkdtemp(); fn = os.path.join(d, 'm.msh2')
                        gmsh.option.setNumber('Mesh.MshFileVersion', 2.2); f.write_mesh(fn)
                        m = IO(fn)
                    os.remove(fn); os.rmdir(d)
                    tag = {v[0]: n.strip('"') for n, v in m.physical.items()}
                    H.check(sorted(tag.values()) == sorted({n for v in ent.values() for n in v}), 'real kernel: regions of the mesh', lambda: '%s %s' % (tag, ent))
                    seen = set()
                    for e, (ty, tg, nd) in m.elements.items():
                        p = [sum(m.nodes[q][c] for q in nd) / len(nd) for c in range(3)]
                        key = tuple(sorted(nd)); H.check(key not in seen, 'real kernel: an element is written once'); seen.add(key)
                        H.check(any(n == tag[tg[0]] and inside(p, b) for b, n in zip(B, names)), 'real kernel: elements lie in their region')
                    H.count('meshes')
        elif op in ('cut', 'intersect', 'setfragment'):
            S, P = f.group(*O[:-1]) if len(O) > 2 else O[0], None
            if len(O) > 2 and op != 'setfragment' and any(overlap(B[i], B[j]) for i in range(len(B) - 1) for j in range(i)): continue
            r = getattr(S, op.replace('set', ''))(O[-1])
            H.check(len(r.regions) == len(r.dim_tags), 'real kernel: pairing')
            for t, g in r.dimtagreg():
                p = mid(t)
                H.check(any(n == g.name and inside(p, b) for b, n in zip(B[:-1], names)), 'real kernel: region of the source')
                if op == 'intersect': H.check(inside(p, B[-1]), 'real kernel: ' + op)
            if op != 'setfragment':
                for n in set(names[:-1]):
                    w = sum(common(b, B[-1]) if op == 'intersect' else vol(b) - common(b, B[-1]) for b, m in zip(B[:-1], names) if m == n)
                    H.close(sum(f.model.getMass(*t) for t, g in r.dimtagreg() if g.name == n), w, 'real kernel: volume per region', tol=1e-6)
            H.check(O[-1].dim_tags is not None and abs(O[-1].mass() - vol(B[-1])) < 1e-6, 'real kernel: the tool is kept')
        else:
            a, b, ia, ib = O[0].split_by_cut(O[1])
            for s, ina, inb, n in ((a, 1, 0, names[0]), (b, 0, 1, names[1]), (ia, 1, 1, names[0]), (ib, 1, 1, names[1])):
                for t, g in s.dimtagreg():
                    p = mid(t); H.check((not ina or inside(p, B[0])) and (not inb or inside(p, B[1])) and g.name == n, 'real kernel: split_by_cut', lambda: '%s %s' % (t, g))
            H.close(ia.mass(), common(*B[:2]), 'real kernel: intersection', tol=1e-6); H.close(ib.mass(), common(*B[:2]), 'real kernel: intersection', tol=1e-6)
            H.close(a.mass() + ia.mass(), vol(B[0]), 'real kernel: nothing lost', tol=1e-6); H.close(b.mass() + ib.mass(), vol(B[1]), 'real kernel: nothing lost', tol=1e-6)
def common(a, b):
    r = 1
    for x, y, l, m in zip(a[0], b[0], a[1], b[1]): r *= max(0, min(x + l / 2, y + m / 2) - max(x - l / 2, y - m / 2))
    return r
def overlap(a, b): return all(abs(x - y) < (l + m) / 2 - 1e-9 for x, y, l, m in zip(a[0], b[0], a[1], b[1]))

LEVEL = 'proof'
BSECS = 8; SHARDS = 4
BOUND = 'units: sets of up to 3 entities and 3 regions with arbitrary tags and all answers of the kernel with up to 2 parts per entity; histories of up to 12 operations over a random kernel; boxes with the real kernel'
TRUSTED = ["the geometry kernel answers as gmsh documents: copy and the maps of boolean operations list the results in the order of the given entities"]
NOTE = 'contracts proved per operation for arbitrary tags and kernel answers, sizes bounded by 3 entities (all-size units where stated); histories and the real kernel are sampled'
