"""Contracts of brep_writer: indexing (every reachable part once, before it is referenced) and the file as a whole.

Ghost state of one indexing: inn(o, v) "object o is indexed at moment v", pos(o) its place in the list of its group. The contract
of x._dfs(groups), used for the parts of an object (induction over the model, which has no cycles):
   what was indexed stays so, x and all its parts are indexed, and parts of the same group come before x."""
import importlib
from pyvc.unit import Unit, need
from checks.brepu import MOD, bw, cnt, glist, new, call, T, Ref, out, genum
class Code:
    def __init__(self, t): self.t = t
class World:
    """ghost lists and set given to the code as `groups`"""
    def __init__(self, V):
        from pyvc import core
        import z3
        self.V, self.v, self.events, self.tracked = V, 0, [], []
        self.f = z3.Function('indexed', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.groups = {k: GrpList(self, k) for k in ('locations', 'curves_2d', 'curves_3d', 'surfaces', 'shapes')}
        self.groups['visited'] = Visited(self)
        self.pairs = []          # (parent, part, same group): assumed before and after every call, proved in the end
    def inn(self, o, v=None):
        from pyvc import core
        return core.SBool(self.f(core.term(o.vc_code), core.z3.IntVal(self.v if v is None else v)))
    def pos(self, o):
        from pyvc import ghost as g
        return g.ufi('pos', o.vc_code)
    def track(self, *os):
        """objects followed over the calls"""
        for o in os:
            if any(o is x for x in self.tracked): continue
            self.tracked.append(o)
    def indexed(self, o):
        from pyvc import core
        return core.sor(self.inn(o), o.vc_ident) if getattr(o, 'vc_ident', None) is not None else self.inn(o)
    def inv(self, p):
        """a parent that is indexed has this part indexed, before itself if in the same group"""
        from pyvc import core
        a, c, same = p
        r = self.indexed(c)
        if same: r = core.sand(r, core.sor(self.pos(c) < self.pos(a), c.vc_ident) if getattr(c, 'vc_ident', None) is not None else self.pos(c) < self.pos(a))
        return core.simplies(self.inn(a), r)
    def assume_inv(self):
        from pyvc import core
        for p in self.pairs: self.V.ctx.add(core.bterm(self.inv(p)))
        for g_, L in self.groups.items():
            if g_ == 'visited': continue
            for o in self.tracked:
                if o.vc_group == g_: self.V.ctx.add(core.bterm(core.simplies(self.inn(o), core.sand(self.pos(o) >= 1, self.pos(o) <= L.len()))))
    def tick(self, x=None):
        """a call: anything may have been indexed; x surely is"""
        from pyvc import core
        if x is not None: self.track(x)
        v = self.v; lens = {k: L.len() for k, L in self.groups.items() if k != 'visited'}
        self.v += 1
        for o in self.tracked: self.V.ctx.add(core.bterm(core.simplies(self.inn(o, v), self.inn(o))))
        for k, n in lens.items(): self.V.ctx.add((self.groups[k].len() >= n).t)
        if x is not None: self.V.ctx.add(core.bterm(self.indexed(x)))
        self.assume_inv()
    def state(self): return (self.v, len(self.events))
class GrpList:
    def __init__(self, W, k): self.W, self.k = W, k
    def len(self):
        from pyvc import ghost as g
        n = g.ufi('len_' + self.k, self.W.v); self.W.V.ctx.add((n >= 0).t); return n
    def vc_len(self): return self.len()
    def append(self, x):
        from pyvc import core
        W = self.W; W.track(x)
        n = self.len(); v = W.v
        W.v += 1
        for o in W.tracked: W.V.ctx.add(core.bterm(W.inn(o, v)) == core.bterm(W.inn(o)))
        for k, L in W.groups.items():
            if k == 'visited': continue
            W.V.ctx.add((core.SInt(core.term(L.len())) == old(W, k, v) + (1 if k == self.k else 0)).t)
        W.V.ctx.add((W.pos(x) == self.len()).t)
        W.events.append((self.k, x))
    def __getattr__(self, a):
        from pyvc import core
        raise core.Unsupported('use of a group: ' + a)
def old(W, k, v):
    from pyvc import ghost as g
    return g.ufi('len_' + k, v)
class Visited:
    def __init__(self, W): self.W = W
    def __contains__(self, c):
        from pyvc import core
        if not isinstance(c, Code): raise core.Unsupported('visited objects are not kept by id()')
        return core.CTX.fork(self.W.f(core.term(c.t), core.z3.IntVal(self.W.v)))
    def add(self, c):
        from pyvc import core
        if not isinstance(c, Code): raise core.Unsupported('visited objects are not kept by id()')
        W = self.W; v = W.v; W.v += 1
        for o in W.tracked: W.V.ctx.add(core.bterm(W.inn(o)) == core.bterm(core.sor(W.inn(o, v), o.vc_code == c.t)))
        for k, L in W.groups.items():
            if k != 'visited': W.V.ctx.add((L.len() == old(W, k, v)).t)
def gid(o):
    if hasattr(o, 'vc_code'): return Code(o.vc_code)
    from pyvc import core
    raise core.Unsupported('id of an unexpected object')
EX = {MOD: dict(id=gid)}
def mark(o, code, group, ident=None):
    o.vc_code, o.vc_group = code, group
    if ident is not None: o.vc_ident = ident
    return o
class Part:
    """a part given by its contract"""
    def __init__(self, W, code, group, ident=None):
        self.W = W; mark(self, code, group, ident)
    def _dfs(self, groups):
        from pyvc import core
        if groups is not self.W.groups: self.W.V.ensure('the same index is used', False)
        self.W.tick(self); self.W.called = getattr(self.W, 'called', []) + [self]
def part(W, name, group, *i, loc=False):
    from pyvc import ghost as g
    return Part(W, g.ufi(name, *i), group, (g.ufi(name + '_identity', *i) == 1) if loc else None)
def distinct(V, *os):
    from pyvc import core
    for i, a in enumerate(os):
        for b in os[:i]:
            if a.vc_group != b.vc_group: V.ctx.add((a.vc_code != b.vc_code).t)

def assign(V):
    from pyvc import core
    b = bw(); W = World(V)
    k = ['locations', 'curves_2d', 'curves_3d', 'surfaces', 'shapes'][V.choice('group', 5)]
    o, other = mark(Ref(V.int('old_id')), V.int('code'), k), mark(Ref(0), V.int('other'), k)
    V.assume(o.vc_code != other.vc_code)
    W.track(o, other); W.assume_inv()
    n0, in0, oth0, id0 = W.groups[k].len(), W.inn(o), W.inn(other), o.id
    b._assign_id(o, W.groups, k)
    was = core.CTX.fork(core.bterm(in0))
    V.ensure('indexed afterwards', W.inn(o))
    V.ensure('other objects are left alone', core.bterm(W.inn(other)) == core.bterm(oth0))
    if was: V.ensure('an indexed object keeps its number and place', not W.events and o.id is id0); V.cover('again')
    else:
        V.ensure('appended to its group once', len(W.events) == 1 and W.events[0][0] == k and W.events[0][1] is o)
        V.ensure('its number is its place', core.sand(o.id == n0 + 1, W.groups[k].len() == n0 + 1)); V.cover('new')

def run_dfs(V, W, o, f, specs=None):
    """call the real _dfs of o and check what it appended"""
    from pyvc import loops, core
    was = W.inn(o)
    (loops.contract(f, specs) if specs else f)(o, W.groups)
    V.ensure('indexed afterwards', W.inn(o))
    mine = [e for e in W.events]
    if core.CTX.fork(core.bterm(was)): V.ensure('an indexed object is not listed again', not mine); return True
    V.ensure('listed once in its group', len(mine) == 1 and mine[0][0] == o.vc_group and mine[0][1] is o)
    V.ensure('its number is its place in the group', o.id == W.pos(o))
    return False
def loop_over(W, k, tracked, name, extra=None):
    """loop calling _dfs of the parts of each element: parts of an arbitrary earlier element k are indexed"""
    from pyvc import loops, core
    def inv(L):
        i = L['__i']
        r = [('parts of the elements before are indexed', core.simplies(k < i, core.sand(*[W.indexed(x) for x in tracked])))]
        r += [('nothing else is listed', len(W.events) == W.ev0)]
        return r
    def havoc(L):
        W.tick(); return {}
    return loops.Spec(inv, havoc, variant=lambda L: L['__n'] - L['__i'], name=name, kind='for')
def acyclic(V, W, o):
    """indexing a part does not index the object itself"""
    from pyvc import core
    tick = W.tick
    def tick2(x=None):
        v = W.v; tick(x); V.ctx.add(core.bterm(W.inn(o)) == core.bterm(W.inn(o, v)))
    W.tick = tick2
def simple(V):
    b = bw(); W = World(V)
    cls, k = [(b.Location, 'locations'), (b.Curve2D, 'curves_2d'), (b.Curve3D, 'curves_3d'), (b.Surface, 'surfaces')][V.choice('kind', 4)]
    o = mark(new(cls, id=V.int('old')), V.int('code'), k)
    if cls is b.Location: o.matrix = [[1]]
    W.track(o); W.assume_inv()
    run_dfs(V, W, o, cls._dfs)
    if cls is b.Location:
        i = b.Location(); n = len(W.events); i._dfs(W.groups)
        V.ensure('the identity is never listed', len(W.events) == n and i.id == 0)
    V.cover('done')
def composed(V):
    from pyvc import ghost as g
    b = bw(); W = World(V)
    n, k = cnt(V, 'n'), V.int('k', lo=0); V.assume(k < n)
    at = lambda i: part(W, 'factor', 'locations', i, loc=True)
    o = mark(new(b.ComposedLocation, location_powers=glist('factor', n, lambda i: (at(i), g.ufi('power', i))), id=V.int('old')), V.int('code'), 'locations')
    c = at(k); V.ctx.add((c.vc_code != o.vc_code).t)
    W.track(o, c); W.pairs = [(o, c, True)]; W.assume_inv(); W.ev0 = 0
    acyclic(V, W, o)
    run_dfs(V, W, o, b.ComposedLocation._dfs, {0: loop_over(W, k, [c], 'factors')})
    V.ensure('factors are listed before', W.inv((o, c, True))); V.cover('done')
def shape(V):
    from pyvc import core
    b = bw(); W = World(V)
    n, k = cnt(V, 'n'), V.int('k', lo=0); V.assume(k < n)
    ch = lambda i: part(W, 'child', 'shapes', i)
    lo = lambda i: part(W, 'child_location', 'locations', i, loc=True)
    o = mark(new(b.Compound, childs=glist('child', n, lambda i: new(b.ShapeRef, shape=ch(i), location=lo(i), orientation=b.Orient.Forward)), id=V.int('old')), V.int('code'), 'shapes')
    c, l = ch(k), lo(k); V.ctx.add((c.vc_code != o.vc_code).t); distinct(V, o, c, l)
    p, q = part(W, 'some_shape', 'shapes'), part(W, 'its_child', 'shapes')        # any other shape and a child of it
    V.assume(p.vc_code != o.vc_code); V.assume(p.vc_code != q.vc_code)
    W.track(o, c, l, p, q); W.pairs = [(p, q, True)]
    own = [(o, c, True), (o, l, False)]
    for x in own: V.ctx.add(core.bterm(W.inv(x)))
    W.assume_inv(); W.ev0 = 0
    acyclic(V, W, o)
    run_dfs(V, W, o, b.Shape._dfs, {0: loop_over(W, k, [c, l], 'children')})
    for x in own: V.ensure('children and their locations are listed, children before', W.inv(x))
    V.ensure('other shapes keep their children listed before', W.inv((p, q, True)))
    V.cover('done')
def stub_shape_dfs(W, o, own):
    def f(self, groups):
        W.tick(o)
        for x in own: W.V.ctx.add(W_b(W, x))
    return f
def W_b(W, x):
    from pyvc import core
    return core.bterm(W.inv(x))
def with_shape_dfs(b, f, body):
    s = b.Shape._dfs; b.Shape._dfs = f
    try: return body()
    finally: b.Shape._dfs = s
def edge(V):
    from pyvc import ghost as g, rec, loops, core
    b = bw(); W = World(V)
    n, k = cnt(V, 'n'), V.int('k', lo=0); V.assume(k < n)
    parts = {}
    def at(i):
        d = V.choice('repr', 2)
        l = part(W, 'location', 'locations', i, loc=True)
        if d: r = (b.Edge.Repr.Curve3d, (0., 1.), part(W, 'curve3', 'curves_3d', i), l)
        else: r = (b.Edge.Repr.Curve2d, (0., 1.), part(W, 'curve2', 'curves_2d', i), part(W, 'surface', 'surfaces', i), l)
        return r
    at = rec.memo(at)
    o = mark(new(b.Edge, repr=glist('repr', n, at), id=V.int('old')), V.int('code'), 'shapes')
    P = [x for x in at(k)[2:]]
    def implicit():
        V.ensure('an own line only without representation', n == 0); o.repr = [(b.Edge.Repr.Curve3d, (0., 1.), part(W, 'line', 'curves_3d'), part(W, 'line_location', 'locations', loc=True))]; P[:] = o.repr[0][2:]
    o.implicit_curve = implicit
    W.track(o, *P); W.assume_inv(); W.ev0 = 0
    with_shape_dfs(b, stub_shape_dfs(W, o, []), lambda: loops.contract(b.Edge._dfs, {0: loop_over(W, k, P, 'representations')})(o, W.groups))
    V.ensure('the edge is indexed', W.inn(o))
    for x in P: V.ensure('curves, surfaces and locations of every representation are listed', W.indexed(x))
    V.cover('done')
def edge0(V):
    from pyvc import loops
    b = bw(); W = World(V)
    o = mark(new(b.Edge, repr=[], id=V.int('old')), V.int('code'), 'shapes')
    c, l = part(W, 'line', 'curves_3d'), part(W, 'line_location', 'locations', loc=True)
    def implicit(): o.repr.append((b.Edge.Repr.Curve3d, (0., 1.), c, l))
    o.implicit_curve = implicit
    W.track(o, c, l); W.assume_inv()
    with_shape_dfs(b, stub_shape_dfs(W, o, []), lambda: b.Edge._dfs(o, W.groups))
    V.ensure('the edge gets a line of its own', len(o.repr) == 1)
    for x in (o, c, l): V.ensure('and it is listed', W.indexed(x))
    V.cover('done')
def vertex(V):
    from pyvc import ghost as g, rec, loops
    b = bw(); W = World(V)
    n, k = cnt(V, 'n'), V.int('k', lo=0); V.assume(k < n)
    def at(i):
        d = V.choice('repr', 3)
        l = part(W, 'location', 'locations', i, loc=True); s = part(W, 'surface', 'surfaces', i)
        if d == 0: return (b.Vertex.Repr.Curve3d, 0., part(W, 'curve3', 'curves_3d', i), l)
        if d == 1: return (b.Vertex.Repr.Curve2d, 0., part(W, 'curve2', 'curves_2d', i), s, l)
        return (b.Vertex.Repr.Surface, 0., 0., s, l)
    at = rec.memo(at)
    o = mark(new(b.Vertex, repr=glist('repr', n, at), id=V.int('old')), V.int('code'), 'shapes')
    P = [x for x in at(k) if isinstance(x, Part)]
    W.track(o, *P); W.assume_inv(); W.ev0 = 0
    with_shape_dfs(b, stub_shape_dfs(W, o, []), lambda: loops.contract(b.Vertex._dfs, {0: loop_over(W, k, P, 'representations')})(o, W.groups))
    V.ensure('the vertex is indexed', W.inn(o))
    for x in P: V.ensure('curves, surfaces and locations of every representation are listed', W.indexed(x))
    V.cover('done')
def face(V):
    """own surface; edges may get representations while the surface is made: they are indexed once more afterwards"""
    from pyvc import ghost as g, loops, core
    import z3
    b = bw(); W = World(V)
    nw, kw, ke = cnt(V, 'n_wires'), V.int('kw', lo=0), V.int('ke', lo=0)
    V.assume(kw < nw); ne = lambda i: cnt(V, 'n_edges', i); V.assume(ke < ne(kw))
    full = z3.Function('all_parts_listed', z3.IntSort(), z3.IntSort(), z3.BoolSort())
    F = lambda e, v=None: core.SBool(full(core.term(e.vc_code), z3.IntVal(W.v if v is None else v)))
    class EdgePart(Part):
        def _dfs(self, groups):
            Part._dfs(self, groups); V.ctx.add(core.bterm(F(self)))
    ed = lambda i, j: EdgePart(W, g.ufi('edge', i, j), 'shapes')
    class WirePart(Part):
        def subshapes(self): return glist(('edge', self.i), ne(self.i), lambda j: ed(self.i, j))
    def wire(i): w = WirePart(W, g.ufi('wire', i), 'shapes'); w.i = i; return w
    e, e2 = ed(kw, ke), Part(W, V.int('edge elsewhere'), 'shapes')
    tick = W.tick
    def tick2(x=None):
        v = W.v; tick(x)
        for y in (e, e2): V.ctx.add(core.bterm(core.simplies(F(y, v), F(y))))
    W.tick = tick2
    has = V.choice('surface', 2)
    s, l = part(W, 'surface', 'surfaces'), part(W, 'location', 'locations', loc=True)
    o = mark(new(b.Face, repr=[(s, l)] if has else [], id=V.int('old')), V.int('code'), 'shapes')
    o.subshapes = lambda: glist('wire', nw, wire)
    V.assume(e2.vc_code != e.vc_code)
    W.track(o, e, e2, s, l); W.assume_inv(); W.ev0 = 0
    f2 = F(e2)
    def implicit():
        V.ensure('an own surface only without one', not has)
        o.repr = [(s, l)]
        v = W.v; W.v += 1       # representations of edges of the face are added: only these may have unlisted parts
        for y in W.tracked: V.ctx.add(core.bterm(W.inn(y, v)) == core.bterm(W.inn(y)))
        V.ctx.add(core.bterm(F(e2, v)) == core.bterm(F(e2)))
        W.assume_inv()
    o.implicit_surface = implicit
    def inv_w(L): return [('edges of the wires before are complete', core.simplies(kw < L['__i'], F(e))), ('surface stays listed', core.sand(W.indexed(s), W.indexed(l), W.inn(o))), ('edges elsewhere', core.simplies(f2, F(e2)))]
    def inv_e(L): return [('edges before are complete', core.simplies(core.sor(core.sand(cur(L) == kw, ke < L['__i']), kw < cur(L)), F(e))), ('surface stays listed', core.sand(W.indexed(s), W.indexed(l), W.inn(o))), ('edges elsewhere', core.simplies(f2, F(e2)))]
    def cur(L): return L['__seq'].tag[1]
    def havoc(L): W.tick(); return {}
    sp = lambda inv, n: loops.Spec(inv, havoc, variant=lambda L: L['__n'] - L['__i'], name=n, kind='for')
    with_shape_dfs(b, stub_shape_dfs(W, o, []), lambda: loops.contract(b.Face._dfs, {1: sp(inv_w, 'wires'), 2: sp(inv_e, 'edges')})(o, W.groups))
    V.ensure('the face, its surface and its location are indexed', core.sand(W.inn(o), W.indexed(s), W.indexed(l)))
    V.ensure('representations of all its edges are listed', F(e))
    V.ensure('edges elsewhere stay complete', core.simplies(f2, F(e2)))
    V.cover('done')

def index_all(V):
    b = bw(); log = []
    o = new(b.Compound, childs=[])
    def snap(g_): return {k: len(v) for k, v in g_.items()}
    need(b.Shape, '_dfs'); need(b.Location, '_dfs')
    o._dfs = lambda groups: log.append(('root', groups, snap(groups)))
    class L(b.Location):
        def _dfs(self, groups): log.append(('location', groups))
    how = V.choice('location', 2)
    r = o.index_all(L(), ) if how == 0 else o.index_all(location=L())
    V.ensure('the root and its location are indexed into one new index', sorted(x[0] for x in log) == ['location', 'root'] and all(x[1] is r for x in log))
    for x in log:
        if x[0] == 'root': V.ensure('the index starts empty', x[2] == {k: 0 for k in ('locations', 'curves_2d', 'curves_3d', 'surfaces', 'shapes', 'visited')} or log[0][0] == 'location')
    r2 = o.index_all(L()); V.ensure('a new index every time', r2 is not r and all(r2[k] is not r[k] for k in r))
    V.cover('done')

def model(V):
    from pyvc import rec, ghost as g, loops, core
    b = bw()
    N = cnt(V, 'n_shapes'); V.ctx.add((N >= 1).t)
    H = dict(upto=0, ups=[], fixed=False)
    s = out()
    class Shp:
        def __init__(self, i): object.__setattr__(self, 'i', i)
        @property
        def id(self):
            for j, x in reversed(H['ups']):
                if core.CTX.fork((core.lift(j) == self.i).t): return x
            return N - self.i if core.CTX.fork(core.bterm(core.lift(self.i) < H['upto'])) else self.i + 1
        @id.setter
        def id(self, x): H['ups'].append((self.i, x))
        def _brep_output(self, stream, groups):
            V.ensure('written to the given stream with the index of the model', stream is s and groups is GR)
            V.ensure('record k from the end is referenced by the number k', self.id == N - self.i)
            s.write(tok('shapes', self.i) + ' ')
    T_ = {}
    def tok(k, i):
        key = (k, str(core.term(i)))
        if key not in T_: T_[key] = g.stok(g.Name(str(key)))
        return T_[key]
    class Obj:
        def __init__(self, k, i): self.k, self.i = k, i
        def _brep_output(self, stream, groups):
            V.ensure('written to the given stream with the index of the model', stream is s and groups is GR)
            s.write(tok(self.k, self.i) + ' ')
    ns = {k: cnt(V, 'n_' + k) for k in ('locations', 'curves_2d', 'curves_3d', 'surfaces')}
    GR = {k: glist(k, n, lambda i, k=k: Obj(k, i)) for k, n in ns.items()}
    GR['shapes'] = glist('shapes', N, Shp)
    loc = Ref(V.int('location id', lo=0)); log = []
    class Root:
        def index_all(self, location=None): log.append(location); return GR
    def inv(L):
        i = L['__i']
        if H['ups']:
            V.ensure('one number per shape', len(H['ups']) == 1)
            j, x = H['ups'][0]
            V.ensure('the number counts from the end of the list', core.sand(core.lift(j) == i - 1, x == N - (i - 1)))
            H['ups'] = []; H['upto'] = i
        return []
    def havoc(L): H['upto'] = L['__i']; H['ups'] = []; return {}
    st = dict(n=0)
    row = lambda seq, i: [core.CTX.tokens[tok(seq.tag, i)]]
    lab = lambda seq: 'records of ' + seq.tag
    specs = {0: loops.Spec(inv, havoc, variant=lambda L: L['__n'] - L['__i'], name='numbers', kind='for')}
    specs.update({k: rec.cells(s, row, lab) for k in range(1, 6)})
    loops.contract(b.write_model, specs)(s, Root(), loc)
    V.ensure('the root location is indexed', len(log) == 1 and log[0] is loc)
    V.cover('written')
    G = rec.G
    rec.check('file', s, ['DBRep_DrawableShape', 'CASCADE', 'Topology', 'V1,', '(c)', 'Matra-Datavision', 'Locations', ns['locations'], G('locations', ns['locations']),
        'Curve2ds', ns['curves_2d'], G('curves_2d', ns['curves_2d']), 'Curves', ns['curves_3d'], G('curves_3d', ns['curves_3d']), 'Polygon3D', 0, 'PolygonOnTriangulations', 0,
        'Surfaces', ns['surfaces'], G('surfaces', ns['surfaces']), 'Triangulations', 0, 'TShapes', N, G('shapes', N), '+1', loc.id], base_blank=True)

def units():
    k = dict(mods=[MOD], extra=EX, conc=False, allshape=True)
    e = dict(k, extra={MOD: dict(EX[MOD], enumerate=genum)})
    A = ['parts of an object are given by the contract of their own _dfs (induction: a model has no cycles)']
    return [Unit('_assign_id: numbers are places', assign, T('_assign_id'), covers=['again', 'new'], **k),
            Unit('indexing of locations, curves and surfaces', simple, T('Location._dfs', 'Curve2D._dfs', 'Curve3D._dfs', 'Surface._dfs', '_assign_id'), covers=['done'], **k),
            Unit('indexing of a composed location', composed, T('ComposedLocation._dfs', '_assign_id'), covers=['done'], assumes=A, unbounded='number of factors', **k),
            Unit('indexing of a shape: any number of children', shape, T('Shape._dfs', '_assign_id'), covers=['done'], assumes=A, unbounded='number of children', **k),
            Unit('indexing of an edge: any number of representations', edge, T('Edge._dfs'), covers=['done'], assumes=A, unbounded='number of representations', **e),
            Unit('indexing of an edge without representation', edge0, T('Edge._dfs'), covers=['done'], assumes=A, **k),
            Unit('indexing of a vertex: any number of representations', vertex, T('Vertex._dfs'), covers=['done'], assumes=A, unbounded='number of representations', **e),
            Unit('indexing of a face: any number of wires and edges', face, T('Face._dfs'), covers=['done'], assumes=A + ['implicit_surface adds representations to the edges of its face only'], unbounded='numbers of wires and edges', **k),
            Unit('index_all', index_all, T('Shape.index_all'), covers=['done'], conc=False, allshape=True),
            Unit('write_model: any number of records', model, T('write_model'), covers=['written'], unbounded='numbers of all records', **e)]
