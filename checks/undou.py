"""Contracts of undo and redo: the stack, groups and actions for histories of any length, and every undoable operation of
PolygonDecomposition against contracts of the Decomposition operations it calls."""
import importlib
from pyvc.unit import Unit, need
UM, PM, AM, DM = 'bgem.undo', 'bgem.polygons.polygons', 'bgem.polygons.aabb_lookup', 'bgem.polygons.decomp'
def um(): return importlib.import_module(UM)
def pm(): return importlib.import_module(PM)
def core(): from pyvc import core as c; return c

# ------------------------------------------------------------------ the stack, histories of any length
class Boom(Exception): pass
class Act:
    """contract of an action: done in the state before it, undone in the state it led to"""
    def __init__(self, W, i): self.W, self.i = W, i
    def nested(self):
        if self.W.nested: um().stack().append('an action done by undoing or redoing')
        if self.W.fails: raise Boom()
    def undo(self):
        self.W.V.ensure('an action is undone in the state it led to', self.W.s == self.i + 1)
        self.nested(); self.W.s = core().lift(self.i)
    def do(self):
        self.W.V.ensure('an action is redone in the state it was done in', self.W.s == self.i)
        self.nested(); self.W.s = self.i + 1
    def text(self): return 'act'
class Hist:
    """stack of actions: n (any number) below, then those of top"""
    def __init__(self, n, at): self.n, self.at, self.top = n, at, []
    def vc_len(self): return self.n + len(self.top)
    def __bool__(self): return bool(self.vc_len() > 0)
    def append(self, x): self.top.append(x)
    def clear(self): self.n, self.top = core().lift(0), []
    def pop(self):
        if self.top: return self.top.pop()
        if not bool(self.n > 0): raise IndexError('pop from an empty deque')
        self.n = self.n - 1; return self.at(self.n)
    def __getitem__(self, i):
        if i != -1: raise core().Unsupported('element of a history')
        if self.top: return self.top[-1]
        if not bool(self.n > 0): raise IndexError('empty')
        return self.at(self.n - 1)
    def elem(self, j):
        from pyvc import core
        if not self.top or core.CTX.fork(core.bterm(j < self.n)): return self.at(j)
        for k, x in enumerate(self.top[:-1]):
            if core.CTX.fork(core.bterm(j == self.n + k)): return x
        return self.top[-1]
class World: pass
def history(V, receiver=True):
    """a stack in an arbitrary state: k actions in effect, m undone ones"""
    U = um(); st = U.Stack(); U.setstack(st)
    for f in ('_undos', '_redos', '_receiver'): need(st, f)
    W = World(); W.V = V; W.nested = V.choice('an action does others', 2); W.fails = 0
    k, m = V.int('in effect', lo=0), V.int('undone', lo=0)
    W.s, W.k, W.m = k, k, m
    st._undos = Hist(k, lambda j: Act(W, core().lift(j)))
    st._redos = Hist(m, lambda j: Act(W, k + m - 1 - j))
    st._receiver = st._undos
    if receiver and V.choice('recording disabled', 2): st._receiver = None
    W.calls = []
    st.undocallback = lambda: W.calls.append('undo'); st.docallback = lambda: W.calls.append('do')
    return st, W
def stands(V, st, W, k, m, top=None):
    """actions 0..k-1 are in effect and can be undone, the following m can be redone"""
    V.ensure('drawing after as many operations', W.s == k)
    V.ensure('operations to undo', st._undos.vc_len() == k); V.ensure('operations to redo', st._redos.vc_len() == m)
    j = V.int('any')
    V.assume(j >= 0)
    if V.choice('which', 2):
        V.assume(j < k); a = st._undos.elem(j)
        V.ensure('operations are undone in reverse order', isinstance(a, Act) and a.i == j)
    else:
        V.assume(j < m); a = st._redos.elem(j)
        V.ensure('operations are redone in the order undone', isinstance(a, Act) and a.i == k + m - 1 - j)
def u_undo(V):
    st, W = history(V); rec = st._receiver; k, m = W.k, W.m
    st.undo()
    V.ensure('recording goes on as before', st._receiver is rec)
    if bool(k > 0): V.cover('undone'); V.ensure('the listener is told once', W.calls == ['undo']); stands(V, st, W, k - 1, m + 1)
    else: V.cover('nothing to undo'); V.ensure('nothing done', W.calls == []); stands(V, st, W, k, m)
def u_redo(V):
    st, W = history(V); rec = st._receiver; k, m = W.k, W.m
    st.redo()
    V.ensure('recording goes on as before', st._receiver is rec)
    if bool(m > 0): V.cover('redone'); V.ensure('the listener is told once', W.calls == ['do']); stands(V, st, W, k + 1, m - 1)
    else: V.cover('nothing to redo'); V.ensure('nothing done', W.calls == []); stands(V, st, W, k, m)
def u_fail(V):
    """an action that fails: nothing of the history remains"""
    st, W = history(V, receiver=False); W.fails = 1
    c = V.choice('direction', 2)
    V.assume((W.m if c else W.k) > 0)
    try: (st.redo if c else st.undo)(); V.ensure('the failure is reported', False)
    except Boom: V.cover('failed')
    V.ensure('the history is cleared', core().sand(st._undos.vc_len() == 0, st._redos.vc_len() == 0))
    V.ensure('recording goes on', st._receiver is st._undos)
def u_new(V):
    """a new operation"""
    st, W = history(V); k, m = W.k, W.m
    a = Act(W, k); W.s = k + 1
    st.append(a)
    if st._receiver is None:
        V.ensure('nothing is recorded', core().sand(st._undos.vc_len() == k, st._redos.vc_len() == m)); return
    V.cover('recorded'); V.ensure('the listener is told once', W.calls == ['do'])
    stands(V, st, W, k + 1, core().lift(0))
def u_counts(V):
    st, W = history(V); k, m = W.k, W.m
    V.ensure('number of operations to undo', st.undocount() == k); V.ensure('number of operations to redo', st.redocount() == m)
    V.ensure('undo is possible', bool(st.canundo()) == bool(k > 0)); V.ensure('redo is possible', bool(st.canredo()) == bool(m > 0))
    V.ensure('changed before a savepoint', st.haschanged())
    st.savepoint(); V.ensure('unchanged at the savepoint', not bool(st.haschanged()))
    if bool(k > 0):
        st.undo(); V.cover('undone'); V.ensure('changed by undo', bool(st.haschanged()))
        st.redo(); V.ensure('redo brings the savepoint back', not bool(st.haschanged()))
    stands(V, st, W, k, m)
def u_clear(V):
    st, W = history(V)
    st.clear()
    V.ensure('nothing to undo or redo', core().sand(st._undos.vc_len() == 0, st._redos.vc_len() == 0))
def u_group(V):
    """operations inside groups are recorded in the innermost one, a group as one operation outside"""
    U = um(); st, W = history(V, receiver=False); k, m = W.k, W.m
    W.nested = 0
    acts = [object() for _ in range(5)]
    fail = V.choice('failure inside', 2)
    g = U.group('g'); h = U.group('h')
    inner = []
    try:
        with g:
            st.append(acts[0])
            V.ensure('not recorded outside', core().sand(st._undos.vc_len() == k, st._redos.vc_len() == m))
            with h: st.append(acts[1]); st.append(acts[2])
            st.append(acts[3])
            if fail: raise Boom()
        V.ensure('no failure is lost', not fail)
    except Boom: V.ensure('failure is passed on', bool(fail))
    V.cover('failed') if fail else V.cover('left')
    V.ensure('recording goes on outside', st._receiver is st._undos)
    V.ensure('one operation', core().sand(st._undos.vc_len() == k + 1, st._redos.vc_len() == 0))
    top = st._undos.elem(k)
    V.ensure('the group is that operation', top is g)
    inner = list(need(g, '_stack')); sub = list(need(h, '_stack'))
    V.ensure('operations of the group', len(inner) == 3 and inner[0] is acts[0] and inner[1] is h and inner[2] is acts[3])
    V.ensure('operations of the inner group', len(sub) == 2 and sub[0] is acts[1] and sub[1] is acts[2])
def group_loop(V, way):
    """a group of any number of operations"""
    from pyvc import loops, ghost as g
    U = um(); W = World(); W.V = V; W.nested = W.fails = 0
    U.setstack(U.Stack())
    b, n = V.int('before'), V.int('operations', lo=0)
    G = U.group('g'); need(G, '_stack')
    q = g.GList(n, lambda j: Act(W, b + j)); q.tag = 'up'
    G._stack = q
    W.s = b if way == 'do' else b + n
    met = []
    def choose(seq):
        met.append(seq.tag)
        at = lambda L: b + L['__i'] if seq.tag == 'up' else b + n - L['__i']
        def inv(L):
            if W.s is None: W.s = at(L)
            return [('operations so far', W.s == at(L)), ('position', core().sand(L['__i'] >= 0, L['__i'] <= n))]
        def havoc(L): W.s = core().SInt(core().CTX.fresh_int('s')); return {}
        return loops.Spec(inv, havoc, name='operations of the group')
    loops.dynamic_object(G, type(G), loops._DynRT(choose))
    getattr(G, way)()
    V.cover('done')
    V.ensure('all operations of the group', W.s == (b + n if way == 'do' else b))
def grev(x):
    if not hasattr(x, 'vc_iter'): return reversed(x)
    from pyvc import ghost as g
    q = x.vc_iter(); r = g.GList(q.n, lambda i: q.at(q.n - 1 - i)); r.tag = 'down' if q.tag == 'up' else 'up'; return r
def u_action(V):
    """an undoable function: first part done and redone with the same arguments, second part once for every undo"""
    U = um(); st = U.Stack(); U.setstack(st)
    x, y, z = (V.int(n) for n in 'xyz')
    form = V.choice('what is yielded', 5)
    log = []
    @U.undoable
    def op(a, b, c=0):
        k = len(log); log.append(('do', a, b, c))
        if form == 0: yield
        elif form == 1: yield 'text'
        elif form == 2: yield ('text',)
        elif form == 3: yield 'text', a
        else: yield 'text', a, b
        log.append(('undo', k))
    r = op(x, y, c=z)
    V.ensure('result', r is None if form < 3 else r is x if form == 3 else (isinstance(r, tuple) and len(r) == 2 and r[0] is x and r[1] is y))
    V.ensure('recorded once', st.undocount() == 1 and st.redocount() == 0)
    V.ensure('description', st.undotext() == ('Undo text' if form else 'Undo'))
    for k in range(2):
        a = log[-1]
        V.ensure('done once, with the arguments', len(log) == 1 + 2 * k and a[0] == 'do' and a[1] is x and a[2] is y and a[3] is z)
        st.undo()
        V.ensure('undone once, the part of the same run', len(log) == 2 + 2 * k and log[-1] == ('undo', 2 * k))
        V.ensure('can be redone', st.undocount() == 0 and st.redocount() == 1)
        st.redo()
    V.cover('done')
def stack_units():
    T = 'undo.py:'
    M = dict(mods=[UM], extra={UM: dict(reversed=grev)}, conc=False, allshape=True, unbounded='histories of any length')
    A = ['every action takes the state before it to the state after it and back, with whatever objects carry the identifiers (units of the operations)']
    return [Unit('stack: undo', u_undo, [T + 'Stack.undo', T + 'Stack._pausereceiver'], covers=['undone', 'nothing to undo'], assumes=A, **M),
            Unit('stack: redo', u_redo, [T + 'Stack.redo'], covers=['redone', 'nothing to redo'], assumes=A, **M),
            Unit('stack: an action that fails', u_fail, [T + 'Stack.undo', T + 'Stack.clear'], covers=['failed'], **M),
            Unit('stack: a new operation', u_new, [T + 'Stack.append'], covers=['recorded'], **M),
            Unit('stack: counts and savepoint', u_counts, [T + 'Stack.undocount', T + 'Stack.haschanged'], covers=['undone'], **M),
            Unit('stack: clear', u_clear, [T + 'Stack.clear'], **M),
            Unit('groups: what they record', u_group, [T + '_Group.__enter__', T + '_Group.__exit__'], covers=['failed', 'left'], **M),
            Unit('groups: undo', lambda V: group_loop(V, 'undo'), [T + '_Group.undo'], covers=['done'], assumes=A, **M),
            Unit('groups: redo', lambda V: group_loop(V, 'do'), [T + '_Group.do'], covers=['done'], assumes=A, **M),
            Unit('undoable functions', u_action, [T + 'undoable', T + '_Action.do', T + '_Action.undo'], mods=[UM], covers=['done'], conc=False, allshape=True)]

# ------------------------------------------------------------------ the operations, over contracts of Decomposition
class Box:
    def __init__(self, pts, margin): self.pts, self.margin = [tuple(p) for p in pts], margin
class Lookup:
    def __init__(self): self.box = {}
    def add_object(self, id, box): self.box[id] = box
    def rm_object(self, id): self.box.pop(id, None)
    def intersect_candidates(self, *a): raise core().Unsupported('query of a lookup')
    closest_candidates = intersect_candidates
def classes():
    D = importlib.import_module(DM)
    class Pt(D.Point):
        def __init__(self, W, id, xy, poly): self.W, self.id, self.xy, self.poly, self.attr = W, id, xy, poly, None
        def __repr__(self): return 'Pt(%d)' % self.id
        def is_free(self): return not any(s.id in self.W.segs and self.W.segs[s.id] is s and self in s.vtxs for s in self.W.segs.values())
        def segments(self, start=(None, None)): return [(s, k) for s in self.W.segs.values() for k in (0, 1) if s.vtxs[k] is self]
        segment = property(lambda self: (self.segments() or [(None, None)])[0], lambda self, v: unsup('link of a point'))
        def move(self, d):
            self.xy += d
            for s, k in self.segments(): s.update_vector()
        def set_polygon(self, p): self.poly = p
    class Seg(D.Segment):
        def __init__(self, W, id, a, b): self.W, self.id, self.vtxs, self.attr = W, id, [a, b], None; self.update_vector()
        def __repr__(self): return 'Seg(%d)' % self.id
        def update_vector(self): self._vector = self.vtxs[1].xy - self.vtxs[0].xy
        def point_ids(self): return (self.vtxs[0].id, self.vtxs[1].id)
        wire = next = property(lambda self: core().CTX and unsup('links of a segment'))
    class Pg(D.Polygon):
        def __init__(self, W, id, face): self.W, self.id, self.face, self.attr = W, id, face, None
        def __repr__(self): return 'Poly(%d)' % self.id
    return Pt, Seg, Pg
def unsup(what): raise core().Unsupported(what)
class Model:
    """the drawing as far as undo is concerned: points, segments, polygons by identifier; contracts of the operations of Decomposition"""
    def __init__(self, V):
        import numpy as np
        self.V, self.np = V, np; self.D = importlib.import_module(DM)
        self.Pt, self.Seg, self.Pg = classes()
        self.pts, self.segs, self.pols = {}, {}, {}
        self.free = dict(p=[31, 4, 30, 2][:], s=[41, 2, 40, 7][:], g=[51, 3, 50, 8][:])      # next identifiers, the last first
        self.geo = {}                # pair of points -> what a segment between them does to the polygons
        self.home = {}               # point -> face it lies in when isolated
        self.n = 0
        self.last_polygon_change = (self.D.PolygonChange.none, None, None)
    points = property(lambda s: s.pts); segments = property(lambda s: s.segs); polygons = property(lambda s: s.pols)
    shapes = property(lambda s: [s.pts, s.segs, s.pols])
    outer_polygon = property(lambda s: next(p for p in s.pols.values() if p.face == 'outside'))
    def xy(self, name): return self.np.array([self.V.real(name + 'x'), self.V.real(name + 'y')], dtype=object)
    def attr(self, name): return self.V.int('attr ' + name)
    def point(self, id, poly=None): p = self.pts[id] = self.Pt(self, id, self.xy('p%d' % id), poly); p.attr = self.attr('p%d' % id); return p
    def segment(self, id, a, b): s = self.segs[id] = self.Seg(self, id, self.pts[a], self.pts[b]); s.attr = self.attr('s%d' % id); return s
    def polygon(self, id, face): g = self.pols[id] = self.Pg(self, id, face); g.attr = self.attr('g%d' % id); return g
    def settle(self):
        f = {g.face: g for g in self.pols.values()}
        for i, p in self.pts.items(): p.poly = None if p.segments() else f.get(self.home.get(i, 'F'), p.poly)
    def live(self, what, kind, o):
        d = dict(p=self.pts, s=self.segs, g=self.pols)[kind]
        self.V.ensure(what + ' of the drawing as it is', getattr(o, 'id', None) in d and d[o.id] is o)
    # --- contracts
    def add_free_point(self, xy, poly):
        self.live('polygon of a new point', 'g', poly)
        i = self.free['p'].pop(); p = self.pts[i] = self.Pt(self, i, self.np.array(list(xy), dtype=object), poly); self.home[i] = getattr(poly, 'face', None); return p
    def remove_free_point(self, p):
        self.live('removed point', 'p', p)
        self.V.ensure('removed point is isolated', not p.segments())
        del self.pts[p.id]; self.free['p'].append(p.id)
    def split_of(self, a, b):
        """kind, and whether the left of (a, b) is the face that a new polygon gets"""
        kind, (u, v) = self.geo.get(frozenset((a.id, b.id)), ('shape', (a.id, b.id)))
        return kind, (u, v) == (a.id, b.id)
    def new_segment(self, a, b):
        C = self.D.PolygonChange
        self.live('end of a new segment', 'p', a); self.live('end of a new segment', 'p', b)
        self.V.ensure('different ends', a is not b)
        self.last_polygon_change = (C.none, None, None)
        for s in self.segs.values():
            if {x.id for x in s.vtxs} == {a.id, b.id}: return s
        i = self.free['s'].pop(); s = self.segs[i] = self.Seg(self, i, a, b)
        kind, fwd = self.split_of(a, b); a.poly = b.poly = None
        if kind == 'shape': self.last_polygon_change = (C.shape, [next(iter(self.pols.values()))], None); return s
        o = next(g for g in self.pols.values() if g.face == 'F')
        n = self.free['g'].pop(); q = self.pols[n] = self.Pg(self, n, None); q.attr = o.attr
        if kind == 'side': o.face, q.face = ('R', 'L') if fwd else ('L', 'R'); self.last_polygon_change = (C.split, o, q)
        else: o.face, q.face = 'out', 'in'; self.last_polygon_change = (C.add, o, q)
        return s
    def delete_segment(self, s):
        C = self.D.PolygonChange
        self.live('removed segment', 's', s)
        self.last_polygon_change = (C.none, None, None)
        del self.segs[s.id]; self.free['s'].append(s.id)
        kind, fwd = self.split_of(*s.vtxs)
        if kind == 'shape':
            self.settle()
            if self.V.choice('lonely', 2): self.last_polygon_change = (C.shape, [next(iter(self.pols.values()))], None)
            return
        f = {g.face: g for g in self.pols.values()}
        if kind == 'side': keep, rm = (f['R'], f['L']) if fwd else (f['L'], f['R'])
        else: keep, rm = f['out'], f['in']
        keep.face = 'F'; del self.pols[rm.id]; self.free['g'].append(rm.id)
        self.settle(); self.last_polygon_change = (C.join if kind == 'side' else C.remove, keep, rm)
    def split_segment(self, s, m):
        self.live('segment to be split', 's', s); self.live('point of a split', 'p', m)
        self.V.ensure('the point of a split is isolated', not m.segments())
        i = self.free['s'].pop(); n = self.segs[i] = self.Seg(self, i, m, s.vtxs[1]); n.attr = s.attr
        s.vtxs[1] = m; s.update_vector(); m.poly = None; return n
    def join_segments(self, m, s, t):
        self.live('segment to be joined', 's', s); self.live('segment to be joined', 's', t); self.live('point to be passed', 'p', m)
        self.V.ensure('segments meet in the point', len(m.segments()) == 2 and s.vtxs[1] is m and t.vtxs[0] is m)
        s.vtxs[1] = t.vtxs[1]; s.update_vector(); del self.segs[t.id]; self.free['s'].append(t.id)
        self.settle(); return m
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        unsup('Decomposition.' + n)
    # --- state
    def snap(self, P):
        pt = {i: (list(p.xy), p.attr, p.poly.id if p.poly is not None and not p.segments() else None) for i, p in self.pts.items()}
        sg = {i: (sorted(v.id for v in s.vtxs), s.attr) for i, s in self.segs.items()}
        pg = {i: (g.face, g.attr) for i, g in self.pols.items()}
        return pt, sg, pg, {k: list(v) for k, v in self.free.items()}
    def same(self, label, a, b):
        c = core(); eq = lambda x, y: True if x is y else x == y if x is not None and y is not None else False
        for n, x, y in zip(('points', 'segments', 'polygons'), a, b):
            self.V.ensure('%s: the same %s' % (label, n), sorted(x) == sorted(y))
            for i in x:
                u, v = x[i], y[i]
                if n == 'points':
                    self.V.ensure(label + ': coordinates', c.sand(*[p == q for p, q in zip(u[0], v[0])]))
                    self.V.ensure(label + ': polygon of an isolated point', u[2] == v[2])
                elif n == 'segments': self.V.ensure(label + ': ends of segments', u[0] == v[0])
                else: self.V.ensure(label + ': places of polygons', u[0] == v[0])
                self.V.ensure(label + ': attributes of ' + n, eq(u[1], v[1]))
        self.V.ensure(label + ': the same identifiers to come', a[3] == b[3])
    def found(self, label, P):
        """every object is where the lookups say, nothing else is"""
        c = core()
        for L, d, pts in ((P.points_lookup, self.pts, lambda p: [p.xy]), (P.segments_lookup, self.segs, lambda s: [v.xy for v in s.vtxs])):
            self.V.ensure(label + ': objects of the lookups', sorted(L.box) == sorted(d))
            for i, o in d.items():
                if i not in L.box: continue
                b = L.box[i]; q = [tuple(x) for x in pts(o)]
                if not isinstance(b, Box): raise c.Unsupported('a box of another kind')
                same = [c.sand(*[x == y for p, r in zip(b.pts, w) for x, y in zip(p, r)]) for w in ([q] if len(q) == 1 else [q, q[::-1]])] if len(b.pts) == len(q) else [False]
                self.V.ensure(label + ': boxes around the objects', c.sand(c.sor(*same), b.margin == P.tolerance))
        for s in self.segs.values():
            self.V.ensure(label + ': vectors of the segments', c.sand(*[x == y for x, y in zip(s._vector, s.vtxs[1].xy - s.vtxs[0].xy)]))
    def refresh(self):
        """other operations were done and undone meanwhile: the same state, carried by other objects"""
        V = self.V; self.n += 1; n = self.n
        P = {i: self.Pt(self, i, p.xy.copy(), p.poly) for i, p in self.pts.items()}
        for i, p in P.items(): p.attr = self.pts[i].attr
        G = {i: self.Pg(self, i, g.face) for i, g in self.pols.items()}
        for i, g in G.items(): g.attr = self.pols[i].attr
        S = {i: self.Seg(self, i, P[s.vtxs[0].id], P[s.vtxs[1].id]) for i, s in self.segs.items()}
        for i, s in S.items(): s.attr = self.segs[i].attr
        for p in P.values(): p.poly = G.get(p.poly.id) if p.poly is not None else None
        for d in (self.pts, self.segs, self.pols):
            for i, o in d.items():
                o.attr = V.int('old attr %s%d %d' % (type(o).__name__, i, n))
                if d is self.pts: o.xy[:] = [V.real('old x%d %d' % (i, n)), V.real('old y%d %d' % (i, n))]
                if d is self.segs: o.vtxs[:] = [o.vtxs[1], o.vtxs[1]]
        self.pts.clear(); self.pts.update(P); self.segs.clear(); self.segs.update(S); self.pols.clear(); self.pols.update(G)
        self.last_polygon_change = (self.D.PolygonChange.split, next(iter(G.values())), next(iter(G.values())))
def front(V, W):
    P = object.__new__(pm().PolygonDecomposition)
    P.decomp = W; P.tolerance = V.real('tolerance'); P.points_lookup, P.segments_lookup = Lookup(), Lookup()
    for p in W.pts.values(): P.points_lookup.box[p.id] = Box([p.xy.copy()], P.tolerance)
    for s in W.segs.values(): P.segments_lookup.box[s.id] = Box([v.xy.copy() for v in s.vtxs], P.tolerance)
    return P
def scene(V, faces=None):
    """points 2..6 with a polyline 2-3-4, 5 and 6 isolated; identifiers of different kinds coincide"""
    W = Model(V); W.polygon(0, 'outside'); g = W.polygon(2, 'F'); W.polygon(5, 'other')
    if faces: g.face = faces[0]; W.polygon(6, faces[1])
    for f in W.free: W.free[f] = [x for x in W.free[f] if x not in (2, 3, 4, 5, 6, 7)]
    for i in (2, 3, 4): W.point(i)
    W.point(5, g); W.point(6, W.pols[5]); W.home.update({5: 'F', 6: 'other'})
    W.segment(3, 2, 3); W.segment(5, 3, 4)
    return W
def cycles(V, W, P, op, after):
    """op(): the operation; after(): what it should have done"""
    U = um(); st = U.Stack(); U.setstack(st); pm().enable_undo()
    a = W.snap(P); W.found('before', P)
    op()
    V.ensure('recorded as one operation', st.undocount() == 1)
    after()
    b = W.snap(P); W.found('done', P)
    for k in range(2):
        W.refresh(); st.undo()
        W.same('undone', a, W.snap(P)); W.found('undone', P)
        V.ensure('can be redone', st.redocount() == 1 and st.undocount() == 0)
        W.refresh(); st.redo()
        W.same('redone', b, W.snap(P)); W.found('redone', P)
        V.ensure('can be undone', st.redocount() == 0 and st.undocount() == 1)
    V.cover('done')
def o_add_point(V):
    W = scene(V); P = front(V, W); xy = W.xy('new')
    def op():
        p = need(P, '_add_point')(xy, W.pols[5]); xy0 = list(xy); V.ensure('the new point is returned', p is W.pts.get(getattr(p, 'id', None)))
        V.ensure('place', core().sand(*[x == y for x, y in zip(p.xy, xy0)])); V.ensure('polygon', p.poly is W.pols[5])
    cycles(V, W, P, op, lambda: V.ensure('one point', len(W.pts) == 6))
def o_rm_point(V):
    W = scene(V); P = front(V, W)
    cycles(V, W, P, lambda: need(P, '_rm_point')(W.pts[5]), lambda: V.ensure('removed', 5 not in W.pts))
GEO = ['shape', 'side', 'in']
def o_add_segment(V):
    k = V.choice('kind', 4)
    W = scene(V); P = front(V, W)
    a, b = (5, 6) if k != 3 else (3, 2)
    if V.choice('direction', 2): a, b = b, a
    if 0 < k < 3: W.geo[frozenset((5, 6))] = (GEO[k], (5, 6))
    def op():
        s = need(P, '_add_segment')(W.pts[a], W.pts[b])
        V.ensure('the segment is returned', s is W.segs.get(getattr(s, 'id', None)) and {v.id for v in s.vtxs} == {a, b})
        if k == 3: V.cover('found')
    def after(): V.ensure('one segment', len(W.segs) == (2 if k == 3 else 3))
    cycles(V, W, P, op, after)
def o_rm_segment(V):
    k = V.choice('kind', 3)
    W = scene(V, [None, ('L', 'R'), ('out', 'in')][k])
    if k:
        W.home[6] = 'F'; W.geo[frozenset((5, 6))] = (GEO[k], (5, 6)); W.segment(7, *((5, 6), (6, 5))[V.choice('direction', 2)])
        if V.choice('names', 2): g, h = W.pols[2], W.pols[6]; g.face, h.face = h.face, g.face
    P = front(V, W); i = 7 if k else 5
    cycles(V, W, P, lambda: need(P, '_rm_segment')(W.segs[i]), lambda: V.ensure('removed', i not in W.segs))
def o_delete(V):
    """the public operations are the undoable ones"""
    W = scene(V); P = front(V, W)
    if V.choice('which', 2): cycles(V, W, P, lambda: P.delete_segment(W.segs[3]), lambda: V.ensure('removed', 3 not in W.segs))
    else: cycles(V, W, P, lambda: P.new_segment(W.pts[6], W.pts[5]), lambda: V.ensure('one segment', len(W.segs) == 3))
def o_delete_point(V):
    """several operations: all undone and redone one by one"""
    W = scene(V); P = front(V, W); i = (3, 2, 4, 5)[V.choice('point', 4)]
    keep = {s.id for s in W.segs.values() if i not in {v.id for v in s.vtxs}}; pts = set(W.pts) - {i}
    st = um().Stack(); um().setstack(st); pm().enable_undo()
    a = W.snap(P); W.found('before', P)
    P.delete_point(W.pts[i]); n = st.undocount()
    V.ensure('the point and its segments are removed, nothing else', set(W.pts) == pts and set(W.segs) == keep)
    b = W.snap(P); W.found('done', P)
    for k in range(2):
        for _ in range(n): W.refresh(); st.undo()
        W.same('undone', a, W.snap(P)); W.found('undone', P); V.ensure('nothing more to undo', st.undocount() == 0)
        for _ in range(n): W.refresh(); st.redo()
        W.same('redone', b, W.snap(P)); W.found('redone', P); V.ensure('nothing more to redo', st.redocount() == 0)
    V.cover('done')
def o_move(V):
    n = V.choice('points', 4)
    W = scene(V); P = front(V, W)
    ids = [[3], [2, 3], [5], []][n]
    old = {i: list(p.xy) for i, p in W.pts.items()}
    d = W.xy('d'); d0 = list(d)
    def op():
        pts = [W.pts[i] for i in ids]
        if V.choice('given as', 2): P.move_points(iter(pts), d)
        else: P.move_points(pts, d)
        d[:] = [V.real('later'), V.real('later too')]; pts.clear()      # the caller goes on with them
    def after():
        for i, p in W.pts.items(): V.ensure('moved by the displacement, others stay', core().sand(*[x == y + (z if i in ids else 0) for x, y, z in zip(p.xy, old[i], d0)]))
    cycles(V, W, P, op, after)
def o_split(V):
    W = scene(V); P = front(V, W); at = W.segs[3].attr
    def op():
        s = W.segs[3]
        n = need(P, '_split_segment')(s, W.pts[5])
        V.ensure('the new part is returned', n is W.segs.get(getattr(n, 'id', None)) and n is not s)
    def after(): V.ensure('two parts', sorted(sorted(v.id for v in s.vtxs) for s in W.segs.values()) == [[2, 5], [3, 4], [3, 5]])
    cycles(V, W, P, op, after)
def o_join(V):
    W = scene(V); P = front(V, W)
    W.pts[3].poly = None
    def op(): need(P, '_join_segments')(W.pts[3], W.segs[3], W.segs[5])
    def after(): V.ensure('one segment', [sorted(v.id for v in s.vtxs) for s in W.segs.values()] == [[2, 4]])
    cycles(V, W, P, op, after)
def o_attr(V):
    W = scene(V); P = front(V, W)
    d, i = [(W.pts, 3), (W.segs, 3), (W.pols, 2), (W.pols, 5)][V.choice('kind', 4)]; v = V.int('value')
    cycles(V, W, P, lambda: P.set_attr(d[i], v), lambda: V.ensure('attribute', d[i].attr is v or d[i].attr == v))
def npz():
    class NP:
        """numpy as used on locations here"""
        @staticmethod
        def array(x, dtype=None):
            import numpy as np
            return np.array(list(x), dtype=object)
        def __getattr__(self, a): unsup('numpy.' + a)
    return NP()
def op_units():
    T = 'polygons.py:PolygonDecomposition.'
    M = dict(mods=[PM, AM, UM], extra={AM: dict(make_aabb=lambda points, margin=-1: Box(points, margin)), PM: dict(np=npz())}, conc=False, covers=['done'],
             assumes=['operations of Decomposition: contracts over points, segments and polygons by identifier (D01, D02, D05); identifiers are reissued last removed first (D04)',
                      'the polygons are determined by the segments (D02); the new polygon lies on the left of the new segment or inside, the removed one likewise (D05)',
                      'identifiers matter by equality only: a drawing with coinciding identifiers of different kinds stands for all'],
             unbounded='coordinates, attributes; objects replaced by others of the same identifiers between doing, undoing and redoing')
    U = lambda n, f, t: Unit(n, f, [T + x for x in t], **M)
    return [U('undoing a new point', o_add_point, ['_add_point']), U('undoing the removal of a point', o_rm_point, ['_rm_point']),
            U('undoing a new segment', o_add_segment, ['_add_segment']), U('undoing the removal of a segment', o_rm_segment, ['_rm_segment']),
            U('undoing public operations', o_delete, ['new_segment', 'delete_segment']),
            U('undoing the deletion of a point', o_delete_point, ['delete_point']), U('undoing moves', o_move, ['move_points', '_move_points', '_update_lookups']), U('undoing a split', o_split, ['_split_segment', '_update_segment_box']),
            U('undoing a join', o_join, ['_join_segments']), U('undoing attributes', o_attr, ['set_attr'])]
def units(): return stack_units() + op_units()
