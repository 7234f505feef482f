"""Contracts of the overlay: the points on a line, the maps kept while one drawing is laid over another (over contracts of drawing, D09),
and their composition for any number of inputs."""
import importlib
from pyvc.unit import Unit, need
from checks.drawu import PM, AM, SM, PT, Box, Named, point, front, Dec, Look, d2, same, box, core
MG, DM = 'bgem.polygons.merge', 'bgem.polygons.decomp'
def mg(): return importlib.import_module(MG)
def dm(): return importlib.import_module(DM)
# ------------------------------------------------------------------ points of a line
def on_line(V, n):
    c = core(); asked = []
    a, b = point(V, 2), point(V, 9); mid = [point(V, i) for i in (4, 1, 6)[:n]]; ts = {m.id: V.real('t%d' % m.id, lo=0, hi=1) for m in mid}
    def project(v, o, x):
        V.ensure('projection to the line', c.sand(same(v, [b.xy[j] - a.xy[j] for j in (0, 1)]), same(o, a.xy)))
        k = [m for m in [a, b, *mid] if m.xy is x]
        if not k: raise c.Unsupported('projection of something else')
        return ts[k[0].id] if k[0].id in ts else c.lift(0) if k[0] is a else c.lift(1)
    P = front(V, seg_project_point=project); tol = P.tolerance
    ids = [p.id for p in [a, *mid, b]]
    P.decomp = Dec([a, b, *mid]); P.points_lookup = Look(ids[::-1] if n < 3 and V.choice('order', 2) else ids, asked)
    r = need(mg(), '_line_points')(P, a, b)
    box(V, asked, a, b, tol)
    V.ensure('from one end to the other', len(r) >= 2 and r[0] is a and r[-1] is b)
    inner = list(r[1:-1])
    V.ensure('points of the drawing, each once', all(any(p is m for m in mid) for p in inner) and len({id(p) for p in inner}) == len(inner))
    for m in mid:
        d = d2(m.xy, [a.xy[j] + ts[m.id] * (b.xy[j] - a.xy[j]) for j in (0, 1)])
        if any(p is m for p in inner): V.cover('on'); V.ensure('within the tolerance of the line', d < tol * tol)
        else: V.cover('off'); V.ensure('no point within the tolerance is missed', d >= tol * tol)
    for p, q in zip(inner[:-1], inner[1:]): V.ensure('in the order along the line', ts[p.id] <= ts[q.id])

# ------------------------------------------------------------------ one drawing over another
class Ob:
    def __init__(self, id, **k): self.id = id; self.__dict__.update(k)
    def __repr__(self): return 'Ob(%s)' % self.id
    def __hash__(self): return self.id
    def __eq__(self, o): return type(self) is type(o) and self.id == o.id      # as IdObject compares within one map
class Wire:
    def __init__(self, root=False): self.sides, self.childs, self.root, self.polygon = [], [], root, None
    def is_root(self): return self.root
    def segments(self, start=(None, None)): return list(self.sides)
    def __hash__(self): return id(self)
class Sheet:
    """the drawing that is refined: contracts of drawing points and lines (D09) with the truth about where every part comes from"""
    def __init__(self, V, tol, merge_tol):
        self.V, self.tolerance, self.merge_tol = V, tol, merge_tol
        self.chosen = {}
        C = self.C = dm().PolygonChange
        self.points, self.segments, self.polygons = {}, {}, {}
        self.mine = [{}, {}, {}]; self.theirs = [{}, {}, {}]       # truth: part -> origin
        self.fresh = [[4, 31, 30, 29, 28, 27], [9, 41, 40, 39, 38, 37, 36], [6, 53, 52, 51]]
        self.points_lookup = self.segments_lookup = None
    def pt(self, free=True, id=None):
        p = Ob(self.fresh[0].pop(0) if id is None else id, free=free); p.is_free = lambda: p.free
        p.segments = lambda start=None: [(s, k) for s in self.segments.values() for k in (0, 1) if s.vtxs[k] is p]
        self.points[p.id] = p; return p
    def seg(self, a, b, id=None):
        s = Ob(self.fresh[1].pop(0) if id is None else id, vtxs=[a, b], wire=[None, None]); a.free = b.free = False; self.segments[s.id] = s; return s
    def split(self, s, p):
        n = self.seg(p, s.vtxs[1]); s.vtxs[1] = p; p.free = False
        if s.id in self.mine[1]: self.mine[1][n.id] = self.mine[1][s.id]
        if self.ch('order of parts', 2): self.segments.pop(n.id); self.segments = {n.id: n, **self.segments}
        return n
    def ch(self, name, n):
        if name in ('sides', 'side of own segments', 'order of parts'): name = 'arrangement'
        if name.startswith('next split') and self.nseg: name = 'arrangement'
        if name.startswith('through') and self.nseg > 1: name = 'direction'
        if name not in self.chosen: self.chosen[name] = self.V.choice(name, n)
        return self.chosen[name]
    def tol(self): self.V.ensure('drawn with the tolerance of the overlay', self.tolerance is self.merge_tol)
    @property
    def outer_polygon(self): return self.polygons[0]
    def add_point(self, xy):
        self.tol(); q = self.where(xy)
        k = self.ch('place of %d' % q.id, 3)
        own = [s for s in self.segments.values()]
        if k == 0: p = self.pt()
        elif k == 1: p = self.points[5]; 
        else: s = self.segments[self.splittable]; p = self.pt(); n = self.split(s, p); self.splittable = n.id if self.ch('next split of the new part', 2) else s.id
        if p.id not in self.theirs[0]: self.theirs[0][p.id] = q.id
        else: raise core().CTX and __import__('pyvc.core').core.Kill()     # two points of the other drawing are never within the tolerance
        return p
    def crossing(self, a, b):
        self.tol(); self.V.ensure('a part of a line', a is not b)
        k = self.ch('crossing %d %d' % (a.id, b.id), 3) if self.cross else 0
        if not k: return {}
        self.cross = 0; s = self.segments[self.splittable]
        if s.id in self.theirs[1]: raise __import__('pyvc.core').core.Kill()
        if k == 1: return {.5: (self.points[5], s, s)}                       # through an end
        p = self.pt(); return {.5: (p, s, self.split(s, p))}
    def chain(self, a, b, div):
        """the new segments from a to b, as drawn"""
        self.tol()
        self.V.ensure('the next part of the line', len(self.parts) > 0 and self.parts[0][0] is a and self.parts[0][1] is b); self.parts.pop(0)
        way = [a] + [div[t][0] for t in sorted(div)] + [b]
        out = []
        for x, y in zip(way[:-1], way[1:]):
            if x is y: continue
            k = (0, 2, 3)[self.ch('segment %d' % len(self.theirs[1]), 3 if self.spare and (self.nseg < 2 or not self.theirs[1]) else 1)] if self.nseg < 2 or len(self.theirs[1]) != 1 or not self.spare else 2
            flip = self.ch('direction', 2) ^ (len(self.theirs[1]) % 2)
            old = [s for s in self.segments.values() if {v.id for v in s.vtxs} == {x.id, y.id}]
            if old:
                if k: raise __import__('pyvc.core').core.Kill()
                s = old[0]; flip = s.vtxs[0] is not x; ch = (self.C.none, None, None)
                if s.id in self.theirs[1]: raise __import__('pyvc.core').core.Kill()
            else:
                s = self.seg(*((y, x) if flip else (x, y)))
                if k < 2: ch = (self.C.shape, [self.polygons[2]], None)
                else:
                    if not self.spare: raise __import__('pyvc.core').core.Kill()
                    o = self.polygons[self.spare[0][1]]; n = self.polygons[self.spare.pop(0)[0]]
                    self.mine[2][n.id] = self.mine[2][o.id]; ch = (self.C.split if k == 2 else self.C.add, o, n)
            self.theirs[1][s.id] = self.current.id
            # the polygons on its sides lie in those of the other drawing on the same sides
            r, l = self.current.polygons()
            if flip: r, l = l, r
            self.border(s, r.id, l.id)
            out.append((s, ch, not flip))
        return iter(out)
def scene(V, nseg):
    c = core()
    W = Sheet(V, V.real('tolerance'), V.real('merge tolerance'))
    # the other drawing: polygons 0 (outer), 3 and 2, points 5.., segments 1..
    opol = {i: Ob(i) for i in (0, 3, 2)}
    n = nseg + 1 if nseg else V.choice('points', 2)
    opts = {i: Ob(i, xy=('location', i)) for i in (7, 5, 2)[:n]}
    W.where = lambda xy: opts[xy[1]]
    osegs = {}; sides = [(0, 3), (3, 2)] if W.ch('sides', 2) else [(3, 0), (2, 0)]
    P = list(opts.values())
    for k in range(nseg):
        s = Ob((1, 9)[k], vtxs=[P[k], P[k + 1]]); r, l = sides[k]
        s.polygons = lambda r=r, l=l: (opol[r], opol[l]); osegs[s.id] = s
    other = Ob(77, points=opts, segments=osegs, polygons=opol, outer_polygon=opol[0], tolerance=V.real('other tolerance'))
    # the refined drawing: a segment 1 that lines may cross, points 5 (end) and 8, polygons with their place in the other drawing
    a, b = W.pt(id=5), W.pt(id=8); s = W.seg(a, b, 1); W.seg(W.pt(id=20), a, 66)          # the end 5 has a segment in and one out
    place = {0: 0, 2: 3, 9: 3, 3: 2, 6: 0, 53: 3, 7: 3}                       # polygon -> polygon of the other drawing that contains it
    if nseg < 2: place = {k: v if nseg and v < 3 else nseg * 3 if v == 3 else 0 for k, v in place.items()}
    if nseg == 1: place[3] = 3
    W.nseg = nseg
    for i in place: W.polygons[i] = Ob(i, outer_wire=Wire(root=i == 0)); W.polygons[i].outer_wire.polygon = W.polygons[i]
    for i in (0, 2, 9, 3, 6): W.mine[2][i] = i
    W.spare = [(53, 9), (7, 53)]
    W.mine[0] = {5: 5, 8: 8, 20: 20}; W.mine[1] = {1: 1, 66: 66}; W.theirs[2] = dict(place)
    W.splittable = 1; W.cross = 1
    def side(s, k, w): s.wire[k] = w; w.sides.append((s, k))
    touch = {}
    def border(s, r, l):
        if s.wire[0] is not None: W.segments[s.id].wire = [None, None]
        for k, o in ((0, r), (1, l)):
            p = {0: 0, 3: 2, 2: 3}[o]; q = W.polygons[p]
            side(s, k, q.outer_wire if p else child(q))
    def child(q):
        if not q.outer_wire.childs: w = Wire(); w.polygon = q; q.outer_wire.childs.append(w)
        return q.outer_wire.childs[-1]
    W.border = border
    # own segments that end up between polygons in the same place: 2|9, 9|53 (a hole of 9), 53|7, 0|6 (in a hole of the outer polygon)
    def between(i, p, q, hole=False):
        s = Ob(i, vtxs=[Ob(100 + i), Ob(200 + i)], wire=[None, None]); W.segments[i] = s; W.mine[1][i] = i
        k = W.ch('side of own segments', 2) ^ (i % 2)
        side(s, k, child(W.polygons[p]) if hole else W.polygons[p].outer_wire); side(s, 1 - k, W.polygons[q].outer_wire)
    far = W.ch('sides', 2)
    L = [(60, 2, 9, False), (61, 9, 53, True), (62, 53, 7, False), (63, 0, 6, True)]
    if nseg == 1: L += [(64, 7, 3, True)]
    if not nseg: L += [(64, 0, 2, True), (65, 0, 3, True)]
    for x in (L[::-1] if far else L): between(*x)
    W.wires_of = lambda: None
    return W, other, place
def accepted(V, f):
    try: return f()
    except AssertionError as e: V.ensure('no assertion of the code fails (%s)' % str(e)[:60], False); raise core().Kill()
def lay(V, nseg):
    c = core(); W, other, place = scene(V, nseg); M = mg(); tol, mt = W.tolerance, W.merge_tol
    old = [set(W.points), set(W.segments), {0, 2, 9, 3, 6}]
    W.parts = []; W._add_line_seg_intersections, W._add_line_new_segments = W.crossing, W.chain
    lines = []
    def line(d, a, b):
        V.ensure('line of the refined drawing', d is W and W.points.get(a.id) is a and W.points.get(b.id) is b)
        for s in other.segments.values():        # which line is drawn now
            u, v = [next(i for i, o in W.theirs[0].items() if o == p.id) for p in s.vtxs]
            if {u, v} == {a.id, b.id} and s not in lines: lines.append(s); W.current = s; V.ensure('drawn in its direction', a.id == u); break
        else: V.ensure('a line of the other drawing, once', False)
        mid = [p for p in W.points.values() if p is not a and p is not b]
        V.ensure('every part of the lines is drawn', not W.parts)
        r = [a, b]
        if len(lines) == 1 and W.ch('through a point %d' % len(lines), 2): r[1:1] = [next(p for p in mid if p.id in (8, 5))]
        W.parts = list(zip(r[:-1], r[1:])); return r
    need(M, '_line_points')
    keep = M._line_points; M._line_points = line
    try: r, ms, mo = accepted(V, lambda: M.intersect_single(W, other, mt))
    finally: M._line_points = keep
    V.ensure('every part of the lines is drawn', not W.parts)
    V.ensure('the refined drawing', r is W); V.ensure('its tolerance is kept', W.tolerance is tol)
    V.ensure('every line is drawn', len(lines) == len(other.segments))
    V.ensure('maps of points, segments, polygons', len(ms) == 3 and len(mo) == 3)
    for dim, name, have in ((0, 'point', W.points), (1, 'segment', W.segments), (2, 'polygon', [i for i in W.polygons if i in old[2] or i in W.mine[2]])):
        for i in have:
            t = W.mine[dim].get(i); g = ms[dim].get(i)
            if i in old[dim]: V.ensure('own %ss are themselves' % name, g is None or g == i)
            else: V.ensure('a new %s comes from the one it was cut from' % name, g == t if t is not None else g is None); V.cover('new ' + name)
            t = W.theirs[dim].get(i); V.ensure('%s of the other drawing' % name, mo[dim].get(i) == t if t is not None else mo[dim].get(i) is None)
        V.ensure('nothing else is in the maps', set(ms[dim]) <= set(have) and set(mo[dim]) <= set(W.polygons if dim == 2 else have))

# ------------------------------------------------------------------ any number of drawings
def compose(V):
    """induction over the inputs: with every earlier map right, so are all after one more"""
    from pyvc import loops, ghost as g
    c = core(); M = mg(); n = V.int('inputs', lo=0); V.assume(n != 1)
    J = V.choice('earlier maps', 3)
    class Fake:
        """a drawing: identifiers of its objects"""
        def __init__(self, ids):
            self.shapes = ids; self.points, self.segments, self.polygons = [{i: Ob(i) for i in x} for x in ids]; self.decomp = self; self.wires = []
            self.tolerance = c.lift(1)
    first = []
    def new(*a): first.append(Fake([{}, {}, {0: 1}])); return first[-1]
    at = dict(maps=None, phase='start', common=None)
    ids = [[0, 3, 5], [0, 5, 3], [0, 2, 7]]; add = [[7, 1, 8], [1, 8, 9], [5, 3, 9]]; cut = [{7: 3, 1: 3, 8: None}, {1: 5, 8: 0, 9: None}, {5: 2, 3: 0, 9: 7}]
    mt = V.real('merge tolerance')
    def truth(j):
        """where the objects of the common drawing come from, for the j-th earlier input"""
        T = []
        for d in range(3):
            m = {i: V.int('origin %d %d %d' % (j, d, i)) for i in ids[d]}
            if d < 2: del m[ids[d][j]]
            T.append(m)
        return T
    class Inputs:
        def __init__(self): self.n = n
        def vc_len(self): return n
        def vc_iter(self): q = loops.Seq(n, lambda i: Fake([{0: 1, 3: 1}, {2: 1}, {0: 1, 4: 1}])); q.tag = 'inputs'; return q
        def __getitem__(self, i): raise c.Unsupported('a single input')
    steps = []
    def single(a, b, tol=None):
        if at['phase'] != 'body': raise c.Unsupported('an overlay outside the loop')
        V.ensure('the next input over the common drawing', a is at['common'] and isinstance(b, Fake) and b is not a)
        V.ensure('tolerance of the overlay', tol is mt)
        V.ensure('once', not steps)
        r = Fake([{i: 1 for i in ids[d] + add[d]} for d in range(3)])
        self_ = [{k: v for k, v in cut[d].items() if v is not None} for d in range(3)]
        oth = [{7: 0, 3: 3, 8: None}, {8: 2, 0: 2, 5: None}, {i: 0 for i in ids[2] + add[2]}]
        oth[2][9] = 4
        steps.append((r, [dict(m) for m in self_], [{k: v for k, v in m.items() if v is not None} for m in oth]))
        return r, self_, oth
    def pick(L, f, what):
        k = [x for x, v in L.items() if not x.startswith('__') and f(v)]
        if len(k) != 1: raise c.Unsupported('where %s is kept' % what)
        return k[0]
    def inv(L):
        if at['phase'] == 'start':
            at['name'] = pick(L, lambda v: isinstance(v, list) and not v, 'the list of maps'); at['maps'] = L[at['name']]
            V.ensure('starts with an empty drawing', any(v is first[-1] for v in L.values()) if first else False)
        elif at['phase'] == 'havoc': at['phase'] = 'body'
        else: judge(L.get(at['name']), steps and steps[0], L)
        return [('inputs so far', c.sand(L['__i'] >= 0, L['__i'] <= n))]
    def judge(maps, step, L=None):
        V.ensure('one overlay for an input', len(steps) == 1); r, ms, mo = steps[0]
        V.ensure('a map for every input', len(maps) == J + 1); V.cover('step')
        if L is not None: V.ensure('goes on with the overlay', L[at['cname']] is r)
        for j in range(J):
            for d in range(3):
                m = maps[j][d]; T = at['truth'][j][d]
                exp = {x: T[x] for x in ids[d] if x in T}
                for x in add[d]:
                    o = ms[d].get(x)
                    if o is not None and o in T: exp[x] = T[o]
                V.ensure('objects of an earlier input', set(m) == set(exp))
                for x in exp:
                    if x in m: V.ensure('origin in an earlier input', m[x] is exp[x] or m[x] == exp[x])
        V.ensure('the map of the new input', len(maps[J]) == 3 and all(dict(maps[J][d]) == mo[d] for d in range(3)))
    def havoc(L):
        k = L['__i']
        V.assume(k >= J)
        at['truth'] = [truth(j) for j in range(J)]
        at['maps'][:] = [[dict(m) for m in t] for t in at['truth']]
        at['common'] = Fake([{i: 1 for i in ids[d]} for d in range(3)])
        at['cname'] = pick(L, lambda v: isinstance(v, Fake) and v is first[-1], 'the common drawing')
        at['phase'] = 'havoc'
        return {at['cname']: at['common']}
    def choose(seq):
        if getattr(seq, 'tag', None) != 'inputs': return None
        return loops.Spec(inv, havoc, name='inputs')
    glob = dict(vars(M)); glob['__vc'] = loops._DynRT(choose); glob['intersect_single'] = single; glob['print'] = lambda *a, **k: None
    class Pl:
        PolygonDecomposition = new
        def __getattr__(self, x): raise c.Unsupported('polygons.' + x)
    pl = Pl(); pl.PolygonDecomposition = new; glob['polygons'] = pl
    f = loops.dynamic(need(M, 'intersect_decompositions'), glob)
    if f is None: raise c.Unsupported('no loop over the inputs')
    r, maps = accepted(V, lambda: f(Inputs(), mt))
    V.ensure('the common drawing and all maps', r is at['common'] and maps is at['maps']); V.cover('end')
def one_input(V):
    M = mg()
    class F: pass
    d = F(); d.points, d.segments, d.polygons = {i: Ob(i) for i in (3, 4)}, {7: Ob(7)}, {0: Ob(0), 9: Ob(9)}
    r, maps = M.intersect_decompositions([d])
    V.ensure('the drawing itself', r is d); V.ensure('identities', maps == [[{3: 3, 4: 4}, {7: 7}, {0: 0, 9: 9}]])
def units():
    T = 'merge.py:'
    M = dict(mods=[MG, PM, AM, SM, PT], conc=False)
    B = {AM: dict(make_aabb=lambda points, margin=0.0: Box(points, margin))}
    return [*[Unit('points of a line past %d points' % n, lambda V, n=n: on_line(V, n), [T + '_line_points'], covers=['on', 'off'] * (n > 0), extra=B, unbounded='all coordinates and tolerances', assumes=['up to 3 candidates of a lookup'], **M) for n in range(4)],
            *[Unit('maps of an overlay by %d segments' % n, lambda V, n=n: lay(V, n), [T + 'intersect_single'], covers=[['new point'], ['new point', 'new segment', 'new polygon'], ['new point', 'new segment', 'new polygon']][n],
                   assumes=['up to 2 segments of the second drawing, each in up to 2 parts; a fixed arrangement of polygons with every kind of neighbourhood'], **M) for n in range(3)],
            Unit('maps of any number of inputs', compose, [T + 'intersect_decompositions'], covers=['step', 'end'], unbounded='number of inputs, origins',
                 assumes=['every earlier map is treated in the same way (0 to 2 of them are looked at), a representative common drawing'], **M),
            Unit('a single input', one_input, [T + 'intersect_decompositions'], **M)]
