"""Contracts of drawing: what a requested point or line becomes, over contracts of the lookups (A01, A02), of the primitive operations
(undou) and of projection and intersection (D08)."""
import importlib
from pyvc.unit import Unit, need
PM, AM, SM, PT = 'bgem.polygons.polygons', 'bgem.polygons.aabb_lookup', 'bgem.polygons.segment', 'bgem.polygons.point'
T = 'polygons.py:PolygonDecomposition.'
def cls(): return importlib.import_module(PM).PolygonDecomposition
def core(): from pyvc import core as c; return c
def vec(xs):
    from pyvc import npshim
    return npshim.array(list(xs))
class Box:
    def __init__(self, pts, margin): self.pts, self.margin = [tuple(p) for p in pts], margin
class Named:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
def point(V, id):
    """even identifiers: an end of a segment, odd ones: isolated"""
    P = importlib.import_module(PT).Point; p = P(vec([V.real('x%d' % id), V.real('y%d' % id)]), None); p.id = id
    need(p, 'poly'); need(p, 'segment')
    if id % 2: p.poly = Named('polygon of %d' % id)
    else: p.segment = (Named('segment at %d' % id), 0)
    return p
def segment(V, id, a, b):
    S = importlib.import_module(SM).Segment; s = S((a, b)); s.id = id; return s
def front(V, **stubs):
    P = object.__new__(cls())
    P.tolerance = V.real('tolerance'); V.assume(P.tolerance > 0)
    for n, f in stubs.items():
        need(P, n); P.__dict__[n] = f
    return P
class Dec:
    """the drawing as the decisions see it"""
    def __init__(self, pts=(), segs=(), **k): self.points = {p.id: p for p in pts}; self.segments = {s.id: s for s in segs}; self.__dict__.update(k)
class Look:
    """contract of a lookup: the identifiers it answers with"""
    def __init__(self, ids, asked): self.ids, self.asked = ids, asked
    def closest_candidates(self, q): self.asked.append(q); return list(self.ids)
    intersect_candidates = closest_candidates
def d2(a, b): x, y = a[0] - b[0], a[1] - b[1]; return x * x + y * y
def same(a, b): return core().sand(*[x == y for x, y in zip(a, b)])

# ------------------------------------------------------------------ a place on a segment
def on_segment(V):
    a, b = point(V, 3), point(V, 5); s = segment(V, 7, a, b); m = point(V, 9); n = Named('new part'); log = []
    t = V.real('t', lo=0, hi=1); L2 = d2(a.xy, b.xy); V.assume(L2 > 0)
    def add(xy, poly): log.append(('add', list(xy))); return m
    def split(g, p): log.append(('split', g, p)); return n
    P = front(V, _add_point=add, _split_segment=split); P.decomp = Dec(outer_polygon=Named('outer'))
    tol = P.tolerance
    r, g = need(P, '_point_on_segment')(s, t)
    if not log:
        V.ensure('nothing is split', g is s); V.ensure('an end of the segment', r is a or r is b)
        d = t if r is a else 1 - t
        V.cover('end'); V.ensure('the end is within the tolerance', d * d * L2 < tol * tol)
    else:
        V.cover('split'); V.ensure('one point, one split', [x[0] for x in log] == ['add', 'split'])
        V.ensure('the point is on the segment', same(log[0][1], [a.xy[k] + t * (b.xy[k] - a.xy[k]) for k in (0, 1)]))
        V.ensure('the segment is split at the point', log[1][1] is s and log[1][2] is m)
        V.ensure('the point and the new part are returned', r is m and g is n)
        V.ensure('the ends are not within the tolerance', core().sand(t * t * L2 >= tol * tol, (1 - t) * (1 - t) * L2 >= tol * tol))
# ------------------------------------------------------------------ a requested point
def add_point(V):
    k = V.choice('near', 3); q = [V.real('qx'), V.real('qy')]; log = []; t = V.real('t')
    o = Named('object'); m, n = Named('point'), Named('new part'); asked = []
    def snap(x): asked.append(list(x)); return (k, o, t if k == 1 else None)
    def onseg(s, u): log.append(('on', s, u)); return m, n
    def add(xy, poly): log.append(('add', list(xy), poly)); return m
    P = front(V, _snap_point=snap, _point_on_segment=onseg, _add_point=add)
    r = P.add_point(vec(q) if V.choice('given as', 2) else tuple(q))
    V.ensure('asked for the requested location', len(asked) == 1 and same(asked[0], q))
    if k == 0: V.cover('point'); V.ensure('an existing point within the tolerance', r is o and not log)
    elif k == 1: V.cover('segment'); V.ensure('a point placed on the segment', r is m and len(log) == 1 and log[0][:2] == ('on', o) and log[0][2] is t)
    else: V.cover('new'); V.ensure('a new point at the requested location', r is m and len(log) == 1 and log[0][0] == 'add' and log[0][2] is o); V.ensure('place', same(log[0][1], q))
# ------------------------------------------------------------------ what is near
def near_points(V):
    """points first: any within the tolerance is found, whatever number the lookup answers with (0..3)"""
    n = V.choice('candidates', 4); pts = [point(V, i) for i in (2, 5, 3)[:n]]; q = vec([V.real('qx'), V.real('qy')]); asked = []
    o = Named('outer')
    P = front(V); P.decomp = Dec(pts, outer_polygon=o); P.points_lookup = Look([p.id for p in pts], asked); P.segments_lookup = Look([], [])
    tol = P.tolerance
    k, p, t = need(P, '_snap_point')(q)
    V.ensure('the lookup is asked for the location', len(asked) == 1 and same(asked[0], q))
    if k == 2:
        V.cover('none'); V.ensure('the outer polygon of an empty drawing', p is o)
        for p in pts: V.ensure('no point within the tolerance is missed', d2(p.xy, q) >= tol * tol)
    else:
        V.cover('found')
        V.ensure('a point of the drawing', k == 0 and any(p is x for x in pts)); V.ensure('within the tolerance', d2(p.xy, q) < tol * tol)
def near_segments(V, n):
    """no point near: n segments as candidates, projections by contract (D08)"""
    c = core(); asked = []
    q = vec([V.real('qx'), V.real('qy')])
    pts = [point(V, i) for i in range(2 * n)]; segs = [segment(V, 10 + i, pts[2 * i], pts[2 * i + 1]) for i in range(n)]
    u = [[s.vtxs[1].xy[j] - s.vtxs[0].xy[j] for j in (0, 1)] for s in segs]
    ts = [V.real('t%d' % k, lo=0, hi=1) for k in range(n)]
    at = [[segs[i].vtxs[0].xy[j] + ts[i] * u[i][j] for j in (0, 1)] for i in range(n)]
    if n > 1:
        at = [[V.real('foot %d %s' % (i, j)) for j in 'xy'] for i in range(n)]      # the closest locations, whatever they are
        for i, s in enumerate(segs):
            def par(t, i=i): V.ensure('location of the projection', t == ts[i]); return vec(at[i])
            need(s, 'parametric'); s.__dict__['parametric'] = par
    D = [d2(q, x) for x in at]
    P = front(V); P.decomp = Dec(pts, segs, outer_polygon=Named('outer')); P.points_lookup = Look([], []); P.segments_lookup = Look([s.id for s in segs], asked)
    tol = P.tolerance
    for i in range(n):              # contract of the projection
        x = sum((q[j] - at[i][j]) * u[i][j] for j in (0, 1)); V.assume(u[i][0] ** 2 + u[i][1] ** 2 > 0)
        e = [q[j] - at[i][j] for j in (0, 1)]; z = u[i][0] * e[1] - u[i][1] * e[0] if n == 1 else u[i][0] * (q[1] - segs[i].vtxs[0].xy[1]) - u[i][1] * (q[0] - segs[i].vtxs[0].xy[0])
        off = c.sor(ts[i] == 0, ts[i] == 1, D[i] == 0, z != 0)
        if n == 1:
            V.assume(c.sor(c.sand(ts[i] > 0, ts[i] < 1, x == 0), c.sand(ts[i] == 0, x <= 0), c.sand(ts[i] == 1, x >= 0)))
            V.assume(z * z + x * x == (u[i][0] ** 2 + u[i][1] ** 2) * (e[0] ** 2 + e[1] ** 2))      # an identity, for the solver
            V.ensure('a location off the segment is on one side of it', off)
        else: V.assume(off)
    if n > 1: V.assume(c.sor(*[d >= tol * tol for d in D]))
    def project(v, o, x):
        for k in range(n):
            if o is segs[k].vtxs[0].xy: break
        else: raise c.Unsupported('projection to something else')
        V.ensure('projection of the location to the segment', c.sand(same(x, q), same(v, u[k])))
        return ts[k]
    need(P, 'seg_project_point'); P.__dict__['seg_project_point'] = project
    class W:
        def __init__(self, n): self.polygon = Pg(n)
    class Pg:
        def __init__(self, n): self.n = n
        def contains_point(self, x): V.ensure('the polygon is asked about the location', same(x, q)); return True
    for s in segs: s.wire = [W('right of %d' % s.id), W('left of %d' % s.id)]
    cone = []
    def insert(p):
        def f(v): V.ensure('direction to the location', same(v, [q[k] - p.xy[k] for k in (0, 1)])); w = W('cone at %d' % p.id); cone.append((p, w)); return (None, None, w)
        return f
    for p in pts: need(p, 'insert_vector'); p.__dict__['insert_vector'] = insert(p)
    k, o, t = need(P, '_snap_point')(q)
    V.ensure('the lookup is asked for the location', len(asked) == 1 and same(asked[0], q))
    if k == 1:
        V.ensure('a segment of the drawing', any(s is o for s in segs)); i = next(i for i, s in enumerate(segs) if s is o); V.cover('segment')
        V.ensure('within the tolerance', D[i] < tol * tol); V.ensure('the closest location of the segment', t == ts[i])
        for j in range(n): V.ensure('the closest segment', D[i] <= D[j])
        return
    V.ensure('a polygon', k == 2 and any(o is x for x in [P.decomp.outer_polygon] + [w.polygon for s in segs for w in s.wire] + [w.polygon for p, w in cone]))
    for j in range(n): V.ensure('no segment within the tolerance is missed', D[j] >= tol * tol)
    if n == 0: V.ensure('the outer polygon of an empty drawing', o is P.decomp.outer_polygon); return
    V.ensure('the polygon of the closest segment', o is not P.decomp.outer_polygon)
    if cone and o is cone[-1][1].polygon:
        p, w = cone[-1]; i = pts.index(p) // 2; V.cover('end')
        V.ensure('the end is the closest location', ts[i] == (pts.index(p) % 2))
    else:
        i = next(i for i, s in enumerate(segs) if any(w.polygon is o for w in s.wire)); V.cover('side')
        w = [q[j] - segs[i].vtxs[0].xy[j] for j in (0, 1)]
        x = u[i][0] * w[1] - u[i][1] * w[0]          # positive on the left
        V.ensure('the polygon on that side', (x > 0) if o is segs[i].wire[1].polygon else (x < 0))
        V.ensure('a place inside the segment is the closest', c.sand(ts[i] > 0, ts[i] < 1))
    for j in range(n): V.ensure('of the closest segment', D[i] <= D[j])
def between_segments(V):
    """two segments within the tolerance of the location, not parallel; in the frame and the length of the farther one"""
    c = core()
    q = vec([V.real('qx'), V.real('qy')])
    pts = [point(V, i) for i in range(4)]; L = core().lift; pts[2].xy[:] = [L(2), L(3)]; pts[3].xy[:] = [L(3), L(3)]
    segs = [segment(V, 10 + i, pts[2 * i], pts[2 * i + 1]) for i in range(2)]
    x0 = [s.vtxs[0].xy for s in segs]; u = [[s.vtxs[1].xy[j] - s.vtxs[0].xy[j] for j in (0, 1)] for s in segs]
    ts = [V.real('t%d' % k, lo=0, hi=1) for k in range(2)]; at = [[V.real('foot %d %s' % (i, j)) for j in 'xy'] for i in range(2)]
    D = [d2(q, x) for x in at]
    P = front(V); P.decomp = Dec(pts, segs, outer_polygon=Named('outer')); P.points_lookup = Look([], []); P.segments_lookup = Look([10, 11] if V.choice('order', 2) else [11, 10], [])
    tol = P.tolerance
    R = [d.sqrt() for d in D]; V.assume(R[0] < R[1]); V.assume(R[1] < tol); V.assume(u[0][1] != 0)
    T2 = V.real('t of the second projection', lo=0, hi=1); foot2 = [V.real('second foot ' + j) for j in 'xy']; second = []
    def project(v, o, x):
        k = [i for i in (0, 1) if o is x0[i]]
        if not k: raise c.Unsupported('projection to something else')
        k = k[0]; V.ensure('vector of the segment', same(v, u[k]))
        if x is q or (len(x) == 2 and all(a is b for a, b in zip(x, q))): return ts[k]
        second.append((k, list(x))); return T2
    P.__dict__['seg_project_point'] = project
    for i, s in enumerate(segs):
        def par(t, i=i):
            if t is ts[i]: return vec(at[i])
            if t is not T2: raise c.Unsupported('another location')
            return vec(foot2)
        s.__dict__['parametric'] = par
    try: k, o, t = need(P, '_snap_point')(q)
    except AssertionError: raise c.Kill()        # that the distance to the segment is at least the one to its line: bounded
    V.ensure('the closest segment', k == 1 and o is segs[0]); i, j = 0, 1
    V.ensure('the other segment is looked at', bool(second) and all(x[0] == j for x in second))
    if t is ts[i]:
        V.cover('closest'); V.ensure('the location keeps the tolerance from the other', c.sand(same(second[0][1], at[i]), d2(at[i], foot2) >= tol * tol)); return
    V.cover('moved'); X = [x0[i][k] + t * u[i][k] for k in (0, 1)]
    V.ensure('the location is in the tolerance from the line of the other', c.sor(X[1] - 3 == tol, X[1] - 3 == -tol))
    V.ensure('that location is checked', same(second[-1][1], X))
    V.ensure('on the side of the request', c.sor(q[1] == 3, c.sand(q[1] > 3, X[1] > 3), c.sand(q[1] < 3, X[1] < 3)))
# ------------------------------------------------------------------ a requested line
def add_line(V):
    k = V.choice('same', 2); a, b = Named('a'), Named('b'); ends = [a, a] if k else [a, b]; log = []; asked = []
    qa, qb = [V.real('ax'), V.real('ay')], [V.real('bx'), V.real('by')]
    def addp(x): asked.append(list(x)); return ends[len(asked) - 1]
    res = [Named('segment')]
    def line(x, y, omit=set()): log.append((x, y, set(omit))); return res
    P = front(V, add_point=addp, add_line_for_points=line)
    r = P.add_line(tuple(qa), vec(qb))
    V.ensure('both ends are requested points', len(asked) == 2 and same(asked[0], qa) and same(asked[1], qb))
    if k: V.cover('point'); V.ensure('a line within a point is that point', r is a and not log)
    else: V.cover('line'); V.ensure('the line between the points', r is res and len(log) == 1 and log[0][0] is a and log[0][1] is b and log[0][2] <= {a, b})
def line_points(V, n):
    """n points near the line (as the lookup sees it), some of them on the chain already"""
    c = core()
    a, b = point(V, 2), point(V, 9); mid = [point(V, i) for i in (4, 1, 6)[:n]]; asked = []
    om = [m for m in mid if V.choice('omitted %d' % m.id, 2)]; omit = {a, b, *om}
    log = []; chain = lambda x, y, o: [('chain', x, y)]
    def rec(x, y, omit=set()): log.append((x, y, set(omit))); return chain(x, y, omit)
    ts = {}
    def project(v, o, x):
        V.ensure('projection to the line', c.sand(same(v, [b.xy[j] - a.xy[j] for j in (0, 1)]), same(o, a.xy)))
        p = next(p for p in mid if p.xy is x); ts[p.id] = V.real('t%d' % p.id, lo=0, hi=1); return ts[p.id]
    div = {}
    def isec(x, y): log.append(('isec', x, y)); return div
    segs = [Named('s0'), Named('s1')]
    def new(x, y, d): log.append(('new', x, y, d)); return iter([(segs[0], None, True), (segs[1], None, False)])
    P = front(V, _add_line_seg_intersections=isec, _add_line_new_segments=new, seg_project_point=project)
    P.decomp = Dec([a, b, *mid]); P.points_lookup = Look([p.id for p in [a, b, *mid]], asked)
    F = cls().add_line_for_points; P.__dict__['add_line_for_points'] = rec
    tol = P.tolerance
    r = F(P, a, b, omit)
    box(V, asked, a, b, tol)
    V.ensure('the points to be left out are not changed', omit == {a, b, *om})
    dist = lambda p: d2(p.xy, [a.xy[j] + ts[p.id] * (b.xy[j] - a.xy[j]) for j in (0, 1)])
    rest = [m for m in mid if m not in om]
    if log and len(log[0][0:1]) and isinstance(log[0][0], str) and log[0][0] == 'isec':
        V.cover('no point near')
        for p in rest: V.ensure('no point within the tolerance is passed by', c.sand(p.id in ts, dist(p) >= tol * tol) if p.id in ts else False)
        V.ensure('crossings, then segments between them', len(log) == 2 and log[0][1] is a and log[0][2] is b and log[1][0] == 'new' and log[1][1] is a and log[1][2] is b and log[1][3] is div)
        V.ensure('the new segments are returned', list(r) == segs)
    else:
        V.cover('through a point'); V.ensure('two parts', len(log) == 2)
        p = log[0][1]
        V.ensure('divided at a point', any(p is m for m in rest) and log[0][0] is a and log[1][0] is p and log[1][1] is b)
        V.ensure('the point is within the tolerance', dist(p) < tol * tol)
        V.ensure('the point is not met again', all(len(x[2]) == len(omit) + 1 and omit | {p} == x[2] for x in log))
        V.ensure('the chain of both parts in order', len(r) == 2 and all(x[0] is n0 and x[1] is y and x[2] is z for x, n0, y, z in zip(r, ('chain', 'chain'), (a, p), (p, b))))
def crossings(V):
    """up to 3 candidates: every segment crossed is divided where it is crossed, no other is touched"""
    c = core(); n = V.choice('candidates', 4); asked = []
    a, b = point(V, 2), point(V, 9)
    pts = [point(V, 10 + i) for i in range(2 * n)]; segs = [segment(V, (7, 3, 20)[i], pts[2 * i], pts[2 * i + 1]) for i in range(n)]
    hit = [V.choice('crossed %d' % i, 2) for i in range(n)]
    t0 = [V.real('t0 %d' % i, lo=0, hi=1) for i in range(n)]; t1 = [V.real('t1 %d' % i, lo=0, hi=1) for i in range(n)]
    for i in range(n):
        for j in range(i): V.assume(t1[i] != t1[j])
    new = [Named('new part %d' % i) for i in range(n)]; mid = [Named('mid %d' % i) for i in range(n)]; done = []
    def inter(s, x, y):
        V.ensure('crossing of the segment with the line', any(s is z for z in segs) and c.sand(same(x, a.xy), same(y, b.xy)))
        i = segs.index(s); return (t0[i], t1[i]) if hit[i] else (None, None)
    def onseg(s, t): i = segs.index(s); done.append((i, t)); return mid[i], new[i]
    P = front(V, seg_intersection=inter, _point_on_segment=onseg)
    P.decomp = Dec([a, b, *pts], segs); P.segments_lookup = Look([s.id for s in segs], asked)
    r = need(P, '_add_line_seg_intersections')(a, b)
    tol = P.tolerance; box(V, asked, a, b, tol)
    V.ensure('segments crossed are divided, others are not', sorted(i for i, t in done) == [i for i in range(n) if hit[i]])
    for i, t in done: V.ensure('divided where it is crossed', t == t0[i])
    V.ensure('a crossing for each', len(r) == sum(hit))
    for k, v in r.items():
        V.cover('crossed'); V.ensure('one of the points', v[0] in mid); i = mid.index(v[0])
        V.ensure('under its place on the line', k == t1[i]); V.ensure('point and parts', v[1] is segs[i] and v[2] is new[i])
def box(V, asked, a, b, tol):
    c = core()
    V.ensure('the lookup is asked once', len(asked) == 1)
    q = asked[0]
    if not isinstance(q, Box): raise c.Unsupported('a box of another kind')
    V.ensure('for what is around the line', c.sand(len(q.pts) == 2, c.sor(c.sand(same(q.pts[0], a.xy), same(q.pts[1], b.xy)), c.sand(same(q.pts[0], b.xy), same(q.pts[1], a.xy))), q.margin == tol))
def new_segments(V, n):
    """n crossings: a chain from the first to the last point through the crossings in their order"""
    c = core(); log = []
    a, b = point(V, 2), point(V, 9); mid = [point(V, i) for i in (4, 1, 6)[:n]]
    if n == 2 and V.choice('two at one point', 2): mid[1] = mid[0]
    if 0 < n < 3 and V.choice('at the first end', 2): mid[-1] = a
    ts = [V.real('t%d' % i, lo=0, hi=1) for i in range(n)]
    for i in range(n):
        for j in range(i): V.assume(ts[i] != ts[j])
    way = {}
    def add(x, y):
        k = len(log); s = Named('segment %d' % k); s.vtxs = [x, y] if n == 3 or not V.choice('segment exists the other way %d' % k, 2) else [y, x]
        P.decomp.last_polygon_change = ch = ('change', k); log.append(('add', x, y, s, ch)); return s
    def merge(x, y):
        k = len(log); r = x if V.choice('merged to %d' % k, 2) else y; log.append(('merge', x, y, r)); return r
    P = front(V, _add_segment=add, merge_points=merge); P.decomp = Dec([a, b, *mid], last_polygon_change=None)
    tol = P.tolerance
    r = list(need(P, '_add_line_new_segments')(a, b, {ts[i]: (mid[i], Named('s'), Named('t')) for i in range(n)}))
    order = []
    for i in range(n):
        k = 0
        while k < len(order) and bool(ts[order[k]] < ts[i]): k += 1
        order.insert(k, i)
    cur, ev = a, list(log)
    for i in order:
        m = mid[i]
        if m is cur: continue
        V.ensure('every crossing is met, in the order along the line', bool(ev) and ev[0][1] is cur and ev[0][2] is m)
        e = ev.pop(0); near = d2(cur.xy, m.xy)
        if e[0] == 'merge': V.cover('merged'); V.ensure('points within the tolerance are merged', near < tol * tol); cur = e[3]
        else: V.ensure('other points are joined', near >= tol * tol); cur = m
    if cur is not b:
        V.ensure('the chain ends in the last point', len(ev) == 1 and ev[0][0] == 'add' and ev[0][1] is cur and ev[0][2] is b)
        V.cover('chain')
    else: V.ensure('nothing after the last point', not ev)
    adds = [e for e in log if e[0] == 'add']
    V.ensure('the new segments in order', len(r) == len(adds) and all(x[0] is e[3] for x, e in zip(r, adds)))
    for x, e in zip(r, adds):
        V.ensure('the change made by each', x[1] == e[4]); V.ensure('its direction', bool(x[2]) == (e[3].vtxs[0] is e[1]))
def units():
    M = dict(mods=[PM, AM, SM, PT], extra={AM: dict(make_aabb=lambda points, margin=0.0: Box(points, margin))}, conc=False, unbounded='all coordinates and tolerances')
    few = ['up to 3 candidates of a lookup, crossings of a line']
    def U(name, f, fs, **k):
        if any(x in ('_snap_point', 'add_line_for_points', '_add_line_seg_intersections', '_add_line_new_segments') for x in fs): k['assumes'] = k.get('assumes', []) + few
        return Unit(name, f, [T + x for x in fs], **dict(M, **k))
    return [U('a place on a segment', on_segment, ['_point_on_segment'], covers=['end', 'split']),
            U('a requested point', add_point, ['add_point', '_add_point_impl'], covers=['point', 'segment', 'new']),
            U('points near a location', near_points, ['_snap_point', 'pt_dist'], covers=['none', 'found']),
            U('one segment near a location', lambda V: near_segments(V, 1), ['_snap_point'], covers=['segment', 'side', 'end']),
            U('two segments near a location', lambda V: near_segments(V, 2), ['_snap_point'], covers=['segment', 'side', 'end'], assumes=['the location is within the tolerance of one segment at most']),
            U('a location between two segments', between_segments, ['_snap_point'], covers=['closest', 'moved'], assumes=['two segments within the tolerance, not parallel and not equally far; coordinates in the frame and the length of the farther one']),
            U('a requested line', add_line, ['add_line'], covers=['point', 'line']),
            *[U('a line past %d points' % n, lambda V, n=n: line_points(V, n), ['add_line_for_points'], covers=['no point near'] + ['through a point'] * (n > 0)) for n in range(4)],
            U('segments crossed by a line', crossings, ['_add_line_seg_intersections'], covers=['crossed']),
            *[U('segments of a line with %d crossings' % n, lambda V, n=n: new_segments(V, n), ['_add_line_new_segments'], covers=['chain'] + ['merged'] * (n > 0)) for n in range(4)]]
