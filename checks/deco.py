"""Independent reference for plane subdivisions: exact faces of a straight-line drawing, a structural comparison of a
Decomposition with it, snapshots, and random drawings. Shared by D01, D02, D03, D05, D09, D10."""
import importlib
from fractions import Fraction as F
from functools import cmp_to_key
DC = 'bgem.polygons.decomp'; PL = 'bgem.polygons.polygons'
def dc(): return importlib.import_module(DC)
def pl(): return importlib.import_module(PL)

def xyof(p): return (F(float(p.xy[0])), F(float(p.xy[1])))
def cross(o, a, b): return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
def sgn(x): return (x > 0) - (x < 0)
def between(a, b, q): return min(a[0], b[0]) <= q[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= q[1] <= max(a[1], b[1])
def on_seg(a, b, q): return cross(a, b, q) == 0 and between(a, b, q)
def conflict(a, b, c, d):
    """segments ab, cd meet anywhere but in a common end point"""
    if {a, b} == {c, d}: return True
    shared = [p for p in (a, b) if p in (c, d)]
    if shared:
        s = shared[0]; u = b if s == a else a; v = d if s == c else c
        return cross(s, u, v) == 0 and (u[0] - s[0]) * (v[0] - s[0]) + (u[1] - s[1]) * (v[1] - s[1]) > 0
    if any(on_seg(a, b, q) for q in (c, d)) or any(on_seg(c, d, q) for q in (a, b)): return True
    return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 and sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0

def near(a, b, q, eps=1e-6):
    """q within eps of the segment ab (floats are enough)"""
    a, b, q = [(float(x[0]), float(x[1])) for x in (a, b, q)]
    dx, dy = b[0] - a[0], b[1] - a[1]
    t = ((q[0] - a[0]) * dx + (q[1] - a[1]) * dy) / (dx * dx + dy * dy)
    t = min(1, max(0, t))
    return (a[0] + t * dx - q[0]) ** 2 + (a[1] + t * dy - q[1]) ** 2 < eps * eps

def inside_cycle(cyc, q):
    """even-odd rule, q off the cycle; cyc: list of locations"""
    r = False
    for i in range(len(cyc)):
        a, b = cyc[i - 1], cyc[i]
        if (a[1] <= q[1]) != (b[1] <= q[1]):
            if a[0] + (q[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1]) > q[0]: r = not r
    return r

class Faces:
    """faces of a drawing. pts: id -> (x, y); segs: id -> (out point id, in point id)
    half edge (seg id, side) follows the segment with its face: side 1 (left) from out to in, side 0 (right) from in to out"""
    def __init__(self, pts, segs):
        self.pts, self.segs = pts, segs
        fan = {p: [] for p in pts}
        for s, (a, b) in segs.items(): fan[a].append((s, 0, b)); fan[b].append((s, 1, a))
        def half(v): return 0 if (v[1] > 0 or (v[1] == 0 and v[0] > 0)) else 1
        def order(p):
            o = pts[p]
            def cmp(x, y):
                u = (pts[x[2]][0] - o[0], pts[x[2]][1] - o[1]); v = (pts[y[2]][0] - o[0], pts[y[2]][1] - o[1])
                if half(u) != half(v): return half(u) - half(v)
                return -sgn(u[0] * v[1] - u[1] * v[0])
            return sorted(fan[p], key=cmp_to_key(cmp))       # counter clockwise
        self.fan = {p: [(s, v) for s, v, _ in order(p)] for p in pts}
        # next half edge with the face on the left: arriving at p along s, leave along the clockwise next segment
        nxt = {}
        for p, f in self.fan.items():
            for i, (s, v) in enumerate(f):
                t, w = f[i - 1]      # clockwise next
                # arriving at p (local vertex v of s): side 1 arrives at in (v=1), side 0 arrives at out (v=0)
                nxt[(s, v)] = (t, 1 - w)    # leaving from local vertex w: side 1 leaves out (w=0), side 0 leaves in (w=1)
        self.next = nxt
        self.cycles = []; self.cyc_of = {}
        for h in nxt:
            if h in self.cyc_of: continue
            c = []; x = h
            while x not in self.cyc_of: self.cyc_of[x] = len(self.cycles); c.append(x); x = nxt[x]
            self.cycles.append(c)
        self.loc = [[pts[segs[s][1 - side]] for s, side in c] for c in self.cycles]
        self.area = [sum(l[i - 1][0] * l[i][1] - l[i - 1][1] * l[i][0] for i in range(len(l))) for l in self.loc]
        # components
        comp = {p: p for p in pts}
        def find(p):
            while comp[p] != p: comp[p] = comp[comp[p]]; p = comp[p]
            return p
        for a, b in segs.values(): comp[find(a)] = find(b)
        self.comp = {p: find(p) for p in pts}
        self.ccomp = [self.comp[segs[c[0][0]][0]] for c in self.cycles]
        outer = [i for i, a in enumerate(self.area) if a > 0]
        self.outer = outer
        self.hole_of = {}      # cycle -> cycle that bounds its face from outside (None: unbounded face)
        for i, a in enumerate(self.area):
            if a <= 0:
                q = pts[segs[self.cycles[i][0][0]][0]]
                self.hole_of[i] = self.innermost(q, self.ccomp[i])
        self.compcyc = {self.ccomp[i]: i for i in self.hole_of}
        self.free = {p: self.innermost(pts[p], p) for p in pts if not self.fan[p]}
    def innermost(self, q, skip=None):
        best = None
        for j in self.outer:
            if self.ccomp[j] != skip and inside_cycle(self.loc[j], q):
                if best is None or self.area[j] < self.area[best]: best = j
        return best
    def key(self, j): return None if j is None else frozenset(self.cycles[j])
    def faces(self):
        """face key (half edges of its outer cycle, None unbounded) -> (set of hole cycles, set of isolated points)"""
        d = {self.key(j): (set(), set()) for j in self.outer + [None]}
        for i, j in self.hole_of.items(): d[self.key(j)][0].add(self.key(i))
        for p, j in self.free.items(): d[self.key(j)][1].add(p)
        return d
    def locate(self, q):
        return self.innermost(q)

def of(d):
    return Faces({i: xyof(p) for i, p in d.points.items()}, {i: (s.vtxs[0].id, s.vtxs[1].id) for i, s in d.segments.items()})

class Bad(Exception): pass
def req(c, msg, *a):
    if not c: raise Bad(msg + ''.join(' ' + repr(x)[:200] for x in a))

def ring(seg, side, n):
    out = []; x = (seg, side)
    while True:
        out.append((x[0].id, x[1])); x = x[0].next[x[1]]
        if x[0] is seg and x[1] == side: return out
        req(len(out) <= n, 'a loop does not close', out[:6])

def topology(d):
    """D01: the stated structure, checked on the objects themselves"""
    n = 2 * len(d.segments) + 2
    for m in (d.points, d.segments, d.wires, d.polygons):
        for i, o in m.items(): req(o.id == i, 'identifier', i, o.id)
    root = d.outer_polygon.outer_wire
    req(d.polygons.get(d.outer_polygon.id) is d.outer_polygon and d.wires.get(root.id) is root and root.parent is None, 'outer polygon')
    alive = lambda o, m: o is not None and m.get(o.id) is o
    # sides and loops
    seen = {}
    for s in d.segments.values():
        req(s.vtxs[0] is not s.vtxs[1] and all(alive(v, d.points) for v in s.vtxs), 'end points', s.id)
        for side in (0, 1):
            w = s.wire[side]
            req(w is not None and alive(w, d.wires), 'loop label of a side', s.id, side)
            t, ts = s.next[side]
            req(alive(t, d.segments), 'successor of a side', s.id, side)
            req(t.vtxs[1 - ts] is s.vtxs[side], 'consecutive sides meet in a vertex', s.id, side, t.id, ts)
            req(t.wire[ts] is w, 'consecutive sides carry the same label', s.id, side, t.id, ts)
            seen.setdefault(w.id, []).append((s.id, side))
    pre = {}
    for s in d.segments.values():
        for side in (0, 1):
            k = (s.next[side][0].id, s.next[side][1]); req(k not in pre, 'a side has two predecessors', k); pre[k] = 1
            p = s.previous(side); req(p[0].next[p[1]][0] is s and p[0].next[p[1]][1] == side, 'previous', s.id, side)
    for w in d.wires.values():
        if w is root: req(w.id not in seen, 'sides labelled by the unbounded loop'); continue
        req(w.id in seen, 'loop without sides', w.id)
        s, side = w.segment
        req(s is not None and alive(s, d.segments), 'representative side', w.id)
        req(s.wire[side] is w, 'representative side of its own', w.id)
        r = ring(s, side, n)
        req(sorted(r) == sorted(seen[w.id]), 'sides of one label form one cycle', w.id, r, seen[w.id])
        req([(a.id, b) for a, b in w.segments()] == r, 'enumeration of a loop', w.id)
        req(w.parent is not None and w.parent is not w and alive(w.parent, d.wires), 'registered parent', w.id)
        req(w in w.parent.childs, 'child of its parent', w.id)
        k = 0; q = w
        while q is not root: q = q.parent; k += 1; req(k <= len(d.wires), 'parents form a cycle', w.id)
    for w in d.wires.values():
        req(all(alive(c, d.wires) and c.parent is w for c in w.childs) and len({c.id for c in w.childs}) == len(w.childs), 'childs', w.id)
        req(alive(w.polygon, d.polygons), 'polygon of a loop', w.id)
        P = w.polygon
        req(P.outer_wire is w or (w.parent is P.outer_wire), 'loop is the outer loop or a hole of its polygon', w.id)
    for P in d.polygons.values():
        req(alive(P.outer_wire, d.wires) and P.outer_wire.polygon is P, 'polygon owns its outer loop', P.id)
        for h in P.outer_wire.childs: req(h.polygon is P, 'polygon owns its holes', P.id, h.id)
        for p in P.free_points: req(alive(p, d.points) and p.poly is P and p.is_free(), 'isolated point of a polygon', P.id, p.id)
    # vertices
    inc = {p.id: set() for p in d.points.values()}
    for s in d.segments.values():
        for v in (0, 1): inc[s.vtxs[v].id].add((s.id, v))
    for p in d.points.values():
        if not inc[p.id]:
            req(p.is_free() and p.segment[0] is None and alive(p.poly, d.polygons) and p in p.poly.free_points, 'isolated point registered', p.id)
            req(sum(p in P.free_points for P in d.polygons.values()) == 1, 'registered once', p.id)
        else:
            req(not p.is_free() and p.poly is None, 'a vertex is no isolated point', p.id)
            req(not any(p in P.free_points for P in d.polygons.values()), 'a vertex is no isolated point', p.id)
            s, v = p.segment; req(alive(s, d.segments) and s.vtxs[v] is p, 'segment of a vertex', p.id)
            f = []
            for s, v in p.segments():
                f.append((s.id, v)); req(len(f) <= n, 'fan does not close', p.id)
            req(len(f) == len(inc[p.id]) and set(f) == inc[p.id], 'fan lists each incident segment once', p.id, f, inc[p.id])
    # registry of point pairs
    req(len(d.pt_to_seg) == len(d.segments), 'registry of point pairs')
    for k, s in d.pt_to_seg.items(): req(alive(s, d.segments) and s.point_ids() == k, 'registry of point pairs', k)

def geometry(d, fc=None):
    """D02: loops, polygons, holes and isolated points are those of the drawing"""
    fc = fc or of(d)
    for p in d.points.values():
        f = [(s.id, v) for s, v in p.segments()]
        g = fc.fan[p.id]
        if f:
            i = g.index(f[0]); g = g[i::-1] + g[:i:-1]
            req(f == g, 'fan order', p.id, f, g)
    cyc = {frozenset(c) for c in fc.cycles}
    lab = {}
    for w in d.wires.values():
        if w.parent is not None: lab[frozenset((s.id, v) for s, v in ring_(w))] = w
    req(set(lab) == cyc, 'boundary loops of the drawing')
    exp = fc.faces()
    outer = {}
    for P in d.polygons.values():
        w = P.outer_wire
        outer[None if w.parent is None else frozenset((s.id, v) for s, v in ring_(w))] = P
    req(set(outer) == set(exp), 'polygons are the faces of the drawing', len(outer), len(exp))
    for k, P in outer.items():
        h = {frozenset((s.id, v) for s, v in ring_(c)) for c in P.outer_wire.childs}
        req(h == exp[k][0], 'holes of a polygon', P.id, len(h), len(exp[k][0]))
        req({p.id for p in P.free_points} == exp[k][1], 'isolated points of a polygon', P.id, {p.id for p in P.free_points}, exp[k][1])
    # nesting: the parent of an outer loop is the outer rim of its component
    for k, P in outer.items():
        if k is None: continue
        j = next(i for i in fc.outer if fc.key(i) == k)
        rim = lab[fc.key(fc.compcyc[fc.ccomp[j]])]
        req(P.outer_wire.parent is rim, 'parent of an outer loop', P.id)
    return outer, fc
def ring_(w):
    s, v = w.segment
    out = []
    while True:
        out.append((s, v)); s, v = s.next[v]
        if s is w.segment[0] and v == w.segment[1]: return out
        if len(out) > 10000: raise Bad('a loop does not close')

# ------------------------------------------------------------------ random edits of a Decomposition on exact coordinates
class Drawing:
    """random edits; keeps the exact drawing beside the real object"""
    def __init__(self, r, kind=None):
        self.r = r; self.d = dc().Decomposition(); self.d.outer_polygon.attr = 'outer'
        self.k = r.choice([2, 3, 3, 4, 5, 6]); self.hist = []
        self.kind = kind if kind is not None else r.randrange(3)
        self.sc = r.choice([1, 1, 1, .25, 16]); self.off = r.choice([(0, 0), (0, 0), (-2, 5), (100, -40)])
        self.plan = []
        if r.random() < .6: self.rings()
    def rings(self):
        """a plan of nested rings, side rings inside them, spokes between them, in random order"""
        r = self.r
        P, E = [], []
        R = r.choice([2, 2, 3, 4])
        def ring(cx, cy, h, m):
            base = len(P)
            c = [(-h, -h), (h, -h), (h, h), (-h, h)][:m] if m != 3 else [(-h, -h), (h, -h), (0, h)]
            for x, y in c: P.append((cx + x, cy + y))
            for i in range(len(c)):
                if m > 2 or i: E.append((base + i - 1 if i else base + len(c) - 1, base + i))
            return base, len(c)
        prev = None; h = 4. * R
        for j in range(R):
            b = ring(0, 0, h, r.choice([3, 4, 4]))
            if prev:
                for _ in range(r.choice([1, 1, 2, 3])): E.append((prev[0] + r.randrange(prev[1]), b[0] + r.randrange(b[1])))
            inner = h / r.choice([2, 3])
            if r.random() < .6:   # small things beside the next ring
                for _ in range(r.choice([1, 1, 2])):
                    c = ring(r.choice([-1, 1]) * (h + inner) / 2 * r.choice([1, .25, .5]), r.choice([-1, 1]) * (h + inner) / 2 * .9, h / 16, r.choice([1, 2, 3, 4]))
                    for _ in range(r.choice([0, 1, 2])): E.append((b[0] + r.randrange(b[1]), c[0] + r.randrange(c[1])))
            prev = b; h = inner * .75
        ids = {}
        todo = [('p', i) for i in range(len(P))]; r.shuffle(todo)
        e = [('e', i) for i in range(len(E))]; r.shuffle(e)
        if r.random() < .5: todo = todo + e
        else:
            todo = todo + e; r.shuffle(todo)
        self.P, self.E, self.ids, self.plan = P, E, ids, todo[::-1]
        self.kind = r.randrange(3); self.off = (0, 0); self.sc = r.choice([1, 2])
    def planned(self):
        kind, i = self.plan.pop()
        d = self.d
        if kind == 'p':
            if i in self.ids and any(q is self.ids[i] for q in d.points.values()): return None
            p = self.put(self.P[i])
            if p is not None: self.ids[i] = p; return 'pt', p
            return None
        a, b = self.E[i]
        for j in (a, b):
            if j not in self.ids: self.plan.append((kind, i)); self.plan.append(('p', j)); return None if self.plan.count(('p', j)) < 5 else self.plan.clear()
        A, B = self.ids[a], self.ids[b]
        if any(not any(q is x for q in d.points.values()) for x in (A, B)): return None
        return self.link(A, B)
    def put(self, q):
        d = self.d
        P, S = list(d.points.values()), list(d.segments.values())
        Q = (F(q[0]), F(q[1]))
        if any(xyof(p) == Q for p in P) or any(near(xyof(s.vtxs[0]), xyof(s.vtxs[1]), Q) for s in S): return None
        poly = self.face_poly(Q)
        self.hist.append(('pt', q)); return d.add_free_point(q, poly)
    def link(self, a, b):
        d = self.d
        P, S = list(d.points.values()), list(d.segments.values())
        A, B = xyof(a), xyof(b)
        if any(p is not a and p is not b and near(A, B, xyof(p)) for p in P): return None
        if any(conflict(A, B, xyof(s.vtxs[0]), xyof(s.vtxs[1])) or any(q not in (A, B) and near(A, B, q) for q in (xyof(s.vtxs[0]), xyof(s.vtxs[1]))) or any(q is not s.vtxs[0] and q is not s.vtxs[1] and near(xyof(s.vtxs[0]), xyof(s.vtxs[1]), xyof(q)) for q in (a, b)) for s in S): return None
        if self.r.random() < .5: a, b = b, a
        self.before(); self.hist.append(('seg', a.id, b.id)); s = d.new_segment(a, b)
        return 'seg', (s, a, b)
    def before(self): pass
    def spot(self):
        r = self.r
        if self.kind == 1: return (r.randrange(1024) / 256. * self.sc + self.off[0], r.randrange(1024) / 256. * self.sc + self.off[1])
        return (r.randrange(self.k) * self.sc + self.off[0], r.randrange(self.k) * self.sc + self.off[1])
    def X(self, p): return xyof(p)
    def ops(self):
        d, r = self.d, self.r
        n = len(d.segments)
        o = ['pt'] * 3 + ['seg'] * 8
        if len(d.points) < 4: o += ['pt'] * 8
        if n: o += ['del'] * 3 + ['split', 'join', 'join', 'again', 'attr', 'rmpt', 'delpt']
        return r.choice(o)
    def face_poly(self, q):
        """polygon object that geometrically contains q"""
        outer, fc = geometry(self.d)
        return outer[fc.key(fc.locate(q))]
    def step(self):
        """-> (kind, info) of an edit performed, or None"""
        d, r = self.d, self.r
        if self.plan and r.random() < .85: return self.planned()
        op = self.ops()
        P, S = list(d.points.values()), list(d.segments.values())
        if op == 'pt':
            p = self.put(self.spot())
            return None if p is None else ('pt', p)
        if op == 'seg' and len(P) >= 2:
            for _ in range(6):
                a, b = r.sample(P, 2)
                A, B = xyof(a), xyof(b)
                if self.kind == 2 and max(abs(A[0] - B[0]), abs(A[1] - B[1])) > self.sc * 1.5: continue
                x = self.link(a, b)
                if x: return x
            return None
        if op == 'del':
            s = r.choice(S)
            if r.random() < .5:
                b = [x for x in S if x.wire[0] is x.wire[1] and x.next[0][0] is not x and x.next[1][0] is not x]
                if b: s = r.choice(b)
            self.before(); self.hist.append(('del', s.id)); d.delete_segment(s); return 'del', s
        if op == 'again':
            s = r.choice(S); a, b = s.vtxs
            if r.random() < .5: a, b = b, a
            self.hist.append(('again', a.id, b.id)); t = d.new_segment(a, b); return 'again', (s, t)
        if op == 'split':
            s = r.choice(S)
            A, B = xyof(s.vtxs[0]), xyof(s.vtxs[1])
            t = F(1, 2)
            M = tuple(A[i] + t * (B[i] - A[i]) for i in (0, 1))
            q = (float(M[0]), float(M[1]))
            if (F(q[0]), F(q[1])) != M or M in (A, B) or max(x.denominator for x in M) > 2 ** 20: return None
            m = d.add_free_point(q, d.outer_polygon)
            self.hist.append(('split', s.id, m.id)); ids = s.point_ids(); at = getattr(s, 'attr', None); s.attr = at
            new = d.split_segment(s, m); return 'split', (s, new, m, ids, at)
        if op == 'join':
            for p in r.sample(P, len(P)):
                f = list(p.segments())
                if len(f) != 2: continue
                (s0, v0), (s1, v1) = f
                a, b = s0.vtxs[1 - v0], s1.vtxs[1 - v1]
                if a is b or cross(xyof(a), xyof(b), xyof(p)) != 0 or not between(xyof(a), xyof(b), xyof(p)): continue
                if r.random() < .5: s0, s1, v0, v1 = s1, s0, v1, v0
                self.hist.append(('join', p.id, s0.id, s1.id))
                d.join_segments(p, s0, s1)
                free = p.is_free()
                d.remove_free_point(p)
                return 'join', (s0, s1, p, (a, b))
            return None
        if op == 'rmpt':
            fp = [p for p in P if p.is_free()]
            if not fp: return None
            p = r.choice(fp); self.hist.append(('rmpt', p.id)); d.remove_free_point(p); return 'rmpt', p
        if op == 'delpt':
            p = r.choice(P); f = [s for s, _ in p.segments()]
            if not 2 <= len(f) <= 4: return None
            self.hist.append(('delpt', p.id))
            for s in f: d.delete_segment(s)
            return 'delpt', p
        if op == 'attr':
            Q = r.choice(list(d.polygons.values())); Q.attr = r.randrange(1000); return None

# ------------------------------------------------------------------ user level drawing
import math
def fl(p): return (float(p[0]), float(p[1]))
def pdist(a, b): return math.hypot(a[0] - b[0], a[1] - b[1])
def sdist(a, b, q):
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = dx * dx + dy * dy
    t = min(1, max(0, ((q[0] - a[0]) * dx + (q[1] - a[1]) * dy) / L)) if L else 0
    return math.hypot(a[0] + t * dx - q[0], a[1] + t * dy - q[1])
def isec(a, b, c, d):
    """float crossing parameters (on ab, on cd) or None for parallel"""
    ux, uy = b[0] - a[0], b[1] - a[1]; vx, vy = d[0] - c[0], d[1] - c[1]
    D = ux * vy - uy * vx
    if abs(D) < 1e-12 * (math.hypot(ux, uy) * math.hypot(vx, vy) + 1e-300): return None
    wx, wy = c[0] - a[0], c[1] - a[1]
    return ((wx * vy - wy * vx) / D, (wx * uy - wy * ux) / D)

class Sketch:
    """points and lines given by a user; requests are near features (within tol / 3) or away from them (> 6 tol)"""
    def __init__(self, r, attrs=False):
        self.r = r; self.tol = r.choice([.01, .01, .05, .002])
        self.P = pl().PolygonDecomposition(self.tol) if self.tol != .01 or r.random() < .5 else pl().PolygonDecomposition()
        if abs(self.P.tolerance - self.tol) > 1e-12: self.P.set_tolerance(self.tol)
        self.size = r.choice([3., 6., 10.]) * max(1, self.tol * 20)
        self.hist = [('tol', self.tol)]; self.attrs = attrs; self.na = 0
        self.mode = r.randrange(3)
    @property
    def d(self): return self.P.decomp
    def pts(self): return [fl(p.xy) for p in self.d.points.values()]
    def segs(self): return [(fl(s.vtxs[0].xy), fl(s.vtxs[1].xy)) for s in self.d.segments.values()]
    def request(self):
        """a location: fresh, near a point or near a segment"""
        r, tol = self.r, self.tol
        P, S = self.pts(), self.segs()
        k = r.random()
        def jit(q):
            m = r.choice([0, 0, tol / 4]); t = r.uniform(0, 2 * math.pi)
            return (q[0] + m * math.cos(t), q[1] + m * math.sin(t))
        if k < .3 and P: return jit(r.choice(P))
        if k < .5 and S:
            a, b = r.choice(S); t = r.choice([.5, .25, r.random()])
            return jit((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
        if k < .62 and P:      # a little away from a point
            q = r.choice(P); m = tol * r.uniform(6.5, 14); t = r.uniform(0, 2 * math.pi)
            return (q[0] + m * math.cos(t), q[1] + m * math.sin(t))
        if self.mode == 0: return (float(r.randrange(4)) * self.size / 4, float(r.randrange(4)) * self.size / 4)
        return (r.uniform(0, self.size), r.uniform(0, self.size))
    def tick(self):
        """a short line across a segment, a little away from its end"""
        r, tol = self.r, self.tol
        a, b = r.choice(self.segs())
        if r.random() < .5: a, b = b, a
        L = pdist(a, b); t = r.uniform(6.5, 12) * tol / L; x = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
        f = math.atan2(b[1] - a[1], b[0] - a[0]) + r.choice([-1, 1]) * r.uniform(1, 2.1); m, n = r.uniform(7, 15) * tol, r.uniform(7, 15) * tol
        return (x[0] + m * math.cos(f), x[1] + m * math.sin(f)), (x[0] - n * math.cos(f), x[1] - n * math.sin(f))
    def place(self, q):
        """where a request ends up: ('p', location) / ('s', segment index, location) / ('n', q) or None when it is too close to call"""
        tol = self.tol
        P, S = self.pts(), self.segs()
        dp = [pdist(p, q) for p in P]
        if dp and min(dp) < tol / 2:
            if sum(x < 6 * tol for x in dp) > 1: return None
            return ('p', P[dp.index(min(dp))])
        if dp and min(dp) < 6 * tol: return None
        ds = [sdist(a, b, q) for a, b in S]
        if ds and min(ds) < tol / 2:
            if sum(x < 6 * tol for x in ds) > 1: return None
            i = ds.index(min(ds)); a, b = S[i]
            t = ((q[0] - a[0]) * (b[0] - a[0]) + (q[1] - a[1]) * (b[1] - a[1])) / pdist(a, b) ** 2
            return ('s', i, (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
        if ds and min(ds) < 6 * tol: return None
        return ('n', q)
    def safe_line(self, a, b):
        """locations of the ends after snapping, and the snapped chain; None when too close to call"""
        tol = self.tol
        A, B = self.place(a), self.place(b)
        if A is None or B is None: return None
        la, lb = A[-1], B[-1]
        if pdist(a, b) < 8 * tol and (A[0] != 'p' or B[0] != 'p' or la != lb): return None
        if la == lb: return [la]
        if pdist(la, lb) < 8 * tol: return None
        P, S = self.pts(), self.segs()
        # the second end is placed after the first one was
        if A[0] == 's' and B[0] == 's' and A[1] == B[1]: pass
        stops = [(0., la), (1., lb)]
        L = pdist(la, lb)
        for p in P:
            if p in (la, lb): continue
            dd = sdist(la, lb, p)
            if dd < tol / 2:
                t = ((p[0] - la[0]) * (lb[0] - la[0]) + (p[1] - la[1]) * (lb[1] - la[1])) / L ** 2
                if not 6 * tol < t * L < L - 6 * tol: return None
                stops.append((t, p))
            elif dd < 6 * tol: return None
        stops.sort()
        for (t, p), (u, q) in zip(stops, stops[1:]):
            if (u - t) * L < 6 * tol: return None
        X = []
        own = {A[1] if A[0] == 's' else None, B[1] if B[0] == 's' else None}
        for (t, p), (u, q) in zip(stops, stops[1:]):
            for i, (c, d) in enumerate(S):
                if {c, d} == {p, q}: continue
                # a piece that runs along an existing segment
                on = lambda z: z in (c, d) or sdist(c, d, z) < 1e-9 * self.size
                if on(p) and on(q): continue
                z = isec(p, q, c, d)
                if p in (c, d) or q in (c, d) or on(p) or on(q):
                    s = p if (p in (c, d) or on(p)) else q; o = q if s is p else p
                    e = max((c, d), key=lambda y: pdist(y, s))
                    for e in (c, d):
                        if pdist(e, s) < 1e-9 * self.size: continue
                        cr = abs((o[0] - s[0]) * (e[1] - s[1]) - (o[1] - s[1]) * (e[0] - s[0])) / (pdist(o, s) * pdist(e, s))
                        if cr < .25 and (o[0] - s[0]) * (e[0] - s[0]) + (o[1] - s[1]) * (e[1] - s[1]) > 0: return None
                    continue
                if z is None:
                    if min(sdist(c, d, p), sdist(c, d, q), sdist(p, q, c), sdist(p, q, d)) < 6 * tol: return None
                    continue
                l0, l1 = pdist(p, q), pdist(c, d)
                x, y = z[0] * l0, z[1] * l1
                m = 6 * tol
                if -m < x < l0 + m and -m < y < l1 + m:
                    if not (m < x < l0 - m and m < y < l1 - m): return None
                    cr = abs((q[0] - p[0]) * (d[1] - c[1]) - (q[1] - p[1]) * (d[0] - c[0])) / (l0 * l1)
                    if cr < .25: return None
                    X.append((t + (u - t) * z[0], (p[0] + z[0] * (q[0] - p[0]), p[1] + z[0] * (q[1] - p[1]))))
        ch = sorted(stops + X)
        for (t, p), (u, q) in zip(ch, ch[1:]):
            if pdist(p, q) < 6 * tol: return None
        # crossings stay away from other segments and points
        for _, x in X:
            if any(pdist(x, p) < 6 * tol for p in P): return None
            if sum(sdist(c, d, x) < 6 * tol for c, d in S) > 1: return None
        for z in (A, B):
            if z[0] != 'p' and any(z[-1] is not w[-1] and pdist(z[-1], w[-1]) < 6 * tol for w in (A, B)): return None
        return [p for _, p in ch]
    def ops(self):
        r = self.r
        o = ['point'] * 3 + ['line'] * 8
        if len(self.d.segments): o += ['delseg', 'delseg', 'delpt', 'move', 'move', 'existing']
        if self.attrs: o += ['attr'] * 4
        return r.choice(o)
    def step(self):
        r, P, d, tol = self.r, self.P, self.d, self.tol
        op = self.ops()
        if op == 'point':
            q = self.request(); w = self.place(q)
            if w is None: return None
            self.hist.append((op, q)); return op, (q, w, P.add_point(list(q) if r.random() < .5 else q))
        if op == 'line':
            for _ in range(10):
                a, b = self.request(), self.request()
                if self.segs() and r.random() < .25: a, b = self.tick()
                ch = self.safe_line(a, b)
                if ch is not None: break
            else: return None
            self.hist.append((op, a, b)); return op, (a, b, ch, P.add_line(a, b))
        if op == 'delseg':
            s = r.choice(list(d.segments.values())); self.hist.append((op, s.id)); P.delete_segment(s); return op, s
        if op == 'existing':
            s = r.choice(list(d.segments.values())); v = list(s.vtxs); r.shuffle(v); self.hist.append((op, s.id)); return op, (s, P.new_segment(*v))
        if op == 'delpt':
            p = r.choice(list(d.points.values()))
            if len(list(p.segments())) > 4: return None
            self.hist.append((op, p.id)); P.delete_point(p); return op, p
        if op == 'attr':
            c = r.choice(['p', 's', 'g', 'g'])
            m = {'p': d.points, 's': d.segments, 'g': d.polygons}[c]
            if not m: return None
            o = r.choice(list(m.values())); self.na += 1; at = r.choice([self.na] * 4 + [0, '', None, False, [], [self.na]]); self.hist.append((op, c, o.id, at)); P.set_attr(o, at); return op, (o, at)
        if op == 'move':
            # isolated point or tip: any safe displacement; vertex: small displacement that keeps everything apart
            p = r.choice(list(d.points.values()))
            v = (r.uniform(-1, 1) * self.size / r.choice([2, 8, 20]), r.uniform(-1, 1) * self.size / r.choice([2, 8, 20]))
            q = fl(p.xy); n = (q[0] + v[0], q[1] + v[1])
            inc = [s for s, _ in p.segments()]
            ot = [x for x in d.points.values() if x is not p]; os_ = [s for s in d.segments.values() if s not in inc]
            if any(pdist(fl(x.xy), n) < 8 * tol for x in ot): return None
            far = [fl((s.vtxs[0] if s.vtxs[1] is p else s.vtxs[1]).xy) for s in inc]
            # the swept region (triangles q n far, and the path) must be empty
            ends = [(fl(s.vtxs[0].xy), fl(s.vtxs[1].xy)) for s in os_]
            def clear(A, B):
                for c, e in ends:
                    z = isec(A, B, c, e)
                    sh = [k for k in (c, e) if k in (A, B)]
                    if sh:
                        s = sh[0]; o1 = B if s == A else A; o2 = e if s == c else c
                        cr = ((o1[0] - s[0]) * (o2[1] - s[1]) - (o1[1] - s[1]) * (o2[0] - s[0])) / (pdist(o1, s) * pdist(o2, s))
                        if abs(cr) < .25 and (o1[0] - s[0]) * (o2[0] - s[0]) + (o1[1] - s[1]) * (o2[1] - s[1]) > 0: return False
                        continue
                    if min(sdist(c, e, A), sdist(c, e, B), sdist(A, B, c), sdist(A, B, e)) < 8 * tol: return False
                    if z and -.01 < z[0] < 1.01 and -.01 < z[1] < 1.01: return False
                return True
            N = 12
            for k in range(1, N + 1):
                m = (q[0] + v[0] * k / N, q[1] + v[1] * k / N)
                if not clear((q[0] + v[0] * (k - 1) / N, q[1] + v[1] * (k - 1) / N), m): return None
                for f in far:
                    if pdist(f, m) < 8 * tol or not clear(m, f): return None
                    if any(x is not p and fl(x.xy) not in far and sdist(m, f, fl(x.xy)) < 8 * tol for x in d.points.values()): return None
                for i in range(len(far)):
                    for j in range(i):
                        o1, o2 = far[i], far[j]
                        cr = ((o1[0] - m[0]) * (o2[1] - m[1]) - (o1[1] - m[1]) * (o2[0] - m[0])) / (pdist(o1, m) * pdist(o2, m))
                        if abs(cr) < .25 and (o1[0] - m[0]) * (o2[0] - m[0]) + (o1[1] - m[1]) * (o2[1] - m[1]) > 0: return None
            # points inside the swept triangles
            for f in far:
                for x in ot:
                    X = fl(x.xy)
                    if X != f and inside_cycle([q, n, f], X): return None
            if not inc and not all(clear(q, n) for _ in (0,)): return None
            self.hist.append((op, p.id, v)); P.move_points([p], v if r.random() < .5 else list(v)); return op, (p, q, n)
