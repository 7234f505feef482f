import importlib
from pyvc.unit import Unit, need
from pyvc import loops
PG = 'bgem.polygons.polygon'; SG = 'bgem.polygons.segment'; PT = 'bgem.polygons.point'
from checks.D08 import mk, arr
LEVEL = 'proof'
NOTE = 'Proof: is_on_x_line is the exact half-open crossing rule for every segment and location off it, in either stored direction; Wire.segments enumerates a boundary loop of any length completely, each side once, from any start (loop contract on the generator); Wire.contains_point is the parity of the crossings over a loop of any length, Polygon.contains_point the outer loop minus any number of holes (loop contracts). Bounded runs of real loops against exact rational crossing parity.'
UNITS = []
PW = 'wires and vertices given by contracts: segments() yields the sides of the loop in order (proved separately)'

def rule(V):
    from pyvc import core
    s, c = mk(V, 's')
    q = [V.real('qx'), V.real('qy')]
    ax, ay, bx, by = c
    # off the segment: collinear locations only beside it
    D = (bx - ax) * (q[1] - ay) - (by - ay) * (q[0] - ax)
    if not V.symbolic: V.assume(abs(D) > 1e-6)
    r = s.is_on_x_line(arr(V, q))
    S = importlib.import_module(SG).Segment
    s2 = S((s.vtxs[1], s.vtxs[0])); s2.id = 1
    lo, hi = (ay, by) if bool(ay <= by) else (by, ay)
    sp = core.sand(lo <= q[1], q[1] < hi)
    if not bool(sp):
        V.cover('beside'); V.ensure('a segment not meeting the half-open height range is not crossed', core.snot(r) if V.symbolic else not r)
        r2 = s2.is_on_x_line(arr(V, q))
        V.ensure('independent of direction', core.snot(r2) if V.symbolic else not r2)
        return
    V.assume(core.snot(D == 0))
    r2 = s2.is_on_x_line(arr(V, q))
    X = ax + (q[1] - ay) * (bx - ax) / (by - ay)
    V.cover('right' if bool(X > q[0]) else 'left')
    if bool(X > q[0]):
        V.ensure('crossed to the right', r); V.ensure('independent of direction', r2)
    else:
        V.ensure('not crossed to the left', core.snot(r) if V.symbolic else not r); V.ensure('independent of direction', core.snot(r2) if V.symbolic else not r2)
UNITS.append(Unit('Segment.is_on_x_line', rule, 'segment.py:Segment.is_on_x_line', [SG, PT], covers=['beside', 'right', 'left'], samples=1500, unbounded='all coordinates', allshape=True))

# ------------------------------------------------------------------ enumeration of a loop
def ring_patch(cls, meth, start):
    """loop contract of a ring generator: seg_side is the k-th element after the start"""
    def patch(mods):
        from pyvc import core
        C = getattr(importlib.import_module(cls[0]), cls[1])
        fn = C.__dict__[meth]
        def inv(L):
            s, g = L['seg_side']
            return [('position', core.sand(s.k >= 0, s.k < s.lim, s.count == s.k))]
        def havoc(L):
            s, g = L['seg_side']
            k = core.SInt(core.CTX.fresh_int('k'))
            n = s.at(k); n.count = k
            return {'seg_side': (n, g)}
        sp = loops.Spec(inv, havoc, variant=lambda L: L['seg_side'][0].n - L['seg_side'][0].k, name=meth, kind='while')
        sp.frame = ('segment', 'seg', 'side', 'other_side')
        setattr(C, meth, loops.contract(fn, {0: sp}))
    return patch

def ringstub(V, n, flip):
    """sides of a loop: side object k is followed by k+1 modulo n; `count` is the ghost number of steps taken"""
    from pyvc import core
    class S:
        def __init__(self, k, count=None): self.k, self.n, self.count = k, n, k if count is None else count
        def at(self, k): return S(k)
        def __eq__(self, o): return core.lift(self.k) == core.lift(o.k)
        def __hash__(self): return 0
        @property
        def next(self):
            me = self
            class Nx:
                def __getitem__(self, side):
                    last = bool(core.lift(me.k) == n - 1)
                    k = core.lift(0) if last else me.k + 1
                    return (S(k, me.count + 1), 1 - side if flip else side)
            return Nx()
    S.lim = n     # elements enumerated
    return S

def wire_segments(V):
    from pyvc import core
    W = importlib.import_module(PG).Wire
    w = W()
    if V.symbolic:
        n = V.int('n', lo=1)
        S = ringstub(V, n, False)
        side = V.choice('side', 2)
        st = (S(core.lift(0)), side)
        w.id = 1; w.parent = W(); w.parent.id = 0
        w.segment = st
        given = V.choice('given', 3)
        e = V.int('end', lo=1); V.assume(e < n)
        if given == 0: g = w.segments(); last = n - 1
        elif given == 1: w.segment = (S(core.lift(0)), side); g = w.segments(start=st); last = n - 1
        else: S.lim = e; g = w.segments(start=st, end=(S(e), side)); last = e - 1
        prev = None
        for x in g:
            V.cover('yield')
            V.ensure('elements come in loop order, one per step', core.sand(x[0].k == x[0].count, x[0].k >= 0, x[0].k <= last))
            V.ensure('side', x[1] == side)
            prev = x
        V.cover('end')
        V.ensure('the last element precedes the end', prev is not None)
        V.ensure('the last element precedes the end', prev[0].k == last)
        return
    V.assume(False)
UNITS.append(Unit('Wire.segments', wire_segments, 'polygon.py:Wire.segments', [PG], covers=['yield', 'end'], patch=ring_patch((PG, 'Wire'), 'segments', 0), conc=False, unbounded='length of the loop, start, end', allshape=True,
                  assumes=['Segment.next is a permutation of the sides and the loop of the start side has n of them (data structure invariant, decided by D01)']))

# ------------------------------------------------------------------ parity
def parity_patch(mods):
    from pyvc import core
    W = importlib.import_module(PG).Wire
    def inv(L):
        i = L['__i']
        return [('number of crossings so far', core.lift(L['n_isec']) == L['self'].S(i))]
    def havoc(L):
        W_ = L['self']; i = L['__i']
        W_.facts(i)
        return {'n_isec': core.SInt(core.CTX.fresh_int('n_isec'))}
    sp = loops.Spec(inv, havoc, name='contains_point', kind='for'); sp.frame = ('seg', 'side')
    W.contains_point = loops.contract(W.contains_point, {0: sp})

def parity(V):
    from pyvc import core
    W = importlib.import_module(PG).Wire
    if not V.symbolic: V.assume(False)
    import z3
    I = z3.IntSort()
    c = z3.Function('crossed', I, z3.BoolSort()); S = z3.Function('count', I, I)
    n = V.int('n', lo=1)
    q = arr(V, [V.real('qx'), V.real('qy')])
    class Sg:
        def __init__(self, i): self.i = i
        def is_on_x_line(self, xy):
            core.CTX.prove('asked about the given location', core.sand(xy[0] == q[0], xy[1] == q[1]))
            return core.SBool(c(core.term(self.i)))
    class G(W):
        def segments(self, start=(None, None), end=(None, None)):
            if start[0] is not None or end[0] is not None: raise core.Unsupported('part of the loop')
            class It:
                def vc_iter(s): return loops.Seq(n, lambda i: (Sg(i), 0))
            return It()
        def S(self, i): return core.SInt(S(core.term(i)))
        def facts(self, i):
            i = core.term(i)
            core.CTX.add(S(0) == 0); core.CTX.add(S(i + 1) == S(i) + z3.If(c(i), 1, 0)); core.CTX.add(S(i) >= 0)
    g = G(); g.id = 1; g.parent = W(); g.parent.id = 0
    core.CTX.add(S(0) == 0)
    r = g.contains_point(q)
    V.cover('inside' if bool(r) else 'outside')
    V.ensure('inside exactly if the number of crossings is odd', core.SBool((S(core.term(n)) % 2 == 1) == core.bterm(r)))
UNITS.append(Unit('Wire.contains_point', parity, 'polygon.py:Wire.contains_point', [PG], covers=['inside', 'outside'], patch=parity_patch, conc=False, unbounded='length of the loop', allshape=True, assumes=[PW]))

def root(V):
    W = importlib.import_module(PG).Wire
    w = W(); w.id = 0; w.parent = None
    q = arr(V, [V.real('qx'), V.real('qy')])
    V.ensure('the unbounded loop contains every location', w.contains_point(q) is True or bool(w.contains_point(q)))
    v = W(); v.id = 1; v.parent = w
    V.ensure('and every loop', bool(w.contains_wire(v)))
    V.ensure('root', w.is_root() and not v.is_root()); V.cover('in')
UNITS.append(Unit('outer loop', root, ['polygon.py:Wire.contains_point', 'polygon.py:Wire.contains_wire', 'polygon.py:Wire.is_root'], [PG], covers=['in'], samples=3, unbounded='all coordinates', allshape=True))

def poly_patch(mods):
    from pyvc import core
    P = importlib.import_module(PG).Polygon
    def inv(L):
        g = L['self'].ghost
        return [('holes looked at so far do not contain the location', core.simplies(core.lift(g['k0']) < L['__i'], core.snot(core.SBool(g['c'](core.term(g['k0']))))))]
    sp = loops.Spec(inv, lambda L: {}, name='contains_point', kind='for'); sp.frame = ('wire',)
    P.contains_point = loops.contract(P.contains_point, {0: sp})

def poly(V):
    from pyvc import core
    m = importlib.import_module(PG)
    if not V.symbolic: V.assume(False)
    import z3
    c = z3.Function('hole_contains', z3.IntSort(), z3.BoolSort())
    n = V.int('n', lo=0); k0 = V.int('k', lo=0)
    V.assume(k0 < n) if V.choice('holes', 2) else V.assume(n == 0)
    q = arr(V, [V.real('qx'), V.real('qy')])
    out = core.SBool(core.CTX.fresh_bool('outer'))
    hit = []
    class Hole:
        def __init__(self, i): self.i = i
        def contains_point(self, xy):
            core.CTX.prove('asked about the given location', core.sand(xy[0] == q[0], xy[1] == q[1]))
            hit.append(self.i)
            return core.SBool(c(core.term(self.i)))
    class Out:
        def contains_point(self, xy):
            core.CTX.prove('asked about the given location', core.sand(xy[0] == q[0], xy[1] == q[1]))
            return out
        class childs:
            @staticmethod
            def vc_iter(): return loops.Seq(n, lambda i: Hole(i))
    p = m.Polygon(Out())
    p.ghost = dict(c=c, k0=k0)
    r = p.contains_point(q)
    if bool(r):
        V.cover('inside')
        V.ensure('inside the outer loop', out)
        V.ensure('in no hole', core.simplies(n > 0, core.snot(core.SBool(c(core.term(k0))))))
    else:
        V.cover('outside')
        V.ensure('outside the outer loop or in a hole', core.sor(core.snot(out), *[core.SBool(c(core.term(i))) for i in hit]))
UNITS.append(Unit('Polygon.contains_point', poly, 'polygon.py:Polygon.contains_point', [PG], covers=['inside', 'outside'], patch=poly_patch, conc=False, unbounded='number of holes', allshape=True, assumes=['the outer loop and the holes answer by Wire.contains_point (proved separately); childs is any finite collection']))

# ------------------------------------------------------------------ bounded
BOUND = 'random closed loops of 3..14 segments in random stored directions (star-shaped, orthogonal, with dendrites and repeated heights), with holes, locations at vertex heights, against exact rational crossing parity and shapely-free winding'
BSECS = 5
SHARDS = 3
def make_loop(r, xy, P, S, W, ids):
    """closed loop of real objects through the locations xy (list), random stored directions and start"""
    made = {}
    def pt(v):
        if v not in made: made[v] = P(v, None); made[v].id = ids[0]; ids[0] += 1
        return made[v]
    pts = [pt(tuple(v)) for v in xy]
    segs, sides, by = [], [], {}
    n = len(pts)
    w = W(); w.id = ids[0]; ids[0] += 1
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        if (b.id, a.id) in by:       # dendrite: the other side of the same segment
            s, f = by[b.id, a.id]; f = not f
        else:
            f = r.random() < .5
            s = S((b, a) if f else (a, b)); s.id = ids[0]; ids[0] += 1; by[a.id, b.id] = s, f
        segs.append(s); sides.append(0 if f else 1)
    for i in range(n):
        segs[i].next[sides[i]] = (segs[(i + 1) % n], sides[(i + 1) % n]); segs[i].wire[sides[i]] = w
    for i in range(n):
        if segs[i].wire[1 - sides[i]] is not w: segs[i].next[1 - sides[i]] = (segs[i - 1], 1 - sides[i - 1])
    k = r.randrange(n)
    w.segment = (segs[k], sides[k])
    return w, segs

def exact(xy, q):
    from fractions import Fraction as F
    n = 0; on = False; x, y = F(q[0]), F(q[1])
    for i in range(len(xy)):
        (ax, ay), (bx, by) = [[F(float(t)) for t in xy[(i + d) % len(xy)]] for d in (0, 1)]
        D = (bx - ax) * (y - ay) - (by - ay) * (x - ax)
        if D == 0 and min(ax, bx) <= x <= max(ax, bx) and min(ay, by) <= y <= max(ay, by): on = True
        if min(ay, by) <= y < max(ay, by) and ax + (y - ay) * (bx - ax) / (by - ay) > x: n += 1
    return n % 2 == 1, on

def bounded(H):
    import itertools, math
    m = importlib.import_module(PG)
    P = importlib.import_module(PT).Point; S = importlib.import_module(SG).Segment; W = m.Wire
    for it in itertools.count():
        if not H.time_left(): break
        r = H.rng(it)
        ids = [0]
        rootw = W(); rootw.id = ids[0]; ids[0] += 1; rootw.parent = None
        def shape(cx, cy, R):
            n = r.randrange(3, 15)
            k = r.randrange(3)
            if k == 0:
                a = sorted(r.random() * 2 * math.pi for _ in range(n))
                return [(cx + R * r.uniform(.2, 1) * math.cos(t), cy + R * r.uniform(.2, 1) * math.sin(t)) for t in a]
            if k == 1:   # lattice loop: many vertices at the same heights
                a = sorted((2 * math.pi * i / n for i in range(n)))
                return [(cx + round(R * math.cos(t) * r.choice([1, 2, 3])) / 4, cy + round(R * math.sin(t) * r.choice([1, 2, 3])) / 4) for t in a]
            out = []   # staircase
            for i in range(n): out += [(cx + i * R / n, cy + (i + r.randrange(3)) * R / 8)]
            return out + [(cx + R, cy - R), (cx, cy - R)]
        def clean(v):
            v = [p for i, p in enumerate(v) if p != v[i - 1]]
            e = [(p, v[i - 1]) for i, p in enumerate(v)]
            return v if len(v) >= 3 and len(set(e)) == len(e) else None
        big = clean(shape(0, 0, r.choice([1, 4, 10])))
        if big is None: continue
        if r.random() < .4:  # dendrite: walk out and back
            k = r.randrange(len(big)); d = (big[k][0] + r.uniform(-2, 2), big[k][1] + r.choice([0, 1, r.uniform(-2, 2)])); e = (d[0] + r.uniform(-2, 2), d[1] + r.choice([0, .5, r.uniform(-2, 2)]))
            if d not in big and e not in big and d != e: big = big[:k + 1] + r.choice([[d], [d, e, d]]) + big[k:]
        w, segs = make_loop(r, big, P, S, W, ids); w.set_parent(rootw)
        poly = m.Polygon(w)
        holes = []
        for _ in range(r.randrange(3)):
            h = clean(shape(r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(.2, 1)))
            if h:
                hw, _ = make_loop(r, h, P, S, W, ids); hw.set_parent(w); holes.append((h, hw))
        H.check(w in rootw.childs and all(h[1] in w.childs and h[1].parent == w for h in holes) and len(w.childs) == len(holes), 'parents', '')
        L = list(w.segments())
        H.check(len(L) == len(big) and {s.id for s, _ in L} == {s.id for s in segs}, 'loop enumeration', str(big))
        for _ in range(25):
            k = r.random()
            if k < .4: v = r.choice(big); q = (v[0] + r.choice([-1, -.25, .25, 1, r.uniform(-3, 3)]), v[1])
            elif k < .5: v = r.choice(big); q = (v[0], v[1] + r.uniform(-3, 3))
            else: q = (r.uniform(-5, 5), r.uniform(-5, 5))
            ex, on = exact(big, q)
            if on: continue
            # rounding: stay away from the loop
            if min(dist(q, big[i - 1], big[i]) for i in range(len(big))) < 1e-9: continue
            H.case(dict(loop=big, q=q), (it, _))
            H.check(bool(w.contains_point(q)) == ex, 'crossing parity', '%s in %s: %s' % (q, big, not ex))
            w.segment = r.choice(L)
            H.check(bool(w.contains_point(q)) == ex, 'start of the loop', str(q))
            ho = [exact(h, q) for h, _ in holes]
            if any(o for _, o in ho): continue
            H.check(bool(poly.contains_point(q)) == (ex and not any(e for e, _ in ho)), 'polygon', '%s in %s holes %s' % (q, big, [h for h, _ in holes]))
            H.check(bool(rootw.contains_point(q)), 'outer loop', '')

def dist(q, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = dx * dx + dy * dy
    t = max(0, min(1, ((q[0] - a[0]) * dx + (q[1] - a[1]) * dy) / L)) if L else 0
    return ((q[0] - a[0] - t * dx) ** 2 + (q[1] - a[1] - t * dy) ** 2) ** .5
