import importlib
from pyvc.unit import Unit, need
from pyvc import loops
PT = 'bgem.polygons.point'; SG = 'bgem.polygons.segment'; PG = 'bgem.polygons.polygon'
LEVEL = 'proof'
NOTE = 'Proof for vertices with any number of incident segments, any stored orientation and start: insert_vector (loop contract) always finds the two neighbours adjacent in angle and the loop between them; Point.segments enumerates the whole fan once (loop contract on the generator); connect_vtx, connect_free_vtx and disconnect_vtx put the segment exactly between the given neighbours / take it out and change nothing else. Angles are abstract: numpy.angle gives the angle of the outward direction in (-pi, pi], pi taken as the machine number. Bounded runs on real fans against exact cross products.'
UNITS = []

def fan(V):
    """fan of n segments: outward angles th(0) - delta(i), delta increasing in [0, 2 pi)"""
    import z3, math
    from pyvc import core, npshim
    R, I = z3.RealSort(), z3.IntSort()
    C = core.lift(math.pi)
    n = V.int('n', lo=1)
    D = z3.Function('delta', I, R); ox, oy = z3.Function('ox', I, R), z3.Function('oy', I, R); vt = z3.Function('vtx', I, I)
    th0 = V.real('th0'); V.assume(core.sand(th0 > -C, th0 <= C))
    gam = V.real('gamma'); V.assume(core.sand(gam > 0, gam < 2 * C))
    qx, qy = V.real('qx'), V.real('qy')
    V.assume(core.sor(core.sor(qx > 1, qx < -1), core.sor(qy > 1, qy < -1)))
    seen = []
    def delta(i):
        i = i if z3.is_expr(i) else core.term(i)
        if not any(i.get_id() == j.get_id() for j in seen):
            core.CTX.add(z3.Implies(i == 0, D(i) == 0)); core.CTX.add(D(i) >= 0); core.CTX.add(D(i) < 2 * core.rterm(C)); core.CTX.add(D(i) != gam.t)
            core.CTX.add(z3.Or(vt(i) == 0, vt(i) == 1))
            for j in seen: core.CTX.add(z3.And(z3.Implies(i < j, D(i) < D(j)), z3.Implies(j < i, D(j) < D(i)), z3.Implies(i == j, D(i) == D(j))))
            seen.append(i)
        return core.SReal(D(i))
    delta(z3.IntVal(0))
    def wrapa(a): return core.ite(a > C, a - 2 * C, core.ite(a <= -C, a + 2 * C, a))
    comps = {}
    def hook(re, im):
        t, u = core.term(re), core.term(im)
        if t.eq(qx.t) and u.eq(qy.t): return wrapa(th0 - gam)
        for i, (a, b) in comps.items():
            i = i[1]
            if t.eq(a) and u.eq(b): return wrapa(th0 - delta(i))
            if t.eq(z3.simplify(-a)) and u.eq(z3.simplify(-b)):
                w = wrapa(th0 - delta(i)); return wrapa(w + C)
        raise core.Unsupported('angle of an unexpected vector')
    npshim.ANGLE_HOOK = hook
    class Seg:
        def __init__(self, i):
            self.i = core.lift(i) if not isinstance(i, core.SNum) else i
            t = core.term(self.i); delta(t)
            comps[(t.get_id(), t)] = (ox(t), oy(t)); comps[(t.get_id(), t)] = (ox(t), oy(t))
        @property
        def vtx(self): return core.SInt(vt(core.term(self.i)))
        @property
        def vector(self):
            t = core.term(self.i)
            x, y = core.SReal(ox(t)), core.SReal(oy(t))
            if bool(self.vtx == 1): x, y = -x, -y
            return npshim.array([x, y])
        @property
        def wire(self):
            me = self
            class Wi:
                def __getitem__(s, side): return ('wire', me.i, side)
            return Wi()
        def __eq__(self, o): return self.i == o.i
        def __hash__(self): return 0
    def at(i):
        i = core.lift(i) if not isinstance(i, core.SNum) else i
        j = core.lift(0) if bool(i == n) else i
        s = Seg(j)
        return (s, s.vtx)
    return dict(n=n, D=delta, gam=gam, q=(qx, qy), at=at, Seg=Seg)

class Many:
    """list(self.segments()) of a fan, possibly with its first element repeated at the end"""
    def __init__(self, g, extra): self.g, self.extra = g, extra
    def append(self, x):
        from pyvc import core
        if self.extra: raise core.Unsupported('list')
        core.CTX.prove('the first segment is repeated', core.sand(x[0].i == 0, x[1] == self.g['at'](0)[1]))
        self.extra = 1
    def __add__(self, o):
        m = Many(self.g, self.extra)
        for x in o: m.append(x)
        return m
    def vc_iter(self): return loops.Seq(self.g['n'] + self.extra, self.g['at'])
    def __iter__(self):
        from pyvc import core
        raise core.Unsupported('fan of unknown size')

def ins_patch(mods):
    from pyvc import core
    P = importlib.import_module(PT).Point
    def inv(L):
        g = L['self'].g; i = L['__i']; last = L['last']
        if last[1] is None:
            return [('nothing seen', core.sand(i == 0, last[0] == 4 * core.lift(__import__('math').pi)))]
        s = last[1]
        return [('the last one seen', core.sand(i >= 1, i <= g['n'], s.i == i - 1, last[2] == s.vtx)),
                ('lies before the vector', g['D'](s.i) < g['gam']),
                ('at this angle', last[0] == g['gam'] - g['D'](s.i))]
    def havoc(L):
        g = L['self'].g; i = L['__i']
        if bool(i == 0): return {'last': L['last']}
        s = g['Seg'](i - 1)
        return {'last': (core.SReal(core.CTX.fresh_real('da')), s, s.vtx)}
    sp = loops.Spec(inv, havoc, name='insert_vector', kind='for'); sp.frame = ('seg', 'vtx', 'seg_vec', 'angle', 'da', 'prev', 'next')
    P.insert_vector = loops.contract(P.insert_vector, {0: sp})

def insert(V):
    from pyvc import core, npshim
    P = importlib.import_module(PT).Point
    if not V.symbolic: V.assume(False)
    g = fan(V)
    class G(P):
        def segments(self, start=(None, None)):
            if start[0] is not None: raise core.Unsupported('part of the fan')
            class It:
                def vc_list(s): return Many(g, 0)
                def vc_iter(s): return loops.Seq(g['n'], g['at'])
                def __iter__(s): raise core.Unsupported('fan of unknown size')
            return It()
    p = G((0, 0), None); p.id = 0; p.g = g
    need(p, 'segment')
    p.segment = g['at'](0)
    r = p.insert_vector(g['q'])
    V.ensure('neighbours and loop', isinstance(r, tuple) and len(r) == 3)
    prev, nxt, wire = r
    V.ensure('neighbours found', prev[0] is not None and nxt[0] is not None)
    a, b = prev[0].i, nxt[0].i
    n, D, gam = g['n'], g['D'], g['gam']
    V.cover('in')
    V.ensure('segments of the fan', core.sand(a >= 0, a < n, b >= 0, b < n))
    V.ensure('neighbours follow each other', core.sor(b == a + 1, core.sand(a == n - 1, b == 0)))
    V.ensure('previous segment before the vector', D(a) < gam)
    V.ensure('next segment after the vector', core.sor(b == 0, D(b) > gam))
    k = V.int('k', lo=0); V.assume(k < n)
    V.ensure('no segment between', core.sand(core.simplies(D(k) < gam, D(k) <= D(a)), core.simplies(D(k) > gam, core.sor(core.sand(b != 0, D(k) >= D(b)), core.sand(b == 0, k < 0)))))
    V.ensure('side of the previous segment', prev[1] == prev[0].vtx); V.ensure('side of the next segment', nxt[1] == 1 - nxt[0].vtx)
    V.ensure('the loop on that side', wire[0] == 'wire'); V.ensure('the loop on that side', core.sand(wire[1] == a, wire[2] == prev[1]))
def _list(x=()):
    if hasattr(x, 'vc_list'): return x.vc_list()
    return list(x)
UNITS.append(Unit('Point.insert_vector', insert, 'point.py:Point.insert_vector', [PT], covers=['in'], patch=ins_patch, extra={PT: {'list': _list}}, conc=False, unbounded='number of incident segments, their angles, orientation and start', allshape=True,
                  assumes=['numpy.angle(complex(x, y)) is the angle of the vector in (-pi, pi], with pi the machine number', 'the fan is in clockwise order (data structure invariant, kept by connect_vtx, decided by D01)']))

def isolated(V):
    P = importlib.import_module(PT).Point
    p = P((0, 0), None); p.id = 0
    v = (V.real('x'), V.real('y'))
    from pyvc import core
    V.assume(core.sor(v[0] > 1, v[1] > 1))
    V.ensure('isolated vertex has no neighbours', p.insert_vector(v) is None)
    V.ensure('free', p.is_free() and list(p.segments()) == [])
    V.cover('in')
UNITS.append(Unit('isolated vertex', isolated, ['point.py:Point.insert_vector', 'point.py:Point.is_free'], [PT], covers=['in'], samples=10, unbounded='all directions', allshape=True))

def fan_patch(mods):
    from pyvc import core
    P = importlib.import_module(PT).Point
    def inv(L):
        s, v = L['seg_side']
        return [('position', core.sand(s.k >= 0, s.k < s.n, s.count == s.k, v == s.vtx))]
    def havoc(L):
        s, g = L['seg_side']
        k = core.SInt(core.CTX.fresh_int('k'))
        x = s.at(k); x.count = k
        return {'seg_side': (x, x.vtx)}
    sp = loops.Spec(inv, havoc, variant=lambda L: L['seg_side'][0].n - L['seg_side'][0].k, name='segments', kind='while')
    sp.frame = ('seg', 'side', 'other_side')
    P.segments = loops.contract(P.segments, {0: sp})

def fanring(V):
    from pyvc import core
    P = importlib.import_module(PT).Point
    if not V.symbolic: V.assume(False)
    import z3
    n = V.int('n', lo=1); vt = z3.Function('vtx', z3.IntSort(), z3.IntSort())
    class S:
        def __init__(self, k, count=None): self.k, self.n, self.count = k, n, k if count is None else count
        def at(self, k): return S(k)
        @property
        def vtx(self):
            t = core.term(self.k); core.CTX.add(z3.Or(vt(t) == 0, vt(t) == 1)); return core.SInt(vt(t))
        def __eq__(self, o): return core.lift(self.k) == core.lift(o.k)
        def __hash__(self): return 0
        @property
        def next(self):
            me = self
            class Nx:
                def __getitem__(self, side):
                    core.CTX.prove('follows the link at the vertex', core.lift(side) == me.vtx)
                    k = core.lift(0) if bool(core.lift(me.k) == n - 1) else me.k + 1
                    s = S(k, me.count + 1)
                    return (s, 1 - s.vtx)
            return Nx()
    p = P((0, 0), None); p.id = 0
    st = S(core.lift(0)); st = (st, st.vtx)
    if V.choice('given', 2): need(p, 'segment'); p.segment = st; g = p.segments()
    else: g = p.segments(start=st)
    last = None
    for x in g:
        V.cover('yield')
        V.ensure('elements come in fan order, one per step', core.sand(x[0].k == x[0].count, x[0].k >= 0, x[0].k < n, x[1] == x[0].vtx))
        last = x
    V.cover('end')
    V.ensure('ends after the last element', last is not None); V.ensure('ends after the last element', last[0].k == n - 1)
UNITS.append(Unit('Point.segments', fanring, 'point.py:Point.segments', [PT], covers=['yield', 'end'], patch=fan_patch, conc=False, unbounded='number of incident segments', allshape=True,
                  assumes=['the links at a vertex form one cycle of its n incident segments (data structure invariant, decided by D01)']))

# ------------------------------------------------------------------ link updates
def heap(objs):
    h = {}
    for name, o in objs.items():
        d = dict(o.__dict__)
        for k, v in d.items():
            if isinstance(v, list): v = tuple(v)
            elif isinstance(v, set): v = frozenset(id(x) for x in v)
            elif hasattr(v, 'tobytes'): v = v.tobytes()
            h[(name, k)] = v
    return h
def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or (isinstance(a, (int, str, bytes, frozenset)) and a == b)
def changed(h0, h1): return {k for k in set(h0) | set(h1) if not same(h0.get(k), h1.get(k))}

def links(V):
    """a fan of m segments at a vertex, links elsewhere arbitrary; connect a new one at each place, take it out again"""
    import math
    P = importlib.import_module(PT).Point; S = importlib.import_module(SG).Segment; m = importlib.import_module(PG)
    m_ = 1 + V.choice('m', 3)
    ori = [V.choice('o%d' % i, 2) for i in range(m_)]       # local index of the vertex in segment i
    so = V.choice('so', 2); at = V.choice('at', m_); st = V.choice('st', m_)
    c = P((0, 0), None); c.id = 0
    tips = []
    segs = []
    def seg(k, o, ang):
        t = P((math.cos(ang), math.sin(ang)), None); t.id = k + 1; tips.append(t)
        s = S((c, t) if o == 0 else (t, c)); s.id = k
        return s
    for i in range(m_): segs.append(seg(i, ori[i], -i))
    w = [m.Wire() for _ in range(2 * m_ + 3)]
    for i, x in enumerate(w): x.id = 100 + i; x.parent = None; x.childs = set()
    for i, s in enumerate(segs):
        k = (i + 1) % m_
        s.next[ori[i]] = (segs[k], 1 - ori[k])
        s.wire[ori[i]] = w[2 * i]
        s.next[1 - ori[i]] = (s, ori[i]); s.wire[1 - ori[i]] = w[2 * i + 1]     # tip
        s.vtxs[1 - ori[i]].segment = (s, 1 - ori[i])
    c.segment = (segs[st], ori[st])
    new = seg(m_, so, 1)
    new.next[1 - so] = (new, so); new.wire[1 - so] = w[-2]; new.vtxs[1 - so].segment = (new, 1 - so)
    prev, nxt = (segs[at], ori[at]), segs[at].next[ori[at]]
    objs = dict([('c', c), ('new', new)] + [('s%d' % i, s) for i, s in enumerate(segs)] + [('t%d' % i, t) for i, t in enumerate(tips)] + [('w%d' % i, x) for i, x in enumerate(w)])
    h0 = heap(objs)
    new.connect_vtx(so, (prev, nxt, w[-1]))
    h1 = heap(objs)
    V.ensure('previous neighbour leads to the new segment', prev[0].next[prev[1]][0] is new and prev[0].next[prev[1]][1] == 1 - so)
    V.ensure('the new segment leads to the next neighbour', new.next[so][0] is nxt[0] and new.next[so][1] == nxt[1])
    V.ensure('loop recorded', new.wire[so] is w[-1])
    V.ensure('nothing else changed', changed(h0, h1) <= {('new', 'next'), ('new', 'wire'), ('s%d' % at, 'next')} and same(h1[('new', 'next')][1 - so], h0[('new', 'next')][1 - so]) and same(h1[('new', 'wire')][1 - so], h0[('new', 'wire')][1 - so]))
    V.ensure('other link of the previous neighbour', same(h1[('s%d' % at, 'next')][1 - ori[at]], h0[('s%d' % at, 'next')][1 - ori[at]]))
    F = list(c.segments())
    order = [segs[(st + i) % m_] for i in range(m_)]; order.insert((at - st) % m_ + 1, new)
    V.ensure('fan order', [s for s, _ in F] == order and all(s.vtxs[v] is c for s, v in F))
    # previous() is the inverse of next
    for s in segs + [new]:
        for side in (0, 1):
            q = s.previous(side)
            V.ensure('previous is the inverse of next', q[0].next[q[1]][0] is s and q[0].next[q[1]][1] == side)
    info = new.vtx_insert_info(so)
    V.ensure('insert information of a connected end', info[0][0] is prev[0] and info[0][1] == prev[1] and info[1][0] is nxt[0] and info[1][1] == nxt[1] and info[2] is w[-1])
    # take any of them out
    out = V.choice('out', m_ + 1)
    s, v = (segs + [new])[out], (ori + [so])[out]
    if V.choice('first', 2): c.segment = (s, v)
    before = [x for x, _ in c.segments(start=(s, v))]
    pv = s.previous(1 - v); nx = s.next[v]
    h1 = heap(objs)
    s.disconnect_vtx(v)
    h2 = heap(objs)
    name = [k for k, o in objs.items() if o is s][0]; pname = [k for k, o in objs.items() if o is pv[0]][0]
    V.ensure('taken out of the fan', [x for x, _ in c.segments()] and s not in [x for x, _ in c.segments()])
    F = [x for x, _ in c.segments(start=(before[1], before[1].point_side(c)))]
    V.ensure('others keep their order', F == before[1:])
    V.ensure('end of the removed segment is loose', s.next[v][0] is s and s.next[v][1] == 1 - v)
    V.ensure('neighbours linked', pv[0].next[pv[1]][0] is nx[0] and pv[0].next[pv[1]][1] == nx[1])
    V.ensure('nothing else changed', changed(h1, h2) <= {(name, 'next'), (pname, 'next'), ('c', 'segment')})
    V.ensure('vertex refers to one of its segments', c.segment[0].vtxs[c.segment[1]] is c and c.segment[0] is not s)
    V.cover('in')
LT = ['segment.py:Segment.connect_vtx', 'segment.py:Segment.disconnect_vtx', 'segment.py:Segment.previous', 'segment.py:Segment.vtx_insert_info', 'segment.py:Segment._set_next_side', 'segment.py:Segment.side_to_vtx', 'point.py:Point.join_segment', 'point.py:Point.rm_segment']
UNITS.append(Unit('links at a vertex', links, LT, [], covers=['in'], samples=300, deadline=120, unbounded='', allshape=False, assumes=['fans of up to 3 segments plus the new one, all orientations and places: the functions touch at most the segment and its two neighbours']))

def freeend(V):
    P = importlib.import_module(PT).Point; S = importlib.import_module(SG).Segment; m = importlib.import_module(PG)
    w = m.Wire(); w.id = 1; w.parent = None
    o = m.Wire(); o.id = 2; o.parent = None
    poly = m.Polygon(o); poly.id = 0
    a, b = P((0, 0), poly), P((1, 0), poly); a.id, b.id = 0, 1
    poly.free_points |= {a, b}
    s = S((a, b)); s.id = 0
    k = V.choice('end', 2)
    s.connect_free_vtx(k, w)
    p, q = s.vtxs[k], s.vtxs[1 - k]
    V.ensure('loose end leads back along the other side', s.next[k][0] is s and s.next[k][1] == 1 - k and s.wire[k] is w)
    V.ensure('the vertex is no longer isolated', p not in poly.free_points and p.poly is None and p.segment[0] is s and p.segment[1] == k and not p.is_free())
    V.ensure('the other end is untouched', q in poly.free_points and q.poly is poly and q.is_free() and s.next[1 - k] is None and s.wire[1 - k] is None)
    s.connect_free_vtx(1 - k, w)
    V.ensure('a lonely segment', s.is_dendrite() and not poly.free_points and s.vtx_insert_info(0) is None and s.vtx_insert_info(1) is None)
    w.polygon = poly
    p.rm_segment(s, k)
    V.ensure('the vertex is isolated again', p.is_free() and p.poly is poly and p in poly.free_points and q not in poly.free_points)
    V.cover('in')
UNITS.append(Unit('loose ends', freeend, ['segment.py:Segment.connect_free_vtx', 'point.py:Point.join_segment', 'point.py:Point.rm_segment', 'point.py:Point.set_polygon'], [], covers=['in'], samples=20, allshape=True))

# ------------------------------------------------------------------ bounded
BOUND = 'fans of 1..12 segments built by the real constructors and by Decomposition.new_segment, random, lattice, axis-parallel and nearly equal directions'
BSECS = 5
SHARDS = 3
def cw_between(p, v, n):
    """going clockwise from p, v comes before (or at) n; exact for machine numbers"""
    from fractions import Fraction as F
    p, v, n = [[F(float(t)) for t in x] for x in (p, v, n)]
    def half(x, ref):  # clockwise position of x relative to ref: (0: same), then by quadrant
        c = ref[0] * x[1] - ref[1] * x[0]; d = ref[0] * x[0] + ref[1] * x[1]
        if c == 0 and d > 0: return 0
        if c < 0: return 1
        if c == 0: return 2
        return 3
    hv, hn = half(v, p), half(n, p)
    if hn == 0: hn = 4
    if hv != hn: return hv < hn
    return v[0] * n[1] - v[1] * n[0] < 0
def bounded(H):
    import itertools, math, numpy as np
    P = importlib.import_module(PT).Point; S = importlib.import_module(SG).Segment; m = importlib.import_module(PG)
    D = importlib.import_module('bgem.polygons.decomp').Decomposition
    def outv(s, v):
        a, b = s.vtxs[0].xy, s.vtxs[1].xy
        d = b - a
        return d if v == 0 else -d
    for it in itertools.count():
        if not H.time_left(): break
        r = H.rng(it)
        d = D()
        cx = (r.choice([0, 0, r.randint(-3, 3), r.uniform(-5, 5)]), r.choice([0, 0, r.randint(-3, 3), r.uniform(-5, 5)]))
        c = d.add_free_point(cx, d.outer_polygon)
        H.check(c.insert_vector((1, 0)) is None, 'isolated vertex', '')
        n = r.randrange(1, 13); mode = r.randrange(4)
        dirs = []
        for _ in range(n):
            if mode == 0: v = (r.randint(-3, 3), r.randint(-3, 3))
            elif mode == 1: t = r.uniform(-math.pi, math.pi); v = (math.cos(t) * r.uniform(.1, 5), math.sin(t) * r.uniform(.1, 5))
            elif mode == 2: t = r.randrange(8) * math.pi / 4 + r.choice([0, 1e-6, -1e-6]); v = (math.cos(t), math.sin(t))
            else: v = r.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1e-7), (-1, 1e-7), (-1, -1e-7), (2, 1)])
            if v == (0, 0): continue
            if all(sep(v, u) for u in dirs): dirs.append(v)
        for k, v in enumerate(dirs):
            q = d.add_free_point((cx[0] + v[0], cx[1] + v[1]), d.outer_polygon)
            H.case(dict(c=cx, dirs=dirs[:k + 1]), (it, k))
            F = list(c.segments())
            if F:
                c.segment = F[r.randrange(len(F))]       # start does not matter
                for s_, v_ in [(c, 0)]: pass
                vec = q.xy - c.xy
                vc = vec.copy()
                prev, nxt, wire = c.insert_vector(vec)
                H.check(np.array_equal(vec, vc), 'argument changed', '')
                ps, ns = (prev[0], prev[1]), (nxt[0], 1 - nxt[1])
                L = list(c.segments())
                i = [j for j, (s, w) in enumerate(L) if s is ps[0] and w == ps[1]]
                H.check(len(i) == 1 and L[(i[0] + 1) % len(L)][0] is ns[0] and L[(i[0] + 1) % len(L)][1] == ns[1], 'neighbours follow each other', str(dirs[:k + 1]))
                H.check(len(L) == 1 or cw_between(outv(*ps), vec, outv(*ns)), 'between its neighbours in angle', '%s at %s' % (dirs[:k + 1], vec))
                H.check(wire is prev[0].wire[prev[1]], 'loop', '')
            s = d.new_segment(c, q) if r.random() < .5 else d.new_segment(q, c)
            L = list(c.segments())
            H.check(len(L) == k + 1 and len({x.id for x, _ in L}) == k + 1, 'every segment once', '')
            for j in range(len(L)):
                a, b, e = L[j - 1], L[j], L[(j + 1) % len(L)]
                if len(L) > 2: H.check(cw_between(outv(*a), outv(*b), outv(*e)), 'fan in clockwise order', str(dirs[:k + 1]))
        # removing keeps the order
        segs = [s for s, _ in c.segments()]
        r.shuffle(segs)
        for s in segs[:-1]:
            L = [x for x, _ in c.segments()]; i = L.index(s); L = L[i + 1:] + L[:i]
            d.delete_segment(s)
            M = [x for x, _ in c.segments()]; i = M.index(L[0])
            H.check(M[i:] + M[:i] == L, 'fan after a removal', str(dirs))
def sep(u, v):
    c = u[0] * v[1] - u[1] * v[0]; d = u[0] * v[0] + u[1] * v[1]
    return d < 0 and c == 0 or abs(c) > 1e-9 * ((u[0] ** 2 + u[1] ** 2) * (v[0] ** 2 + v[1] ** 2)) ** .5
