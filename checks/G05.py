"""G05: mesh size fields. The constructors of bgem.gmsh.field are run with the field interface of gmsh replaced by a
recorder; the recorded field is evaluated by the documented meaning of gmsh's fields (its option names, aliases and
defaults) for arbitrary parameters, an arbitrary location and arbitrary values of the fields it is made of."""
import importlib, math
from pyvc.unit import Unit, need
MOD = 'bgem.gmsh.field'
def fld(): return importlib.import_module(MOD)

NAN = float('nan')
HUGE = 1e22      # gmsh's value for 'no prescribed size'
ALIAS = dict(Threshold=dict(IField='InField', LcMin='SizeMin', LcMax='SizeMax'),
             Distance=dict(NodesList='PointsList', VerticesList='PointsList', EdgesList='CurvesList', FacesList='SurfacesList', NNodesByEdge='Sampling', NumPointsPerCurve='Sampling'),
             Restrict=dict(IField='InField', VerticesList='PointsList', EdgesList='CurvesList', FacesList='SurfacesList', RegionsList='VolumesList'))
OPTS = dict(Threshold=dict(InField=0, DistMin=1, DistMax=10, SizeMin=0.1, SizeMax=1, Sigmoid=0, StopAtDistMax=0),
            Box=dict(VIn=0, VOut=0, XMin=0, XMax=0, YMin=0, YMax=0, ZMin=0, ZMax=0, Thickness=0),
            Distance=dict(PointsList=(), CurvesList=(), SurfacesList=(), Sampling=20, FieldX=-1, FieldY=-1, FieldZ=-1),
            Min=dict(FieldsList=()), Max=dict(FieldsList=()),
            Restrict=dict(InField=1, PointsList=(), CurvesList=(), SurfacesList=(), VolumesList=(), IncludeBoundary=1, IncludeEmbedded=1))

class Rec:
    """gmsh.model.mesh.field"""
    def __init__(self, V): self.V, self.f, self.background = V, {}, None
    def __getattr__(self, name):
        from pyvc.core import Unsupported
        raise Unsupported('gmsh field function ' + name)
    def add(self, fieldType, tag=-1):
        from pyvc.core import Unsupported
        if fieldType not in OPTS: raise Unsupported('field ' + fieldType)
        if tag != -1: raise Unsupported('tag')
        k = 1000 + len(self.f)
        self.f[k] = (fieldType, {})
        return k
    def _set(self, tag, option, v):
        t, o = self.f[tag]
        option = ALIAS.get(t, {}).get(option, option)
        if option not in OPTS[t]: raise Exception("Unknown option '%s' in field of type '%s'" % (option, t))
        o[option] = v
    def setNumber(self, tag, option, value):
        self._set(tag, option, value)
    def setNumbers(self, tag, option, values): self._set(tag, option, values)
    def setAsBackgroundMesh(self, tag): self.background = tag
    def get(self, k):
        t, o = self.f[k]
        return t, dict(OPTS[t], **o)

class FieldV:
    """value of a recorded field at one location; sub: the values of the fields given from outside"""
    def __init__(self, V, rec, loc=None, sub=()):
        self.V, self.rec, self.loc, self.sub = V, rec, loc, list(sub)
    def value(self, k):
        from pyvc import core
        for a, v in self.sub:
            if same(a, k): return v
        if not isinstance(k, int) or k not in self.rec.f:
            self.V.ensure('only the given fields are used', False); self.V.kill()
        t, o = self.rec.get(k)
        if t == 'Threshold':
            v = self.value(o['InField'])
            d0, d1, a, b = o['DistMin'], o['DistMax'], o['SizeMin'], o['SizeMax']
            if o['StopAtDistMax'] and v >= d1: return HUGE
            if v <= d0: r = 0
            elif v >= d1: r = 1
            else: r = (v - d0) / (d1 - d0)
            s = self.sigmoid(r) if o['Sigmoid'] else r
            return a * (1 - s) + b * s
        if t == 'Box':
            x, y, z = self.loc
            if o['Thickness'] != 0: raise core.Unsupported('box with a transition')
            for v, c in zip((x, y, z), 'XYZ'):
                if v < o[c + 'Min'] or v > o[c + 'Max']: return o['VOut']
            return o['VIn']
        if t in ('Min', 'Max'):
            r = HUGE if t == 'Min' else -HUGE
            for q in o['FieldsList']:
                v = self.value(q)
                if (v < r if t == 'Min' else v > r): r = v
            return r
        raise core.Unsupported('value of ' + t)
    def sigmoid(self, r):
        """any increasing function with values in [0, 1], 0.3 % off at the ends"""
        V = self.V
        if not V.symbolic: return math.exp(12 * r - 6) / (1 + math.exp(12 * r - 6))
        s = V.real('sigma', lo=0, hi=1)
        if r <= 1e-6: V.assume(s <= 0.0029)
        if r >= 1: V.assume(s >= 0.9971)
        return s
def same(a, b):
    if a is b: return True
    return bool(a == b)

def start(V):
    F = fld(); rec = Rec(V)
    need(F, 'gmsh_field')
    old = F.gmsh_field, F.gmsh.model.mesh.field
    F.gmsh_field = rec; F.gmsh.model.mesh.field = rec
    def end(): F.gmsh_field, F.gmsh.model.mesh.field = old
    return F, rec, end
def on(fn):
    def run(V):
        F, rec, end = start(V)
        try: fn(V, F, rec)
        finally: end()
    return run

def threshold(up, sig):
    def fn(V, F, rec):
        k = V.int('field', lo=1, hi=900); v = V.real('v')
        d0, t0 = V.real('d0'), V.real('t0')
        args = [k, (d0, t0)]
        if up:
            d1, t1 = V.real('d1'), V.real('t1')
            V.assume(d0 < d1)
            args += [[d1, t1] if V.choice('list', 2) else (d1, t1)]
        else:
            for x in (d0, t0, v): V.assume((x > -1e20) & (x < 1e20) if V.symbolic else abs(x) < 1e20)
        if sig: r = F.threshold(*args, sigmoid=True)
        else: r = F.threshold(*args)
        E = FieldV(V, rec, sub=[(k, v)])
        x = E.value(r)
        tol = 0.003 if sig else 0
        V.cover('built')
        def near(lab, a, scale):
            if V.symbolic: V.ensure(lab, (x - a <= tol * scale) & (a - x <= tol * scale) if tol else x == a)
            else: V.ensure(lab, abs(x - a) <= (tol + 1e-9) * max(1e-300, abs(scale)) + 1e-9 * max(1, abs(a)))
        if not up:
            sc = absv(t0) + 1
            tol = max(tol, 1e-9)
            return near('lower value without an upper bound', t0, sc)
        rg = absv(t1 - t0)
        if v <= d0: V.cover('low'); return near('lower value below the lower bound', t0, rg)
        if v >= d1: V.cover('high'); return near('upper value above the upper bound', t1, rg)
        V.cover('between')
        if sig: V.ensure('transition between the two values', x >= mn(t0, t1)); V.ensure('transition between the two values', x <= mx(t0, t1)); return
        if V.symbolic: V.ensure('linear transition', (x - t0) * (d1 - d0) == (t1 - t0) * (v - d0))
        else: V.ensure('linear transition', abs(x - (t0 + (t1 - t0) * (v - d0) / (d1 - d0))) <= 1e-8 * (1 + abs(t0) + abs(t1)))
    return on(fn)
def absv(x): return x if x >= 0 else -x
def mn(a, b): return a if a <= b else b
def mx(a, b): return a if a >= b else b
def eqv(V, lab, a, b):
    if V.symbolic: V.ensure(lab, a == b)
    else: V.ensure(lab, abs(a - b) <= 1e-12 * max(1, abs(b)))

def box(vout):
    def fn(V, F, rec):
        a = [V.real('a%d' % i) for i in range(3)]; b = [V.real('b%d' % i) for i in range(3)]; p = [V.real('p%d' % i) for i in range(3)]
        for x, y in zip(a, b): V.assume(x <= y)
        vi = V.real('vin')
        if vout: vo = V.real('vout'); r = F.box(a, b, vi, vo)
        else: r = F.box(a, b, vi)
        x = FieldV(V, rec, p).value(r)
        V.cover('built')
        for q, l, h in zip(p, a, b):
            if q < l or q > h:
                V.cover('outside')
                if vout: eqv(V, 'outer value outside', x, vo)
                else: V.ensure('no restriction outside', x >= HUGE)
                return
        V.cover('inside'); eqv(V, 'inner value inside', x, vi)
    return on(fn)
def constant(V, F, rec):
    v, r = V.real('v'), V.pos('r')
    p = [V.real('p%d' % i) for i in range(3)]
    V.assume(p[0] * p[0] + p[1] * p[1] + p[2] * p[2] <= r * r)
    if V.symbolic:      # the range of each coordinate, a consequence
        for q in p: V.lemma('coordinate of a point of the ball', [p[0] * p[0] + p[1] * p[1] + p[2] * p[2] <= r * r, r > 0, p[0] * p[0] >= 0, p[1] * p[1] >= 0, p[2] * p[2] >= 0], (q <= r) & (-q <= r))
    k = F.constant(v, r)
    V.cover('built')
    eqv(V, 'the value within the radius', FieldV(V, rec, p).value(k), v)
def extreme(name, n):
    def fn(V, F, rec):
        ids = [7 * i + 3 for i in range(n)]; vals = [V.real('v%d' % i, lo=-1000, hi=1000) for i in range(n)]
        k = getattr(F, name)(list(ids))
        V.cover('built')
        x = FieldV(V, rec, sub=list(zip(ids, vals))).value(k)
        for v in vals: V.ensure('no field is beyond the extreme', x <= v if name == 'min' else x >= v)
        V.ensure('one of the values', any(same(x, v) for v in vals))
    return on(fn)
def same_list(V, lab, got, n, at):
    from pyvc import ghost as g, core
    if not V.symbolic:
        V.ensure(lab, list(got) == [at(i) for i in range(n)]); return
    got = g.glist(got)
    V.ensure(lab + ': length', got.n == n)
    i = core.SInt(core.CTX.fresh_int('i'))
    if core.CTX.fork(core.bterm(core.sand(i >= 0, i < n))): V.ensure(lab, got.at(i) == at(i))
def ids(V, name):
    """a list of tags of any length"""
    if not V.symbolic:
        n = V.choice(name, 5); L = [V.rng.randrange(1, 99) for i in range(n)]
        return L, n, lambda i: L[i]
    from pyvc import ghost as g
    n = V.int('n_' + name, lo=0)
    return g.GList(n, lambda i: g.ufi(name, i)), n, lambda i: g.ufi(name, i)
def anylist(name):
    def fn(V, F, rec):
        L, n, at = ids(V, 'fields')
        k = getattr(F, name)(L); V.cover('built')
        t, o = rec.get(k)
        V.ensure('kind of the field', t == name.capitalize())
        same_list(V, 'all given fields', o['FieldsList'], n, at)
    return on(fn)
def distance(kind):
    def fn(V, F, rec):
        L, n, at = ids(V, 'tags')
        kw = {}
        cf = V.choice('coordinate fields', 2)
        if cf: kw['coordinate_fields'] = c = tuple(V.int('f%d' % i, lo=1) for i in range(3))
        if kind == 'nodes': k = F.distance_nodes(L, **kw)
        else:
            s = V.choice('sampling given', 2)
            if s: kw['nodes_per_edge'] = V.int('sampling', lo=2)
            k = F.distance_edges(L, **kw)
        V.cover('built')
        t, o = rec.get(k)
        V.ensure('kind of the field', t == 'Distance')
        for a in ('PointsList', 'CurvesList', 'SurfacesList'):
            if a == dict(nodes='PointsList', edges='CurvesList')[kind]: same_list(V, 'given tags', o[a], n, at)
            else: V.ensure('nothing else', len(o[a]) == 0)
        if kind == 'edges': V.ensure('nodes per edge', o['Sampling'] == kw.get('nodes_per_edge', 8))
        if cf:
            for a, b in zip('XYZ', c): V.ensure('coordinate field ' + a, o['Field' + a] == b)
        else: V.ensure('plain coordinates', all(o['Field' + a] == -1 for a in 'XYZ'))
    return on(fn)
def background(V, F, rec):
    k = V.int('k', lo=1); F.set_mesh_step_field(k); V.cover('built')
    V.ensure('background field', rec.background is not None and rec.background == k)

def restrict(n, add_boundary):
    """real object sets over a geometry kernel with arbitrary tags"""
    def fn(V, F, rec):
        G = importlib.import_module('bgem.gmsh.gmsh')
        from checks.gkernel import kernel
        K = kernel(V, G)
        try:
            fac = K.factory()
            dts = []
            sets = []
            for s in range(n):
                m = 1 + V.choice('size%d' % s, 2)
                dt = [(V.choice('dim%d_%d' % (s, i), 4), V.int('t%d_%d' % (s, i), lo=1)) for i in range(m)]
                sets.append(G.ObjectSet(fac, list(dt), [G.Region.default_region[d] for d, t in dt])); dts += dt
            k = V.int('field', lo=1)
            fac._need_synchronize = bool(V.choice('sync', 2))
            was = fac._need_synchronize
            r = F.restrict(k, *sets, add_boundary=True) if add_boundary else F.restrict(k, *sets)
            V.cover('built')
            t, o = rec.get(r)
            V.ensure('kind of the field', t == 'Restrict'); V.ensure('restricted field', o['InField'] == k)
            V.ensure('the model is synchronised first', not was or K.synced)
            bnd = K.boundary_answer if add_boundary else []
            if add_boundary: V.ensure('boundary of every entity', K.boundary_combined is False); V.ensure('boundary of all entities', listeq(K.boundary_asked, dts))
            for d, a in enumerate(('PointsList', 'CurvesList', 'SurfacesList', 'VolumesList')):
                want = [t for e, t in dts + bnd if e == d]
                got = list(o[a])
                V.ensure('entities of dimension %d' % d, multieq(got, want))
            V.ensure('only these entities', not o['IncludeBoundary'] and not o['IncludeEmbedded'])
        finally: K.end()
    return on(fn)
def listeq(a, b): return len(a) == len(b) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a, b))
def multieq(a, b):
    if len(a) != len(b): return False
    b = list(b)
    for x in a:
        for i, y in enumerate(b):
            if x is y: del b[i]; break
        else: return False
    return True

S = dict(mods=[MOD])
UNITS = []
for up in (0, 1):
    for sg in (0, 1):
        UNITS.append(Unit('threshold[%s%s]' % ('bounded' if up else 'no upper bound', ', sigmoid' if sg else ''), threshold(up, sg), 'threshold', covers=['built'] + (['low', 'high', 'between'] if up else []), allshape=True, **S))
for vo in (0, 1): UNITS.append(Unit('box[%s]' % ('outer value' if vo else 'default outside'), box(vo), 'box', covers=['inside', 'outside'], allshape=True, **S))
UNITS.append(Unit('constant', on(constant), ['constant', 'box'], covers=['built'], allshape=True, **S))
for nm in ('min', 'max'):
    UNITS.append(Unit(nm + '[any number of fields]', anylist(nm), nm, covers=['built'], allshape=True, **S))
    for n in (1, 2, 3): UNITS.append(Unit('%s[%d]' % (nm, n), extreme(nm, n), nm, covers=['built'], **S))
for kd in ('nodes', 'edges'): UNITS.append(Unit('distance_' + kd, distance(kd), 'distance_' + kd, covers=['built'], allshape=True, **S))
UNITS.append(Unit('set_mesh_step_field', on(background), 'set_mesh_step_field', covers=['built'], allshape=True, **S))
for n in (1, 2):
    for ab in (0, 1):
        UNITS.append(Unit('restrict[%d sets%s]' % (n, ', boundary' if ab else ''), restrict(n, ab), ['restrict', 'ObjectSet.split_by_dimension', 'GeometryOCC.group', 'ObjectSet.get_boundary'], covers=['built'], **S))

# ------------------------------------------------------------------ bounded: values given by gmsh itself
def bounded(H):
    import gmsh, importlib
    gmsh.initialize(); gmsh.option.setNumber('General.Terminal', 0); gmsh.option.setNumber('General.AbortOnError', 0)
    for k, v in dict(MeshSizeFromPoints=0, MeshSizeExtendFromBoundary=0, MeshSizeMin=0, MeshSizeMax=1e300, MeshSizeFactor=1).items(): gmsh.option.setNumber('Mesh.' + k, v)
    F, K = fld(), gmsh.model.mesh.field
    def me(s):
        i = K.add('MathEval'); K.setString(i, 'F', s); return i
    def evaluate(make, pts):
        gmsh.model.add('x')
        if len(pts) % 2: pts = pts + [pts[0]]
        tags = [gmsh.model.occ.addPoint(*p) for p in pts]
        for i in range(0, len(tags), 2): gmsh.model.occ.addLine(tags[i], tags[i + 1])
        gmsh.model.occ.synchronize()
        f = make(); out = {}
        def cb(d, t, x, y, z, lc):
            if d == 0: out[t] = lc
            return 1e22
        gmsh.model.mesh.setSizeCallback(cb)
        F.set_mesh_step_field(f)
        gmsh.model.mesh.generate(1); gmsh.model.mesh.removeSizeCallback(); gmsh.model.remove()
        return [out[t] for t in tags]
    k = 0
    while H.time_left():
        R = H.rng(k); k += 1
        g = lambda: round(R.uniform(-3, 3), 2)
        desc = []
        def tree(depth):
            """(constructor of a field, its documented value, tolerance)"""
            kind = R.choice(['math', 'box', 'constant', 'boxdef'] if depth == 0 else ['threshold', 'min', 'max', 'threshold', 'box', 'thr_none'])
            if kind == 'math':
                a, b, c, d = g(), g(), g(), g()
                desc.append(('math', a, b, c, d))
                return (lambda: me('(%r)*x+(%r)*y+(%r)*z+(%r)' % (a, b, c, d))), (lambda x, y, z: a * x + b * y + c * z + d), 0
            if kind in ('box', 'boxdef'):
                p, q = [g() for i in range(3)], [g() for i in range(3)]
                lo, hi = [min(s, t) for s, t in zip(p, q)], [max(s, t) for s, t in zip(p, q)]
                vi, vo = g(), g() if kind == 'box' else 1e22
                desc.append((kind, lo, hi, vi, vo))
                mk = (lambda: F.box(lo, hi, vi, vo)) if kind == 'box' else (lambda: F.box(tuple(lo), tuple(hi), vi))
                return mk, (lambda *x: NAN if any(abs(c - l) < 1e-9 or abs(c - h) < 1e-9 for l, c, h in zip(lo, x, hi)) else vi if all(l <= c <= h for l, c, h in zip(lo, x, hi)) else vo), 0
            if kind == 'constant':
                v, r = g(), 20.0
                desc.append((kind, v, r))
                return (lambda: F.constant(v, r)), (lambda *x: v), 0
            if kind in ('threshold', 'thr_none'):
                s, f, t = tree(depth - 1)
                a, b = sorted([g(), g()]); b += 0.25
                u, w = g(), g(); sg = R.random() < .3
                desc.append((kind, a, b, u, w, sg))
                kw = dict(sigmoid=True) if sg else {}
                if kind == 'thr_none': return (lambda: F.threshold(s(), (a, u), **kw)), (lambda *x: u if f(*x) < 1e20 else NAN), 0.003 * (1 + abs(u)) if sg else 1e-9
                def val(*x):
                    if math.isnan(f(*x)): return NAN
                    r = min(1., max(0., (f(*x) - a) / (b - a)))
                    if sg: r = 1 / (1 + math.exp(6 - 12 * r))
                    return u + (w - u) * r
                return (lambda: F.threshold(s(), (a, u), (b, w), **kw)), val, t * abs(w - u) / (b - a) * (4 if sg else 1) + (.003 * abs(w - u) if sg else 0)
            n = R.randrange(1, 4)
            subs = [tree(depth - 1) for i in range(n)]
            desc.append((kind, n))
            fn = min if kind == 'min' else max
            return (lambda: getattr(F, kind)([s() for s, f, t in subs])), (lambda *x: NAN if any(math.isnan(f(*x)) for s, f, t in subs) else fn(f(*x) for s, f, t in subs)), max(t for s, f, t in subs)
        mode = R.random()
        pts = [tuple(g() for i in range(3)) for i in range(8)]
        if mode < .75:
            mk, ref, tol = tree(R.randrange(3))
            H.case(dict(field=desc, points=pts), nontrivial=repr(desc))
            for p, v in zip(pts, evaluate(mk, pts)):
                w = ref(*p)
                if math.isnan(w) or w == 0: continue      # on a face of a box up to rounding, or no size at all
                w = min(w, 1e22)
                H.check(abs(v - w) <= tol + 1e-6 * max(1, abs(w)), 'documented value', lambda: 'at %s gmsh gives %r, documented %r' % (p, v, w))
        elif mode < .88:
            q = [tuple(g() for i in range(3)) for i in range(R.randrange(1, 4))]
            edge = R.random() < .5; n = R.choice([3, 5, 8, 20])
            far = tuple(g() for i in range(3))
            H.case(dict(distance=q, edge=edge, n=n, points=pts), nontrivial=repr((q, edge)))
            def mk():
                t = [gmsh.model.occ.addPoint(*p) for p in q]
                if edge:
                    e = gmsh.model.occ.addPoint(*far)
                    c = [gmsh.model.occ.addLine(a, e) for a in t]
                gmsh.model.occ.synchronize()
                return F.distance_edges(c, nodes_per_edge=n) if edge else F.distance_nodes(t)
            if edge and any(math.dist(far, p) < .1 for p in q): continue
            for p, v in zip(pts, evaluate(mk, pts)):
                if not edge:
                    w = min(math.dist(p, s) for s in q); lo, hi = w, w
                else:
                    best, gap = 1e9, 0
                    for s in q:
                        d = [b - a for a, b in zip(s, far)]; L2 = sum(x * x for x in d)
                        t = min(1, max(0, sum((c - a) * x for a, c, x in zip(s, p, d)) / L2))
                        best = min(best, math.dist(p, [a + t * x for a, x in zip(s, d)])); gap = max(gap, math.sqrt(L2))
                    lo, hi = best, best + gap / (n - 1) * 1.01
                if hi == 0: continue
                H.check(lo - 1e-6 <= v <= hi + 1e-6, 'distance', lambda: 'at %s gmsh gives %r, expected %r..%r' % (p, v, lo, hi))
        else:
            restricted(H, R, F, gmsh, K)
def restricted(H, R, F, gmsh, K):
    G = importlib.import_module('bgem.gmsh.gmsh')
    G.GeometryOCC.__del__ = lambda s: None
    gmsh.model.add('y')
    fac = G.GeometryOCC.__new__(G.GeometryOCC); fac.model, fac._region_names, fac._need_synchronize = gmsh.model.occ, {}, False
    b = fac.box([1, 1, 1]); fac.synchronize()
    ent = gmsh.model.getEntities()
    pick = R.sample(ent, R.randrange(1, 4)); ab = R.random() < .5
    H.case(dict(restricted=pick, add_boundary=ab), nontrivial=repr((pick, ab)))
    sets = [fac.object(*e) for e in pick]
    c = K.add('MathEval'); K.setString(c, 'F', '0.37')
    f = F.restrict(c, *sets, add_boundary=True) if ab else F.restrict(c, *sets)
    want = set(pick)
    if ab:
        for e in pick: want |= {tuple(x) for x in gmsh.model.getBoundary([e], combined=False, oriented=False)}
    seen = {}
    def cb(d, t, x, y, z, lc): seen.setdefault((d, t), set()).add(lc); return .4
    gmsh.model.mesh.setSizeCallback(cb); F.set_mesh_step_field(f)
    gmsh.model.mesh.generate(3); gmsh.model.mesh.removeSizeCallback(); gmsh.model.remove()
    for e, v in seen.items():
        H.check(v == ({0.37} if e in want else {1e22}), 'restriction', lambda: 'entity %s: %s, restricted to %s' % (e, v, sorted(want)))
    H.check(all(e in seen for e in want), 'restriction', 'not evaluated')

LEVEL = 'proof'
BSECS = 8; SHARDS = 4
BOUND = 'random trees of depth up to 2 of threshold/box/constant/min/max over linear fields, evaluated by gmsh itself at 8 random points; distance fields and restrictions on random entities'
TRUSTED = ["documented meaning of gmsh's Threshold, Box, Min, Max, Distance and Restrict fields, their option names, aliases and defaults (table OPTS/ALIAS, compared with the installed gmsh by the bounded part)",
           'sigmoid: any increasing function of the position in the transition that is within 0.3 % of 0 and 1 at its ends',
           'coordinate_fields are recorded under their names; the installed gmsh ignores them']
NOTE = 'every constructor proved for all parameters and locations against the documented kernel semantics (restrict: up to two object sets of up to two entities); kernel semantics themselves sampled with the real gmsh'
