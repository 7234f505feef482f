from pyvc.unit import Unit, need
from checks import spl
from checks.spl import bs, BS
LEVEL = 'proof'
NOTE = ("Proof for every surface size: numbering is a bijection with exact inverse; for every knot vector and location the reported patches are exactly those containing it; Newton: for every "
        "knot vector, pole set, linear solver result and number of iterations a converged result meets the tolerance inside the searched patch. Main curves at fixed sizes for all poles. Intersection "
        "is implemented by the code for degree 2 without repeated interior knots only. Reals for floats.")
T = 'bspline.py:Surface.'
SPM, CPM, ICSM, ISSM = ['bgem.bspline.' + x for x in ('surface_point', 'curve_point', 'isec_curve_surf', 'isec_surf_surf')]
UNITS = []
PRELOAD = [BS, SPM, CPM, ICSM, ISSM]
def mod(n):
    import importlib
    return importlib.import_module(n)

class NB:
    """only the number of intervals of a basis"""
    def __init__(self, n): self.n_intervals = n

def numbered():
    S = type('Numbered', (bs().Surface,), dict(u_basis=None, v_basis=None))
    return object.__new__(S)

def numbering(V):
    s = numbered()
    nu, nv = V.int('nu', lo=1), V.int('nv', lo=1)
    s.u_basis, s.v_basis = NB(nu), NB(nv)
    iu, iv = V.int('iu', lo=0), V.int('iv', lo=0)
    V.assume(iu < nu); V.assume(iv < nv)
    V.cover('in')
    p = s.patch_pos2id(iu, iv)
    V.ensure('identifier in range', p >= 0); V.ensure('identifier in range', p < nu * nv)
    a = s.patch_id2pos(p)
    V.eq('inverse of the numbering', list(a), [iu, iv])
    ju, jv = V.int('ju', lo=0), V.int('jv', lo=0)
    V.assume(ju < nu); V.assume(jv < nv)
    q = s.patch_pos2id(ju, jv)
    same = ((ju == iu) & (jv == iv)) if V.symbolic else (ju, jv) == (iu, iv)
    if V.symbolic:
        V.ensure('distinct positions have distinct identifiers', (~(p == q)) | same)
    else: V.ensure('distinct positions have distinct identifiers', p != q or same)
    k = V.int('id', lo=0); V.assume(k < nu * nv)
    b = s.patch_id2pos(k)
    V.ensure('position in range', (b[0] >= 0) & (b[0] < nu) & (b[1] >= 0) & (b[1] < nv) if V.symbolic else 0 <= b[0] < nu and 0 <= b[1] < nv)
    V.eq('numbering of the position', s.patch_pos2id(*b), k)
UNITS.append(Unit('numbering is a bijection', numbering, [T + 'patch_pos2id', T + 'patch_id2pos'], BS, covers=['in'], allshape=True, unbounded='surface sizes, positions, identifiers', samples=300))

# ------------------------------------------------------------------ patches of a location
class Pos:
    def __init__(self, *p): self.p = p
class KB:
    """contract of a SplineBasis without repeated interior knots: knot values kf(0) < ... < kf(n)"""
    degree = 2
    def __init__(self, V, tag, idx):
        from pyvc import core
        self.V, self.tag = V, tag
        self.n_intervals = V.int(tag + 'n', lo=1)
        self.idx = idx
        self.reg = []
        for i in (core.lift(0), self.n_intervals, *idx): self.note(i)
    def kf(self, i):
        from pyvc import core
        return core.uf(self.tag + 'kf', core.lift(i))
    def note(self, i):
        """strict monotonicity instantiated for the new index against all known ones"""
        from pyvc import core
        i = core.lift(i)
        if any(i.t.eq(j.t) for j in self.reg): return
        for j in self.reg:
            a, b = self.kf(i), self.kf(j)
            self.V.ctx.add((((~(i < j)) | (a < b)) & ((~(j < i)) | (b < a)) & ((~(i == j)) | (a == b))).t)
        self.reg.append(i)
    def knot_interval_bounds(self, i):
        self.note(i); self.note(i + 1)
        return self.kf(i), self.kf(i + 1)
    @property
    def domain(self):
        from pyvc import core
        return self.kf(core.lift(0)), self.kf(self.n_intervals)
class SStub:
    def __init__(self, u, v): self.u_basis, self.v_basis = u, v
    def patch_pos2id(self, iu, iv): return Pos(iu, iv)

def conc_basis(V, tag, degs=(1, 2, 3)):
    r = V.rng
    return bs().SplineBasis(*(lambda p: (p, spl.random_knots(r, p, n=r.randint(1, 4), mult=False)))(r.choice(degs)))
def conc_loc(V, b):
    i = V.rng.randrange(b.n_intervals); lo, hi = b.knot_interval_bounds(i)
    return i, V.rng.choice([lo, hi, lo + (hi - lo) * V.rng.uniform(0.01, 0.99)])

def surface_point(V):
    SP = mod(SPM).SurfacePoint
    import numpy as np
    if V.symbolic:
        i = [V.int('iu', lo=0), V.int('iv', lo=0)]; j = [V.int('ju', lo=0), V.int('jv', lo=0)]
        b = [KB(V, t, [i[k], i[k] + 1, j[k], j[k] + 1]) for k, t in ((0, 'u'), (1, 'v'))]
        x = [V.real('u'), V.real('v')]
        for k in (0, 1):
            V.assume(i[k] < b[k].n_intervals); V.assume(j[k] < b[k].n_intervals)
            V.assume((b[k].kf(i[k]) <= x[k]) & (x[k] <= b[k].kf(i[k] + 1)))
        from pyvc.npshim import array
        p = SP(SStub(*b), array(i), array(x))
        V.cover('in')
        got = [q.p for q in p.patch_id()]
        ins = True
        for k in (0, 1): ins = (b[k].kf(j[k]) <= x[k]) & (x[k] <= b[k].kf(j[k] + 1)) & ins
        mem = False
        for g in got: mem = ((g[0] == j[0]) & (g[1] == j[1])) | mem
        V.ensure('every patch containing the location is reported', (~ins) | mem)
        V.ensure('every reported patch contains the location', (~mem) | ins)
        for g in got:
            for k in (0, 1): V.ensure('reported patches exist', (g[k] >= 0) & (g[k] < b[k].n_intervals))
        return
    b = [conc_basis(V, t) for t in 'uv']
    loc = [conc_loc(V, x) for x in b]
    s = bs().Surface(b, np.zeros((b[0].size, b[1].size, 3)))
    i = np.array([loc[0][0], loc[1][0]]); x = np.array([loc[0][1], loc[1][1]])
    V.used.update(knots=[list(map(float, c.knots)) for c in b], iuv=i.tolist(), uv=x.tolist())
    p = SP(s, i, x)
    want = set()
    for a in range(b[0].n_intervals):
        for c in range(b[1].n_intervals):
            lo, hi = b[0].knot_interval_bounds(a); l2, h2 = b[1].knot_interval_bounds(c)
            if lo <= x[0] <= hi and l2 <= x[1] <= h2: want.add(a * b[1].n_intervals + c)
    V.ensure('reported patches are exactly those containing the location', set(int(q) for q in p.patch_id()) == want)
    V.ensure('patch positions without repetition', sorted(tuple(map(int, q)) for q in p.iuv) == sorted((w // b[1].n_intervals, w % b[1].n_intervals) for w in want))
    V.ensure('arguments unchanged', i.tolist() == [loc[0][0], loc[1][0]] and x.tolist() == [loc[0][1], loc[1][1]])
UNITS.append(Unit('patches of a surface location', surface_point, ['surface_point.py:SurfacePoint.*'], [SPM], covers=['in'], allshape=True, unbounded='knot vectors, sizes, locations', samples=600, deadline=100,
                  assumes=['knot intervals of a basis are non-empty and ordered (B01)']))

def curve_point(V):
    CP = mod(CPM).CurvePoint
    import numpy as np
    class C: pass
    c = C()
    if V.symbolic:
        i, j = V.int('i', lo=0), V.int('j', lo=0)
        b = KB(V, 't', [i, i + 1, j, j + 1]); x = V.real('t')
        V.assume(i < b.n_intervals); V.assume(j < b.n_intervals); V.assume((b.kf(i) <= x) & (x <= b.kf(i + 1)))
        c.basis = b
        p = CP(c, i, x)
        V.cover('in')
        mem = False
        for g in p.it: mem = (g == j) | mem
        ins = (b.kf(j) <= x) & (x <= b.kf(j + 1))
        V.ensure('every interval containing the location is reported', (~ins) | mem)
        V.ensure('every reported interval contains the location', (~mem) | ins)
        for g in p.it: V.ensure('reported intervals exist', (g >= 0) & (g < b.n_intervals))
        return
    b = conc_basis(V, 't'); i, x = conc_loc(V, b); c.basis = b
    V.used.update(knots=list(map(float, b.knots)), it=i, t=x)
    p = CP(c, i, x)
    want = sorted(a for a in range(b.n_intervals) if b.knot_interval_bounds(a)[0] <= x <= b.knot_interval_bounds(a)[1])
    V.ensure('reported intervals are exactly those containing the location', sorted(map(int, p.it)) == want)
UNITS.append(Unit('intervals of a curve location', curve_point, ['curve_point.py:CurvePoint.*'], [CPM], covers=['in'], allshape=True, unbounded='knot vectors, sizes, locations', samples=400,
                  assumes=['knot intervals of a basis are non-empty and ordered (B01)']))

# ------------------------------------------------------------------ Newton
class NBasis:
    """contract of a degree 2 basis for the Newton iteration: knots, values and derivatives are functions of (interval, parameter)"""
    degree = 2
    def __init__(self, V, tag, n, i):
        from pyvc import npshim
        self.tag, self.n_intervals, self.size = tag, n, n + 2
        self.knots = npshim.array(spl.knots(V, 2, n, tag)); self.V = V
    def _v(self, kind, i, t):
        from pyvc import npshim, core
        return npshim.array([core.uf('%s%s%d_%d' % (self.tag, kind, i, j), t) for j in range(3)])
    def eval_vector(self, i, t): return self._v('b', i, t)
    def eval_diff_vector(self, i, t): return self._v('d', i, t)
    eval_base_vector, eval_diff_base_vector = eval_vector, eval_diff_vector
    def knot_interval_bounds(self, i): return self.knots[i + 2], self.knots[i + 3]
class SolveAny:
    """contract of la.solve used here: any vector"""
    def __init__(self, la): self._la = la
    def __getattr__(self, k): return getattr(self._la, k)
    def solve(self, a, b):
        from pyvc import core, npshim
        return npshim.array([core.SReal(core.CTX.fresh_real('step')) for _ in range(len(b))])
def patch_la(mods):
    m = mods[ICSM]; m.la = SolveAny(m.la)

def newton(max_it):
    def fn(V):
        ICS = mod(ICSM).IsecCurveSurf
        import numpy as np
        class O: pass
        if V.symbolic:
            from pyvc import npshim
            S, C = O(), O()
            n = {'u': 2, 'v': 1, 't': 2}
            i = {'u': 1, 'v': 0, 't': 1}
            B = {t: NBasis(V, t, n[t], i[t]) for t in 'uvt'}
            S.u_basis, S.v_basis, C.basis = B['u'], B['v'], B['t']
            S.poles = npshim.array([[[V.real('p%d%d%d' % (a, b, k)) for k in range(3)] for b in range(3)] for a in range(4)])
            C.poles = npshim.array([[V.real('c%d%d' % (a, k)) for k in range(3)] for a in range(4)])
            tol = V.real('tol'); V.assume(tol >= 0)
            o = ICS(S, C)
            uvt, conv, xyz = o.get_intersection(1, 0, 1, max_it, 1e-10, tol)
            V.cover('in')
            for k, t in enumerate('uvt'):
                V.ensure('parameters stay in the searched patch', (B[t].knots[i[t] + 2] <= uvt[k]) & (uvt[k] <= B[t].knots[i[t] + 3]))
            if not bool(conv): return
            V.cover('converged')
            bu, bv, bt = B['u'].eval_vector(1, uvt[0]), B['v'].eval_vector(0, uvt[1]), B['t'].eval_vector(1, uvt[2])
            d2 = 0
            for k in range(3):
                s = sum(bu[a] * bv[b] * S.poles[1 + a, b, k] for a in range(3) for b in range(3)); c = sum(bt[a] * C.poles[1 + a, k] for a in range(3))
                V.eq('reported coordinates are the mean of both', xyz[k], (s + c) / 2)
                d2 = d2 + (s - c) * (s - c)
            # the norm computed by the code is a square root of d2 (engine contract); compare through it
            V.ensure('converged result meets the tolerance', d2.sqrt() <= tol)
            return
        r = V.rng; B = bs()
        bas = [B.SplineBasis.make_equidistant(2, r.randint(1, 3)) for _ in range(3)]
        rn = np.random.RandomState(r.randrange(1 << 30))
        P = np.zeros((bas[0].size, bas[1].size, 3))
        P[:, :, 0] = np.linspace(0, 1, bas[0].size)[:, None]; P[:, :, 1] = np.linspace(0, 1, bas[1].size)[None, :]; P += rn.uniform(-.1, .1, P.shape)
        a = rn.uniform(0.2, 0.8, 3); a[2] = -1; e = rn.uniform(0.2, 0.8, 3); e[2] = 1
        Cp = np.linspace(0, 1, bas[2].size)[:, None] * (e - a) + a
        s, c = B.Surface(bas[:2], P), B.Curve(bas[2], Cp)
        V.used.update(seed_poles=P.tolist(), curve=Cp.tolist())
        o = ICS(s, c)
        tol = r.choice([1e-8, 1e-4, 0.5])
        for iu in range(bas[0].n_intervals):
            for iv in range(bas[1].n_intervals):
                for it in range(bas[2].n_intervals):
                    try: uvt, conv, xyz = o.get_intersection(iu, iv, it, r.choice([1, 2, 10]), 1e-10, tol)
                    except np.linalg.LinAlgError: continue
                    for k, (b, i) in enumerate(((bas[0], iu), (bas[1], iv), (bas[2], it))):
                        lo, hi = b.knot_interval_bounds(i)
                        V.ensure('parameters stay in the searched patch', lo <= uvt[k] <= hi)
                    if conv:
                        x, y = s.eval_local(uvt[0], uvt[1], iu, iv), c.eval_local(uvt[2], it)
                        V.ensure('converged result meets the tolerance', np.linalg.norm(x - y) <= tol * (1 + 1e-9) + 1e-13)
                        V.eq('reported coordinates are the mean of both', list(xyz), list((x + y) / 2))
    return fn
UB9 = 'knots, poles, basis functions, tolerance, result of the linear solver, number of iterations (an iteration starts from any point of the patch)'
for m in (1, 2, 3):
    UNITS.append(Unit('Newton, %d iterations' % m, newton(m), ['isec_curve_surf.py:IsecCurveSurf.get_intersection', 'isec_curve_surf.py:IsecCurveSurf._compute_jacobian_and_coordinates'], [ICSM], patch=patch_la, covers=['in', 'converged'], allshape=(m == 3), unbounded=UB9, samples=8))

# the Jacobian: derivative of the residual (drives convergence, not soundness)
def jacobian(V):
    ICS = mod(ICSM).IsecCurveSurf
    from checks.spl import knots
    B = bs()
    bas = [B.SplineBasis(2, knots(V, 2, 2 if t == 'u' else 1, t)) for t in 'uvt']
    import numpy as np
    R = (lambda m: __import__('pyvc.npshim', fromlist=['array']).array(m)) if V.symbolic else np.array
    P = R([[[V.real('p%d%d%d' % (a, b, k)) for k in range(3)] for b in range(bas[1].size)] for a in range(bas[0].size)])
    C = R([[V.real('c%d%d' % (a, k)) for k in range(3)] for a in range(bas[2].size)])
    s, c = B.Surface(bas[:2], P), B.Curve(bas[2], C)
    i = [V.choice('iu', 2), 0, 0]
    x = [spl.interval_param(V, list(bas[k].knots), 2, i[k], tag='uvt'[k]) for k in range(3)]
    if V.symbolic:
        for k in range(3): V.assume((x[k] > bas[k].knots[i[k] + 2]) & (x[k] < bas[k].knots[i[k] + 3]))
    J, a, b = need(ICS(s, c), '_compute_jacobian_and_coordinates')(x, tuple(i))
    V.cover('in')
    V.eq('surface point', list(a), list(s.eval_local(x[0], x[1], i[0], i[1])))
    V.eq('curve point', list(b), list(c.eval_local(x[2], i[2])))
    V.ensure('shape', V.shape(J) == (3, 3))
    if not V.symbolic: return
    from checks.B03 import dterm
    from pyvc import core
    for k in range(3):
        for q in range(3):
            f = core.lift(a[k] - b[k])
            V.eq('Jacobian is the derivative of the residual', J[k, q], core.SReal(dterm(f.t, x[q].t)))
UNITS.append(Unit('Jacobian of the residual', jacobian, ['isec_curve_surf.py:IsecCurveSurf._compute_jacobian_and_coordinates'], [BS, ICSM], covers=['in'], unbounded='knots, poles, parameters', samples=40))

# ------------------------------------------------------------------ main curves and surface/surface
def main_curves(nu, nv):
    def fn(V):
        ISS = mod(ISSM).IsecSurfSurf
        B = bs()
        import numpy as np
        R = (lambda m: __import__('pyvc.npshim', fromlist=['array']).array(m)) if V.symbolic else np.array
        bas = [B.SplineBasis(2, spl.knots(V, 2, n, 'uv'[k])) for k, n in ((0, nu), (1, nv))]
        P = R([[[V.real('p%d%d%d' % (a, b, k)) for k in range(3)] for b in range(bas[1].size)] for a in range(bas[0].size)])
        s = B.Surface(bas, P)
        AX = mod('bgem.bspline.isec_point').Axis
        ax = V.choice('axis', 2); axis = AX.u if ax == 0 else AX.v
        curves, w, patch = need(ISS, '_main_curves')(s, axis)
        fix, oth = bas[ax], bas[1 - ax]
        n = fix.n_intervals
        V.ensure('one curve per knot', len(curves) == n + 1 and len(w) == n + 1 and len(patch) == n + 1)
        i = V.choice('i', max(nu, nv) + 1); V.assume(i <= n)
        j = V.choice('j', max(nu, nv)); V.assume(j < oth.n_intervals)
        t = spl.interval_param(V, list(oth.knots), 2, j, tag='t')
        V.cover('in')
        V.eq('fixed parameter is the knot', w[i], fix.knots[i + 2])
        lo, hi = fix.knot_interval_bounds(patch[i])
        V.ensure('fixed parameter lies in the reported patch', (V.leq(lo, w[i])) & (V.leq(w[i], hi)))
        uv = [w[i], t] if ax == 0 else [t, w[i]]
        V.eq('main curve lies on the surface', list(curves[i].eval(t)), list(s.eval(*uv)))
    return fn
for nu, nv in ((1, 1), (2, 1), (1, 3)):
    UNITS.append(Unit('main curves %dx%d intervals' % (nu, nv), main_curves(nu, nv), ['isec_surf_surf.py:IsecSurfSurf._main_curves'], [BS, ISSM], covers=['in'], unbounded='knots, poles, parameter', samples=40))

LOG = []
class ICSStub:
    """contract of IsecCurveSurf.get_intersection: parameters in the searched intervals, converged or not"""
    def __init__(self, surf, curv): self.surf, self.curv = surf, curv
    def get_intersection(self, iu, iv, it, max_it, rel_tol, abs_tol):
        from pyvc import core, npshim
        ctx = core.CTX
        x = []
        for b, i in ((self.surf.u_basis, iu), (self.surf.v_basis, iv), (self.curv.basis, it)):
            lo, hi = b.knot_interval_bounds(i)
            t = core.SReal(ctx.fresh_real('x')); ctx.add((t >= lo).t); ctx.add((t <= hi).t); x.append(t)
        xyz = npshim.array([core.SReal(ctx.fresh_real('xyz')) for _ in range(3)])
        k = len(LOG)
        conv = (k == self.which)
        LOG.append((self.curv, iu, iv, it, x, xyz, conv, abs_tol))
        return npshim.array(x), conv, xyz
class StubTree:
    def __init__(self, p): self.p = p
    def find_box(self, b): return [self.p]
class BihStub:
    AABB = staticmethod(lambda p: p)
    class BIH:
        def add_boxes(self, b): pass
        def construct(self): pass
class ICSNS: IsecCurveSurf = ICSStub

def surf_surf(V):
    ISS = mod(ISSM).IsecSurfSurf
    B = bs()
    import numpy as np
    if V.symbolic:
        from pyvc import npshim
        LOG.clear()
        def surface(tag, nu, nv):
            bas = [B.SplineBasis(2, spl.knots(V, 2, n, tag + 'uv'[k])) for k, n in ((0, nu), (1, nv))]
            return B.Surface(bas, npshim.array([[[V.real('%s%d%d%d' % (tag, a, b, k)) for k in range(3)] for b in range(bas[1].size)] for a in range(bas[0].size)]))
        s1, s2 = surface('a', 1, 1), surface('b', 1, 2)
        p = V.choice('patch', 2); ICSStub.which = V.choice('call', 4)
        s2._tree = StubTree(p)
        class BoxCurve: pass
        tol = V.real('tol'); V.assume(tol > 0)
        o = ISS(s1, s2, abs_tol=tol)
        pts = o.get_intersections(s1, s2)
        V.cover('in')
        conv = [l for l in LOG if l[6]]
        V.ensure('one point per converged search', len(pts) == len(conv))
        for q, (c, iu, iv, it, x, xyz, _, t_) in zip(pts, conv):
            V.cover('point')
            a, b = q.surface_point
            V.ensure('points refer to their surfaces', a.surf is s1 and b.surf is s2)
            V.eq('tolerance is handed to the search', t_, tol)
            V.eq('coordinates', list(q.xyz), list(xyz))
            V.eq('location on the first surface is the curve point', list(s1.eval(a.uv[0], a.uv[1])), list(c.eval(x[2])))
            V.eq('location on the second surface', list(b.uv), x[:2])
            V.ensure('patch of the second surface', (b.iuv[0][0] == 0) & (b.iuv[0][1] == p))
            V.ensure('patch of the first surface', (a.iuv[0][0] == 0) & (a.iuv[0][1] == 0))
        return
    r = V.rng; rn = np.random.RandomState(r.randrange(1 << 30))
    def surface(z):
        bas = [B.SplineBasis.make_equidistant(2, r.randint(1, 3)) for _ in (0, 1)]
        P = np.zeros((bas[0].size, bas[1].size, 3)); P[:, :, 0] = np.linspace(0, 1, bas[0].size)[:, None]; P[:, :, 1] = np.linspace(0, 1, bas[1].size)[None, :]
        P[:, :, 2] = z; P += rn.uniform(-.1, .1, P.shape)
        return B.Surface(bas, P)
    s1, s2 = surface(0), surface(0)
    s2.poles[:, :, 2] += s2.poles[:, :, 0] - 0.5
    tol = r.choice([1e-8, 1e-3])
    o = ISS(s1, s2, abs_tol=tol)
    try: pts = o.get_intersections(s1, s2)
    except np.linalg.LinAlgError: V.assume(False)
    V.used['n'] = len(pts)
    for q in pts:
        a, b = q.surface_point
        x = [p.surf.eval(*p.uv) for p in (a, b)]
        V.ensure('both surfaces meet at the point', np.linalg.norm(x[0] - x[1]) <= tol * (1 + 1e-9) + 1e-12)
        V.ensure('coordinates', np.linalg.norm(q.xyz - (x[0] + x[1]) / 2) <= 1e-9)
        for p in (a, b):
            want = set()
            for i in range(p.surf.u_basis.n_intervals):
                for j in range(p.surf.v_basis.n_intervals):
                    (l, h), (m, g) = p.surf.u_basis.knot_interval_bounds(i), p.surf.v_basis.knot_interval_bounds(j)
                    if l <= p.uv[0] <= h and m <= p.uv[1] <= g: want.add(i * p.surf.v_basis.n_intervals + j)
            V.ensure('patches of the point', set(map(int, p.patch_id())) == want)
UNITS.append(Unit('surface/surface intersection points', surf_surf, ['isec_surf_surf.py:IsecSurfSurf.get_intersections', 'isec_surf_surf.py:IsecSurfSurf._main_curves'], [BS, SPM, ISSM, ICSM], extra={ISSM: {'ICS': ICSNS}, BS: {'bih': BihStub}}, covers=['in', 'point'], unbounded='knots, poles, tolerance', samples=25, deadline=100,
                  assumes=['contract of get_intersection (unit Newton)', 'box tree returns existing patches (bih package, external)']))

BOUND = 'random surfaces of degree 1..3 up to 12x12 patches; Newton and surface/surface on random degree 2 pairs'
BSECS = 5; SHARDS = 4
def bounded(H):
    import numpy as np
    B = bs(); SP = mod(SPM).SurfacePoint; ISS = mod(ISSM).IsecSurfSurf
    k = 0
    while H.time_left():
        k += 1
        r = H.rng(k); rn = np.random.RandomState(r.randrange(1 << 30))
        p = [r.randint(1, 3), r.randint(1, 3)]
        bas = [B.SplineBasis(p[i], spl.random_knots(r, p[i], n=r.randint(1, 12), mult=False)) for i in (0, 1)]
        n = [b.n_intervals for b in bas]
        s = B.Surface(bas, rn.uniform(-1, 1, (bas[0].size, bas[1].size, 3)))
        H.case(dict(degree=p, intervals=n, case=k), (tuple(p), tuple(n), k))
        ids = [s.patch_pos2id(i, j) for i in range(n[0]) for j in range(n[1])]
        H.check(sorted(ids) == list(range(n[0] * n[1])), 'numbering is onto', str(ids))
        H.check(all(tuple(s.patch_id2pos(s.patch_pos2id(i, j))) == (i, j) for i in range(n[0]) for j in range(n[1])), 'inverse numbering')
        kb = [[b.knot_interval_bounds(i) for i in range(b.n_intervals)] for b in bas]
        for _ in range(30):
            i = [r.randrange(n[0]), r.randrange(n[1])]
            x = [r.choice([kb[d][i[d]][0], kb[d][i[d]][1], sum(kb[d][i[d]]) / 2, kb[d][i[d]][0] + (kb[d][i[d]][1] - kb[d][i[d]][0]) * r.random()]) for d in (0, 1)]
            want = {a * n[1] + b for a in range(n[0]) for b in range(n[1]) if kb[0][a][0] <= x[0] <= kb[0][a][1] and kb[1][b][0] <= x[1] <= kb[1][b][1]}
            got = SP(s, np.array(i), np.array(x)).patch_id()
            H.check(set(map(int, got)) == want, 'patches of a location', '%s at %s %s: %s, expected %s' % (kb, i, x, got, want))
            H.evals += 1
        # larger numbers
        for _ in range(20):
            q = numbered(); q.u_basis, q.v_basis = NB(r.randint(1, 3000)), NB(r.randint(1, 3000))
            a, b = r.randrange(q.u_basis.n_intervals), r.randrange(q.v_basis.n_intervals)
            H.check(tuple(q.patch_id2pos(q.patch_pos2id(a, b))) == (a, b), 'inverse numbering, large', '%s' % ((a, b),))

