from pyvc.unit import Unit, need
from checks import spl
from checks.spl import bs, BS
LEVEL = 'proof'
NOTE = ("Proof for all vertices, overhangs and parameters: line, plane and bilinear constructors reproduce the geometry; for all parallelograms, points, heights and weights: point selection, "
        "least-squares matrix (at the listed interval counts), normal equations of the returned surface (over the contract of the sparse solver), regularization matrix symmetric, positive semidefinite "
        "(sum of squares) and zero on constants for every basis with partition of unity; the rectangle contains the points at every rotation angle. Reals for floats.")
AP = 'bgem.bspline.bspline_approx'
T = 'bspline_approx.py:'
UNITS = []
PRELOAD = [BS, AP]
MODS = [BS, AP]
def ap():
    import importlib
    return importlib.import_module(AP)

def rows(V, m, copy=True):
    from pyvc.npshim import array
    import numpy as np
    return array(m) if V.symbolic else np.array(m, dtype=float)

def overhang(V, on):
    if not on: return 0.0
    o = V.pos('overhang')
    if not V.symbolic: V.assume(o < 3)
    return o

def param(V, name, o):
    if V.symbolic:
        t = V.real(name); V.assume(t >= 0 - o); V.assume(t <= 1 + o); return t
    m = V.real(name + '_m', lo=0, hi=1)
    x = V.values.get(name)
    t = V.real(name) if isinstance(x, (int, float)) or hasattr(x, 'numerator') else -o + m * (1 + 2 * o)
    V.assume(-o <= t <= 1 + o)
    return t

def line_unit(dim, on, form):
    def fn(V):
        X = [[V.real('x%d%d' % (i, k)) for k in range(dim)] for i in (0, 1)]
        o = overhang(V, on)
        arg = rows(V, X) if form == 'array' else [list(x) for x in X]
        c = ap().line(arg, o)
        t = param(V, 't', o)
        V.cover('in')
        V.eq('line is reproduced', list(c.eval(t)), [X[0][k] + t * (X[1][k] - X[0][k]) for k in range(dim)])
        V.eq('domain', [c.basis.domain[0], c.basis.domain[1]], [0 - o, 1 + o])
        V.eq('argument is unchanged', V.flatten(arg), V.flatten(X))
    return fn
for dim, on, form in ((1, False, 'list'), (2, True, 'array'), (2, False, 'array'), (3, True, 'list'), (3, True, 'array')):
    UNITS.append(Unit('line, dimension %d, %s%s' % (dim, form, ', overhang' if on else ''), line_unit(dim, on, form), [T + 'line'], MODS, covers=['in'], allshape=True, unbounded='end points, overhang, parameter', samples=60))

def patch_unit(kind, on, form):
    def fn(V):
        n = 3 if kind == 'plane' else 4
        X = [[V.real('x%d%d' % (i, k)) for k in range(3)] for i in range(n)]
        o = overhang(V, on)
        arg = rows(V, X) if form == 'array' else [tuple(x) for x in X]
        s = (ap().plane_surface if kind == 'plane' else ap().bilinear_surface)(arg, o)
        u, v = param(V, 'u', o), param(V, 'v', o)
        V.cover('in')
        if kind == 'plane': want = [X[0][k] + u * (X[1][k] - X[0][k]) + v * (X[2][k] - X[0][k]) for k in range(3)]
        else: want = [(1 - u) * (1 - v) * X[0][k] + u * (1 - v) * X[1][k] + u * v * X[2][k] + (1 - u) * v * X[3][k] for k in range(3)]
        V.eq('patch is reproduced', list(s.eval(u, v)), want)
        V.eq('domain', list(s.u_basis.domain) + list(s.v_basis.domain), [0 - o, 1 + o] * 2)
        V.eq('argument is unchanged', V.flatten(list(map(list, arg))), V.flatten(X))
    return fn
for kind in ('plane', 'bilinear'):
    for on in (False, True):
        form = 'array' if on else 'list'
        UNITS.append(Unit('%s patch, %s%s' % (kind, form, ', overhang' if on else ''), patch_unit(kind, on, form), [T + 'plane_surface', T + 'bilinear_surface'], MODS, covers=['in'], allshape=True, unbounded='vertices, overhang, parameters', samples=60))

# ------------------------------------------------------------------ sparse matrices (contract stub)
class M:
    """contract of the used part of scipy.sparse: exact matrices; duplicates are summed"""
    def __init__(self, d): self.d = d; self.shape = d.shape
    @staticmethod
    def coo(arg, shape=None, **k):
        import numpy as np
        data, (row, col) = arg
        d = np.zeros(shape, dtype=object)
        for x, i, j in zip(list(data), list(row), list(col)):
            i, j = int(i), int(j)
            d[i, j] = d[i, j] + x
        return M(d)
    @staticmethod
    def diags(v, off=0, **k):
        import numpy as np
        d = np.zeros((len(v), len(v)), dtype=object)
        for i, x in enumerate(v): d[i, i] = x
        return M(d)
    def tocsr(self): return self
    def tocsc(self): return self
    def transpose(self): return M(self.d.T)
    T = property(transpose)
    def dot(self, o):
        from pyvc import npshim
        if isinstance(o, M): return M(npshim.base(npshim.dot(npshim.wrap(self.d), npshim.wrap(o.d))))
        return npshim.dot(npshim.wrap(self.d), npshim.asarray(o))
    __matmul__ = dot
    def __mul__(self, o): return self.dot(o) if isinstance(o, M) or hasattr(o, '__len__') else M(self.d * o)
    def __rmul__(self, o): return M(self.d * o)
    def __add__(self, o): return M(self.d + o.d)

SOLVED = {}
class LinalgStub:
    def svds(self, a, k=1, **kw):
        from pyvc import core
        x = core.SReal(core.CTX.fresh_real('svd')); core.CTX.add((x > 0).t); return [x]
    def eigsh(self, a, k=1, **kw):
        from pyvc import core
        x = core.SReal(core.CTX.fresh_real('eig')); core.CTX.add((x > 0).t); return [x]
    def spsolve(self, A, b):
        """contract: a vector x; A x = b is recorded (not assumed: nonlinear), see normal equations"""
        from pyvc import core, npshim
        x = npshim.array([core.SReal(core.CTX.fresh_real('z')) for _ in range(A.shape[1])])
        SOLVED['last'] = (A, b, x)
        return x
class SparseStub:
    csr_matrix = staticmethod(M.coo); coo_matrix = staticmethod(M.coo); csc_matrix = staticmethod(M.coo)
    diags = staticmethod(M.diags); linalg = LinalgStub()
class ScipyStub:
    sparse = SparseStub()
    class interpolate: pass
def dense(m):
    import numpy as np
    return m.d if isinstance(m, M) else m.toarray()

ASS = 'scipy.sparse matrices are exact and sum duplicate entries (contract of the dependency)'
EXTRA = {AP: {'scipy': ScipyStub()}}

def new_approx(V, pts):
    return ap().SurfaceApprox(rows(V, pts))

# ------------------------------------------------------------------ least squares matrix
def ls_unit(nu, nv, npts):
    def fn(V):
        B = bs()
        a = new_approx(V, [[0.0, 0.0, 0.0]])
        bas = [B.SplineBasis(2, spl.knots(V, 2, n, 'uv'[k])) if V.symbolic else B.SplineBasis(2, spl.knots(V, 2, n, 'uv'[k])) for k, n in ((0, nu), (1, nv))]
        a._u_basis, a._v_basis = bas
        need(a, '_build_ls_matrix')
        uv = []
        for i in range(npts):
            iu, iv = V.choice('iu%d' % i, nu), V.choice('iv%d' % i, nv)
            uv.append([spl.interval_param(V, list(bas[0].knots), 2, iu, tag='u%d' % i), spl.interval_param(V, list(bas[1].knots), 2, iv, tag='v%d' % i)])
        a._uv_quad_points = rows(V, uv)
        mat, _ = a._build_ls_matrix()
        V.cover('in')
        D = dense(mat)
        nb = bas[0].size * bas[1].size
        V.ensure('shape', tuple(D.shape) == (npts, nb))
        P = [[[V.real('p%d_%d' % (i, j))] for j in range(bas[1].size)] for i in range(bas[0].size)]
        s = B.Surface(bas, rows(V, P))
        for i in range(npts):
            val = 0
            for j in range(bas[1].size):
                for k in range(bas[0].size):
                    val = val + D[i, j * bas[0].size + k] * P[k][j][0]
            V.eq('row applied to the poles is the spline at the data point', val, s.eval(*uv[i])[0])
    return fn
for nu, nv, npts in ((1, 1, 2), (2, 1, 1), (1, 2, 1), (2, 3, 1), (3, 2, 1)):
    UNITS.append(Unit('least-squares matrix %dx%d intervals, %d points' % (nu, nv, npts), ls_unit(nu, nv, npts), [T + 'SurfaceApprox._build_ls_matrix'], MODS, covers=['in'], extra=EXTRA, assumes=[ASS], unbounded='knots, data points, poles', samples=20))

# ------------------------------------------------------------------ selection of points
def points_unit(n, weights):
    def fn(V):
        Q = [[V.real('q%d%d' % (i, j)) for j in (0, 1)] for i in range(3)]
        ex, ey = [Q[2][k] - Q[1][k] for k in (0, 1)], [Q[0][k] - Q[1][k] for k in (0, 1)]
        d = ex[0] * ey[1] - ex[1] * ey[0]
        V.assume(d != 0 if V.symbolic else abs(d) > 1e-2)
        UVp = [[V.real('u%d' % i), V.real('v%d' % i)] for i in range(n)]
        if not V.symbolic: UVp = [[round(x * 8) / 16 for x in p] for p in UVp]
        XY = [[Q[1][k] + p[0] * ex[k] + p[1] * ey[k] for k in (0, 1)] for p in UVp]
        pts = [XY[i] + [V.real('z%d' % i)] + ([V.real('w%d' % i)] if weights else []) for i in range(n)]
        a = new_approx(V, pts)
        a.quad = rows(V, Q + [[Q[0][k] + Q[2][k] - Q[1][k] for k in (0, 1)]])
        need(a, '_compute_uv_points')
        eps = 1e-6
        ins = []
        for p in UVp:
            i = (p[0] >= 0) & (p[0] <= 1) & (p[1] >= 0) & (p[1] <= 1) if V.symbolic else all(0 <= x <= 1 for x in p)
            out = ((p[0] < -eps) | (p[0] > 1 + eps) | (p[1] < -eps) | (p[1] > 1 + eps)) if V.symbolic else not all(-eps <= x <= 1 + eps for x in p)
            # precondition: no point in the thin band around the boundary
            if bool(i): ins.append(True)
            else:
                V.assume(out); ins.append(False)
        V.cover('some' if any(ins) else 'none')
        a._compute_uv_points()
        sel = [i for i in range(n) if ins[i]]
        V.ensure('exactly the points within the quadrilateral are used', len(a._z_quad_points) == len(sel) and len(a._uv_quad_points) == len(sel))
        for k, i in enumerate(sel):
            V.eq('own parameters', list(a._uv_quad_points[k]), UVp[i])
            V.eq('own height', a._z_quad_points[k], pts[i][2])
            if weights: V.eq('own weight', a._w_quad_points[k], pts[i][3])
        V.eq('the data are unchanged', V.flatten(a._xy_points), V.flatten(XY))
        V.eq('the heights are unchanged', V.flatten(a._z_points), [p[2] for p in pts])
    return fn
for n, w, tier in ((1, False, 'quick'), (1, True, 'quick'), (2, True, 'thorough')):
    UNITS.append(Unit('selection of %d points%s' % (n, ', weights' if w else ''), points_unit(n, w), [T + 'SurfaceApprox._compute_uv_points'], MODS, covers=['some', 'none'], tier=tier, deadline=100, unbounded='parallelogram, points, heights, weights', samples=80))

# ------------------------------------------------------------------ regularization matrix
class BasisStub:
    """contract of a degree 2 SplineBasis: values on an interval sum to one, derivatives sum to zero"""
    degree = 2
    def __init__(self, V, n, tag):
        from pyvc import npshim, core
        self.tag, self.n_intervals, self.size = tag, n, n + 2
        self.knots = spl.knots(V, 2, n, tag); self.calls = {}
        self.knots = npshim.array(self.knots); self.V = V
    def eval_base_vector(self, i, t): return self._vec('b', i, t, 1)
    def eval_diff_base_vector(self, i, t): return self._vec('d', i, t, 0)
    def eval_vector(self, i, t): return self._vec('b', i, t, 1)
    def eval_diff_vector(self, i, t): return self._vec('d', i, t, 0)
    def _vec(self, kind, i, t, s):
        from pyvc import npshim, core
        a = [core.uf('%s%s%d_%d' % (self.tag, kind, i, j), t) for j in (0, 1)]
        return npshim.array(a + [s - a[0] - a[1]])

def reg_unit(nu, nv):
    def fn(V):
        B = bs()
        a = new_approx(V, [[0.0, 0.0, 0.0]])
        if V.symbolic: bas = [BasisStub(V, nu, 'u'), BasisStub(V, nv, 'v')]
        else: bas = [B.SplineBasis.make_equidistant(2, n) for n in (nu, nv)]
        a._u_basis, a._v_basis = bas
        need(a, '_build_sparse_reg_matrix')
        D = dense(a._build_sparse_reg_matrix())
        V.cover('in')
        N = (nu + 2) * (nv + 2)
        V.ensure('shape', tuple(D.shape) == (N, N))
        for i in range(N):
            V.eq('vanishes on constants', sum((D[i, j] for j in range(1, N)), D[i, 0]), 0, tol=1e-10)
            for j in range(i): V.eq('symmetric', D[i, j], D[j, i])
        x = [V.real('x%d' % i) for i in range(N)]
        q = 0
        for i in range(N):
            for j in range(N): q = q + x[i] * D[i, j] * x[j]
        if not V.symbolic:
            V.ensure('positive semidefinite', float(q) >= -1e-9 * (1 + sum(y * y for y in x))); return
        # x'Ax is a sum of squares: over all cells and quadrature points, with positive weights
        qp, qw = need(a, '_q_points'), need(a, '_q_weights')
        for w in qw: V.ensure('positive weight', w > 0)
        from pyvc import core
        sq = 0
        for iv in range(nv):
            for iu in range(nu):
                for r, wr in zip(qp, qw):
                    tv = bas[1].knots[iv + 2] + (bas[1].knots[iv + 3] - bas[1].knots[iv + 2]) * r
                    bv, dv = bas[1].eval_base_vector(iv, tv), bas[1].eval_diff_base_vector(iv, tv)
                    for s, ws in zip(qp, qw):
                        tu = bas[0].knots[iu + 2] + (bas[0].knots[iu + 3] - bas[0].knots[iu + 2]) * s
                        bu, du = bas[0].eval_base_vector(iu, tu), bas[0].eval_diff_base_vector(iu, tu)
                        X = lambda n, m: x[(iv + n) * (nu + 2) + iu + m]
                        e1 = sum(bv[n] * du[m] * X(n, m) for n in range(3) for m in range(3))
                        e2 = sum(dv[n] * bu[m] * X(n, m) for n in range(3) for m in range(3))
                        sq = sq + core.lift(wr) * ws * (e1 * e1 + e2 * e2)
        jac = 1.0 / nu / nv
        V.eq('quadratic form is the sum of weighted squares', q, sq * jac)
    return fn
for nu, nv in ((1, 1), (2, 1), (1, 2)):
    UNITS.append(Unit('regularization matrix %dx%d intervals' % (nu, nv), reg_unit(nu, nv), [T + 'SurfaceApprox._build_sparse_reg_matrix', T + 'SurfaceApprox._basis_in_q_points'], MODS, covers=['in'], extra=EXTRA, assumes=[ASS],
                      unbounded='every degree 2 basis with values summing to one and derivatives to zero, all vectors', samples=4))

# ------------------------------------------------------------------ normal equations of the result
def normal_unit(nu, nv, npts, weights):
    def fn(V):
        B = bs()
        Q = [[0.0, 1.0], [0.0, 0.0], [1.0, 0.0], [1.0, 1.0]] if not V.symbolic else [[0, 1], [0, 0], [1, 0], [1, 1]]
        uv = []
        for i in range(npts):
            u, v = V.real('u%d' % i, lo=0, hi=1), V.real('v%d' % i, lo=0, hi=1)
            if V.symbolic:
                V.assume((u > 0) & (u * nu < 1) & (v > 0) & (v * nv < 1))
            uv.append([u, v])
        n = npts if V.symbolic else max(npts, 12)
        if not V.symbolic:
            uv = [[V.rng.random(), V.rng.random()] for i in range(n)]
        g = [V.real('g%d' % i) for i in range(n)]
        w = [V.pos('w%d' % i) for i in range(n)] if weights else [1] * n
        pts = [uv[i] + [g[i]] + ([w[i]] if weights else []) for i in range(n)]
        if V.symbolic:
            from pyvc.npshim import array
            a = ap().SurfaceApprox(array([[V.ctx and x for x in p] for p in pts]))
            SOLVED.clear()
        else:
            a = new_approx(V, pts)
        a.quad = rows(V, Q)
        reg = 0.25
        s = a.compute_approximation(nuv=(nu, nv), regularization_weight=reg)
        V.cover('in')
        zs = s.z_surface
        poles = [zs.poles[k][j][0] for j in range(nv + 2) for k in range(nu + 2)]
        Amat = dense(a._build_sparse_reg_matrix()); Bm = dense(need(a, '_build_ls_matrix')()[0])
        if V.symbolic:
            c, b, x = SOLVED['last']
            V.eq('the solution is the pole vector', poles, list(x))
            # rows of the solved system: B'W(Bz - g) + lambda A z
            lam = None
            for k in range(len(poles)):
                rhs = sum((Bm[i, k] * w[i] * g[i] for i in range(1, n)), Bm[0, k] * w[0] * g[0])
                V.eq('right hand side: heights with their weights', b[k], rhs)
                for l in range(k, len(poles)):
                    gram = sum((Bm[i, k] * w[i] * Bm[i, l] for i in range(1, n)), Bm[0, k] * w[0] * Bm[0, l])
                    rest = c.d[k, l] - gram
                    # rest = lam * A[k, l]; cross products avoid the unknown positive factor
                    if lam is None:
                        if not (isinstance(Amat[k, l], (int, float)) and Amat[k, l] == 0): lam = (rest, Amat[k, l])
                    else: V.eq('matrix: weighted Gram matrix plus a multiple of the regularization', rest * lam[1], lam[0] * Amat[k, l])
            return
        import numpy as np
        W = np.diag(np.array(w, dtype=float)); z = np.array(poles)
        res = Bm.T.dot(W).dot(Bm.dot(z) - np.array(g))
        Az = Amat.dot(z)
        # res = -lam Az, lam = reg * |B'WB| / |A|
        nb = np.linalg.norm(Bm.T.dot(W).dot(Bm), 2); na = np.max(np.abs(np.linalg.eigvalsh(Amat)))
        lam = reg * nb / na
        V.ensure('normal equations', float(np.max(np.abs(res + lam * Az))) <= 0.05 * (1e-6 + lam * float(np.max(np.abs(Az)))) + 1e-6)
        V.eq('spline at the data point', [float(zs.eval(*p)[0]) for p in uv], list(Bm.dot(z)), tol=1e-6)
    return fn
for nu, nv, n, w in ((1, 1, 1, False), (1, 1, 2, True), (2, 1, 1, True)):
    UNITS.append(Unit('normal equations %dx%d intervals%s' % (nu, nv, ', weights' if w else ''), normal_unit(nu, nv, n, w), [T + 'SurfaceApprox.compute_approximation', T + 'SurfaceApprox._compute_uv_points', T + 'SurfaceApprox._build_ls_matrix'], MODS, covers=['in'], extra=EXTRA,
                      assumes=[ASS, 'spsolve returns a solution of the given system, svds and eigsh return positive norms (contracts of the dependency)'], unbounded='data points, heights, weights', samples=8))

# ------------------------------------------------------------------ bounding rectangle
HALF = __import__('math').pi / 2
class Trig:
    """numpy with exact rotations: one symbolic angle, cos(a -+ pi/2) = +-sin a"""
    def __init__(self, np_, nang):
        self._np, self._n, self._ang = np_, nang, {}
    def __getattr__(self, k): return getattr(self._np, k)
    def arctan2(self, y, x):
        from pyvc import core, npshim
        return npshim.array([core.SReal(core.CTX.fresh_real('ang')) for _ in range(len(y))])
    def unique(self, a):
        from pyvc import npshim, core
        ctx = core.CTX
        self._ang = {}
        out = []
        for i in range(self._n):
            t = core.SReal(ctx.fresh_real('theta'))
            c, s = core.SReal(ctx.fresh_real('c')), core.SReal(ctx.fresh_real('s'))
            ctx.add((c * c + s * s == 1).t)
            out.append(t); self._ang[str(t.t)] = (t, c, s)
        return npshim.array(out)
    def _cs(self, x, which):
        import z3
        from pyvc import core
        if not core.is_sym(x): raise core.Unsupported('cos of a number')
        for t, c, s in self._ang.values():
            d = z3.simplify(x.t - t.t)
            if z3.is_rational_value(d):
                v = d.numerator_as_long() / d.denominator_as_long()
                k = v / HALF
                if abs(k - round(k)) < 1e-12:
                    k = round(k) % 4       # angle + k pi/2
                    C, S = [(c, s), (-s, c), (-c, -s), (s, -c)][k]
                    return C if which == 'c' else S
        raise core.Unsupported('cos of an unknown angle')
    def cos(self, x): return self._cs(x, 'c')
    def sin(self, x): return self._cs(x, 's')
    pi = HALF * 2

def rect_unit(n, nang):
    def patch(mods):
        mods[AP].np = Trig(mods[AP].np, nang)
    def fn(V):
        P = [[V.real('x%d' % i), V.real('y%d' % i)] for i in range(n)]
        hull = rows(V, P + [P[0]])
        if not V.symbolic:
            hull = ap().convex_hull_2d(rows(V, P))
        q = ap().min_bounding_rect(hull)
        V.cover('in')
        V.ensure('four corners', V.shape(q) == (4, 2))
        e1, e2 = [q[2][k] - q[1][k] for k in (0, 1)], [q[0][k] - q[1][k] for k in (0, 1)]
        V.eq('parallelogram', [q[3][k] - q[0][k] for k in (0, 1)], e1, tol=1e-6)
        V.eq('right angle', e1[0] * e2[0] + e1[1] * e2[1], 0, tol=1e-6)
        for p in P:
            for e in (e1, e2):
                t = (p[0] - q[1][0]) * e[0] + (p[1] - q[1][1]) * e[1]
                n2 = e[0] * e[0] + e[1] * e[1]
                V.ensure('point within the rectangle', V.leq(0, t, 1e-6)); V.ensure('point within the rectangle', V.leq(t, n2, 1e-6))
    return fn, patch
f, p = rect_unit(3, 1)
RECT = Unit('bounding rectangle contains the points', f, [T + 'min_bounding_rect', T + 'convex_hull_2d'], MODS, covers=['in'], patch=p, unbounded='points, rotation angle', samples=120, deadline=100,
            assumes=['cos and sin are the coordinates of a unit vector, cos(a - pi/2) = sin a (contract of the dependency)'])
UNITS.append(RECT)

BOUND = 'random lines/patches; 3..80 random points (also lattice, collinear, duplicate, shifted by up to 1e6), nuv up to 6x6, random weights'
BSECS = 7; SHARDS = 4
def bounded(H):
    import numpy as np
    B = bs(); A = ap()
    k = 0
    while H.time_left():
        k += 1
        r = H.rng(k); rn = np.random.RandomState(r.randrange(1 << 30))
        # --- point sets
        m = r.randint(3, 80); sc = r.choice([1.0, 1e-3, 1e3]); sh = r.choice([0.0, 0.0, 1e3 * sc, 1e6 * sc]) * rn.uniform(-1, 1, 2)
        kind = r.choice(['random', 'lattice', 'vertical', 'line', 'circle', 'dup'])
        P = rn.uniform(-1, 1, (m, 2))
        if kind == 'lattice': P = np.round(P * 3) / 3
        elif kind == 'vertical': P[:, 0] = P[0, 0]
        elif kind == 'line': P[:, 1] = 2 * P[:, 0] + 1
        elif kind == 'circle': t = rn.uniform(0, 6.28, m); P = np.stack([np.cos(t), np.sin(t)], axis=1)
        elif kind == 'dup': P = np.repeat(P[:max(3, m // 3)], 3, axis=0)
        P = P * sc + sh; m = len(P)
        H.case(dict(kind=kind, n=m, scale=sc, case=k), (kind, m, k))
        P0 = P.copy()
        hull = A.convex_hull_2d(P)
        H.close(P, P0, 'points changed by the hull')
        span = float(np.max(np.ptp(P, axis=0))); tol = 1e-9 * (span + float(np.max(np.abs(P))))
        H.check(all(any(np.array_equal(h, p) for p in P) for h in hull), 'hull points are data points', '')
        q = A.min_bounding_rect(hull)
        e1, e2 = q[2] - q[1], q[0] - q[1]
        H.close(q[3], q[0] + e1, 'rectangle corners', '', 1e-6)
        for e in (e1, e2):
            n = np.linalg.norm(e)
            if n > tol:
                t = (P - q[1]).dot(e / n); H.check(t.min() >= -tol and t.max() <= n + tol, 'rectangle contains the points', '%s %s' % (t.min(), t.max() - n))
        o = np.array([-e1[1], e1[0]]) if np.linalg.norm(e1) > np.linalg.norm(e2) else np.array([e2[1], -e2[0]])
        if np.linalg.norm(o) > tol:
            o = o / np.linalg.norm(o); t = (P - q[1]).dot(o); w = min(np.linalg.norm(e1), np.linalg.norm(e2))
            H.check(np.ptp(t) <= w + tol, 'rectangle contains the points (width)', '%s %s' % (np.ptp(t), w))
        if kind in ('vertical', 'line') : continue
        # --- approximation
        z = rn.uniform(-3, 3, m); wt = rn.uniform(0.1, 3, m) if r.random() < .5 else None
        data = np.column_stack([P, z] + ([wt] if wt is not None else []))
        data0 = data.copy()
        a = A.SurfaceApprox(data)
        nuv = (r.randint(1, 6), r.randint(1, 6))
        own = r.random() < .5
        if own:
            while True:
                c = P.mean(0); E = rn.uniform(-1, 1, (2, 2)) * span
                if abs(np.linalg.det(E)) > 0.05 * span ** 2: break
            quad = np.array([c - E[0] / 2 + E[1] / 2, c - E[0] / 2 - E[1] / 2, c + E[0] / 2 - E[1] / 2, c + E[0] / 2 + E[1] / 2])
            a.set_quad(quad)
        else:
            quad = a.compute_default_quad()
            if min(np.linalg.norm(quad[2] - quad[1]), np.linalg.norm(quad[0] - quad[1])) < 1e-6 * span: continue
            if np.max(np.abs(P)) > 1e4 * min(np.linalg.norm(quad[2] - quad[1]), np.linalg.norm(quad[0] - quad[1])): pass
        T = np.column_stack([quad[2] - quad[1], quad[0] - quad[1]])
        uv = np.linalg.solve(T, (P - quad[1]).T).T
        ins = np.all((uv >= 0) & (uv <= 1), axis=1); near = np.any((np.abs(uv) < 1e-5) | (np.abs(uv - 1) < 1e-5), axis=1)
        if own and np.any(near): continue
        sel = ins if own else np.ones(m, bool)
        if sel.sum() < 3: continue
        reg = r.choice([0.001, 0.1, 1.0])
        s = a.compute_approximation(nuv=nuv, regularization_weight=reg)
        H.close(data, data0, 'input changed')
        H.check(len(a._z_quad_points) == sel.sum(), 'every point within the quadrilateral is used', '%d of %d (%s)' % (len(a._z_quad_points), sel.sum(), 'own' if own else 'default quad'))
        H.close(a._uv_quad_points, np.clip(uv[sel], 0, 1), 'parameters', '', 1e-5); H.close(a._z_quad_points, z[sel], 'heights')
        if wt is not None: H.close(a._w_quad_points, wt[sel], 'weights')
        uvs = np.asarray(a._uv_quad_points)
        bu, bv = [B.SplineBasis.make_equidistant(2, n) for n in nuv]
        D = np.array([np.kron([float(x) for x in spl.reference(list(bv.knots), 2, q[1])], [float(x) for x in spl.reference(list(bu.knots), 2, q[0])]) for q in uvs])
        Bm = a._build_ls_matrix()[0].toarray()
        H.close(Bm, D, 'least-squares matrix', '', 1e-9)
        Am = a._build_sparse_reg_matrix().toarray()
        H.close(Am, Am.T, 'regularization symmetric'); H.close(Am.dot(np.ones(len(Am))), np.zeros(len(Am)), 'regularization vanishes on constants', '', 1e-9)
        ev = np.linalg.eigvalsh((Am + Am.T) / 2); H.check(ev[0] >= -1e-9 * ev[-1], 'regularization positive semidefinite', str(ev[0]))
        W = wt[sel] if wt is not None else np.ones(sel.sum())
        G = D.T.dot(W[:, None] * D)
        nb = np.linalg.norm(G, 2); lam = reg * nb / ev[-1]
        zp = s.z_surface.poles[:, :, 0].T.ravel()
        g = D.T.dot(W * z[sel])
        # normal equations; the norms are computed by an iterative method, find the factor by projection and bound it
        res = g - G.dot(zp); Az = Am.dot(zp)
        den = float(Az.dot(Az))
        if den > 1e-12 * max(1.0, float(zp.dot(zp))):
            l = float(res.dot(Az)) / den
            H.check(np.max(np.abs(res - l * Az)) <= 1e-6 * (np.max(np.abs(g)) + 1e-9) + 1e-7, 'normal equations', str(np.max(np.abs(res - l * Az))))
            H.check(0.7 * lam <= l <= 1.3 * lam, 'regularization factor', '%s %s' % (l, lam))
        H.close(s.eval_array(uvs)[:, 2], D.dot(zp), 'surface at the data points', '', 1e-7)
        H.close(s.uv_to_xy(uvs), P[sel], 'plane coordinates of the data points', '', 1e-5 if own else 1e-4)
        # constructors
        o = r.choice([0.0, 0.1, 1.0, r.uniform(0, 2)]); X = rn.uniform(-5, 5, (4, 3)); form = r.random()
        if form < .3: X = np.round(X).astype(int)
        arg = X if r.random() < .5 else [tuple(x) for x in X.tolist()]
        X0 = np.array(X, dtype=float)
        f = A.bilinear_surface(arg, o); pl = A.plane_surface(arg[:3], o); ln = A.line(arg[:2], o)
        H.close(np.array(arg, dtype=float), X0, 'argument changed')
        for _ in range(4):
            u, v = rn.uniform(-o, 1 + o, 2)
            H.close(f.eval(u, v), (1 - u) * (1 - v) * X0[0] + u * (1 - v) * X0[1] + u * v * X0[2] + (1 - u) * v * X0[3], 'bilinear patch', '', 1e-8)
            H.close(pl.eval(u, v), X0[0] + u * (X0[1] - X0[0]) + v * (X0[2] - X0[0]), 'plane', '', 1e-8)
            H.close(ln.eval(u), X0[0] + u * (X0[1] - X0[0]), 'line', '', 1e-8)
