from pyvc.unit import Unit, need
from checks import spl
from checks.spl import bs, BS
LEVEL = 'proof'
NOTE = ("Proof for every parallelogram (three or four vertices), every invertible plane transform, every z transform and every height surface "
        "(heights are an uninterpreted function of the parameters; contract of Surface from B05): mappings inverse, evaluators agree, prescribed transform about the "
        "untransformed centre, replacement of transforms, independence of copies, bounding box. The equivalent full surface is proved at fixed degrees for all poles. "
        "General (non-parallelogram) quadrilaterals: corners and evaluators only, their inverse is not implemented by the code. Reals for floats.")
T = 'bspline.py:Z_Surface.'
UNITS = []
PRELOAD = ['bgem.bspline.bspline']

class ZStub:
    """contract of a polynomial 1-d Surface on [0,1]^2: eval_array is eval at each row, a new array; heights in [zlo, zhi]"""
    dim = 1; rational = False
    def __init__(self, V, tag='z'):
        self.V, self.tag = V, tag
        self.u_basis = self.v_basis = None
        self.lo, self.hi = V.real(tag + '_lo'), V.real(tag + '_hi')
        V.assume(self.lo <= self.hi)
    def at(self, u, v):
        from pyvc import core
        r = core.uf(self.tag, u, v)
        return r
    def eval(self, u, v):
        import numpy as np
        from pyvc.npshim import array
        return array([self.at(u, v)])
    def eval_array(self, uv):
        from pyvc.npshim import array
        return array([[self.at(p[0], p[1])] for p in uv])
    def aabb(self):
        from pyvc.npshim import array
        return array([[self.lo], [self.hi]])

def zsurf(V, tag='z'):
    if V.symbolic: return ZStub(V, tag)
    B = bs()
    import numpy as np
    r = V.rng
    q = [r.randint(1, 3), r.randint(1, 3)]; n = [r.randint(1, 3), r.randint(1, 3)]
    bas = [B.SplineBasis.make_equidistant(q[k], n[k]) for k in (0, 1)]
    P = np.array([[[r.uniform(-5, 5)] for _ in range(bas[1].size)] for _ in range(bas[0].size)])
    return B.Surface(bas, P)

def rows(V, m):
    from pyvc.npshim import array
    import numpy as np
    return array(m) if V.symbolic else np.array(m, dtype=float)

def quad(V, four):
    q = [[V.real('q%d%d' % (i, j)) for j in (0, 1)] for i in range(3)]
    ux, uy = q[2][0] - q[1][0], q[2][1] - q[1][1]; vx, vy = q[0][0] - q[1][0], q[0][1] - q[1][1]
    d = ux * vy - uy * vx
    V.assume(d != 0 if V.symbolic else abs(d) > 1e-3)
    full = q + [[q[0][j] + q[2][j] - q[1][j] for j in (0, 1)]]
    return (full if four else q), full, d

def matrix(V, tag=''):
    A = [[V.real('%sa%d%d' % (tag, i, j)) for j in range(3)] for i in range(2)]
    d = A[0][0] * A[1][1] - A[0][1] * A[1][0]
    V.assume(d != 0 if V.symbolic else abs(d) > 1e-3)
    return A, d

def det_lemma(V, d1, d2, full, A):
    """det(A B) = det(A) det(B) != 0 (ghost lemma used by the inversion)"""
    if not V.symbolic: return
    from pyvc import npshim
    B = [[full[2][i] - full[1][i], full[0][i] - full[1][i]] for i in (0, 1)]
    M = npshim.dot(npshim.array([[A[0][0], A[0][1]], [A[1][0], A[1][1]]]), npshim.array(B))
    det = npshim.det(M)
    a, b = V.fresh('d'), V.fresh('d')
    V.lemma('lemma: product of non-zero determinants', [a != 0, b != 0], a * b != 0)
    V.eq('lemma: determinant of the product', det, d1 * d2)
    V.ctx.add((d1 * d2 != 0).t)
    V.ensure('lemma: transformed mapping is invertible', det != 0)
    # the code computes det of la.inv on its own product expression
    V.ctx.add((det != 0).t)

def evaluators(V, s, zs, u, v, want, tag):
    """all evaluators of the surface agree with want = (x, y, z)"""
    V.eq(tag + ': eval', V.flatten(list(s.eval(u, v))), want) if not V.symbolic else _sym_eval(V, s, u, v, want, tag)
    uv = rows(V, [[u, v], [0.5, 0.25]])
    V.eq(tag + ': eval_array', list(s.eval_array(uv)[0]), want)
    V.eq(tag + ': z_eval_array', s.z_eval_array(uv)[0], want[2])
    xy = s.uv_to_xy(uv)
    V.eq(tag + ': uv_to_xy', list(xy[0]), want[:2])
    back = s.xy_to_uv(xy)
    V.eq(tag + ': xy_to_uv inverts uv_to_xy', list(back[0]), [u, v])
    V.eq(tag + ': array rows are independent', list(back[1]), [0.5, 0.25])
    if V.symbolic:
        # heights by plane coordinates: the height is taken at xy_to_uv(xy), which equals (u, v) (just shown)
        p = V.fresh('x'), V.fresh('y')
        a = s.xy_to_uv(rows(V, [list(p)]))
        V.eq(tag + ': uv_to_xy inverts xy_to_uv', list(s.uv_to_xy(a)[0]), list(p))
        h = s.z_eval_array(a)[0]
        V.eq(tag + ': z_eval_xy_array is z_eval_array at xy_to_uv', s.z_eval_xy_array(rows(V, [list(p)]))[0], h)
        V.eq(tag + ': eval_xy_array is eval_array at xy_to_uv', list(s.eval_xy_array(rows(V, [list(p)]))[0]), list(s.eval_array(a)[0]))
    else:
        V.eq(tag + ': eval_xy_array', list(s.eval_xy_array(xy)[0]), want)
        V.eq(tag + ': z_eval_xy_array', s.z_eval_xy_array(xy)[0], want[2])
        V.eq(tag + ': uv_to_xy inverts xy_to_uv', V.flatten(s.uv_to_xy(s.xy_to_uv(xy))), V.flatten(xy))

def _sym_eval(V, s, u, v, want, tag):
    e = s.eval(u, v)
    V.eq(tag + ': eval', V.flatten(list(e)), want)

def height(V, zs, u, v):
    return zs.at(u, v) if V.symbolic else float(zs.eval(u, v)[0])

def base_xy(full, u, v):
    return [full[1][k] + u * (full[2][k] - full[1][k]) + v * (full[0][k] - full[1][k]) for k in (0, 1)]

def uv_in(V):
    if V.symbolic: return V.real('u'), V.real('v')
    return V.real('u', lo=0, hi=1), V.real('v', lo=0, hi=1)

CORN = [[0, 1], [0, 0], [1, 0], [1, 1]]
def plain(four):
    def fn(V):
        Q, full, d = quad(V, four)
        zs = zsurf(V)
        s = bs().Z_Surface(Q, zs)
        u, v = uv_in(V)
        V.cover('in')
        z = height(V, zs, u, v)
        evaluators(V, s, zs, u, v, base_xy(full, u, v) + [z], 'untransformed')
        c = s.uv_to_xy(rows(V, CORN))
        V.eq('corners of the unit square map to the quadrilateral', V.flatten(c), V.flatten(full))
        V.eq('quad attribute', V.flatten(s.quad), V.flatten(full))
        V.eq('identity transform reported', V.flatten(s.get_transform()[0]) + V.flatten(s.get_transform()[1]), [1, 0, 0, 0, 1, 0, 1, 0])
    return fn
for four in (False, True):
    UNITS.append(Unit('mapping and evaluators, %d vertices' % (4 if four else 3), plain(four), [T + '__init__', T + 'eval', T + 'eval_array', T + 'eval_xy_array', T + 'z_eval_array', T + 'z_eval_xy_array', T + '_linear_uv_to_xy', T + '_linear_xy_to_uv', T + '_reset_transform_xy'],
                      BS, covers=['in'], allshape=True, unbounded='quadrilateral, parameters, height surface', samples=60))

def transformed(which, repeated):
    def fn(V):
        Q, full, dq = quad(V, False)
        zs = zsurf(V)
        s = bs().Z_Surface(Q, zs)
        A = Z = None
        zc = height(V, zs, 0.5, 0.5)
        if repeated:
            if 'xy' in which:
                A0, d0 = matrix(V, 'prev_'); det_lemma(V, d0, dq, full, A0)
            else: A0 = None
            s.transform(A0, [V.real('prev_s'), V.real('prev_t')] if 'z' in which else None)
        if 'xy' in which:
            A, d = matrix(V); det_lemma(V, d, dq, full, A)
        if 'z' in which: Z = [V.real('zs'), V.real('zt')]
        s.transform(A, Z)
        u, v = uv_in(V)
        V.cover('in')
        xy = base_xy(full, u, v); c = base_xy(full, 0.5, 0.5) if not V.symbolic else [(full[0][k] + full[2][k]) / 2 for k in (0, 1)]
        tr = lambda p: [A[i][0] * (p[0] - c[0]) + A[i][1] * (p[1] - c[1]) + c[i] + A[i][2] for i in (0, 1)] if A is not None else p
        z = height(V, zs, u, v)
        if Z is not None: z = Z[0] * (z - zc) + zc + Z[1]
        V.eq('transformed quadrilateral', V.flatten(s.quad), V.flatten([tr(q) for q in full]))
        evaluators(V, s, zs, u, v, tr(xy) + [z], 'transformed')
        V.eq('corners of the unit square map to the transformed quadrilateral', V.flatten(s.uv_to_xy(rows(V, CORN))), V.flatten([tr(q) for q in full]))
        gx, gz = s.get_transform()
        V.eq('reported plane transform', V.flatten(gx), V.flatten(A) if A is not None else [1, 0, 0, 0, 1, 0])
        V.eq('reported z transform', V.flatten(gz), Z if Z is not None else [1, 0])
    return fn
for w in (('xy',), ('z',), ('xy', 'z')):
    for rep in (False, True):
        UNITS.append(Unit('transform %s%s' % ('+'.join(w), ' after an earlier one' if rep else ''), transformed(w, rep), [T + 'transform', T + '_reset_transform_xy', T + '_reset_transform_z', T + 'eval', T + 'eval_array', T + 'get_transform', T + 'center'],
                          BS, covers=['in'], allshape=True, unbounded='quadrilateral, transforms, parameters, height surface', samples=60))

def snapshot(s, uv):
    return [list(r) for r in s.eval_array(uv)], [list(r) for r in s.quad], [list(r) for r in s.uv_to_xy(uv)], s.z_eval_array(uv)[0]

def copies(change_copy, pre):
    def fn(V):
        Q, full, dq = quad(V, False)
        zs = zsurf(V)
        s = bs().Z_Surface(Q, zs)
        if pre:
            A0, d0 = matrix(V, 'pre_'); det_lemma(V, d0, dq, full, A0)
            s.transform(A0, [V.real('pre_s'), V.real('pre_t')])
        u, v = uv_in(V)
        uv = rows(V, [[u, v]])
        c = s.get_copy()
        V.cover('in')
        V.ensure('copy is another object', c is not s)
        b = snapshot(s, uv)
        V.eq('copy evaluates identically', V.flatten(list(snapshot(c, uv))), V.flatten(list(b)))
        A, d = matrix(V); det_lemma(V, d, dq, full, A)
        a, o = (c, s) if change_copy else (s, c)
        a.transform(A, [V.real('s'), V.real('t')])
        V.eq('transform of the %s leaves the %s' % (('copy', 'original') if change_copy else ('original', 'copy')), V.flatten(list(snapshot(o, uv))), V.flatten(list(b)))
        V.eq('inverse mapping of the other one', V.flatten(o.xy_to_uv(o.uv_to_xy(uv))), [u, v])
        tr = lambda p: [A[i][0] * (p[0] - cc[0]) + A[i][1] * (p[1] - cc[1]) + cc[i] + A[i][2] for i in (0, 1)]
        cc = [(full[0][k] + full[2][k]) / 2 for k in (0, 1)]
        V.eq('the transformed one follows its transform', V.flatten(a.uv_to_xy(uv)), tr(base_xy(full, u, v)))
        V.eq('inverse mapping of the transformed one', V.flatten(a.xy_to_uv(a.uv_to_xy(uv))), [u, v])
        e = a.eval_array(uv)[0]
        V.eq('evaluation of the transformed one', [e[0], e[1]], tr(base_xy(full, u, v)))
    return fn
for cc in (False, True):
    for pre in (False, True):
        UNITS.append(Unit('copy%s, then transform the %s' % (' of a transformed surface' if pre else '', 'copy' if cc else 'original'), copies(cc, pre), [T + 'get_copy', T + 'transform', T + 'eval_array'], BS, covers=['in'], allshape=True,
                          unbounded='quadrilateral, transforms, parameters, height surface', samples=40))

def box(which):
    def fn(V):
        Q, full, dq = quad(V, False)
        zs = zsurf(V)
        s = bs().Z_Surface(Q, zs)
        if which:
            A, d = matrix(V); det_lemma(V, d, dq, full, A)
            s.transform(A, [V.real('s'), V.real('t')])
        u, v = V.real('u', lo=0, hi=1), V.real('v', lo=0, hi=1)
        V.cover('in')
        b = s.aabb()
        V.ensure('shape', V.shape(b) == (2, 3))
        p = s.eval_array(rows(V, [[u, v]]))[0]
        if not V.symbolic:
            for k in range(3): V.ensure('point in the box', V.leq(b[0][k], p[k], 1e-8) and V.leq(p[k], b[1][k], 1e-8))
            return
        # vertices in the box; the point is their convex combination
        W = [(1 - u) * v, (1 - u) * (1 - v), u * (1 - v), u * v]
        f = V.fresh('u'), V.fresh('v')
        for w in ((1 - f[0]) * f[1], (1 - f[0]) * (1 - f[1]), f[0] * (1 - f[1]), f[0] * f[1]):
            V.lemma('lemma: weights are not negative', [f[0] >= 0, f[0] <= 1, f[1] >= 0, f[1] <= 1], w >= 0)
        V.eq('weights sum to one', W[0] + W[1] + W[2] + W[3], 1)
        from checks.B05 import positive_lemma
        positive_lemma(V, 4)
        for k in (0, 1):
            V.eq('point is a convex combination of the vertices', p[k], W[0] * s.quad[0][k] + W[1] * s.quad[1][k] + W[2] * s.quad[2][k] + W[3] * s.quad[3][k])
            for q in s.quad:
                V.ensure('vertex in the box', (b[0][k] <= q[k]) & (q[k] <= b[1][k]))
        # z: height h in [lo, hi] (contract), scaled
        h = zs.at(u, v)
        sc, sh = s._z_mat[0], s._z_mat[1]
        V.eq('height of the point', p[2], sc * h + sh)
        from pyvc.core import smin2, smax2
        x, y, g, l1, l2 = V.fresh('h'), V.fresh('s'), V.fresh('t'), V.fresh('lo'), V.fresh('hi')
        V.lemma('lemma: scaled interval', [l1 <= x, x <= l2, y >= 0], (y * l1 + g <= y * x + g) & (y * x + g <= y * l2 + g))
        V.lemma('lemma: scaled interval, negative scale', [l1 <= x, x <= l2, y <= 0], (y * l2 + g <= y * x + g) & (y * x + g <= y * l1 + g))
        V.ensure('scaled bounds in the box', (b[0][2] <= sc * zs.lo + sh) & (b[0][2] <= sc * zs.hi + sh) & (sc * zs.lo + sh <= b[1][2]) & (sc * zs.hi + sh <= b[1][2]))
    return fn
for w in (0, 1):
    UNITS.append(Unit('bounding box%s' % (' after a transform' if w else ''), box(w), [T + 'aabb'], BS, covers=['in'], allshape=True, unbounded='quadrilateral, transforms, parameters, height surface', samples=60,
                      assumes=['height surface lies in its own bounding box (B05)']))

def unit_knots(V, p, n, tag):
    """knots on [0, 1] with arbitrary interior knots (exact rationals in the symbolic run)"""
    if V.symbolic:
        from pyvc import core
        k = [core.lift(0)]
        for i in range(n - 1):
            x = V.real('%sk%d' % (tag, i)); V.assume(x > k[-1]); V.assume(x < 1); k.append(x)
        k.append(core.lift(1))
    else:
        g = [V.pos('%sg%d' % (tag, i)) for i in range(n)]; t = sum(g)
        k = [0.0] + [sum(g[:i + 1]) / t for i in range(n - 1)] + [1.0]
    return [k[0]] * p + k + [k[-1]] * p

def full_surface(q, n, four, tr):
    def fn(V):
        B = bs()
        Q, fullq, dq = quad(V, four)
        kn = [unit_knots(V, q[k], n[k], 'uv'[k]) for k in (0, 1)]
        bas = [B.SplineBasis(q[k], kn[k]) for k in (0, 1)]
        P = [[[V.real('z%d_%d' % (i, j))] for j in range(bas[1].size)] for i in range(bas[0].size)]
        zs = B.Surface(bas, rows(V, P))
        s = B.Z_Surface(Q, zs)
        if tr:
            A, d = matrix(V); det_lemma(V, d, dq, fullq, A)
            s.transform(A, [V.real('s'), V.real('t')])
        f = s.make_full_surface()
        i, j = V.choice('iu', n[0]), V.choice('iv', n[1])
        u = spl.interval_param(V, kn[0], q[0], i, tag='u')
        v = spl.interval_param(V, kn[1], q[1], j, tag='v')
        V.cover('in')
        V.ensure('dimension', f.dim == 3)
        V.eq('full surface equals the z-surface', list(f.eval(u, v)), list(s.eval_array(rows(V, [[u, v]]))[0]))
        V.eq('eval equals eval_array', V.flatten(list(s.eval(u, v))), list(s.eval_array(rows(V, [[u, v]]))[0]))
        V.eq('poles of the height surface untouched', V.flatten(zs.poles), V.flatten(P))
        if tr:
            s2 = s.get_copy(); s2.apply_z_transform()
            V.eq('applied z transform keeps the values', list(s2.eval_array(rows(V, [[u, v]]))[0]), list(s.eval_array(rows(V, [[u, v]]))[0]))
            V.eq('applied z transform works on its own poles', V.flatten(zs.poles), V.flatten(P))
    return fn
for q, n, four, tr in (((1, 1), (1, 1), False, False), ((2, 2), (1, 2), False, True), ((1, 2), (2, 1), False, True), ((2, 1), (1, 1), True, False), ((3, 1), (1, 1), False, True)):
    UNITS.append(Unit('full surface deg %s, %s intervals%s' % (q, n, ', transformed' if tr else ''), full_surface(q, n, four, tr), [T + 'make_full_surface', T + 'apply_z_transform'], BS, covers=['in'], unbounded='poles, quadrilateral, transforms, parameters', samples=30))

def bilinear(V):
    """general quadrilateral: corners and evaluators"""
    Q = [[V.real('q%d%d' % (i, j)) for j in (0, 1)] for i in range(4)]
    if V.symbolic:
        # not taken for a parallelogram
        x = Q[0][0] + Q[2][0] - Q[1][0]
        V.assume(10000 * abs(Q[3][0] - x) > 1 + abs(x))
    else:
        V.assume(abs(Q[3][0] - (Q[0][0] + Q[2][0] - Q[1][0])) > 0.1)
    zs = zsurf(V)
    s = bs().Z_Surface(Q, zs)
    u, v = uv_in(V)
    V.cover('in')
    W = [(1 - u) * v, (1 - u) * (1 - v), u * (1 - v), u * v]
    want = [sum(W[i] * Q[i][k] for i in range(4)) for k in (0, 1)] + [height(V, zs, u, v)]
    uv = rows(V, [[u, v]])
    V.eq('eval', V.flatten(list(s.eval(u, v))), want)
    V.eq('eval_array', list(s.eval_array(uv)[0]), want)
    V.eq('z_eval_array', s.z_eval_array(uv)[0], want[2])
    V.eq('uv_to_xy', list(s.uv_to_xy(uv)[0]), want[:2])
    V.eq('corners', V.flatten(s.uv_to_xy(rows(V, CORN))), V.flatten(Q))
UNITS.append(Unit('general quadrilateral', bilinear, [T + '_bilinear_uv_to_xy', T + '__init__', T + 'eval', T + 'eval_array'], BS, covers=['in'], allshape=True, unbounded='quadrilateral, parameters, height surface', samples=60))

BOUND = 'random z-surfaces of degrees 1..3, up to 5 intervals, sequences of up to 6 transforms, copies and applied z transforms'
BSECS = 6; SHARDS = 4
def bounded(H):
    """random histories of transforms / copies / applications against an independent model"""
    import numpy as np
    B = bs()
    k = 0
    while H.time_left():
        k += 1
        r = H.rng(k); rn = np.random.RandomState(r.randrange(1 << 30))
        q = [r.randint(1, 3), r.randint(1, 3)]; n = [r.randint(1, 5), r.randint(1, 5)]
        bas = [B.SplineBasis.make_equidistant(q[i], n[i]) for i in (0, 1)]
        P = rn.uniform(-5, 5, (bas[0].size, bas[1].size, 1)) * r.choice([1, 1, 100])
        zs = B.Surface(bas, P.copy())
        while True:
            Q = rn.uniform(-10, 10, (3, 2)); e1, e2 = Q[2] - Q[1], Q[0] - Q[1]
            if abs(e1[0] * e2[1] - e1[1] * e2[0]) > 1: break
        Q4 = np.vstack([Q, Q[0] + Q[2] - Q[1]])
        s = B.Z_Surface(Q4 if r.random() < .5 else Q, zs)
        uv = np.vstack([rn.uniform(0, 1, (4, 2)), [[0, 1], [0, 0], [1, 0], [1, 1]], [[0.5, 0.5]]])
        z0 = np.array([B.Surface(bas, P).eval(*p)[0] for p in uv])
        xy0 = Q[1] + uv[:, :1] * e1 + uv[:, 1:] * e2
        # close to a parallelogram
        D = Q4.copy(); D[3] += rn.choice([-1, 1], 2) * abs(Q4[3]).max() * 10 ** rn.uniform(-3.5, -1.5)
        g = B.Z_Surface(D, zs)
        H.close(g.uv_to_xy(uv[4:8]), D, 'corners of a quadrilateral close to a parallelogram', str(D), 1e-7)
        H.close(g.eval_array(uv[4:8]), np.column_stack([D, z0[4:8]]), 'corner values of a quadrilateral close to a parallelogram', str(D), 1e-7)
        for p, w in zip(uv[4:8], D): H.close([float(np.squeeze(x)) for x in g.eval(*p)][:2], w, 'corner of a quadrilateral close to a parallelogram', str(D), 1e-7)
        class M: pass
        m = M(); m.A = np.eye(2); m.b = np.zeros(2); m.sz = 1.0; m.tz = 0.0; m.z = z0
        objs = [(s, m)]
        hist = []
        H.case(dict(degree=q, intervals=n, quad=Q.tolist(), case=k), (tuple(q), tuple(n), k))
        def verify(s, m):
            c = xy0[-1]; zc = m.z[-1]
            xy = (xy0 - c).dot(m.A.T) + c + m.b
            z = m.sz * (m.z - zc) + zc + m.tz
            want = np.column_stack([xy, z]); sc = 1e-7
            H.close(s.eval_array(uv), want, 'eval_array', str(hist), sc)
            H.close(np.array([np.hstack(s.eval(*p)) if False else [float(np.squeeze(x)) for x in s.eval(*p)] for p in uv[:3]]), want[:3], 'eval', str(hist), sc)
            H.close(s.uv_to_xy(uv), xy, 'uv_to_xy', str(hist), sc); H.close(s.xy_to_uv(xy), uv, 'xy_to_uv', str(hist), 1e-5)
            ins = np.clip(s.xy_to_uv(xy), 0, 1)
            H.close(s.z_eval_array(uv), z, 'z_eval_array', str(hist), sc)
            inner = xy[:4]
            H.close(s.eval_xy_array(inner), want[:4], 'eval_xy_array', str(hist), 1e-4); H.close(s.z_eval_xy_array(inner), z[:4], 'z_eval_xy_array', str(hist), 1e-4)
            H.close(s.quad, xy[4:8], 'quad', str(hist), sc)
            H.close(s.center(), want[-1], 'center', str(hist), sc)
            b = s.aabb(); H.check(np.all(b[0] <= want.min(0) + 1e-7) and np.all(want.max(0) <= b[1] + 1e-7), 'aabb', '%s %s' % (b, hist))
            H.close(b[:, :2], [xy[4:8].min(0), xy[4:8].max(0)], 'aabb tight in the plane', str(hist), sc)
            f = s.make_full_surface()
            H.close(f.eval_array(uv), want, 'full surface', str(hist), 1e-6)
        verify(s, m)
        for step in range(r.randint(1, 6)):
            i = r.randrange(len(objs)); s, m = objs[i]
            op = r.random()
            if op < 0.25 and len(objs) < 4:
                m2 = M(); m2.__dict__.update(m.__dict__); objs.append((s.get_copy(), m2)); hist.append(('copy', i))
            elif op < 0.35:
                s.apply_z_transform(); zc = m.z[-1]; m.z = m.sz * (m.z - zc) + zc + m.tz; m.sz, m.tz = 1.0, 0.0; hist.append(('apply', i))
            else:
                A = Z = None
                if r.random() < .75:
                    while True:
                        A = rn.uniform(-2, 2, (2, 3))
                        if abs(np.linalg.det(A[:, :2])) > 0.1: break
                if A is None or r.random() < .6: Z = [r.choice([1.0, -2.0, 0.5, 0.0, rn.uniform(-3, 3)]), rn.uniform(-5, 5)]
                form = r.random() < .3
                A_ = A.tolist() if A is not None and form else A
                s.transform(A_, Z); hist.append(('transform', i, None if A is None else A.tolist(), Z))
                if A is not None: m.A, m.b = A[:, :2], A[:, 2]
                if Z is not None: m.sz, m.tz = Z
            for s, m in objs: verify(s, m)
        H.close(zs.poles, P, 'poles of the shared height surface')
