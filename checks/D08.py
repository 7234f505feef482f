import importlib
from fractions import Fraction
from pyvc.unit import Unit
PL = 'bgem.polygons.polygons'; PT = 'bgem.polygons.point'; SG = 'bgem.polygons.segment'
LEVEL = 'proof'
NOTE = 'Proof for all segments and locations (real arithmetic): seg_intersection reports exactly the proper crossings (tolerance 1e-10 in the parameters), with equal locations on both, none for parallel segments; seg_project_point gives the parameter of the closest location within the segment; Segment.parametric and vector agree with the end points. Assumes numpy.linalg.solve solves the 2x2 system exactly and reports singular ones. Bounded runs on the real numpy against exact rational arithmetic.'
EPS = 1e-10
SL = Fraction(1, 10 ** 4)
UNITS = []
def mk(V, name, xy=None):
    """a real Segment between two real Points with any coordinates"""
    from pyvc import npshim
    import numpy as np
    P = importlib.import_module(PT).Point; S = importlib.import_module(SG).Segment
    c = [V.real('%s%s' % (name, k)) for k in ('ax', 'ay', 'bx', 'by')]
    arr = npshim.array if V.symbolic else (lambda x: np.array(x, dtype=float))
    a, b = P(arr(c[:2]), None), P(arr(c[2:]), None)
    a.id, b.id = 0, 1
    s = S((a, b)); s.id = 0
    return s, c

def arr(V, xs):
    from pyvc import npshim
    import numpy as np
    return npshim.array(xs) if V.symbolic else np.array(xs, dtype=float)

def cross(a, b): return a[0] * b[1] - a[1] * b[0]

def isec(V):
    from pyvc import core
    pl = importlib.import_module(PL).PolygonDecomposition
    s, c = mk(V, 's')
    q = [V.real('q%s' % k) for k in ('ax', 'ay', 'bx', 'by')]
    d = (c[2] - c[0], c[3] - c[1]); e = (q[2] - q[0], q[3] - q[1])
    D = cross(d, e)
    if not V.symbolic:
        V.assume(D == 0 or abs(D) > 1e-6 * ((d[0] ** 2 + d[1] ** 2) * (e[0] ** 2 + e[1] ** 2)) ** .5)
    r = pl.seg_intersection(s, arr(V, q[:2]), arr(V, q[2:]))
    V.ensure('two parameters or none', len(r) == 2 and (r[0] is None) == (r[1] is None))
    t0, t1 = r
    w = (q[0] - c[0], q[1] - c[1])
    if bool(D == 0):
        V.cover('parallel'); V.ensure('parallel segments report none', t0 is None)
        return
    # exact parameters by Cramer's rule
    n0, n1 = cross(w, e), cross(w, d)
    p0, p1 = n0 / D, n1 / D
    # the code's upper limit 1 - 1e-10 is a rounded machine number: its rounding (< 2e-16) is left open
    eps = core.lift(EPS) if V.symbolic else EPS
    lo, hi = eps * (1 - SL), eps * (1 + SL)
    inside = core.sand(p0 > hi, p0 < 1 - hi, p1 > hi, p1 < 1 - hi)
    maybe = core.sand(p0 > lo, p0 < 1 - lo, p1 > lo, p1 < 1 - lo)
    if not V.symbolic:
        V.assume(min(abs(p0 - x) for x in (0, 1)) > 1e-8 and min(abs(p1 - x) for x in (0, 1)) > 1e-8)
    if t0 is None:
        V.cover('none'); V.ensure('a proper crossing is reported', core.snot(inside) if V.symbolic else not inside)
    else:
        V.cover('crossing')
        V.ensure('only proper crossings are reported', maybe)
        V.eq('parameter on the segment', t0, p0, tol=1e-6); V.eq('parameter on the line', t1, p1, tol=1e-6)
        V.eq('same location on both', [c[0] + t0 * d[0], c[1] + t0 * d[1]], [q[0] + t1 * e[0], q[1] + t1 * e[1]], tol=1e-6)
UNITS.append(Unit('seg_intersection', isec, 'polygons.py:PolygonDecomposition.seg_intersection', [PL, PT, SG], covers=['parallel', 'none', 'crossing'], samples=1500, unbounded='all coordinates', allshape=True, deadline=120))

def proj(V):
    from pyvc import core
    pl = importlib.import_module(PL).PolygonDecomposition
    v = [V.real('vx'), V.real('vy')]; o = [V.real('ox'), V.real('oy')]; p = [V.real('px'), V.real('py')]
    L2 = v[0] * v[0] + v[1] * v[1]
    V.assume(L2 > 0 if V.symbolic else L2 > 1e-14)
    t = pl.seg_project_point(arr(V, v), arr(V, o), arr(V, p))
    V.ensure('within the segment', V.leq(0, t)); V.ensure('within the segment', V.leq(t, 1))
    s = V.real('s', lo=0, hi=1)
    V.cover('in')
    # (distance^2 at s) - (distance^2 at t) = (s - t) * (|v|^2 (s + t) - 2 (p - o).v)
    dv = (p[0] - o[0]) * v[0] + (p[1] - o[1]) * v[1]
    ds = lambda u: (o[0] + u * v[0] - p[0]) ** 2 + (o[1] + u * v[1] - p[1]) ** 2
    V.ensure('no location of the segment is closer', V.leq(ds(t), ds(s)))
UNITS.append(Unit('seg_project_point', proj, 'polygons.py:PolygonDecomposition.seg_project_point', [PL, PT, SG], covers=['in'], samples=500, unbounded='all coordinates', allshape=True, deadline=120))

def param(V):
    s, c = mk(V, 's')
    t = V.real('t')
    V.eq('vector', list(s.vector), [c[2] - c[0], c[3] - c[1]])
    V.eq('location', list(s.parametric(t)), [c[0] + t * (c[2] - c[0]), c[1] + t * (c[3] - c[1])])
    v = s.vector; v *= -1.0
    V.eq('caller cannot change the vector', list(s.vector), [c[2] - c[0], c[3] - c[1]])
    # moving an end point
    m = [V.real('mx'), V.real('my')]
    k = V.choice('end', 2)
    s.vtxs[k].segment = (s, k); s.next = [(s, 1), (s, 0)]     # lonely segment
    s.vtxs[k].move(arr(V, m))
    for i in (0, 1): c[2 * k + i] = c[2 * k + i] + m[i]
    V.eq('vector after a move', list(s.vector), [c[2] - c[0], c[3] - c[1]])
    V.eq('moved point', list(s.vtxs[k].xy), c[2 * k:2 * k + 2])
UNITS.append(Unit('Segment.vector, parametric, Point.move', param, ['segment.py:Segment.vector', 'segment.py:Segment.parametric', 'segment.py:Segment.update_vector', 'point.py:Point.move'], [PL, PT, SG], unbounded='all coordinates', allshape=True))

BOUND = 'random segment pairs and points with integer, dyadic and random coordinates of sizes 1e-6..1e6, near-parallel, touching and collinear configurations'
BSECS = 5
SHARDS = 3
def bounded(H):
    import itertools, numpy as np
    from fractions import Fraction as F
    pl = importlib.import_module(PL).PolygonDecomposition
    P = importlib.import_module(PT).Point; S = importlib.import_module(SG).Segment
    for it in itertools.count():
        if not H.time_left(): break
        r = H.rng(it)
        sc = 10.0 ** r.choice([-6, -3, 0, 0, 0, 3, 6])
        g = r.choice([lambda: sc * r.randint(-3, 3), lambda: sc * r.uniform(-1, 1), lambda: sc * r.randint(-8, 8) / 4])
        a, b, p, q = [[g(), g()] for _ in range(4)]
        if a == b: continue
        m = r.random()
        if m < .15: q = [p[0] + (b[0] - a[0]) * r.choice([1, -1, 2, .5]), p[1] + (b[1] - a[1]) * r.choice([1, -1, 2, .5])]
        elif m < .3: p = r.choice([a, b])
        elif m < .4:
            t = r.random(); p = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
        if p == q: continue
        pa, pb = P(a, None), P(b, None); pa.id, pb.id = 0, 1
        s = S((pa, pb))
        H.case(dict(a=a, b=b, p=p, q=q), (it,))
        A, B, X, Y = [[F(x) for x in z] for z in (a, b, p, q)]
        d = (B[0] - A[0], B[1] - A[1]); e = (Y[0] - X[0], Y[1] - X[1]); w = (X[0] - A[0], X[1] - A[1])
        D = d[0] * e[1] - d[1] * e[0]
        p_, q_ = np.array(p, dtype=float), np.array(q, dtype=float)
        t0, t1 = pl.seg_intersection(s, p_, q_)
        H.check(p_.tolist() == [float(x) for x in p] and q_.tolist() == [float(x) for x in q], 'arguments changed', '')
        H.check((t0 is None) == (t1 is None), 'two parameters or none', '')
        rel = abs(float(D)) / (float(d[0] ** 2 + d[1] ** 2) * float(e[0] ** 2 + e[1] ** 2)) ** .5
        if D == 0 and rel == 0 and t0 is not None:
            # singular up to rounding of the inputs' products only: accept nothing
            H.check(False, 'parallel segments report none', str((t0, t1)))
        if rel > 1e-6:
            c0 = (w[0] * e[1] - w[1] * e[0]) / D; c1 = (w[0] * d[1] - w[1] * d[0]) / D
            lim = 1e-9 / rel
            mg = min(abs(float(c) - z) for c in (c0, c1) for z in (0, 1))
            if mg > lim + 1e-9:
                ins = 0 < c0 < 1 and 0 < c1 < 1
                H.check((t0 is not None) == ins, 'proper crossing reported exactly', '%s %s: %s' % (float(c0), float(c1), t0))
                if ins: H.close([t0, t1], [float(c0), float(c1)], 'parameters', tol=1e-8 / rel)
        # crossings near the ends: axis parallel unit segments, where the parameters are the coordinates
        x, y = [r.choice([0.0, 5e-11, 2e-10, -5e-11, -1e-9, 0.5, 1e-9, -0.5]) for _ in range(2)]
        if r.random() < .5: x = 1 - x
        if r.random() < .5: y = 1 - y
        pa, pb = P([0., 0.], None), P([1., 0.], None); pa.id, pb.id = 0, 1
        if r.random() < .5: u = pl.seg_intersection(S((pa, pb)), np.array([x, -y]), np.array([x, 1 - y]))
        else:
            u = pl.seg_intersection(S((pb, pa)), np.array([1 - x, -y]), np.array([1 - x, 1 - y]))
        ins = all(1.5e-10 < z < 1 - 1.5e-10 for z in (x, y)); out = any(z < .7e-10 or z > 1 - .7e-10 for z in (x, y))
        H.check(ins or u[0] is None, 'crossing at an end is not proper', '%r %r: %s' % (x, y, u))
        H.check(out or u[0] is not None, 'crossing beyond the tolerance is proper', '%r %r: %s' % (x, y, u))
        t = pl.seg_project_point(s.vector, s.vtxs[0].xy, p_)
        L2 = d[0] ** 2 + d[1] ** 2
        ex = min(max((w[0] * d[0] + w[1] * d[1]) / L2, F(0)), F(1))
        H.check(0 <= t <= 1, 'projection inside', str(t))
        H.close(t, float(ex), 'projection', tol=1e-9)
        H.close(s.parametric(t), [float(A[i] + ex * d[i]) for i in (0, 1)], 'location', tol=1e-8 * max(1, sc))
