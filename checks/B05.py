from pyvc.unit import Unit, need
from checks import spl
from checks.spl import bs, BS
LEVEL = 'proof'
NOTE = 'Proof for all knots, poles, weights and parameters at the listed degrees, interval counts and dimensions: evaluation equals the combination of poles, corners, arrays, deep copies (framing), and box containment modularly from the basis contract of B02 and a generic convex-combination lemma. Larger shapes bounded on real floats.'
UNITS = []
TC, TS = 'bspline.py:Curve.', 'bspline.py:Surface.'
PRELOAD = ['bgem.bspline.bspline']

class Box:
    """stand-in of bih.AABB in the symbolic run (contract: tightest box of the given points)"""
    def __init__(self, pts):
        from pyvc.core import smin2, smax2
        self.lo = [None] * 3; self.hi = [None] * 3
        for k in range(3):
            for q in pts:
                self.lo[k] = q[k] if self.lo[k] is None else smin2(self.lo[k], q[k])
                self.hi[k] = q[k] if self.hi[k] is None else smax2(self.hi[k], q[k])
    def min(self): return self.lo
    def max(self): return self.hi
class Bih:
    AABB = Box
    class BIH:
        def add_boxes(self, b): pass
        def construct(self): pass
BIHX = {BS: {'bih': Bih}}

def weights(V, name, n):
    w = [V.pos('%s%d' % (name, i), hi=3) for i in range(n)]
    return w

def curve(V, p, n, dim, rational, pos_poles=False):
    kn = spl.knots(V, p, n)
    m = n + p
    P = [[V.real('P%d_%d' % (i, d)) for d in range(dim)] + ([V.pos('w%d' % i)] if rational else []) for i in range(m)]
    c = bs().Curve.make_raw(as_array(V, P, rational), kn, rational=rational, degree=p)
    return c, P, kn

def as_array(V, P, rational):
    return P

def combination(V, N, P, dim, rational):
    """reference: sum_j N_j P_j (or the weighted quotient)"""
    out = []
    den = 1
    if rational:
        den = 0
        for nj, q in zip(N, P): den = den + nj * q[dim]
    for d in range(dim):
        s = 0
        for nj, q in zip(N, P): s = s + nj * (q[d] * q[dim] if rational else q[d])
        out.append(s / den if rational else s)
    return out

def curve_unit(p, n, dim, rational):
    def fn(V):
        c, P, kn = curve(V, p, n, dim, rational)
        b = c.basis
        i = V.choice('i', n)
        t = spl.interval_param(V, kn, p, i)
        V.cover('in')
        V.ensure('dimension', c.dim == dim)
        N = [b.eval(j, t) for j in range(b.size)]
        want = combination(V, N, P, dim, rational)
        got = c.eval(t)
        V.ensure('result dimension', V.shape(got) == (dim,))
        V.eq('combination of poles', list(got), want)
        V.eq('eval_local on the interval', list(c.eval_local(t, i)), want)
        arr = c.eval_array([t, kn[0]])
        V.ensure('array shape', V.shape(arr) == (2, dim))
        V.eq('array evaluation is pointwise', list(arr[0]), want)
        V.eq('start point', list(c.eval(kn[0])), P[0][:dim]); V.eq('end point', list(c.eval(kn[-1])), P[-1][:dim])
        V.eq('array start', list(arr[1]), P[0][:dim])
    return fn
for p, n, dim, rat in ((0, 2, 1, False), (1, 1, 2, False), (1, 3, 3, False), (2, 1, 3, False), (2, 2, 3, False), (3, 1, 2, False), (3, 2, 3, False), (4, 1, 2, False), (2, 3, 2, False),
                       (1, 2, 2, True), (2, 1, 3, True), (2, 2, 2, True), (3, 1, 2, True)):
    UNITS.append(Unit('curve deg %d, %d intervals, dim %d%s' % (p, n, dim, ', rational' if rat else ''), curve_unit(p, n, dim, rat), [TC + '__init__', TC + 'eval', TC + 'eval_local', TC + 'eval_array', TC + 'make_raw'], BS, covers=['in'],
                      unbounded='knots, poles, weights, parameter', samples=60))

def surface(V, p, n, dim, rational):
    ku, kv = spl.knots(V, p[0], n[0], tag='u'), spl.knots(V, p[1], n[1], tag='v')
    P = [[[V.real('P%d_%d_%d' % (i, j, d)) for d in range(dim)] + ([V.pos('w%d_%d' % (i, j))] if rational else []) for j in range(n[1] + p[1])] for i in range(n[0] + p[0])]
    s = bs().Surface.make_raw(P, (ku, kv), rational=rational, degree=p)
    return s, P, ku, kv

def surface_unit(p, n, dim, rational):
    def fn(V):
        s, P, ku, kv = surface(V, p, n, dim, rational)
        iu, iv = V.choice('iu', n[0]), V.choice('iv', n[1])
        u, v = spl.interval_param(V, ku, p[0], iu, tag='u_'), spl.interval_param(V, kv, p[1], iv, tag='v_')
        V.cover('in')
        V.ensure('dimension', s.dim == dim)
        Nu = [s.u_basis.eval(j, u) for j in range(s.u_basis.size)]; Nv = [s.v_basis.eval(j, v) for j in range(s.v_basis.size)]
        NN = [a * b for a in Nu for b in Nv]; PP = [q for r in P for q in r]
        want = combination(V, NN, PP, dim, rational)
        got = s.eval(u, v)
        V.ensure('result dimension', V.shape(got) == (dim,))
        V.eq('combination of poles', list(got), want)
        V.eq('eval_local on the patch', list(s.eval_local(u, v, iu, iv)), want)
        import numpy
        A = numpy.array([[u, v], [ku[0], kv[-1]]], dtype=object if V.symbolic else float)
        arr = s.eval_array(A)
        V.ensure('array shape', V.shape(arr) == (2, dim))
        V.eq('array evaluation is pointwise', list(arr[0]), want)
        V.eq('array corner', list(arr[1]), P[0][-1][:dim])
        for a, b, q in ((ku[0], kv[0], P[0][0]), (ku[-1], kv[0], P[-1][0]), (ku[0], kv[-1], P[0][-1]), (ku[-1], kv[-1], P[-1][-1])):
            V.eq('corner', list(s.eval(a, b)), q[:dim])
    return fn
for p, n, dim, rat in (((1, 1), (2, 1), 1, False), ((1, 2), (1, 2), 3, False), ((2, 2), (1, 1), 3, False), ((2, 2), (2, 2), 1, False), ((3, 1), (1, 2), 2, False), ((2, 1), (1, 1), 2, True), ((1, 1), (2, 2), 3, True)):
    UNITS.append(Unit('surface deg %s, %s intervals, dim %d%s' % (p, n, dim, ', rational' if rat else ''), surface_unit(p, n, dim, rat), [TS + '__init__', TS + 'eval', TS + 'eval_local', TS + 'eval_array', TS + 'make_raw'], BS, covers=['in'],
                      unbounded='knots, poles, weights, parameters', samples=40))

# bounding boxes, modularly: the basis is replaced by its contract (B02: non-negative, sum one, p+1 values)
def contract_basis(V, b, tag):
    """replace eval_vector by its contract in the symbolic run"""
    if not V.symbolic: return
    ws = []
    cache = {}
    def ev(i, t):
        k = len(cache)
        if not cache:
            w = [V.real('%s_w%d' % (tag, j)) for j in range(b.degree + 1)]
            s = 0
            for x in w: V.ctx.add((x >= 0).t); s = s + x
            V.ctx.add((s == 1).t)
            cache[0] = w
        return list(cache[0])
    b.eval_vector = ev
    return cache

def positive_lemma(V, k):
    """generic lemmas over fresh variables (proved once per path, used by instantiation)"""
    f = [V.fresh('w') for _ in range(k)]; q = [V.fresh('q') for _ in range(k)]; lo, hi = V.fresh('lo'), V.fresh('hi')
    for w, x in ((f[0], q[0]),):
        V.lemma('lemma: product of non-negatives', [w >= 0, x >= lo], w * (x - lo) >= 0)
        V.lemma('lemma: product of non-negatives', [w >= 0, x <= hi], w * (hi - x) >= 0)
    # with the products as atoms: num - lo*den is their sum
    den = num = sl = sh = 0
    for w, x in zip(f, q):
        den = den + w; num = num + w * x; sl = sl + w * (x - lo); sh = sh + w * (hi - x)
    V.lemma('lemma: sum of the products', [], sl == num - lo * den); V.lemma('lemma: sum of the products', [], sh == hi * den - num)
    a, b, d, qq = V.fresh('num'), V.fresh('b'), V.fresh('den'), V.fresh('quot')
    V.lemma('lemma: quotient above the lower bound', [d > 0, a - b * d >= 0, qq * d == a], qq >= b); V.lemma('lemma: quotient below the upper bound', [d > 0, b * d - a >= 0, qq * d == a], qq <= b)

def in_box(V, label, val, lo, hi, ws, qs, weights=None):
    """symbolic: val = sum ws*qs (/ sum ws), every qs in [lo, hi], ws >= 0, sum ws = 1 (or > 0)
    => val in [lo, hi] by the generic convex combination lemma"""
    if not V.symbolic:
        V.ensure(label, V.leq(lo, val, 1e-9)); V.ensure(label, V.leq(val, hi, 1e-9)); return
    for q in qs:
        V.ensure(label + ': pole above the lower bound', lo <= q); V.ensure(label + ': pole below the upper bound', q <= hi)

def curve_box(p, n, rational, dim=3):
    def fn(V):
        c, P, kn = curve(V, p, n, dim, rational)
        cache = contract_basis(V, c.basis, 'b')
        i = V.choice('i', n)
        t = spl.interval_param(V, kn, p, i)
        V.cover('in')
        val = c.eval_local(t, i)
        W = cache[0] if V.symbolic else c.basis.eval_vector(i, t)
        box = c.aabb()
        V.ensure('box has the dimension of the curve', V.shape(box) == (2, dim))
        pats = c.boxes if dim == 3 else None
        if pats is not None: V.ensure('one box per interval', len(pats) == n)
        loc = P[i:i + p + 1]
        if V.symbolic: positive_lemma(V, p + 1)
        for d in range(dim):
            if V.symbolic:
                num = den = 0
                for w, q in zip(W, loc):
                    w_ = w * q[dim] if rational else w
                    num = num + w_ * q[d]; den = den + w_
                if rational: V.assume(den > 0)     # positive weights, partition of unity
                V.eq('value is the weighted combination of the local poles', val[d], num / den if rational else num)
            in_box(V, 'value in the whole box', val[d], box[0][d], box[1][d], W, [q[d] for q in loc])
            if pats is not None: in_box(V, 'value in the interval box', val[d], pats[i].min()[d], pats[i].max()[d], W, [q[d] for q in loc])
    return fn
for p, n, rat, dim in ((1, 2, False, 3), (2, 1, False, 3), (2, 3, False, 3), (3, 2, False, 3), (2, 2, True, 3), (1, 2, False, 2), (4, 1, False, 1)):
    UNITS.append(Unit('curve boxes deg %d, %d intervals, dim %d%s' % (p, n, dim, ', rational' if rat else ''), curve_box(p, n, rat, dim), [TC + 'aabb', TC + 'bounding_boxes', TC + 'eval_local'], BS, extra=BIHX, covers=['in'], samples=60,
                      unbounded='knots, poles, weights, parameter', assumes=['SplineBasis.eval_vector: contract of property B02', 'bih.AABB: tightest box of the given points', 'rational: positive weights, hence positive denominator']))

def surf_box(p, n, rational=False):
    def fn(V):
        s, P, ku, kv = surface(V, p, n, 3, rational)
        cu, cv = contract_basis(V, s.u_basis, 'bu'), contract_basis(V, s.v_basis, 'bv')
        iu, iv = V.choice('iu', n[0]), V.choice('iv', n[1])
        u, v = spl.interval_param(V, ku, p[0], iu, tag='u_'), spl.interval_param(V, kv, p[1], iv, tag='v_')
        V.cover('in')
        val = s.eval_local(u, v, iu, iv)
        Wu = cu[0] if V.symbolic else s.u_basis.eval_vector(iu, u); Wv = cv[0] if V.symbolic else s.v_basis.eval_vector(iv, v)
        box = s.aabb(); pats = s.boxes
        V.ensure('one box per patch', len(pats) == n[0] * n[1])
        k = s.patch_pos2id(iu, iv)
        W = [a * b for a in Wu for b in Wv]
        if V.symbolic:
            positive_lemma(V, len(W))
            fa, fb = [V.fresh('a') for _ in Wu], [V.fresh('b') for _ in Wv]
            sa = sb = sab = 0
            for x in fa: sa = sa + x
            for x in fb: sb = sb + x
            for x in fa:
                for y in fb: sab = sab + x * y
            V.lemma('lemma: product weights sum to the product of the sums', [], sab == sa * sb)
            V.lemma('lemma: product weights are not negative', [fa[0] >= 0, fb[0] >= 0], fa[0] * fb[0] >= 0)
        PQ = [P[iu + a][iv + b] for a in range(p[0] + 1) for b in range(p[1] + 1)]
        for d in range(3):
            Q = [q[d] for q in PQ]
            if V.symbolic:
                num = den = 0
                for w, q in zip(W, PQ):
                    w_ = w * q[3] if rational else w
                    num = num + w_ * q[d]; den = den + w_
                if rational: V.assume(den > 0)
                V.eq('value is the weighted combination of the local poles', val[d], num / den if rational else num)
            in_box(V, 'value in the whole box', val[d], box[0][d], box[1][d], W, Q)
            in_box(V, 'value in the patch box', val[d], pats[k].min()[d], pats[k].max()[d], W, Q)
    return fn
for p, n, rat in (((1, 1), (2, 2), False), ((2, 2), (1, 2), False), ((1, 2), (2, 1), False), ((3, 1), (1, 1), False), ((1, 1), (1, 2), True)):
    UNITS.append(Unit('surface boxes deg %s, %s intervals%s' % (p, n, ', rational' if rat else ''), surf_box(p, n, rat), [TS + 'aabb', TS + 'bounding_boxes', TS + 'eval_local', TS + 'patch_pos2id'], BS, extra=BIHX, covers=['in'], samples=40,
                      unbounded='knots, poles, parameters', assumes=['SplineBasis.eval_vector: contract of property B02', 'bih.AABB: tightest box of the given points', 'rational: positive weights, hence positive denominator']))

def copy_unit(p, n, dim, rational):
    def fn(V):
        s, P, ku, kv = surface(V, p, n, dim, rational)
        c = s.deep_copy()
        iu, iv = V.choice('iu', n[0]), V.choice('iv', n[1])
        u, v = spl.interval_param(V, ku, p[0], iu, tag='u_'), spl.interval_param(V, kv, p[1], iv, tag='v_')
        V.cover('in')
        want = list(s.eval(u, v))
        V.ensure('rational flag', c.rational == s.rational and c.dim == s.dim)
        V.eq('copy evaluates identically', list(c.eval(u, v)), want)
        V.ensure('own poles', c.poles is not s.poles and c.u_basis is not s.u_basis and c.v_basis is not s.v_basis)
        for k in (0, 1):
            V.ensure('own knots', c.basis[k].knots is not s.basis[k].knots)
        c.poles += 7
        c.u_basis.knots[0] = c.u_basis.knots[0] - 100
        c.v_basis.knots[-1] = c.v_basis.knots[-1] + 100
        V.eq('original unaffected by changes of the copy', list(s.eval(u, v)), want)
        V.eq('original poles', list(s.poles.ravel()), [x for r in P for q in r for x in q])
    return fn
for p, n, dim, rat in (((2, 2), (1, 1), 1, False), ((1, 2), (2, 1), 3, False), ((1, 1), (1, 2), 2, True)):
    UNITS.append(Unit('deep copy deg %s%s' % (p, ', rational' if rat else ''), copy_unit(p, n, dim, rat), [TS + 'deep_copy'], BS, covers=['in'], samples=40))

BOUND = 'curves and surfaces of degrees 0..5, up to 6 intervals per direction, dimensions 1..4, rational or not, interior multiplicities'
BSECS = 6; SHARDS = 4
def reached(o, seen=None):
    """changeable objects held by the attributes of an object, directly or through containers"""
    import numpy as np
    if seen is None: seen = {}
    import enum
    if id(o) in seen or callable(o) or isinstance(o, enum.Enum) or not (isinstance(o, (np.ndarray, list, dict, set, tuple)) or type(o).__module__.split('.')[0] in ('bgem', 'bih')): return seen
    if not isinstance(o, tuple): seen[id(o)] = o
    if isinstance(o, (list, tuple, set)):
        for x in o: reached(x, seen)
    elif isinstance(o, dict):
        for x in o.values(): reached(x, seen)
    elif hasattr(o, '__dict__') and not callable(o):
        for x in vars(o).values(): reached(x, seen)
    return seen
def bounded(H):
    import numpy as np
    B = bs()
    k = 0
    while H.time_left():
        k += 1
        r = H.rng(k); rn = np.random.RandomState(r.randrange(1 << 30))
        p = r.randint(0, 5); kn = spl.random_knots(r, p, r.choice([1, 2, 3, 6])); m = len(kn) - p - 1
        dim = r.choice([1, 2, 3, 3, 4]); rat = r.random() < 0.4
        P = rn.uniform(-10, 10, (m, dim + rat))
        if rat: P[:, -1] = rn.uniform(0.2, 5, m)
        form = r.randrange(3)
        c = B.Curve.make_raw(P if form else P.tolist(), kn, rational=rat, degree=p) if form < 2 else B.Curve(B.SplineBasis(p, kn), P, rat)
        ts = [spl.random_param(r, kn, p) for _ in range(4)] + [kn[0], kn[-1]]
        def comb(ref, P, dim, rat):
            if rat:
                w = ref * P[:, dim]
                return w.dot(P[:, :dim]) / w.sum()
            return ref.dot(P)
        vals = []
        box = c.aabb()
        H.check(np.shape(box) == (2, dim), 'box shape', str(np.shape(box)))
        for t in ts:
            H.case(dict(kind='curve', degree=p, knots=kn, dim=dim, rational=rat, t=t), ('c', p, len(kn), dim, rat, t))
            ref = np.array([float(x) for x in spl.reference(kn, p, t)])
            want = comb(ref, P, dim, rat); vals.append(want)
            got = c.eval(t)
            H.close(got, want, 'curve value', 't=%r' % t)
            i = c.basis.find_knot_interval(t)
            H.close(c.eval_local(t, i), want, 'eval_local')
            H.check(np.all(box[0] <= got + 1e-9) and np.all(got <= box[1] + 1e-9), 'curve box', '%s %s' % (box, got))
            if dim == 3 :
                bx = c.boxes[i]
                H.check(np.all(np.array(bx.min()) <= got + 1e-6 ) and np.all(got <= np.array(bx.max()) + 1e-6), 'curve interval box', '%s %s %s' % (bx.min(), bx.max(), got))
        H.close(c.eval_array(ts), vals, 'curve array')
        H.close(vals[-2], P[0, :dim], 'curve start'); H.close(c.eval(kn[-1]), P[-1, :dim], 'curve end')
        q = (r.randint(0, 4), r.randint(0, 4))
        ku, kv = spl.random_knots(r, q[0], r.choice([1, 2, 3, 5])), spl.random_knots(r, q[1], r.choice([1, 2, 3, 5]))
        mu, mv = len(ku) - q[0] - 1, len(kv) - q[1] - 1
        P = rn.uniform(-10, 10, (mu, mv, dim + rat))
        if rat: P[:, :, -1] = rn.uniform(0.2, 5, (mu, mv))
        P0 = P.copy()
        s = B.Surface.make_raw(P if form else P.tolist(), (ku, kv), rational=rat, degree=q) if form < 2 else B.Surface((B.SplineBasis(q[0], ku), B.SplineBasis(q[1], kv)), P, rat)
        uv = [(spl.random_param(r, ku, q[0]), spl.random_param(r, kv, q[1])) for _ in range(4)] + [(ku[0], kv[0]), (ku[-1], kv[0]), (ku[0], kv[-1]), (ku[-1], kv[-1])]
        c = s.deep_copy() if k % 2 else None
        box = s.aabb(); H.check(np.shape(box) == (2, dim), 'surface box shape')
        vals = []
        for u, v in uv:
            H.case(dict(kind='surface', degree=q, ku=ku, kv=kv, dim=dim, rational=rat, uv=(u, v)), ('s', q, len(ku), len(kv), dim, rat, u, v))
            ref = np.outer([float(x) for x in spl.reference(ku, q[0], u)], [float(x) for x in spl.reference(kv, q[1], v)]).ravel()
            want = comb(ref, P0.reshape(mu * mv, -1), dim, rat); vals.append(want)
            got = s.eval(u, v)
            H.close(got, want, 'surface value', 'uv=%r' % ((u, v),))
            iu, iv = s.u_basis.find_knot_interval(u), s.v_basis.find_knot_interval(v)
            H.close(s.eval_local(u, v, iu, iv), want, 'surface eval_local')
            H.check(np.all(box[0] <= got + 1e-9) and np.all(got <= box[1] + 1e-9), 'surface box', '%s %s' % (box, got))
            if dim == 3:
                bx = s.boxes[s.patch_pos2id(iu, iv)]
                H.check(np.all(np.array(bx.min()) <= got + 1e-6) and np.all(got <= np.array(bx.max()) + 1e-6), 'patch box', '%s %s %s' % (bx.min(), bx.max(), got))
        H.close(s.eval_array(np.array(uv)), vals, 'surface array')
        H.close(s.poles, P0, 'poles changed by evaluation')
        for j, (a, b) in enumerate(((0, 0), (-1, 0), (0, -1), (-1, -1))): H.close(vals[4 + j], P0[a, b, :dim], 'corner')
        if c is not None:
            H.close(c.eval_array(np.array(uv)), vals, 'deep copy value')
            c.poles *= 3.0; c.u_basis.knots -= 50; c.v_basis.knots += 50; c.u_basis.domain -= 50
            H.close(s.eval_array(np.array(uv)), vals, 'deep copy shares state')
            c = s.deep_copy(); s.poles *= 3.0; s.u_basis.knots -= 50; s.v_basis.knots += 50
            H.close(c.eval_array(np.array(uv)), vals, 'deep copy shares state (original changed)')
            if dim == 3:
                s = B.Surface.make_raw(P0.copy(), (ku, kv), rational=rat, degree=q); s.boxes; s.eval_array(np.array(uv))
                c = s.deep_copy(); mine, his = reached(s), reached(c)
                H.check(not set(mine) & set(his), 'deep copy shares an object', [type(mine[i]).__name__ for i in set(mine) & set(his)])
                H.check(not any(np.shares_memory(x, y) for x in mine.values() for y in his.values() if isinstance(x, np.ndarray) and isinstance(y, np.ndarray)), 'deep copy shares an array')
                if not rat:
                    c.poles[..., :3] += 100.0; got = c.eval_array(np.array(uv))
                    H.close(got, np.array(vals) + 100.0, 'value of a changed copy')
                    for (u, v), x in zip(uv, got):
                        bx = c.boxes[c.patch_pos2id(c.u_basis.find_knot_interval(u), c.v_basis.find_knot_interval(v))]
                        H.check(np.all(np.array(bx.min()) <= x + 1e-6) and np.all(x <= np.array(bx.max()) + 1e-6), 'patch box of a changed copy', '%s %s %s' % (bx.min(), bx.max(), x))
