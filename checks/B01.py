from pyvc.unit import Unit, need
from checks import spl
from checks.spl import bs, BS
LEVEL = 'proof'
NOTE = 'Proof over knot vectors of symbolic length (any number of intervals, any values) for degrees 0..5: find_knot_interval, check, fn_supp, knot_interval_bounds and the derived sizes meet their contracts. Assumes numpy.searchsorted/fancy indexing on a sorted array mean what numpy documents; reals for floats. Bounded cross-check on real floats beside it.'
T = 'bspline.py:SplineBasis.'
UNITS = []

def make(V, p):
    """basis of degree p over a sorted knot vector of any length with full end multiplicity"""
    if V.symbolic:
        from pyvc import sarr, core
        L = V.int('L', lo=2 * p + 2)
        kn = sarr.sorted_vec('knots', L)
        for i in range(p):
            V.assume(kn[i] == kn[i + 1]); V.assume(kn[L - 1 - i] == kn[L - 2 - i])
        V.assume(kn[p] < kn[L - p - 1])
        V.assume(kn[L - p - 2] < kn[L - p - 1])
        return bs().SplineBasis(p, kn), kn, L
    kn = spl.random_knots(V.rng, p)
    V.used['knots'] = kn
    return bs().SplineBasis(p, kn), kn, len(kn)

def sizes_unit(p):
    def fn(V):
        b, kn, L = make(V, p)
        V.cover('in')
        V.eq('size', b.size, L - p - 1); V.eq('number of intervals', b.n_intervals, L - 2 * p - 1); V.eq('degree', b.degree, p)
        V.eq('domain', [b.domain[0], b.domain[1]], [kn[p], kn[L - p - 1]])
        V.eq('domain size', b.domain_size, kn[L - p - 1] - kn[p])
        j = V.int('j', lo=0) if V.symbolic else V.rng.randrange(b.n_intervals)
        V.assume(j < b.n_intervals)
        V.eq('bounds of interval j', list(b.knot_interval_bounds(j)), [kn[j + p], kn[j + p + 1]])
        m = V.int('m', lo=0) if V.symbolic else V.rng.randrange(b.size)
        V.assume(m < b.size)
        V.eq('support of function m', list(b.fn_supp(m)), [kn[m], kn[m + p + 1]])
        t = V.real('t')
        from pyvc import core
        inside = core.sand(kn[p] <= t, t <= kn[L - p - 1]) if V.symbolic else kn[p] <= t <= kn[L - p - 1]
        V.ensure('in_domain', bool(b.in_domain(t)) == bool(inside))
    return fn

def find_unit(p):
    def fn(V):
        b, kn, L = make(V, p)
        if V.symbolic: t = V.real('t')
        else: t = spl.random_param(V.rng, kn, p); V.used['t'] = t
        V.assume(kn[p] <= t); V.assume(t <= kn[L - p - 1])
        r = b.find_knot_interval(t)
        V.cover('in')
        n = L - 2 * p - 1
        V.ensure('index in range', V.leq(0, r)); V.ensure('index in range', V.leq(r, n - 1))
        lo, hi = b.knot_interval_bounds(r)
        V.ensure('left bound', lo <= t)
        V.eq('reported bounds are those of the interval', [lo, hi], [kn[r + p], kn[r + p + 1]])
        if bool(r == n - 1): V.ensure('right bound (last interval closed)', t <= hi)
        else: V.ensure('right bound', t < hi)
        V.ensure('interval not empty', lo < hi)
    return fn

def out_unit(p):
    """a parameter clearly outside of the domain is not given an interval"""
    def fn(V):
        b, kn, L = make(V, p)
        t = V.real('t')
        V.assume(t < kn[p])
        try:
            r = b.find_knot_interval(t)
        except (AssertionError, IndexError):
            V.cover('rejected'); V.ensure('rejected', True); return
        V.ensure('left of the domain is rejected', False)
    return fn

def check_unit(p, given):
    def fn(V):
        b, kn, L = make(V, p)
        t = V.real('t'); lo, hi = b.domain[0], b.domain[1]
        if not V.symbolic and V.rng.random() < 0.6 and 't' not in V.values:
            t = V.rng.choice([lo, hi]) + V.rng.choice([-1, 1]) * V.rng.choice([0, 1e-15, 1e-14, 1e-13, 1e-11, 1e-9, 1e-3, 0.1])
            V.used['t'] = t
        rtol = 1e-10
        if given: rtol = V.pos('rtol')
        tol = (abs(t) + 1e-4) * rtol
        if not V.symbolic:
            # keep off the rounding margin of the tolerance itself
            V.assume(abs(abs(min(t - lo, hi - t)) - tol) > 1e-3 * tol + 4e-16 * abs(t) or min(t - lo, hi - t) >= 0)
        try:
            r = b.check(t, rtol) if given else b.check(t)
        except IndexError:
            V.cover('rejected')
            V.ensure('rejected only beyond the tolerance', (t < lo - tol) | (t > hi + tol))
            return
        V.cover('accepted')
        V.ensure('accepted only within the tolerance', V.leq(lo - tol, t, 1e-15)); V.ensure('accepted only within the tolerance', V.leq(t, hi + tol, 1e-15))
        if bool((lo <= t) & (t <= hi)): V.ensure('inside parameter unchanged', r == t)
        elif bool(t < lo): V.cover('left'); V.ensure('moved to the left end', r == lo)
        else: V.cover('right'); V.ensure('moved to the right end', r == hi)
    return fn

for p in range(6):
    ub = 'knot vector length and values, parameter'
    UNITS.append(Unit('sizes and bounds, degree %d' % p, sizes_unit(p), [T + '__init__', T + 'knot_interval_bounds', T + 'fn_supp', T + 'in_domain'], BS, covers=['in'], unbounded=ub, allshape=True, assumes=['numpy fancy indexing of an array of symbolic length: element-wise contract']))
    UNITS.append(Unit('find_knot_interval, degree %d' % p, find_unit(p), [T + 'find_knot_interval', T + 'knot_interval_bounds'], BS, covers=['in'], unbounded=ub, allshape=True, assumes=['numpy.searchsorted: sorted-array contract']))
    UNITS.append(Unit('find_knot_interval outside, degree %d' % p, out_unit(p), [T + 'find_knot_interval'], BS, covers=['rejected'], unbounded=ub, allshape=True))
for p in (0, 1, 2, 3):
    UNITS.append(Unit('check, degree %d' % p, check_unit(p, False), [T + 'check'], BS, covers=['rejected', 'accepted', 'left', 'right'], unbounded=ub, allshape=True))
UNITS.append(Unit('check with given tolerance', check_unit(2, True), [T + 'check'], BS, covers=['rejected', 'accepted', 'left', 'right'], unbounded=ub, allshape=True))

BOUND = 'degrees 0..7, up to 40 knot spans, interior multiplicities, parameters at, next to and outside of knots'
BSECS = 5; SHARDS = 3
def bounded(H):
    import numpy as np, math
    S = bs().SplineBasis
    k = 0
    while H.time_left():
        k += 1
        r = H.rng(k)
        p = r.randint(0, 7); kn = spl.random_knots(r, p, n=r.choice([1, 2, 3, 5, 9, 40]))
        b = S(p, kn)
        H.check(b.size == len(kn) - p - 1 and b.n_intervals == b.size - p, 'sizes')
        H.check(b.domain[0] == kn[0] and b.domain[1] == kn[-1] and b.domain_size == kn[-1] - kn[0], 'domain')
        cand = [spl.random_param(r, kn, p) for _ in range(4)]
        u = sorted(set(kn))
        q = r.choice(u)
        cand += [q, np.nextafter(q, math.inf), np.nextafter(q, -math.inf)]
        for t in cand:
            H.case(dict(degree=p, knots=kn, t=float(t)), (p, len(kn), float(t)))
            if kn[0] <= t <= kn[-1]:
                i = b.find_knot_interval(t)
                H.check(0 <= i < b.n_intervals, 'range', str(i))
                lo, hi = b.knot_interval_bounds(i)
                H.check((lo, hi) == (kn[p + i], kn[p + i + 1]), 'bounds', str((lo, hi)))
                H.check(lo <= t and lo < hi and (t < hi or (t == hi and t == kn[-1])), 'interval', '%r in %r' % (t, (lo, hi)))
                H.check(b.check(t) == t, 'inside')
                H.check(b.in_domain(t), 'in_domain')
            else:
                H.check(not b.in_domain(t), 'in_domain')
                H.check(b.check(t) == (kn[0] if t < kn[0] else kn[-1]), 'tiny excess', '%r' % t)
        for s in (-1, 1):
            e = kn[0] if s < 0 else kn[-1]
            for f in (1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 1.0, 1e6):
                for rt in (None, 1e-6):
                    t = e + s * f * r.uniform(0.5, 2)
                    tol = (abs(t) + 1e-4) * (rt or 1e-10)
                    d = abs(t - e)
                    if t == e or abs(d - tol) < 0.01 * tol: continue
                    H.case(dict(degree=p, knots=kn, t=float(t), rtol=rt), (p, t))
                    try: v = b.check(t) if rt is None else b.check(t, rt)
                    except IndexError: v = None
                    if d > tol: H.check(v is None, 'not rejected', '%r -> %r' % (t, v))
                    else: H.check(v == e, 'not moved to the end', '%r -> %r' % (t, v))
        # reported error of an invalid vector
        if p >= 1:
            bad = list(kn); j = r.choice([0, len(kn) - 1]); bad[j] += (-1 if j == 0 else 1)
            try: S(p, bad); ok = False
            except AssertionError: ok = True
            H.check(ok, 'free ends accepted', str(bad))
