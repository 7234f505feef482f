from pyvc.unit import Unit, need
from checks import spl
from checks.spl import bs, BS
LEVEL = 'proof'
NOTE = 'Proof for all knot values at the listed degrees and interval counts (packing with every multiplicity pattern, equidistant bases, linear poles as Greville abscissae and reproduction of the identity). Larger sizes bounded on real floats.'
T = 'bspline.py:SplineBasis.'
UNITS = []

def pack_unit(p, n):
    def fn(V):
        S = bs().SplineBasis
        kn = spl.knots(V, p, n, mult=True)
        b = S(p, kn)
        pk = list(b.pack_knots())
        V.cover('in')
        tot = 0; prev = None
        for q, m in pk:
            V.ensure('multiplicity is a positive integer', int(m) == m and m >= 1)
            if prev is not None: V.ensure('packed values strictly increase', prev < q)
            prev = q; tot += m
        V.ensure('multiplicities sum to the number of knots', tot == len(kn))
        c = S.make_from_packed_knots(p, pk)
        V.ensure('degree', c.degree == p)
        V.eq('unpacking returns the knot vector', list(c.knots), kn)
        # the packed vector lists each knot with its number of occurrences, in order
        flat = [q for q, m in pk for _ in range(m)]
        V.eq('packed vector is the knot vector', flat, kn)
    return fn
for p in range(0, 4):
    for n in (1, 2, 3, 4):
        UNITS.append(Unit('pack/unpack deg %d, %d spans' % (p, n), pack_unit(p, n), [T + 'pack_knots', T + 'make_from_packed_knots', T + '__init__'], BS, covers=['in'], unbounded='knot values', tier='quick' if n < 4 else 'thorough'))

def equi_unit(p, n, default):
    def fn(V):
        S = bs().SplineBasis
        if default: a, c = 0.0, 1.0; b = S.make_equidistant(p, n)
        else:
            a = V.real('a'); c = a + V.pos('len')
            b = S.make_equidistant(p, n, knot_range=[a, c])
        V.cover('in')
        V.ensure('degree', b.degree == p); V.ensure('number of intervals', b.n_intervals == n); V.ensure('size', b.size == n + p)
        k = list(b.knots)
        V.ensure('number of knots', len(k) == n + 2 * p + 1)
        for j in range(p + 1):
            V.ensure('end knots repeated', k[j] == a); V.ensure('end knots repeated', k[-1 - j] == c)
        for j in range(n):
            V.eq('equal intervals', k[p + j + 1] - k[p + j], (c - a) / n)
        V.eq('domain', list(b.domain), [a, c])
        d = b.knot_interval_bounds(0)
        V.ensure('increasing', d[0] < d[1])
    return fn
for p in range(0, 6):
    for n in (1, 2, 3, 5):
        UNITS.append(Unit('equidistant deg %d, %d intervals' % (p, n), equi_unit(p, n, False), [T + 'make_equidistant'], BS, covers=['in'], unbounded='range', samples=50))
    UNITS.append(Unit('equidistant deg %d, default range' % p, equi_unit(p, 4, True), [T + 'make_equidistant'], BS, covers=['in'], samples=2))

def int_range(V):
    S = bs().SplineBasis
    p = V.choice('p', 4); n = V.choice('n', 4) + 1
    a = V.choice('a', 5) - 2; l = V.choice('l', 4) + 1
    b = S.make_equidistant(p, n, knot_range=[a, a + l])
    V.cover('in')
    V.eq('integer range: equal intervals', [b.knots[p + j] for j in range(n + 1)], [a + j * l / n for j in range(n + 1)])
UNITS.append(Unit('equidistant, integer range', int_range, [T + 'make_equidistant'], BS, covers=['in'], samples=300))

def linear_unit(p, n, mult=False):
    def fn(V):
        S = bs().SplineBasis
        b = S(p, spl.knots(V, p, n, mult=mult))
        if mult:
            for j in range(1, b.size): V.assume(b.knots[j + p] - b.knots[j] > (0 if V.symbolic else 1e-3))
        i = V.choice('i', n)
        if mult: V.assume(b.knots[p + i + 1] - b.knots[p + i] > (0 if V.symbolic else 1e-3))
        t = spl.interval_param(V, list(b.knots), p, i)
        V.cover('in')
        poles = b.make_linear_poles()
        V.ensure('one pole per function', len(poles) == b.size)
        s = 0
        for j, v in enumerate(b.eval_vector(i, t)): s = s + poles[i + j] * v
        V.eq('reproduces t - t0', s, t - b.knots[0])
        V.eq('starts at zero', poles[0], 0)
    return fn
for p in (1, 2, 3, 4):
    for n in (1, 2, 3):
        UNITS.append(Unit('linear poles deg %d, %d intervals' % (p, n), linear_unit(p, n), [T + 'make_linear_poles', T + 'eval_vector', T + '_basis'], BS, covers=['in'], unbounded='knots, parameter', tier='quick' if p + n <= 5 else 'thorough'))
UNITS.append(Unit('linear poles deg 2, repeated knots', linear_unit(2, 3, True), [T + 'make_linear_poles'], BS, covers=['in'], unbounded='knots, parameter'))

# any degree: poles are Greville abscissae (step contract), and Marsden-type lemma as an inductive identity
def greville(V):
    """poles[m+1]-poles[m] = (k[m+p+1]-k[m+1])/p  for every degree (list of any concrete size is built by the loop)"""
    S = bs().SplineBasis
    p = V.choice('p', 7) + 1; n = V.choice('n', 4) + 1
    b = S(p, spl.knots(V, p, n))
    poles = b.make_linear_poles()
    V.cover('in')
    for m in range(b.size):
        g = 0
        for j in range(1, p + 1): g = g + (b.knots[m + j] - b.knots[0])
        V.eq('pole is the shifted Greville abscissa', poles[m] * p, g)
UNITS.append(Unit('linear poles are Greville abscissae, degrees 1..7', greville, [T + 'make_linear_poles'], BS, covers=['in'], unbounded='knots', samples=100, deadline=120))

BOUND = 'degrees 0..7, up to 40 intervals, interior multiplicities'
BSECS = 5; SHARDS = 3
def bounded(H):
    import numpy as np
    S = bs().SplineBasis
    k = 0
    while H.time_left():
        k += 1
        r = H.rng(k)
        p = r.randint(0, 7); n = r.choice([1, 2, 3, 4, 7, 10, 40])
        kn = spl.random_knots(r, p, n)
        b = S(p, kn)
        H.case(dict(degree=p, knots=kn), (p, tuple(kn)))
        pk = b.pack_knots()
        H.check([q for q, m in pk for _ in range(m)] == list(kn), 'pack', str(pk))
        H.check(all(x[0] < y[0] for x, y in zip(pk, pk[1:])), 'pack order', str(pk))
        c = S.make_from_packed_knots(p, pk)
        H.check(list(c.knots) == list(kn) and c.degree == p, 'unpack', str(list(c.knots)))
        # knots that differ by little, absolutely or relative to their size, are still different knots
        sc = r.choice([1e-14, 1e-9, 1e-6, 1e3]); off = r.choice([0.0, 0.0, 1.0, 1e5, -1e6]) * r.random()
        kn2 = [off]; 
        for q0, q1 in zip(kn, kn[1:]): kn2.append(kn2[-1] if q1 == q0 else max(kn2[-1] + sc * (q1 - q0), float(np.nextafter(kn2[-1], np.inf))))
        b2 = S(p, kn2)
        H.case(dict(degree=p, knots=kn2), (p, tuple(kn2)))
        pk2 = b2.pack_knots()
        H.check([q for q, m in pk2 for _ in range(m)] == kn2, 'pack: close knots', str(pk2))
        H.check(list(S.make_from_packed_knots(p, pk2).knots) == kn2, 'unpack: close knots', str(pk2))
        a = r.choice([0.0, r.uniform(-5, 5), float(r.randint(-4, 4))]); l = r.choice([1.0, r.uniform(0.1, 50), 1e-3, 1e4])
        rng_ = r.choice([[a, a + l], (a, a + l), np.array([a, a + l])])
        e = S.make_equidistant(p, n, knot_range=rng_)
        H.case(dict(degree=p, n=n, range=[a, a + l]), (p, n, a, l))
        H.check(e.n_intervals == n and e.size == n + p and len(e.knots) == n + 2 * p + 1, 'equidistant sizes')
        H.check(all(x == a for x in e.knots[:p + 1]) and all(x == a + l for x in e.knots[len(e.knots) - p - 1:]), 'equidistant ends', str(list(e.knots)))
        H.close((e.knots[p:len(e.knots) - p] - a) / l, np.arange(n + 1) / n, 'equidistant', 'interior', tol=1e-9)
        a, l = r.randint(-4, 4), r.randint(1, 9)
        e = S.make_equidistant(p, n, knot_range=[a, a + l])
        H.close((np.asarray(e.knots, dtype=float)[p:len(e.knots) - p] - a) / l, np.arange(n + 1) / n, 'equidistant integer range', 'interior', tol=1e-9)
        e = S.make_equidistant(p, n)
        H.close(e.knots[p:len(e.knots) - p], np.arange(n + 1) / n, 'equidistant default')
        if p >= 1:
            poles = np.array(b.make_linear_poles())
            H.check(len(poles) == b.size, 'poles count')
            for _ in range(4):
                t = spl.random_param(r, kn, p)
                i = b.find_knot_interval(t)
                H.close(np.dot(b.eval_vector(i, t), poles[i:i + p + 1]), t - kn[0], 'linear', 't=%r' % t)
