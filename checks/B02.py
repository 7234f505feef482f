from pyvc.unit import Unit, need
from checks import spl
from checks.spl import bs, BS
LEVEL = 'proof'
NOTE = 'Proof: contract of the recursive _basis for every degree and knot vector by induction (callee replaced by its contract), partition of unity for every degree as a ghost lemma; specialised degree-2 path, eval_vector, supports proved for all values at the listed degrees/interval counts. Reals for floats.'
T = 'bspline.py:SplineBasis.'
UNITS = []

def values_unit(p, n):
    def fn(V):
        b = bs().SplineBasis(p, spl.knots(V, p, n))
        i = V.choice('i', n)
        t = spl.interval_param(V, list(b.knots), p, i)
        V.cover('in')
        vals = list(b.eval_vector(i, t))
        V.ensure('p+1 values', len(vals) == p + 1)
        s = 0
        for j, v in enumerate(vals):
            V.ensure('non-negative', V.leq(0, v, 1e-12))
            V.eq('vector lists eval of consecutive functions', v, b.eval(i + j, t))
            s = s + v
        V.eq('sum to one', s, 1)
        for j in range(b.size):
            if j < i or j > i + p:
                V.eq('zero off the interval', b.eval(j, t), 0)
            lo, hi = b.fn_supp(j)
            V.eq('reported support', lo, b.knots[j]); V.eq('reported support', hi, b.knots[j + p + 1])
    return fn
for p in range(0, 5):
    for n in (1, 2, 3):
        UNITS.append(Unit('values deg %d, %d intervals' % (p, n), values_unit(p, n), [T + '_basis', T + 'eval', T + 'eval_vector', T + 'fn_supp', T + '__init__'], BS,
                          tier='quick' if p + n <= 5 else 'thorough', covers=['in']))

def fast_unit(n, mult):
    def fn(V):
        b = bs().SplineBasis(2, spl.knots(V, 2, n, mult=mult))
        i = V.choice('i', n)
        lo, hi = b.knots[2 + i], b.knots[3 + i]
        if mult:
            V.assume(lo < hi if V.symbolic else hi - lo > 1e-3)
            for j in range(1, b.size): V.assume(b.knots[j + 2] - b.knots[j] > (0 if V.symbolic else 1e-3))
        m = V.real('m', lo=0, hi=1)
        end = V.choice('end', 2)
        t = hi if end else lo + (hi - lo) * m
        if not end: V.assume(t < hi)
        V.cover('in')
        a = list(b.eval_base_vector(i, t))
        g = list(b.eval_vector(i, t))
        V.ensure('three values', len(a) == 3)
        V.eq('fast path equals the recursive definition', a, g)
        s = 0
        for x in a:
            V.ensure('fast path non-negative', V.leq(0, x, 1e-9)); s = s + x
        V.eq('fast path sums to one', s, 1)
    return fn
for n in (1, 2, 3, 4):
    UNITS.append(Unit('degree 2 fast path, %d intervals' % n, fast_unit(n, False), [T + '_eval_vector_deg_2', T + '_basis', T + 'eval_vector'], BS, covers=['in']))
UNITS.append(Unit('degree 2 fast path, repeated knots', fast_unit(3, True), [T + '_eval_vector_deg_2', T + '_basis', T + 'eval_vector'], BS, covers=['in']))

def mult_unit(p, n):
    def fn(V):
        b = bs().SplineBasis(p, spl.knots(V, p, n, mult=True))
        i = V.choice('i', n)
        V.assume(b.knots[p + i + 1] - b.knots[p + i] > (0 if V.symbolic else 1e-3))
        # valid knot vector: interior multiplicity at most p
        for j in range(1, b.size):
            V.assume(b.knots[j + p] - b.knots[j] > (0 if V.symbolic else 1e-3))
        t = spl.interval_param(V, list(b.knots), p, i)
        V.cover('in')
        vals = list(b.eval_vector(i, t))
        s = 0
        for v in vals:
            V.ensure('non-negative', V.leq(0, v, 1e-12)); s = s + v
        V.eq('sum to one', s, 1)
    return fn
for p, n in ((1, 2), (2, 3), (3, 3)):
    UNITS.append(Unit('repeated interior knots deg %d, %d spans' % (p, n), mult_unit(p, n), [T + '_basis', T + 'eval', T + 'eval_vector'], BS, covers=['in'], tier='quick' if p < 3 else 'thorough'))

# ---- any degree, any knot vector: contract of _basis by induction over the degree
def _setup(V):
    from pyvc import sarr
    import z3
    L = V.int('L', lo=2)
    kn = sarr.sorted_vec('knots', L)
    b = bs().SplineBasis.__new__(bs().SplineBasis)
    b.knots = kn
    t = V.real('t')
    return b, L, kn, t

def basis_step(V):
    if not V.symbolic: return conc_reference(V)
    import z3
    from pyvc import core
    b, L, kn, t = _setup(V)
    deg = V.int('deg', lo=1); idx = V.int('idx', lo=0)
    V.assume(idx + deg + 1 < L)
    b.degree = V.int('degree'); V.assume(b.degree >= deg)
    N = z3.Function('Nlow', z3.IntSort(), z3.RealSort())
    calls = []
    def low(d, i, tt):
        d, i = core.lift(d), core.lift(i)
        V.ensure('recursive call: degree decreases and stays non-negative', core.sand(d == deg - 1, d >= 0))
        V.ensure('recursive call: index in range', core.sand(i >= 0, i + d + 1 < L))
        V.ensure('recursive call: same parameter', tt == t)
        r = core.SReal(N(i.t))
        V.ctx.add((r >= 0).t)
        V.ctx.add(z3.Implies((r > 0).t, z3.And((kn[i] <= t).t, (t < kn[i + d + 1]).t)))
        calls.append(1)
        return r
    orig = need(bs().SplineBasis, '_basis')
    b._basis = low
    res = core.lift(orig(b, deg, idx, t))
    if not calls: 
        # zero denominators on both sides
        pass
    V.cover('step')
    V.ensure('non-negative', res >= 0)
    V.ensure('zero outside [t_i, t_{i+d+1})', core.simplies(core.sor(t < kn[idx], t >= kn[idx + deg + 1]), res == 0))
    n0, n1 = low(deg - 1, idx, t), low(deg - 1, idx + 1, t)
    def W(i):
        den = kn[i + deg] - kn[i]
        return core.ite(den == 0, 0, core.SReal(core.rterm(t - kn[i]) / core.rterm(den)))
    V.ensure('recursion: N_d(i) = w_d(i) N_{d-1}(i) + (1 - w_d(i+1)) N_{d-1}(i+1)', res == W(idx) * n0 + (1 - W(idx + 1)) * n1)

def basis_base(V):
    if not V.symbolic: return conc_reference(V)
    b, L, kn, t = _setup(V)
    b.degree = V.int('degree', lo=0)
    idx = V.int('idx', lo=0); V.assume(idx + 1 < L)
    from pyvc import core
    orig = need(bs().SplineBasis, '_basis')
    res = core.lift(orig(b, 0, idx, t))
    V.cover('base')
    V.ensure('degree 0: indicator of the right-open interval', core.ite(core.sand(kn[idx] <= t, t < kn[idx + 1]), 1, 0) == res)

def lemma_unity(V):
    """ghost lemma: contracts of _basis imply sum over the d+1 functions of an interval = 1 (induction over m and d)"""
    if not V.symbolic: return conc_reference(V)
    from pyvc import core, sarr
    import z3
    L = V.int('L', lo=2); kn = sarr.sorted_vec('knots', L); t = V.real('t')
    d = V.int('d', lo=1); mu = V.int('mu'); 
    V.assume(core.sand(mu - d >= 0, mu + d + 1 < L)); V.assume(core.sand(kn[mu] <= t, t < kn[mu + 1]))
    I, R = z3.IntSort(), z3.RealSort()
    N0, N1, w, S, Q = [z3.Function(x, I, R) for x in ('Nlow', 'N', 'w', 'S', 'Q')]
    g = lambda f, i: core.SReal(f(core.term(i)))
    def contract(i):
        V.ctx.add((g(N1, i) == g(w, i) * g(N0, i) + (1 - g(w, i + 1)) * g(N0, i + 1)).t)
    def support(i):      # contract of the callee: zero outside its half-open support
        V.ctx.add(z3.Implies((g(N0, i) > 0).t, z3.And((kn[i] <= t).t, (t < kn[i + d]).t))); V.ctx.add((g(N0, i) >= 0).t)
    P = lambda m: g(S, m) == g(Q, m) + (1 - g(w, m + 1)) * g(N0, m + 1)
    part = V.choice('part', 3)
    V.cover('part%d' % part)
    if part == 0:
        i = mu - d; contract(i); support(i)
        V.ctx.add((g(S, i) == g(N1, i)).t); V.ctx.add((g(Q, i) == g(N0, i)).t)
        V.ensure('lowest function of lower degree vanishes', g(N0, i) == 0)
        V.ensure('base of the telescoping sum', P(i))
    elif part == 1:
        m = V.int('m'); V.assume(core.sand(m >= mu - d, m < mu)); contract(m + 1)
        V.ctx.add(P(m).t)
        V.ctx.add((g(S, m + 1) == g(S, m) + g(N1, m + 1)).t); V.ctx.add((g(Q, m + 1) == g(Q, m) + g(N0, m + 1)).t)
        V.ensure('step of the telescoping sum', P(m + 1))
    else:
        V.ctx.add(P(mu).t); support(mu + 1)
        V.ctx.add((g(Q, mu) == 1).t)    # induction hypothesis for degree d-1
        V.ensure('sum of the d+1 functions equals sum of the d lower ones', g(S, mu) == 1)

def conc_reference(V):
    r = V.rng
    p = r.randint(0, 6); kn = spl.random_knots(r, p); b = bs().SplineBasis(p, kn)
    t = spl.random_param(r, kn, p)
    ref = spl.reference(kn, p, t)
    V.used.update(degree=p, knots=kn, t=t)
    for j in range(b.size):
        V.eq('value of function %d' % j, b.eval(j, t), float(ref[j]))
UNITS += [
    Unit('contract of _basis, any degree (induction step)', basis_step, [T + '_basis'], BS, covers=['step'], allshape=True, unbounded='degree, knot vector length and values, index, parameter'),
    Unit('contract of _basis, degree 0', basis_base, [T + '_basis'], BS, covers=['base'], allshape=True, unbounded='knot vector'),
    Unit('lemma: partition of unity for any degree', lemma_unity, [T + '_basis'], BS, covers=['part0', 'part1', 'part2'], conc=False, allshape=True, unbounded='degree, knot vector, parameter'),
]

BOUND = 'degrees 0..7, up to 8 knot spans, interior multiplicity up to the degree, random and boundary parameters'
BSECS = 5; SHARDS = 3
def bounded(H):
    import numpy as np
    S = bs().SplineBasis
    k = 0
    while H.time_left():
        k += 1
        r = H.rng(k)
        p = r.randint(0, 7); kn = spl.random_knots(r, p)
        b = S(p, kn if r.random() < 0.5 else np.array(kn))
        for _ in range(4):
            t = spl.random_param(r, kn, p)
            H.case(dict(degree=p, knots=kn, t=t), (p, len(kn), t))
            ref = spl.reference(kn, p, t)
            for j in range(b.size):
                v = b.eval(j, t)
                H.check(v >= -1e-12, 'negative', 'eval(%d)=%r' % (j, v))
                H.close(v, float(ref[j]), 'value', 'function %d' % j)
                lo, hi = b.fn_supp(j)
                H.check((lo, hi) == (kn[j], kn[j + p + 1]), 'support', str((lo, hi)))
                if t < lo or t > hi: H.check(v == 0, 'support', 'value outside of the support')
            i = b.find_knot_interval(t)
            v = np.array(b.eval_vector(i, t))
            H.close(v, [float(x) for x in ref[i:i + p + 1]], 'vector', 'eval_vector')
            H.close(v.sum(), 1.0, 'sum', 'sum of eval_vector')
            if hasattr(b, 'eval_base_vector'):
                H.close(b.eval_base_vector(i, t), v, 'fast path', 'eval_base_vector')
                if kn[i + 3] > kn[i + 2]:
                    t2 = kn[i + 3]
                    H.close(b.eval_base_vector(i, t2), [b.eval(j, t2) for j in range(i, i + 3)], 'fast path end', 'eval_base_vector at the interval end')
