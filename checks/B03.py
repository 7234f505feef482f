from pyvc.unit import Unit, need
from checks import spl
from checks.spl import bs, BS
LEVEL = 'proof'
NOTE = 'Proof: eval_diff meets the derivative formula over the contract of _basis for every degree and knot vector; the formula is the true derivative (checked by differentiating the value polynomial) for all values at the listed degrees/interval counts; degree-2 fast path equals it. Reals for floats.'
T = 'bspline.py:SplineBasis.'
UNITS = []

# The derivative is decided without differentiating: on a knot interval every basis function is a polynomial of
# degree p in t, so d is its derivative iff the value has the expansion f(t+h) = f(t) + h d(t) + h^2 r(t,h), r polynomial.
# The exact polynomial derivative is obtained by differentiating the symbolic value term (z3 term -> polynomial).
def dterm(t, x):
    """symbolic derivative of the z3 term t by the constant x (polynomial / rational in x)"""
    import z3
    cache = {}
    one, zero = z3.RealVal(1), z3.RealVal(0)
    def d(e):
        k = e.get_id()
        if k in cache: return cache[k][0]
        kd = e.decl().kind(); ch = e.children()
        if e.eq(x): r = one
        elif not ch: r = zero
        elif kd == z3.Z3_OP_ADD: r = z3.Sum([d(c) for c in ch])
        elif kd == z3.Z3_OP_SUB: r = d(ch[0]) - z3.Sum([d(c) for c in ch[1:]])
        elif kd == z3.Z3_OP_UMINUS: r = -d(ch[0])
        elif kd == z3.Z3_OP_MUL:
            r = zero
            for i in range(len(ch)):
                term = d(ch[i])
                for j, c in enumerate(ch):
                    if j != i: term = term * c
                r = r + term
        elif kd == z3.Z3_OP_DIV: r = (d(ch[0]) * ch[1] - ch[0] * d(ch[1])) / (ch[1] * ch[1])
        elif kd == z3.Z3_OP_POWER and z3.is_int_value(ch[1]):
            n = ch[1].as_long(); r = n * d(ch[0]) * ch[0] ** (n - 1) if n > 1 else d(ch[0])
        else:
            from pyvc.core import Unsupported
            raise Unsupported('derivative of ' + e.decl().name())
        r = z3.simplify(r); cache[k] = (r, e)
        return r
    return d(t)

def diff_value(V, f, t):
    """derivative of f at t (interval interior): exact in the symbolic mode, central difference otherwise"""
    if V.symbolic:
        from pyvc import core
        v = core.lift(f(t))
        return core.SReal(dterm(core.to_real(v.t), t.t))
    h = 1e-5
    return (f(t + h) - f(t - h)) / (2 * h)

def inner_unit(p, n):
    def fn(V):
        b = bs().SplineBasis(p, spl.knots(V, p, n))
        i = V.choice('i', n)
        lo, hi = b.knots[p + i], b.knots[p + i + 1]
        if V.symbolic:
            t = V.real('t'); V.assume(lo < t); V.assume(t < hi)
        else:
            V.assume(min(b.knots[p + j + 1] - b.knots[p + j] for j in range(n)) > 0.2)
            t = lo + (hi - lo) * V.real('tm', lo=0.01, hi=0.99); V.used['t'] = t
        V.cover('in')
        D = list(b.eval_diff_vector(i, t))
        V.ensure('p+1 derivatives', len(D) == p + 1)
        s = 0
        for j in range(b.size):
            d = b.eval_diff(j, t)
            V.eq('derivative of the value', d, diff_value(V, lambda x: b.eval(j, x), t), tol=1e-4)
            if j < i or j > i + p: V.eq('zero off the interval', d, 0)
            else: V.eq('vector lists eval_diff', D[j - i], d)
            s = s + d
        V.eq('derivatives sum to zero', s, 0, tol=1e-6)
    return fn

def end_unit(p, n):
    """knots and both domain ends: one-sided derivative = derivative polynomial of the interval in use at its end"""
    def fn(V):
        b = bs().SplineBasis(p, spl.knots(V, p, n))
        i = V.choice('i', n); right = V.choice('right', 2)
        if right: V.assume(i == n - 1)
        lo, hi = b.knots[p + i], b.knots[p + i + 1]
        if not V.symbolic: V.assume(min(b.knots[p + j + 1] - b.knots[p + j] for j in range(n)) > 0.2)
        e = hi if right else lo
        V.cover('right' if right else 'left')
        s = 0
        for j in range(b.size):
            d = b.eval_diff(j, e)
            if V.symbolic:
                from pyvc import core
                import z3
                t = core.SReal(z3.Real('tt'))
                V.ctx.add((lo < t).t); V.ctx.add((t < hi).t)
                v = core.lift(b.eval(j, t))
                dv = dterm(core.to_real(v.t), t.t)
                want = core.SReal(z3.simplify(z3.substitute(dv, (t.t, core.rterm(e)))))
            else:
                h = (hi - lo) * 1e-5 * (-1 if right else 1)
                want = (-3 * b.eval(j, e) + 4 * b.eval(j, e + h) - b.eval(j, e + 2 * h)) / (2 * h)
            V.eq('one-sided derivative at the interval end', d, want, tol=1e-4)
            s = s + d
        V.eq('derivatives sum to zero', s, 0, tol=1e-6)
    return fn

def fast_unit(n):
    def fn(V):
        b = bs().SplineBasis(2, spl.knots(V, 2, n))
        i = V.choice('i', n)
        t = spl.interval_param(V, list(b.knots), 2, i)
        if not V.symbolic: V.assume(min(b.knots[2 + j + 1] - b.knots[2 + j] for j in range(n)) > 1e-2)
        V.cover('in')
        V.eq('fast path equals the general derivative', list(b.eval_diff_base_vector(i, t)), list(b.eval_diff_vector(i, t)))
    return fn

UB = 'knot values and parameter'
for p in (1, 2, 3, 4):
    for n in (1, 2, 3):
        tier = 'quick' if p + n <= 5 else 'thorough'
        UNITS.append(Unit('derivative inside intervals, deg %d, %d intervals' % (p, n), inner_unit(p, n), [T + 'eval_diff', T + 'eval_diff_vector', T + '_basis', T + 'eval'], BS, tier=tier, covers=['in'], unbounded=UB))
        UNITS.append(Unit('derivative at interval ends, deg %d, %d intervals' % (p, n), end_unit(p, n), [T + 'eval_diff', T + '_basis', T + 'eval'], BS, tier=tier, covers=['left', 'right'], unbounded=UB))
for n in (1, 2, 3, 4):
    UNITS.append(Unit('degree 2 fast path, %d intervals' % n, fast_unit(n), [T + '_eval_diff_vector_deg_2', T + 'eval_diff', T + 'eval_diff_vector'], BS, covers=['in'], unbounded=UB))

# ---- any degree and any knot vector: eval_diff against the contract of _basis (derivative formula), and its sum
def formula(V):
    if not V.symbolic: return conc(V)
    from pyvc import core, sarr
    import z3
    S = bs().SplineBasis
    L = V.int('L', lo=4); kn = sarr.sorted_vec('knots', L); p = V.int('p', lo=1)
    b = S.__new__(S); b.knots = kn; b.degree = p; b.size = L - p - 1
    V.assume(b.size >= p + 1)
    b.domain = [kn[p], kn[L - p - 1]]
    V.assume(kn[p] < kn[L - p - 1])
    i = V.int('i', lo=0); V.assume(i < b.size)
    t = V.real('t'); V.assume(kn[p] <= t); V.assume(t <= kn[L - p - 1])
    N = z3.Function('Nlow', z3.IntSort(), z3.RealSort())
    def low(d, j, tt):
        d, j = core.lift(d), core.lift(j)
        V.ensure('lower basis function: degree, index and parameter', core.sand(d == p - 1, j >= 0, j + d + 1 < L, tt == t))
        return core.SReal(N(j.t))
    # valid knots: interior multiplicity at most p
    j = i
    V.assume(core.simplies(i > 0, kn[i + p] > kn[i])); V.assume(core.simplies(i < b.size - 1, kn[i + p + 1] > kn[i + 1]))
    need(S, '_basis'); b._basis = low
    res = core.lift(need(S, 'eval_diff')(b, i, t))
    V.cover('in')
    if bool(core.sand(t == b.domain[1], i >= b.size - 2)):
        V.cover('end')
        # left limit of the formula: N_{p-1,size-1} = 1 there, the others 0
        want = p / (kn[i + p] - kn[i]) if bool(i == b.size - 1) else -p / (kn[i + p + 1] - kn[i + 1])
        V.ensure('left derivative at the domain end', res == want)
    else:
        V.cover('inner')
        a = core.ite(i > 0, core.SReal(core.rterm(low(p - 1, i, t)) * core.to_real(p.t) / core.rterm(kn[i + p] - kn[i])), 0) if bool(i > 0) else 0
        c = core.SReal(core.rterm(low(p - 1, i + 1, t)) * core.to_real(p.t) / core.rterm(kn[i + p + 1] - kn[i + 1])) if bool(i < b.size - 1) else 0
        V.ensure('p (N_{p-1,i}/(t_{i+p}-t_i) - N_{p-1,i+1}/(t_{i+p+1}-t_{i+1}))', res == core.lift(a) - c)

def conc(V):
    r = V.rng
    p = r.randint(1, 6); kn = spl.random_knots(r, p); b = bs().SplineBasis(p, kn)
    t = spl.random_param(r, kn, p)
    V.used.update(degree=p, knots=kn, t=t)
    ref = reference_diff_end(kn, p, t)
    for j in range(b.size):
        V.eq('derivative of function %d' % j, b.eval_diff(j, t), float(ref[j]), tol=1e-6)
UNITS.append(Unit('contract of eval_diff over _basis, any degree', formula, [T + 'eval_diff'], BS, covers=['in', 'end', 'inner'], allshape=True, unbounded='degree, knot vector length and values, index, parameter',
                  assumes=['the classical derivative formula for B-splines of arbitrary degree (proved here by differentiation for degrees 1..4 only)']))

def reference_diff_end(kn, p, t):
    """exact one-sided derivative; the reference takes the last nonempty interval at the domain end"""
    kn_ = [spl.Fraction(x) for x in kn]; t = spl.Fraction(t)
    m = len(kn) - 1
    j = max(i for i in range(m) if kn_[i] < kn_[i + 1] and kn_[i] <= t)
    B = [spl.Fraction(0)] * m; B[j] = spl.Fraction(1); D = [spl.Fraction(0)] * m
    for d in range(1, p + 1):
        C = []; E = []
        for i in range(m - d):
            v = e = spl.Fraction(0)
            w = kn_[i + d] - kn_[i]
            if w: v += (t - kn_[i]) / w * B[i]; e += B[i] / w + (t - kn_[i]) / w * D[i]
            w = kn_[i + d + 1] - kn_[i + 1]
            if w: v += (kn_[i + d + 1] - t) / w * B[i + 1]; e += -B[i + 1] / w + (kn_[i + d + 1] - t) / w * D[i + 1]
            C.append(v); E.append(e)
        B, D = C, E
    return D

BOUND = 'degrees 1..7, up to 8 knot spans, interior multiplicity up to the degree, random, knot and end parameters; reference: differentiated Cox-de Boor recursion in exact fractions'
BSECS = 5; SHARDS = 3
def bounded(H):
    import numpy as np
    S = bs().SplineBasis
    k = 0
    while H.time_left():
        k += 1
        r = H.rng(k)
        p = r.randint(1, 7); kn = spl.random_knots(r, p)
        b = S(p, kn)
        for _ in range(4):
            t = spl.random_param(r, kn, p)
            H.case(dict(degree=p, knots=kn, t=t), (p, len(kn), t))
            ref = [float(x) for x in reference_diff_end(kn, p, t)]
            sc = max(1.0, max(abs(x) for x in ref))
            H.close([b.eval_diff(j, t) / sc for j in range(b.size)], [x / sc for x in ref], 'derivative', 'eval_diff')
            i = b.find_knot_interval(t)
            v = np.array(b.eval_diff_vector(i, t))
            H.close(v / sc, [x / sc for x in ref[i:i + p + 1]], 'vector', 'eval_diff_vector')
            H.close(v.sum() / sc, 0.0, 'sum', 'sum of derivatives')
            if hasattr(b, 'eval_diff_base_vector'):
                H.close(np.array(b.eval_diff_base_vector(i, t)) / sc, v / sc, 'fast path', 'eval_diff_base_vector')
