"""shared: spline inputs for contract units and the independent reference (Cox-de Boor in exact fractions)"""
import importlib
from fractions import Fraction

BS = 'bgem.bspline.bspline'
def bs(): return importlib.import_module(BS)

def knots(V, p, n, tag='k', mult=False):
    """knot values: n intervals, ends repeated p+1 times, interior simple (or, mult, arbitrary gaps >= 0 with
    nonempty first/last..)"""
    k = [V.real(tag + '0')]
    for i in range(n):
        g = V.real('%sg%d' % (tag, i), lo=0) if mult else V.pos('%sg%d' % (tag, i))
        k.append(k[-1] + g)
    if mult: V.assume(k[-1] - k[0] > 0.01 if not V.symbolic else k[-1] > k[0])
    return [k[0]] * p + k + [k[-1]] * p

def interval_param(V, kn, p, i, tag='t', closed=True):
    """parameter in interval i (right end only in the last one)"""
    n = len(kn) - 2 * p - 1
    lo, hi = kn[p + i], kn[p + i + 1]
    if V.symbolic:
        t = V.real(tag)
        V.assume(t >= lo)
        V.assume(t <= hi if (i == n - 1 and closed) else t < hi)
        return t
    m = V.real(tag + '_m', lo=0, hi=1)
    if V.values.get(tag) is not None and not isinstance(V.values.get(tag), str):
        t = V.real(tag)
    else:
        t = lo + (hi - lo) * m
    if not (lo <= t and (t <= hi if (i == n - 1 and closed) else t < hi)):
        V.assume(False)
    return t

def reference(kn, p, t, last=True):
    """values of all basis functions at t, exact; right-open intervals, last one closed"""
    kn = [Fraction(x) for x in kn]; t = Fraction(t)
    m = len(kn) - 1
    B = [Fraction(0)] * m
    j = max(i for i in range(m) if kn[i] < kn[i + 1] and kn[i] <= t) 
    B[j] = Fraction(1)
    for d in range(1, p + 1):
        C = []
        for i in range(m - d):
            v = Fraction(0)
            if kn[i + d] != kn[i]: v += (t - kn[i]) / (kn[i + d] - kn[i]) * B[i]
            if kn[i + d + 1] != kn[i + 1]: v += (kn[i + d + 1] - t) / (kn[i + d + 1] - kn[i + 1]) * B[i + 1]
            C.append(v)
        B = C
    return B

def reference_diff(kn, p, t):
    """one-sided derivatives (interval found as above)"""
    kn_ = [Fraction(x) for x in kn]
    tt = Fraction(t)
    B = reference(kn, 0, t)
    for d in range(1, p):
        C = []
        for i in range(len(kn) - 1 - d):
            v = Fraction(0)
            if kn_[i + d] != kn_[i]: v += (tt - kn_[i]) / (kn_[i + d] - kn_[i]) * B[i]
            if kn_[i + d + 1] != kn_[i + 1]: v += (kn_[i + d + 1] - tt) / (kn_[i + d + 1] - kn_[i + 1]) * B[i + 1]
            C.append(v)
        B = C
    out = []
    for i in range(len(kn) - 1 - p):
        v = Fraction(0)
        if kn_[i + p] != kn_[i]: v += p * B[i] / (kn_[i + p] - kn_[i])
        if kn_[i + p + 1] != kn_[i + 1]: v -= p * B[i + 1] / (kn_[i + p + 1] - kn_[i + 1])
        out.append(v)
    return out

def random_knots(r, p, n=None, mult=None):
    """random valid knot vector: ends p+1 times, interior multiplicity up to max(1,p)"""
    n = n or r.choice([1, 2, 3, 4, 5, 8])
    mode = r.randrange(4)
    k0 = r.choice([0.0, r.uniform(-10, 10), float(r.randint(-3, 3))])
    if mode == 0: inner = [k0 + i + 1.0 for i in range(n)]
    elif mode == 1: inner = [k0 + (i + 1) / n for i in range(n)]
    else:
        x = k0; inner = []
        for i in range(n):
            x += r.choice([0.25, 1.0, r.uniform(0.01, 2), r.uniform(0.01, 2)]); inner.append(x)
    if mult is None: mult = r.random() < 0.25
    mid = inner[:-1]
    if mult and p > 1:
        mid = [q for q in mid for _ in range(r.randint(1, p))]
    return [k0] * (p + 1) + mid + [inner[-1]] * (p + 1)

def random_param(r, kn, p):
    u = sorted(set(kn))
    m = r.random()
    if m < 0.25: return r.choice(u)
    if m < 0.35: return kn[0]
    if m < 0.45: return kn[-1]
    i = r.randrange(len(u) - 1)
    if m < 0.55: return min(u[i + 1], max(u[i], u[i] + (u[i + 1] - u[i]) * r.choice([1e-9, 1 - 1e-9, 1e-6])))
    return u[i] + (u[i + 1] - u[i]) * r.random()
