"""Decision of equalities between rational functions by normalisation (denominators are known nonzero
because every division forks on a zero divisor)."""
from fractions import Fraction
import z3

class Giveup(Exception): pass
LIMIT = 60000

def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        w = r.get(k, 0) + s * v
        if w: r[k] = w
        else: r.pop(k, None)
    return r

def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for v, e in n: d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))

def pmul(a, b):
    if len(a) * len(b) > LIMIT * 4: raise Giveup()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            w = r.get(k, 0) + c * d
            if w: r[k] = w
            else: r.pop(k, None)
    if len(r) > LIMIT: raise Giveup()
    return r

ONE = {(): Fraction(1)}

def pkey(p): return tuple(sorted(p.items()))

class Norm:
    def __init__(self, subst=None):
        self.cache = {}
        self.polys = {}
        self.subst = subst or {}

    def expand(self, fac):
        r = ONE
        for k, e in fac.items():
            for _ in range(e): r = pmul(r, self.polys[k])
        return r

    def frac(self, t):
        k = t.get_id()
        if k not in self.cache: self.cache[k] = (self._frac(t), t)
        return self.cache[k][0]

    def _frac(self, t):
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return ({(): f} if f else {}, {})
        if z3.is_int_value(t):
            f = Fraction(t.as_long())
            return ({(): f} if f else {}, {})
        kd = t.decl().kind()
        if kd == z3.Z3_OP_TO_REAL: 
            return self.frac(t.arg(0))
        if kd == z3.Z3_OP_ADD:
            r = self.frac(t.arg(0))
            for c in t.children()[1:]: r = self.addf(r, self.frac(c))
            return r
        if kd == z3.Z3_OP_SUB:
            r = self.frac(t.arg(0))
            for c in t.children()[1:]: r = self.addf(r, self.frac(c), -1)
            return r
        if kd == z3.Z3_OP_UMINUS:
            n, d = self.frac(t.arg(0))
            return ({k: -v for k, v in n.items()}, d)
        if kd == z3.Z3_OP_MUL:
            r = self.frac(t.arg(0))
            for c in t.children()[1:]: r = self.mulf(r, self.frac(c))
            return r
        if kd == z3.Z3_OP_DIV:
            a = self.frac(t.arg(0)); b = self.frac(t.arg(1))
            bn, bd = b
            if not bn: raise Giveup()
            inv = self.expand(bd)
            if len(bn) == 1 and () in bn:
                return (pmul(pmul(a[0], inv), {(): 1 / bn[()]}), a[1])
            # normalise leading coefficient
            key0 = max(bn)
            c = bn[key0]
            bn = {k: v / c for k, v in bn.items()}
            kk = pkey(bn); self.polys[kk] = bn
            d = dict(a[1]); d[kk] = d.get(kk, 0) + 1
            return (pmul(pmul(a[0], inv), {(): 1 / c}), d)
        if kd == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)):
            r = ({(): Fraction(1)}, {})
            for _ in range(t.arg(1).as_long()): r = self.mulf(r, self.frac(t.arg(0)))
            return r
        if kd == z3.Z3_OP_UNINTERPRETED:
            return ({((t.sexpr(), 1),): Fraction(1)}, {})
        if kd == z3.Z3_OP_ITE: return ({(('ite%d' % t.get_id(), 1),): Fraction(1)}, {})
        raise Giveup()

    def mulf(self, a, b):
        d = dict(a[1])
        for k, e in b[1].items(): d[k] = d.get(k, 0) + e
        return (pmul(a[0], b[0]), d)

    def addf(self, a, b, s=1):
        l = dict(a[1])
        for k, e in b[1].items(): l[k] = max(l.get(k, 0), e)
        fa = {k: e - a[1].get(k, 0) for k, e in l.items() if e > a[1].get(k, 0)}
        fb = {k: e - b[1].get(k, 0) for k, e in l.items() if e > b[1].get(k, 0)}
        return (padd(pmul(a[0], self.expand(fa)), pmul(b[0], self.expand(fb)), s), l)

def try_equal(pc, goal):
    try:
        if not z3.is_eq(goal): return False
        a, b = goal.arg(0), goal.arg(1)
        if not z3.is_arith(a): return False
        n = Norm()
        num, den = n.addf(n.frac(a), n.frac(b), -1)
        if not num: return True
        # use simple variable equalities of the path condition
        sub = []
        for c in pc:
            if z3.is_eq(c) and z3.is_arith(c.arg(0)):
                l, r = c.arg(0), c.arg(1)
                if z3.is_const(l) and l.decl().kind() == z3.Z3_OP_UNINTERPRETED: sub.append((l, r))
                elif z3.is_const(r) and r.decl().kind() == z3.Z3_OP_UNINTERPRETED: sub.append((r, l))
        if sub:
            g = goal
            for x, y in sub:
                if x.sort() == y.sort(): g = z3.substitute(g, (x, y))
            n = Norm()
            num, den = n.addf(n.frac(g.arg(0)), n.frac(g.arg(1)), -1)
            return not num
        return False
    except Giveup:
        return False
    except z3.Z3Exception:
        return False
