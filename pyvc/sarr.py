"""Arrays of symbolic length: rows given by a function of the (symbolic) index.
Quantified facts (sortedness, reductions, membership) are kept as index closures and instantiated
at the index terms that occur (ground instantiation: only weakens what is assumed, hence sound)."""
import z3
import numpy as real_np
from . import core, npshim
from .core import SInt, SReal, SBool, SNum, is_sym, ite, Unsupported, smax2, smin2, sand, sor, snot, lift, wrap as swrap

def iterm(x):
    if isinstance(x, SNum): 
        if not x.t.is_int(): raise IndexError("index is not an integer")
        return x.t
    if isinstance(x, z3.ExprRef): return x
    return z3.IntVal(int(x))

class Domain:
    """index facts: closures i -> SBool, instantiated at every index term of interest"""
    def __init__(self):
        self.terms = []
        self.facts = []
        self.pairs = []
    def touch(self, t):
        t = z3.simplify(t)
        for u in self.terms:
            if u.eq(t): return
        old = list(self.terms)
        self.terms.append(t)
        for f in list(self.facts): core.CTX.add(f(t))
        for g in list(self.pairs):
            for u in old:
                core.CTX.add(g(t, u)); core.CTX.add(g(u, t))
    def add_fact(self, f):
        self.facts.append(f)
        for t in list(self.terms): core.CTX.add(f(t))
    def add_pair(self, g):
        self.pairs.append(g)
        for a in self.terms:
            for b in self.terms:
                if not a.eq(b): core.CTX.add(g(a, b))

class SVec:
    """f: z3 int term -> row (scalar proxy, or numpy object array of shape `row`); n: length (z3 int term);
    dom: optional membership predicate (filtered rows)"""
    __array_priority__ = 1000
    def __init__(self, n, f, row=(), D=None, dom=None):
        self.n = n if isinstance(n, z3.ExprRef) else iterm(n)
        self.f, self.row, self.D, self.dom = f, tuple(row), D or Domain(), dom
        self._count = None
    # --- shape
    @property
    def length(self):
        if self.dom is None: return SInt(self.n)
        if self._count is None:
            c = core.CTX.fresh_int('count'); w = core.CTX.fresh_int('w')
            core.CTX.add(z3.And(c >= 0, z3.Implies(c > 0, z3.And(w >= 0, w < self.n, core.bterm(self.dom(w))))))
            self.D.touch(w)
            self.D.add_fact(lambda i: z3.Implies(z3.And(i >= 0, i < self.n, core.bterm(self.dom(i))), c > 0))
            self._count = c
        return SInt(self._count)
    @property
    def shape(self): return (self.length,) + self.row
    @property
    def ndim(self): return 1 + len(self.row)
    @property
    def size(self):
        s = self.length
        for r in self.row: s = s * r
        return s
    dtype = real_np.dtype(object)
    def __len__(self): raise Unsupported('len of a symbolic-length array (use shim len)')
    def vc_len(self): return self.length
    def at(self, i):
        self.D.touch(i)
        return self.f(i)
    # --- indexing
    def _index(self, i):
        t = iterm(i)
        if z3.is_int_value(t):
            if t.as_long() < 0: t = self.n + t
        elif core.CTX.fork(t < 0):
            t = self.n + t
        t = z3.simplify(t)
        if self.dom is not None: raise Unsupported('index of a filtered array')
        if not core.CTX.fork(z3.And(t >= 0, t < self.n)):
            raise IndexError("index out of bounds")
        return t
    def _slice(self, s):
        if s.step not in (None, 1): raise Unsupported('step')
        if s.start is None and s.stop is None: return self
        if self.dom is not None: raise Unsupported('slice of a filtered array')
        n = self.n
        def cl(x, d):
            if x is None: return d
            t = iterm(x)
            if z3.is_int_value(t): t = n + t if t.as_long() < 0 else t
            else: t = z3.If(t < 0, n + t, t)
            return z3.simplify(z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t)))
        a, b = cl(s.start, z3.IntVal(0)), cl(s.stop, n)
        m = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
        # resolve the case split where the path decides it
        if not z3.is_int_value(m) and z3.is_app_of(m, z3.Z3_OP_ITE):
            m = z3.simplify(b - a) if core.CTX.fork(b >= a) else z3.IntVal(0)
        m = _resolve(m); a = _resolve(a)
        f = self.f; D = self.D
        if z3.is_int_value(a) and a.as_long() == 0:
            return SVec(m, f, self.row, D)
        D2 = Domain()
        def g(i):
            D.touch(z3.simplify(a + i))
            return f(z3.simplify(a + i))
        r = SVec(m, g, self.row, D2)
        r.offset = (self, a)
        return r
    def __getitem__(self, idx):
        if isinstance(idx, tuple) and len(idx) == 1: idx = idx[0]
        if isinstance(idx, tuple):
            i, rest = idx[0], idx[1:]
            if isinstance(i, (SIdx, SVec)): return self[i][(slice(None),) + rest]
            if isinstance(i, slice):
                b = self._slice(i)
                if all(isinstance(r, slice) and r == slice(None) for r in rest): return b
                probe = real_np.empty(self.row, dtype=object)[rest]
                row = probe.shape if isinstance(probe, real_np.ndarray) else ()
                return SVec(b.n, lambda t: _row(b.f(t)[rest]), row, b.D, b.dom)
            r = self[i]
            return npshim.wrap(r)[rest] if isinstance(r, real_np.ndarray) else r[rest]
        if isinstance(idx, slice): return self._slice(idx)
        if isinstance(idx, SVec):     # boolean mask
            if self.dom is not None: raise Unsupported('mask of a filtered array')
            return SVec(self.n, self.f, self.row, self.D, dom=lambda t: npshim._b(idx.f(t)))
        if isinstance(idx, SIdx):
            return SVec(self.n, self.f, self.row, self.D, dom=idx.pred)
        if isinstance(idx, (list, real_np.ndarray)):
            return npshim.array([self[i] for i in idx])
        r = self.at(self._index(idx))
        return npshim.wrap(r)
    def __setitem__(self, idx, v):
        f = self.f
        if isinstance(idx, tuple):
            if isinstance(idx[0], slice) or not all(isinstance(r, slice) and r == slice(None) for r in idx[1:]): raise Unsupported('store')
            idx = idx[0]
        t = self._index(idx)
        if self.row:
            row = real_np.empty(self.row, dtype=object); row[...] = npshim.base(v) if isinstance(v, real_np.ndarray) else v
        else: row = v
        self.D.touch(t)
        def g(i):
            c = SBool(z3.simplify(i == t))
            if z3.is_true(c.t): return row
            if z3.is_false(c.t): return f(i)
            return _ite_row(c, row, f(i))
        self.f = g
    # --- elementwise
    def _map(self, op, *others, swap=False):
        D = self.D; n = self.n
        vecs = [o for o in others if isinstance(o, SVec)]
        args = (list(others) + [self]) if swap else ([self] + list(others))
        for v in vecs:
            if not core.CTX.fork(v.n == n): raise ValueError("operands could not be broadcast together")
            if v.D is not D: _link(D, v.D)
        doms = [v.dom for v in [self] + vecs if v.dom is not None]
        rank = max(len(v.row) for v in [self] + vecs)
        def g(i):
            xs = []
            for a in args:
                if isinstance(a, SVec): xs.append(a.f(i))
                elif isinstance(a, SMasked): xs.append(a)
                else: xs.append(npshim.base(a) if isinstance(a, real_np.ndarray) else a)
            return op(*xs)
        row = real_np.broadcast_shapes(*[a.row if isinstance(a, SVec) else (real_np.shape(a) if not is_sym(a) else ()) for a in args])
        return SVec(n, g, row, D, doms[0] if doms else None)
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if out is not None: raise Unsupported('ufunc out')
        name = ufunc.__name__
        if method == 'reduce':
            return reduce(inputs[0], name, kw.get('axis', 0))
        if method != '__call__': raise Unsupported('ufunc ' + method)
        sp = npshim.SPECIAL.get(name) or npshim.SPECIAL1.get(name)
        if sp is not None:
            op = lambda *xs: _row(real_np.frompyfunc(sp, len(xs), 1)(*xs))
        else:
            op = lambda *xs: _row(ufunc(*[real_np.asarray(x, dtype=object) for x in xs]))
        k = next(i for i, x in enumerate(inputs) if isinstance(x, SVec))
        me = inputs[k]
        if len(inputs) == 1: return me._map(op)
        other = inputs[1 - k]
        return me._map(op, other, swap=(k == 1))
    def __array_function__(self, func, types, args, kwargs):
        fn = FUNCS.get(func.__name__)
        if fn is None: raise Unsupported('numpy.%s on a symbolic-length array' % func.__name__)
        return fn(*args, **kwargs)
    def _op(self, name, o, swap=False):
        u = getattr(real_np, name)
        return self.__array_ufunc__(u, '__call__', *((o, self) if swap else (self, o)))
    def __add__(self, o): return self._op('add', o)
    def __radd__(self, o): return self._op('add', o, True)
    def __sub__(self, o): return self._op('subtract', o)
    def __rsub__(self, o): return self._op('subtract', o, True)
    def __mul__(self, o): return self._op('multiply', o)
    def __rmul__(self, o): return self._op('multiply', o, True)
    def __truediv__(self, o): return self._op('divide', o)
    def __neg__(self): return self._map(lambda x: -x)
    def __lt__(self, o): return self._op('less', o)
    def __le__(self, o): return self._op('less_equal', o)
    def __gt__(self, o): return self._op('greater', o)
    def __ge__(self, o): return self._op('greater_equal', o)
    def __eq__(self, o): return self._op('equal', o)
    def __ne__(self, o): return self._op('not_equal', o)
    __hash__ = None
    def __and__(self, o): return self._op('logical_and', o)
    def __or__(self, o): return self._op('logical_or', o)
    def __invert__(self): return self._map(lambda x: _row(real_np.frompyfunc(lambda y: snot(npshim._b(y)), 1, 1)(x)))
    def __bool__(self): raise ValueError("truth value of an array is ambiguous")
    def max(self, axis=None, **k): return reduce(self, 'maximum', axis)
    def min(self, axis=None, **k): return reduce(self, 'minimum', axis)
    def any(self, axis=None, **k): return reduce(self, 'logical_or', axis)
    def all(self, axis=None, **k): return reduce(self, 'logical_and', axis)
    def argmin(self, axis=None): return argmin(self, axis)
    def copy(self): return SVec(self.n, self.f, self.row, self.D, self.dom)
    def nonzero(self): return where(self)
    def _vc_searchsorted(self, v, side='left'):
        return searchsorted(self, v, side)
    def __iter__(self): raise Unsupported('iteration over a symbolic-length array')

class SMasked: pass

def _link(D1, D2):
    """two domains of equal length: share index terms"""
    for t in list(D1.terms): D2.touch(t)
    for t in list(D2.terms): D1.touch(t)
    D1.add_fact(lambda t: (D2.touch(t), z3.BoolVal(True))[1])
    D2.add_fact(lambda t: (D1.touch(t), z3.BoolVal(True))[1])

def _row(x):
    if isinstance(x, real_np.ndarray) and x.shape == (): return x.item()
    return x

def _ite_row(c, a, b):
    if isinstance(a, real_np.ndarray):
        return real_np.frompyfunc(lambda x, y: ite(c, x, y), 2, 1)(npshim.base(a), npshim.base(b))
    return ite(c, a, b)

def _resolve(t):
    """drop if-then-else of the clamping when the path condition decides it"""
    t = z3.simplify(t)
    k = 0
    while z3.is_app_of(t, z3.Z3_OP_ITE) and k < 6:
        k += 1
        t = z3.simplify(t.arg(1)) if core.CTX.fork(t.arg(0)) else z3.simplify(t.arg(2))
    return t

OPS = {'maximum': smax2, 'minimum': smin2, 'logical_or': lambda a, b: sor(npshim._b(a), npshim._b(b)), 'logical_and': lambda a, b: sand(npshim._b(a), npshim._b(b)),
       'add': lambda a, b: a + b}

def reduce(v, name, axis=None):
    op = OPS.get(name)
    if op is None: raise Unsupported('reduce ' + name)
    if axis is not None and axis not in (0,):
        ax = (axis if axis > 0 else axis + v.ndim) - 1
        if ax < 0: return reduce(v, name, 0)
        row = tuple(s for k, s in enumerate(v.row) if k != ax)
        return SVec(v.n, lambda i: npshim.reduce_axis(op, v.f(i), ax) if v.row else v.f(i), row, v.D, v.dom)
    if axis == 0 and v.row:
        out = real_np.empty(v.row, dtype=object)
        for ix in real_np.ndindex(*v.row):
            out[ix] = reduce(SVec(v.n, lambda i, ix=ix: v.f(i)[ix], (), v.D, v.dom), name, None)
        return npshim.wrap(out)
    # full reduction
    row = (lambda i: npshim.reduce_axis(op, v.f(i), None)) if v.row else v.f
    ctx = core.CTX
    inr = lambda i: z3.And(i >= 0, i < v.n, *([core.bterm(v.dom(i))] if v.dom else []))
    if name in ('maximum', 'minimum'):
        if not ctx.fork((v.length > 0).t if not z3.is_int_value(z3.simplify(v.length.t)) else z3.simplify(v.length.t > 0)):
            raise ValueError("zero-size array to reduction operation which has no identity")
        m = ctx.fresh_real(name[:3]); w = ctx.fresh_int('w')
        v.D.touch(w)
        ctx.add(inr(w)); ctx.add(m == core.rterm(row(w)))
        v.D.add_fact(lambda i: z3.Implies(inr(i), (core.rterm(row(i)) <= m) if name == 'maximum' else (core.rterm(row(i)) >= m)))
        return SReal(m)
    if name in ('logical_or', 'logical_and'):
        b = ctx.fresh_bool(name); w = ctx.fresh_int('w')
        v.D.touch(w)
        p = (lambda i: core.bterm(npshim._b(row(i))))
        if name == 'logical_or':
            ctx.add(z3.Implies(b, z3.And(inr(w), p(w))))
            v.D.add_fact(lambda i: z3.Implies(z3.And(inr(i), p(i)), b))
        else:
            ctx.add(z3.Implies(z3.Not(b), z3.And(inr(w), z3.Not(p(w)))))
            v.D.add_fact(lambda i: z3.Implies(z3.And(inr(i), z3.Not(p(i))), z3.Not(b)))
        return SBool(b)
    raise Unsupported('reduce ' + name)

def argmin(v, axis=None, sign=1):
    if v.row: raise Unsupported('argmin of a matrix')
    if not core.CTX.fork((v.length > 0).t): raise ValueError("attempt to get argmin of an empty sequence")
    if v.dom is not None: raise Unsupported('argmin of filtered')
    w = core.CTX.fresh_int('argmin')
    core.CTX.add(z3.And(w >= 0, w < v.n))
    v.D.touch(w)
    fw = core.rterm(v.f(w))
    cmp = (lambda x: fw <= x) if sign > 0 else (lambda x: fw >= x)
    v.D.add_fact(lambda i: z3.Implies(z3.And(i >= 0, i < v.n), cmp(core.rterm(v.f(i)))))
    return SInt(w)

class SIdx:
    """result of np.where(...)[0]: the increasing sequence of indices satisfying pred"""
    def __init__(self, n, pred, D): self.n, self.pred, self.D = n, pred, D
    def has(self, i):
        t = iterm(i); self.D.touch(t)
        return SBool(z3.And(t >= 0, t < self.n, core.bterm(self.pred(t))))
    @property
    def shape(self): return (SVec(self.n, lambda i: SInt(i), (), self.D, self.pred).length,)
    def vc_len(self): return self.shape[0]
    @property
    def size(self): return self.shape[0]
    def __getitem__(self, k): raise Unsupported('element of an index set')
    def __iter__(self): raise Unsupported('iteration over an index set')
    def tolist(self): return self

def where(c, *xy):
    if xy:
        x, y = xy
        vs = [v for v in (c, x, y) if isinstance(v, SVec)]
        me = vs[0]
        f = lambda a, b, d: ite(npshim._b(a), b, d)
        g = lambda i: _row(real_np.frompyfunc(f, 3, 1)(*[v.f(i) if isinstance(v, SVec) else (npshim.base(v) if isinstance(v, real_np.ndarray) else v) for v in (c, x, y)]))
        return SVec(me.n, g, real_np.broadcast_shapes(*[v.row if isinstance(v, SVec) else real_np.shape(v) for v in (c, x, y)]), me.D)
    if c.row: raise Unsupported('where of a matrix')
    if c.dom is not None: raise Unsupported('where of filtered')
    return (SIdx(c.n, lambda i: npshim._b(c.f(i)), c.D),)

def searchsorted(a, v, side='left'):
    """contract of numpy.searchsorted on a sorted array"""
    if isinstance(v, (list, tuple, real_np.ndarray)):
        return npshim.array([searchsorted(a, x, side) for x in v], dtype=int)
    ctx = core.CTX
    r = ctx.fresh_int('ss')
    ctx.add(z3.And(r >= 0, r <= a.n))
    vt = core.rterm(v)
    lo = z3.simplify(r - 1)
    def inst(i):
        x = core.rterm(a.at(i))
        below = (x <= vt) if side == 'right' else (x < vt)
        return z3.And(z3.Implies(z3.And(i >= 0, i < r), below), z3.Implies(z3.And(i >= r, i < a.n), z3.Not(below)))
    ctx.add(inst(lo)); ctx.add(inst(r))
    a.D.add_fact(inst)
    return SInt(r)

def append(a, b, axis=None):
    if not (isinstance(a, SVec) and isinstance(b, SVec)): 
        if isinstance(b, real_np.ndarray): b = from_array(b)
        if isinstance(a, real_np.ndarray): a = from_array(a)
    if axis != 0 and a.row: raise Unsupported('append axis')
    na = a.n
    n = z3.simplify(a.n + b.n)
    fa, fb = a.f, b.f
    def g(i):
        a.D.touch(i); 
        j = z3.simplify(i - na); b.D.touch(j)
        c = SBool(z3.simplify(i < na))
        if z3.is_true(c.t): return fa(i)
        if z3.is_false(c.t): return fb(j)
        return _ite_row(c, fa(i), fb(j))
    return SVec(n, g, a.row)

def concatenate(arrs, axis=0, **k):
    r = arrs[0]
    for b in arrs[1:]: r = append(r, b, axis)
    return r
def vstack(arrs): return concatenate(arrs, 0)

def from_array(b):
    b = npshim.base(b)
    def f(i):
        i = z3.simplify(i)
        if z3.is_int_value(i): return b[i.as_long()] if b.ndim > 1 else b[i.as_long()]
        r = b[len(b) - 1]
        for k in range(len(b) - 1): r = _ite_row(SBool(i == k), b[k], r)
        return r
    return SVec(z3.IntVal(len(b)), f, b.shape[1:])

def full(shape, v, dtype=None, **k):
    if isinstance(shape, tuple) and len(shape) and isinstance(shape[0], SInt) or isinstance(shape, SInt):
        sh = shape if isinstance(shape, tuple) else (shape,)
        row = tuple(int(s) for s in sh[1:])
        if row:
            r = real_np.empty(row, dtype=object); r.fill(v)
            return SVec(sh[0].t, lambda i: r, row)
        return SVec(sh[0].t, lambda i: v, ())
    return npshim.full(shape, v, dtype)

FUNCS = dict(amax=lambda a, axis=None, **k: reduce(a, 'maximum', axis), max=lambda a, axis=None, **k: reduce(a, 'maximum', axis),
             amin=lambda a, axis=None, **k: reduce(a, 'minimum', axis), min=lambda a, axis=None, **k: reduce(a, 'minimum', axis),
             any=lambda a, axis=None, **k: reduce(a, 'logical_or', axis), all=lambda a, axis=None, **k: reduce(a, 'logical_and', axis),
             argmin=lambda a, axis=None, **k: argmin(a, axis), argmax=lambda a, axis=None, **k: argmin(a, axis, -1),
             where=where, nonzero=where, flatnonzero=lambda c: where(c)[0], append=append, concatenate=concatenate, vstack=vstack, searchsorted=searchsorted,
             copy=lambda a: a.copy(), ravel=lambda a: a)

def sorted_vec(name, n, strict=False):
    """arbitrary nondecreasing vector of length n"""
    F = z3.Function(name, z3.IntSort(), z3.RealSort())
    D = Domain()
    core.CTX.vecs = getattr(core.CTX, 'vecs', {})
    v = SVec(n, lambda i: SReal(F(i)), (), D)
    D.add_pair(lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < v.n), (F(a) < F(b)) if strict else (F(a) <= F(b))))
    v.F = F
    return v

def matrix(name, n, cols):
    F = [z3.Function('%s_%d' % (name, k), z3.IntSort(), z3.RealSort()) for k in range(cols)]
    def f(i):
        r = real_np.empty(cols, dtype=object)
        for k in range(cols): r[k] = SReal(F[k](i))
        return r
    v = SVec(n, f, (cols,))
    v.F = F
    return v

def s_len(x):
    if hasattr(x, 'vc_len'): return x.vc_len()
    return len(x)
