"""numpy stand-in for symbolic runs: object arrays of symbolic scalars, real numpy for everything that
works on them, exact models for the rest (norm, inv, solve, det, allclose, where, comparisons)."""
import operator, functools, types
import numpy as real_np
from . import core
from .core import SNum, SBool, is_sym, ite, smax2, smin2, sand, sor, snot, Unsupported

CMP = {'less': operator.lt, 'less_equal': operator.le, 'greater': operator.gt, 'greater_equal': operator.ge,
       'equal': operator.eq, 'not_equal': operator.ne}
def _l(op):
    def f(a, b):
        if is_sym(a) or is_sym(b): return op(a if is_sym(a) else core.lift(a) if not core._isinf(a) else a, b)
        return bool(op(a, b))
    return f
def _b(x):
    if isinstance(x, SBool): return x
    if isinstance(x, SNum): return x != 0
    return bool(x)
SPECIAL = {
    'logical_and': lambda a, b: sand(_b(a), _b(b)), 'logical_or': lambda a, b: sor(_b(a), _b(b)),
    'bitwise_and': lambda a, b: sand(_b(a), _b(b)), 'bitwise_or': lambda a, b: sor(_b(a), _b(b)),
    'maximum': smax2, 'minimum': smin2, 'fmax': smax2, 'fmin': smin2,
    'floor_divide': lambda a, b: (core.lift(a) // b) if is_sym(a) or is_sym(b) else a // b,
    'true_divide': lambda a, b: (core.lift(a) / b) if is_sym(a) or is_sym(b) else a / b,
    'divide': lambda a, b: (core.lift(a) / b) if is_sym(a) or is_sym(b) else a / b,
    'remainder': lambda a, b: (core.lift(a) % b) if is_sym(a) or is_sym(b) else a % b,
    'power': lambda a, b: (core.lift(a) ** b) if is_sym(a) or is_sym(b) else a ** b,
    'arctan2': lambda a, b: arctan2(a, b),
}
SPECIAL['mod'] = SPECIAL['remainder']
for k, v in CMP.items(): SPECIAL[k] = _l(v)
SPECIAL1 = {
    'logical_not': lambda a: snot(_b(a)), 'invert': lambda a: snot(_b(a)),
    'sqrt': lambda a: a.sqrt() if is_sym(a) else real_np.sqrt(a),
    'floor': lambda a: a.floor() if is_sym(a) else real_np.floor(a),
    'ceil': lambda a: -((-a).floor()) if is_sym(a) else real_np.ceil(a),
    'absolute': abs, 'fabs': abs, 'square': lambda a: a * a,
    'isnan': lambda a: False if is_sym(a) else bool(real_np.isnan(a)),
    'isfinite': lambda a: True if is_sym(a) else bool(real_np.isfinite(a)),
    'sign': lambda a: ite(a > 0, 1, ite(a < 0, -1, 0)) if is_sym(a) else real_np.sign(a),
    'cos': lambda a: core_trig(a)[0], 'sin': lambda a: core_trig(a)[1],
}

def core_trig(a):
    """cos and sin as uninterpreted functions with cos^2 + sin^2 = 1 (plus shifts by pi/2 used by the code)"""
    if not is_sym(a): return real_np.cos(a), real_np.sin(a)
    ctx = core.CTX
    c, s = core.uf('cos', a), core.uf('sin', a)
    ctx.add((c * c + s * s == 1).t)
    return c, s

def arctan2(y, x):
    if not (is_sym(x) or is_sym(y)): return real_np.arctan2(y, x)
    raise Unsupported('arctan2')

def _el(fn, *arrs):
    out = real_np.frompyfunc(fn, len(arrs), 1)(*[base(a) for a in arrs])
    return wrap(out)

def base(a):
    return a.view(real_np.ndarray) if isinstance(a, SymArray) else a

def wrap(a):
    if isinstance(a, real_np.ndarray) and a.dtype == object and not isinstance(a, SymArray):
        return a.view(SymArray)
    return a

def has_sym(x):
    if is_sym(x): return True
    if isinstance(x, real_np.ndarray):
        return x.dtype == object and any(is_sym(y) for y in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False

class SymArray(real_np.ndarray):
    __array_priority__ = 100
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        ins = [base(i) if isinstance(i, real_np.ndarray) else i for i in inputs]
        fn = SPECIAL.get(name) or SPECIAL1.get(name)
        if method == '__call__':
            kw.pop('dtype', None)
            where = kw.pop('where', True)
            if where is not True: raise Unsupported('ufunc where')
            if fn is not None:
                res = real_np.frompyfunc(fn, len(ins), 1)(*ins)
            else:
                res = getattr(ufunc, method)(*ins, dtype=object, **kw)
            if out is not None:
                o = base(out[0])
                o[...] = res
                return out[0]
            return wrap(res)
        if method == 'reduce':
            axis = kw.get('axis', 0); keep = kw.get('keepdims', False)
            a = ins[0]
            if fn is not None:
                return wrap(reduce_axis(fn, a, axis, keep))
            kw.pop('dtype', None)
            res = getattr(ufunc, method)(*ins, **kw)
            return wrap(res)
        if method == 'outer':
            a, b = ins
            a = real_np.asarray(a); b = real_np.asarray(b)
            return wrap(ufunc(a.reshape(a.shape + (1,) * b.ndim), b, dtype=object))
        res = getattr(ufunc, method)(*ins, **kw)
        return wrap(res)

    def __array_function__(self, func, types_, args, kwargs):
        sp = FUNCS.get(func.__name__)
        if sp is not None: return sp(*args, **kwargs)
        args = _unsym(args); kwargs = {k: _unsym(v) for k, v in kwargs.items()}
        r = func(*args, **kwargs)
        return _rewrap(r)

    def __getitem__(self, idx):
        idx = conc_index(idx)
        r = real_np.ndarray.__getitem__(self, idx)
        return r
    def __setitem__(self, idx, v):
        idx = conc_index(idx)
        real_np.ndarray.__setitem__(self, idx, v)
    def copy(self, *a, **k):
        return wrap(base(self).copy())
    def dot(self, o): return dot(self, o)
    def max(self, axis=None, **k): return amax(self, axis)
    def min(self, axis=None, **k): return amin(self, axis)
    def all(self, axis=None, **k): return np_all(self, axis)
    def any(self, axis=None, **k): return np_any(self, axis)
    def mean(self, axis=None, **k): return average(self, axis)
    def astype(self, dt, **k):
        if dt in (int, real_np.int64, 'int'):
            return _el(to_int, self)
        return self.copy()
    def __float__(self):
        if self.shape == () : return float(self.item())
        return real_np.ndarray.__float__(self)

def _unsym(x):
    if isinstance(x, SymArray): return x.view(real_np.ndarray)
    if isinstance(x, list): return [_unsym(y) for y in x]
    if isinstance(x, tuple): return tuple(_unsym(y) for y in x)
    return x
def _rewrap(r):
    if isinstance(r, tuple): return tuple(_rewrap(x) for x in r)
    if isinstance(r, list): return [_rewrap(x) for x in r]
    return wrap(r)

def to_int(a):
    """int(): truncation"""
    if isinstance(a, core.SInt): return a
    if isinstance(a, SBool): return core.as_int(a)
    if isinstance(a, SNum):
        import z3
        t = a.t
        return core.SInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    return int(a)

def conc_index(idx):
    if isinstance(idx, tuple): return tuple(conc_index(i) for i in idx)
    if isinstance(idx, SymArray):
        f = base(idx).ravel()
        if any(isinstance(x, (SBool, bool, real_np.bool_)) for x in f):
            return real_np.array([bool(x) for x in f], dtype=bool).reshape(idx.shape)
        return real_np.array([int(x) for x in f], dtype=int).reshape(idx.shape)
    if isinstance(idx, list) and any(is_sym(i) for i in idx):
        return conc_index(array(idx))
    if isinstance(idx, SNum): return idx.__index__()
    return idx

def reduce_axis(fn, a, axis, keep=False):
    a = real_np.asarray(a)
    if axis is None:
        axis = tuple(range(a.ndim))
    if isinstance(axis, int): axis = (axis,)
    axis = tuple(x % a.ndim for x in axis)
    rest = [i for i in range(a.ndim) if i not in axis]
    b = a.transpose(rest + list(axis)).reshape([a.shape[i] for i in rest] + [-1])
    if b.shape[-1] == 0: raise ValueError("zero-size array to reduction operation")
    out = real_np.empty(b.shape[:-1], dtype=object)
    for i in real_np.ndindex(*out.shape):
        out[i] = functools.reduce(fn, list(b[i]))
    if out.shape == (): return out.item()
    if keep:
        out = out.reshape([1 if i in axis else a.shape[i] for i in range(a.ndim)])
    return out

# ------------------------------------------------------------ functions
def array(x, dtype=None, copy=True, **k):
    if _svec(x): return x.copy()
    if isinstance(x, real_np.ndarray) and x.dtype != object:
        r = real_np.array(x, **({} if dtype is None else {'dtype': dtype}))
        return r if r.dtype.kind in 'SUb' or (r.dtype.kind in 'iu') else wrap(r.astype(object))
    if isinstance(x, SymArray):
        if dtype in (int, 'int', real_np.int64): return x.astype(int)
        return x.copy()
    if not isinstance(x, (list, tuple, real_np.ndarray)) and hasattr(x, '__iter__'):
        x = list(x)
    try:
        probe = real_np.array(_unsym(x), dtype=object)
    except ValueError:
        raise
    if not any(is_sym(y) for y in probe.ravel()):
        r = real_np.array(_unsym(x), **({} if dtype is None else {'dtype': dtype}))
        if r.dtype == object and dtype is None:
            # came from object arrays of plain numbers
            return wrap(r)
        if r.dtype.kind == 'f': return wrap(r.astype(object))
        return r
    if dtype is not object and any(isinstance(y, (list, tuple, real_np.ndarray)) for y in probe.ravel()):
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    if dtype in (int, 'int', real_np.int64): return _el(to_int, probe)
    return wrap(probe)

def asarray(x, dtype=None): 
    return x if isinstance(x, SymArray) or _svec(x) else array(x, dtype)

def _dt_int(dtype):
    return dtype in (int, 'int', 'i', real_np.int64, real_np.int32) or dtype in (bool, real_np.bool_, str)

def zeros(shape, dtype=float, **k):
    if _dt_int(dtype): return real_np.zeros(cshape(shape), dtype)
    r = real_np.empty(cshape(shape), dtype=object); r.fill(0.0)
    return wrap(r)
def ones(shape, dtype=float, **k):
    if _dt_int(dtype): return real_np.ones(cshape(shape), dtype)
    r = real_np.empty(cshape(shape), dtype=object); r.fill(1.0)
    return wrap(r)
def empty(shape, dtype=float, **k): return zeros(shape, dtype)
def full(shape, v, dtype=None, **k):
    r = real_np.empty(cshape(shape), dtype=object); r.fill(v)
    return wrap(r)
def zeros_like(a, dtype=None, **k): return zeros(real_np.shape(a), dtype or float)
def ones_like(a, dtype=None, **k): return ones(real_np.shape(a), dtype or float)
def empty_like(a, dtype=None, **k): return zeros(real_np.shape(a), dtype or float)
def full_like(a, v, **k): return full(real_np.shape(a), v)
def cshape(s):
    if isinstance(s, (tuple, list)): return tuple(int(i) for i in s)
    return int(s)
def eye(n, **k): return wrap(real_np.eye(n).astype(object))
def linspace(a, b, n=50, **k):
    return array([a + (b - a) * core.Fraction(i, n - 1) if (is_sym(a) or is_sym(b)) else real_np.linspace(a, b, n)[i] for i in range(n)])

def amax(a, axis=None, **k):
    a = array(a) if not isinstance(a, real_np.ndarray) else a
    return wrap(reduce_axis(smax2, base(a), axis)) if isinstance(a, SymArray) else real_np.amax(a, axis=axis)
def amin(a, axis=None, **k):
    a = array(a) if not isinstance(a, real_np.ndarray) else a
    return wrap(reduce_axis(smin2, base(a), axis)) if isinstance(a, SymArray) else real_np.amin(a, axis=axis)
def np_all(a, axis=None, **k):
    if isinstance(a, SymArray): return wrap(reduce_axis(lambda x, y: sand(_b(x), _b(y)), base(a), axis)) if a.size else True
    if is_sym(a): return _b(a)
    if isinstance(a, (list, tuple)): return np_all(array(a), axis)
    return real_np.all(a, axis=axis)
def np_any(a, axis=None, **k):
    if isinstance(a, SymArray): return wrap(reduce_axis(lambda x, y: sor(_b(x), _b(y)), base(a), axis)) if a.size else False
    if is_sym(a): return _b(a)
    if isinstance(a, (list, tuple)): return np_any(array(a), axis)
    return real_np.any(a, axis=axis)
def where(c, *xy):
    if not xy:
        if isinstance(c, SymArray):
            c = real_np.array([bool(x) for x in base(c).ravel()], dtype=bool).reshape(c.shape)
        return real_np.where(c)
    x, y = xy
    if isinstance(c, SymArray) or is_sym(c) or has_sym(x) or has_sym(y):
        return wrap(real_np.frompyfunc(lambda a, b, d: ite(_b(a), b, d), 3, 1)(base(c) if isinstance(c, real_np.ndarray) else c, base(x), base(y)))
    return real_np.where(c, x, y)
def flatnonzero(c): return where(real_np.ravel(c) if not isinstance(c, SymArray) else c.ravel())[0]
def nonzero(c): return where(c)
def argmin(a, axis=None, **k):
    if not isinstance(a, SymArray): a = array(a)
    if not isinstance(a, SymArray) : return real_np.argmin(a, axis=axis)
    if axis is not None and a.ndim > 1: raise Unsupported('argmin axis')
    f = base(a).ravel(); b = 0
    for i in range(1, len(f)):
        if bool(f[i] < f[b]): b = i
    return b
def argmax(a, axis=None, **k):
    if not isinstance(a, SymArray): a = array(a)
    if not isinstance(a, SymArray):
        return real_np.argmax(a, axis=axis)
    if axis is not None and a.ndim > 1: raise Unsupported('argmax axis')
    f = base(a).ravel(); b = 0
    for i in range(1, len(f)):
        if bool(f[i] > f[b]): b = i
    return b
def dot(a, b):
    if isinstance(a, real_np.ndarray) or isinstance(b, real_np.ndarray):
        return wrap(real_np.dot(base(real_np.asarray(a)) if not isinstance(a, SymArray) else base(a), base(b) if isinstance(b, real_np.ndarray) else real_np.asarray(b)))
    return wrap(real_np.dot(array(a), array(b)))
def inner(a, b):
    a = base(asarray(a)); b = base(asarray(b))
    return wrap(real_np.inner(a.astype(object), b.astype(object)))
def average(a, axis=None, weights=None, **k):
    a = asarray(a)
    if weights is not None: raise Unsupported('weights')
    s = real_np.sum(base(a), axis=axis)
    n = a.size if axis is None else real_np.prod([a.shape[i] for i in ((axis,) if isinstance(axis, int) else axis)])
    return wrap(s / int(n)) if isinstance(s, real_np.ndarray) else s / int(n)
def np_sum(a, axis=None, **k):
    a = asarray(a)
    if isinstance(a, SymArray) and a.dtype == object:
        r = real_np.sum(base(a), axis=axis)
        return wrap(r)
    return real_np.sum(a, axis=axis)
def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = real_np.broadcast_arrays(base(asarray(a)), base(asarray(b)))
    return sand(*[_isclose(x, y, rtol, atol) for x, y in zip(a.ravel(), b.ravel())])
def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if is_sym(a) or is_sym(b): return _isclose(a, b, rtol, atol)
    a, b = real_np.broadcast_arrays(base(asarray(a)), base(asarray(b)))
    r = real_np.frompyfunc(lambda x, y: _isclose(x, y, rtol, atol), 2, 1)(a, b)
    return wrap(r)
def _isclose(x, y, rtol, atol):
    return abs(core.lift(x) - y) <= core.lift(atol) + core.lift(rtol) * abs(core.lift(y))
def array_equal(a, b):
    a = asarray(a); b = asarray(b)
    if a.shape != b.shape: return False
    return sand(*[x == y for x, y in zip(a.ravel(), b.ravel())])
def searchsorted(a, v, side='left', sorter=None):
    if hasattr(a, '_vc_searchsorted'): return a._vc_searchsorted(v, side)
    a = asarray(a)
    scalar = not isinstance(v, (list, tuple, real_np.ndarray))
    vs = [v] if scalar else list(base(asarray(v)).ravel())
    out = []
    for x in vs:
        n = 0
        for y in base(a):
            if bool((core.lift(y) <= x) if side == 'right' else (core.lift(y) < x)): n += 1
            else: break
        out.append(n)
    return out[0] if scalar else real_np.array(out)
def cross(a, b, **k):
    return wrap(real_np.cross(base(asarray(a)).astype(object), base(asarray(b)).astype(object)))
def outer(a, b): 
    a = base(asarray(a)).astype(object).ravel(); b = base(asarray(b)).astype(object).ravel()
    return wrap(a[:, None] * b[None, :])
def clip(a, lo, hi, **k):
    if isinstance(a, real_np.ndarray) or has_sym(a):
        f = real_np.frompyfunc(lambda x, l, h: smin2(smax2(x, l), h), 3, 1)
        return wrap(f(base(asarray(a)), lo, hi))
    return smin2(smax2(a, lo), hi)
def atleast_1d(*a):
    if len(a) == 1 and is_sym(a[0]): return array([a[0]])
    return _rewrap(real_np.atleast_1d(*_unsym(a)))
def concatenate(arrs, axis=0, **k):
    arrs = [base(asarray(a)) for a in arrs]
    if any(a.dtype == object for a in arrs): arrs = [a.astype(object) for a in arrs]
    return wrap(real_np.concatenate(arrs, axis=axis))
def np_abs(a):
    if isinstance(a, real_np.ndarray): return _el(abs, a) if isinstance(a, SymArray) else real_np.abs(a)
    if isinstance(a, (list, tuple)): return np_abs(asarray(a))
    return abs(a)
def prod(a, **k):
    r = 1
    for x in base(asarray(a)).ravel(): r = r * x
    return r
def kron(a, b):
    a = base(asarray(a)).astype(object); b = base(asarray(b)).astype(object)
    return wrap(real_np.kron(a, b))
def _u1(name):
    fn = SPECIAL1[name]
    def f(a, *r, **k):
        if _svec(a): return a.__array_ufunc__(getattr(real_np, name), '__call__', a)
        if isinstance(a, SymArray): return _el(fn, a)
        if is_sym(a): return fn(a)
        if isinstance(a, (list, tuple)) and has_sym(a): return _el(fn, array(a))
        return getattr(real_np, name)(a, *r, **k)
    return f
def _u2(name):
    fn = SPECIAL[name]
    def f(a, b, *r, **k):
        if _svec(a) or _svec(b): return (a if _svec(a) else b).__array_ufunc__(getattr(real_np, name), '__call__', a, b)
        if isinstance(a, SymArray) or isinstance(b, SymArray) or has_sym(a) or has_sym(b):
            if not isinstance(a, (real_np.ndarray, list, tuple)) and not isinstance(b, (real_np.ndarray, list, tuple)):
                return fn(a, b)
            x = base(asarray(a)) if isinstance(a, (list, tuple, real_np.ndarray)) else a
            y = base(asarray(b)) if isinstance(b, (list, tuple, real_np.ndarray)) else b
            return wrap(real_np.frompyfunc(fn, 2, 1)(x, y))
        return getattr(real_np, name)(a, b, *r, **k)
    return f

# ---- linear algebra
def norm(x, ord=None, axis=None, **k):
    x = asarray(x)
    if not isinstance(x, SymArray): x = wrap(x.astype(object))
    if axis is not None:
        b = base(x)
        b = real_np.moveaxis(b, axis, -1)
        out = real_np.empty(b.shape[:-1], dtype=object)
        for i in real_np.ndindex(*out.shape): out[i] = norm(wrap(b[i].copy()), ord)
        return wrap(out)
    f = list(base(x).ravel())
    if ord in (real_np.inf, float('inf')):
        return functools.reduce(smax2, [abs(y) for y in f])
    if ord == 1: return sum(abs(y) for y in f)
    if ord not in (None, 2): raise Unsupported('norm ord')
    s = 0
    for y in f: s = s + y * y
    return s.sqrt() if is_sym(s) else float(s) ** 0.5
def det(m):
    m = base(asarray(m)); n = m.shape[0]
    if n == 1: return m[0, 0]
    if n == 2: return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    r = 0
    for j in range(n):
        mm = real_np.delete(m[1:], j, axis=1)
        r = r + (-1) ** j * m[0, j] * det(wrap(mm.copy()))
    return r
def inv(m):
    m = asarray(m); n = m.shape[0]
    d = core.lift(det(m))
    if bool(d == 0): raise real_np.linalg.LinAlgError("Singular matrix")
    b = base(m)
    out = real_np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = real_np.delete(real_np.delete(b, j, axis=0), i, axis=1)
            out[i, j] = ((-1) ** (i + j) * (det(wrap(minor.copy())) if n > 1 else 1)) / d
    return wrap(out)
def solve(m, rhs):
    m = asarray(m); n = m.shape[0]; b = base(m); r = base(asarray(rhs))
    if r.ndim != 1: raise Unsupported('solve')
    d = core.lift(det(m))
    if bool(d == 0): raise real_np.linalg.LinAlgError("Singular matrix")
    out = real_np.empty(n, dtype=object)
    for j in range(n):
        mm = b.astype(object).copy(); mm[:, j] = r
        out[j] = det(wrap(mm)) / d
    return wrap(out)

FUNCS = dict(amax=amax, max=amax, amin=amin, min=amin, nanmin=amin, nanmax=amax, all=np_all, any=np_any, where=where, argmin=argmin, argmax=argmax,
             dot=dot, inner=inner, average=average, mean=average, sum=np_sum, allclose=allclose, isclose=isclose,
             array_equal=array_equal, searchsorted=searchsorted, cross=cross, outer=outer, clip=clip, concatenate=concatenate,
             atleast_1d=atleast_1d, prod=prod, kron=kron, norm=norm, det=det, inv=inv, solve=solve, linspace=linspace,
             zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like, flatnonzero=flatnonzero, nonzero=nonzero)

class LA:
    LinAlgError = real_np.linalg.LinAlgError
    norm = staticmethod(norm); det = staticmethod(det); inv = staticmethod(inv); solve = staticmethod(solve)
    def __getattr__(self, n):
        def f(*a, **k): raise Unsupported('linalg.' + n)
        return f

def _svec(x):
    return type(x).__name__ == 'SVec'
def _disp(name, fn):
    @functools.wraps(fn)
    def f(*a, **k):
        from . import sarr
        if any(_svec(x) for x in a) or (a and isinstance(a[0], (list, tuple)) and any(_svec(x) for x in a[0])):
            g = sarr.FUNCS.get(name)
            if g is None: raise Unsupported('numpy.%s on a symbolic-length array' % name)
            return g(*a, **k)
        return fn(*a, **k)
    return f

class NP:
    linalg = LA()
    array = staticmethod(array); asarray = staticmethod(asarray); zeros = staticmethod(zeros); ones = staticmethod(ones)
    empty = staticmethod(empty);  eye = staticmethod(eye); linspace = staticmethod(linspace)
    abs = staticmethod(np_abs); absolute = staticmethod(np_abs); fabs = staticmethod(np_abs)
    @staticmethod
    def full(*a, **k):
        from . import sarr
        return sarr.full(*a, **k)
    def __getattr__(self, name):
        if name in ('append', 'vstack'): return _disp(name, lambda *a, **k: _rewrap(getattr(real_np, name)(*_unsym(a), **k)))
        if name in FUNCS: return _disp(name, FUNCS[name])
        if name in SPECIAL and name not in ('arctan2',): return _u2(name)
        if name in SPECIAL1: return _u1(name)
        if name == 'arctan2': return arctan2
        if name == 'angle': return angle
        obj = getattr(real_np, name)
        if name == 'reshape': return lambda a, *s, **k: a.vc_reshape(*s) if hasattr(a, 'vc_reshape') else _rewrap(obj(*_unsym((a,) + s), **k))
        if isinstance(obj, (types.FunctionType, types.BuiltinFunctionType)) or type(obj).__name__ in ('_ArrayFunctionDispatcher',):
            @functools.wraps(obj)
            def f(*a, **k):
                return _rewrap(obj(*_unsym(a), **{x: _unsym(y) for x, y in k.items()}))
            return f
        return obj

class SComplex:
    def __init__(self, re, im): self.re, self.im = re, im

def complex_(re=0, im=0):
    if is_sym(re) or is_sym(im): return SComplex(re, im)
    return complex(re, im)

ANGLE_HOOK = None
def angle(z):
    if isinstance(z, SComplex):
        if ANGLE_HOOK is None: raise Unsupported('angle')
        return ANGLE_HOOK(z.re, z.im)
    return real_np.angle(z)

# ---- builtins
def s_float(x=0.0):
    if is_sym(x): return core.SReal(core.rterm(x))
    if isinstance(x, SymArray) and x.shape == (): return s_float(x.item())
    if isinstance(x, SymArray) and x.size == 1: return s_float(x.ravel()[0])
    if isinstance(x, str) and '\u27e6' in x:
        return detoken(x, float)
    return float(x)
def s_int(x=0, *a):
    if is_sym(x): return to_int(x)
    if isinstance(x, SymArray) and x.size == 1: return s_int(x.ravel()[0])
    if isinstance(x, str) and '\u27e6' in x:
        return detoken(x, int)
    return int(x, *a)
def detoken(s, kind):
    s = s.strip()
    v = core.CTX.tokens.get(s)
    if v is None: raise ValueError("could not convert string: %r" % s)
    if kind is int and not isinstance(v, core.SInt): raise ValueError("invalid literal for int(): %r" % s)
    if kind is float and isinstance(v, core.SInt): return core.SReal(core.rterm(v))
    return v
def s_max(*a, key=None, default=None):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is None and any(is_sym(x) for x in xs):
        return functools.reduce(smax2, xs)
    if key is not None: return max(xs, key=key)
    return max(xs) if xs or default is None else default
def s_min(*a, key=None, default=None):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is None and any(is_sym(x) for x in xs):
        return functools.reduce(smin2, xs)
    if key is not None: return min(xs, key=key)
    return min(xs) if xs or default is None else default

class _FakeType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or isinstance(x, cls._sym)
    def __eq__(cls, o): return o is cls or o is cls._real
    def __hash__(cls): return hash(cls._real)
class s_float_t(metaclass=_FakeType):
    _real = float; _sym = core.SReal
    def __new__(cls, x=0.0): return s_float(x)
class s_int_t(metaclass=_FakeType):
    _real = int; _sym = core.SInt
    def __new__(cls, x=0, *a): return s_int(x, *a)

class SMath:
    import math as _m
    def sqrt(self, x): return x.sqrt() if is_sym(x) else self._m.sqrt(x)
    def floor(self, x): return to_int(x.floor()) if is_sym(x) else self._m.floor(x)
    def fabs(self, x): return abs(x)
    def __getattr__(self, n):
        f = getattr(self._m, n)
        if callable(f):
            def g(*a):
                if any(is_sym(x) for x in a): raise Unsupported('math.' + n)
                return f(*a)
            return g
        return f

def s_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for y in ts:
        if isinstance(y, tuple):
            if s_isinstance(x, y): return True
            continue
        if isinstance(x, core.SReal) and y in (float, real_np.float64, real_np.floating, s_float_t): return True
        if isinstance(x, core.SInt) and y in (int, real_np.int64, real_np.integer, s_int_t): return True
        if isinstance(x, SNum) and getattr(y, '__name__', '') in ('Number', 'Real'): return True
        if isinstance(x, SBool) and y is bool: return True
        if y is s_float_t: y = float
        if y is s_int_t: y = int
        if isinstance(x, y): return True
    return False

def s_len(x):
    return x.vc_len() if hasattr(x, 'vc_len') else len(x)
SHIMS = dict(len=s_len, float=s_float_t, int=s_int_t, max=s_max, min=s_min, isinstance=s_isinstance, complex=complex_)

def install(mod, extra=None):
    """rebind the numpy/linalg/math/builtin names of a module to the shims"""
    np_ = NP()
    for k, v in list(vars(mod).items()):
        if v is real_np: setattr(mod, k, np_)
        elif v is real_np.linalg: setattr(mod, k, np_.linalg)
        elif isinstance(v, types.ModuleType) and v.__name__ == 'math': setattr(mod, k, SMath())
    for k, v in SHIMS.items():
        if k not in vars(mod): setattr(mod, k, v)
    for k, v in (extra or {}).items(): setattr(mod, k, v)
    for k, v in list(vars(mod).items()):
        if isinstance(v, real_np.ndarray) and v.dtype.kind == 'f':
            setattr(mod, k, wrap(v.astype(object)))
