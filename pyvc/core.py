"""
pyvc core: path-complete symbolic execution of the real Python functions with contracts.

A *unit* is a Python function `unit(V)` that obtains its inputs from `V`, states preconditions with
`V.assume`, calls the real code of /repo and states postconditions with `V.ensure` / `V.eq`.
The same unit runs in three modes:
  Sym     inputs are z3 terms wrapped in proxies; every feasible path is enumerated, every `ensure`
          becomes one proof obligation per path (path condition => condition)
  Conc    inputs come from a z3 counter-model (replay on the real code with the real numpy)
  Rand    inputs are random (bounded cross-check of engine and contract on the real code)
"""
import os, sys, time, math, random, re, subprocess, tempfile
from fractions import Fraction
import z3

class Kill(BaseException):
    """The current path is finished (infeasible or cut)."""
class Unsupported(BaseException):
    """The code under verification left the supported subset."""
class Skip(BaseException):
    """Concrete mode: the sample does not meet the precondition."""
class Timeout(BaseException):
    pass

CTX = None          # active symbolic context


# ----------------------------------------------------------------- terms
def is_sym(x):
    return isinstance(x, (SNum, SBool))

def _frac(x):
    return Fraction(x)

def real_val(x):
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)

def _num(x):
    """any number -> (term, is_int) or None"""
    if isinstance(x, SInt):
        return x.t, True
    if isinstance(x, SReal):
        return x.t, False
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0)), True
    if isinstance(x, bool):
        return z3.IntVal(int(x)), True
    if isinstance(x, int):
        return z3.IntVal(x), True
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return real_val(x), False
    if isinstance(x, Fraction):
        return real_val(x), False
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        k = x.dtype.kind
        if k in 'iu':
            return z3.IntVal(int(x)), True
        if k == 'b':
            return z3.IntVal(int(x)), True
        if k == 'f':
            return _num(float(x))
        if k == 'O':
            return _num(x.item())
    return None

MEMO = {}
def memo(key, keep, make):
    """terms built again on every path are kept (key: ids of the terms `keep`)"""
    m = MEMO.get(key)
    if m is None:
        if len(MEMO) > 300000: MEMO.clear()
        m = MEMO[key] = (make(), keep)
    return m[0]
def _small(x):
    """key of a number argument, or None"""
    if isinstance(x, SInt): return x.t.get_id()
    if type(x) is int: return ('n', x)
    return None
def to_real(t):
    return z3.ToReal(t) if t.is_int() else t

def wrap(t):
    if z3.is_bool(t):
        return SBool(t)
    if t.is_int():
        return SInt(t)
    return SReal(t)

def term(x):
    """z3 term of any scalar"""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool) or type(x).__name__ in ('bool_', 'bool'):
        return z3.BoolVal(bool(x))
    r = _num(x)
    if r is None:
        raise Unsupported("no term for %r" % (type(x),))
    return r[0]

def rterm(x):
    return to_real(term(x))

def bterm(x):
    if isinstance(x, SBool):
        return x.t
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))

def _isinf(o):
    return isinstance(o, float) and (math.isinf(o)) or (hasattr(o, 'dtype') and getattr(o, 'shape', None) == () and o.dtype.kind == 'f' and math.isinf(float(o)))

class SNum:
    __slots__ = ('t',)
    __hash__ = None
    # ---- arithmetic
    def _bin(self, o, fn, intfn=None):
        if isinstance(self, SInt):
            k = _small(o)
            if k is not None: return memo((fn.__code__, self.t.get_id(), k), (self.t, o), lambda: wrap(z3.simplify(fn(self.t, _num(o)[0]))))
        r = _num(o)
        if r is None:
            return NotImplemented
        a, b = self.t, r[0]
        if not (a.is_int() and b.is_int()):
            a, b = to_real(a), to_real(b)
        return wrap(z3.simplify(fn(a, b)))
    def __add__(self, o):
        if _isinf(o): return float(o)
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o):
        if _isinf(o): return -float(o)
        return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o):
        if _isinf(o): return float(o)
        return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o):
        r = _num(o)
        if r is None: return NotImplemented
        return _div(to_real(self.t), to_real(r[0]))
    def __rtruediv__(self, o):
        r = _num(o)
        if r is None: return NotImplemented
        return _div(to_real(r[0]), to_real(self.t))
    def __neg__(self): return wrap(z3.simplify(-self.t))
    def __pos__(self): return self
    def __abs__(self):
        if CTX is not None and CTX.ring_sqrt: return self if CTX.fork(self.t >= 0) else -self
        return wrap(z3.simplify(z3.If(self.t >= 0, self.t, -self.t)))
    def __pow__(self, o):
        if isinstance(o, SNum): raise Unsupported("symbolic exponent")
        o = o.item() if hasattr(o, 'item') else o
        if isinstance(o, float) and o.is_integer(): o = int(o)
        if isinstance(o, int):
            if o == 0: return SReal(z3.RealVal(1)) if not self.t.is_int() else SInt(z3.IntVal(1))
            if o < 0: return 1 / (self ** (-o))
            r = self
            for _ in range(o - 1): r = r * self
            return r
        if o == 0.5: return self.sqrt()
        return uf_pow(self, o)
    def __mod__(self, o):
        r = _num(o)
        if r is None: return NotImplemented
        a, b = self.t, r[0]
        if a.is_int() and b.is_int():
            if CTX.fork(b == 0): raise ZeroDivisionError("modulo by zero")
            if CTX.fork(b > 0): return wrap(a % b)
            return wrap(-((-a) % (-b)))
        q = (self / o).floor()
        return self - q * o
    def __rmod__(self, o):
        return lift(o).__mod__(self)
    def __floordiv__(self, o):
        r = _num(o)
        if r is None: return NotImplemented
        a, b = self.t, r[0]
        if a.is_int() and b.is_int():
            if CTX.fork(b == 0): raise ZeroDivisionError("division by zero")
            if CTX.fork(b > 0): return wrap(a / b)
            return wrap((-a) / (-b))
        return (self / o).floor()
    def __rfloordiv__(self, o):
        return lift(o).__floordiv__(self)
    def __divmod__(self, o):
        return self // o, self % o
    # ---- comparisons
    def _cmp(self, o, fn, op):
        if isinstance(self, SInt):
            k = _small(o)
            if k is not None: return memo((op, fn.__code__, self.t.get_id(), k), (self.t, o), lambda: SBool(z3.simplify(fn(self.t, _num(o)[0]))))
        if _isinf(o):
            return getattr(0.0, op)(float(o))
        r = _num(o)
        if r is None:
            return NotImplemented
        a, b = self.t, r[0]
        if not (a.is_int() and b.is_int()):
            a, b = to_real(a), to_real(b)
            if CTX is not None and CTX.ring_sqrt: a, b = named(rep(a)), named(rep(b))
        return SBool(z3.simplify(fn(a, b)))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, '__lt__')
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, '__le__')
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, '__gt__')
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, '__ge__')
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, '__eq__')
        return False if r is NotImplemented and not isinstance(o, SNum) and not hasattr(o, '__array__') else r
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, '__ne__')
        return True if r is NotImplemented and not isinstance(o, SNum) and not hasattr(o, '__array__') else r
    def __hash__(self):
        return 0
    def __bool__(self):
        return CTX.fork(self.t != 0)
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def item(self): return self
    def tolist(self): return self
    def copy(self): return self
    # ---- functions called by numpy on object arrays
    def sqrt(self):
        x = to_real(self.t)
        if CTX.fork(x < 0):
            raise ValueError("sqrt of a negative number")
        return CTX.sqrt(x)
    def floor(self):
        if self.t.is_int(): return self
        return SReal(z3.ToReal(z3.ToInt(self.t)))
    def rint(self): raise Unsupported('rint')
    def __str__(self):
        return CTX.token(self)
    def __format__(self, spec):
        return CTX.token(self, spec)
    def __repr__(self):
        return CTX.token(self) if CTX is not None else "S(%s)" % self.t
    def __round__(self, n=None): raise Unsupported('round')
    def __reduce__(self): raise Unsupported('pickle')
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

class SReal(SNum):
    __slots__ = ()
    __hash__ = SNum.__hash__
    def __float__(self): raise Unsupported("float() of a symbolic real")
    def __int__(self): raise Unsupported("int() of a symbolic real")
    def __trunc__(self): raise Unsupported("trunc")
    def is_integer(self): return SBool(z3.IsInt(self.t))

class SInt(SNum):
    __slots__ = ()
    __hash__ = SNum.__hash__
    def __index__(self): return CTX.concretize(self.t)
    def __int__(self): return CTX.concretize(self.t)
    def __float__(self): raise Unsupported("float() of a symbolic int")

class SBool:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __bool__(self): return CTX.fork(self.t)
    def __and__(self, o): return SBool(z3.And(self.t, bterm(o)))
    __rand__ = __and__
    def __or__(self, o): return SBool(z3.Or(self.t, bterm(o)))
    __ror__ = __or__
    def __xor__(self, o): return SBool(z3.Xor(self.t, bterm(o)))
    __rxor__ = __xor__
    def __invert__(self): return SBool(z3.Not(self.t))
    def logical_not(self): return SBool(z3.Not(self.t))
    def __eq__(self, o): 
        if isinstance(o, (SBool, bool)): return SBool(self.t == bterm(o))
        return as_int(self) == o
    def __ne__(self, o): return SBool(z3.Not(bterm(self == o)))
    def __hash__(self): return 0
    def __add__(self, o): return as_int(self) + o
    __radd__ = __add__
    def __sub__(self, o): return as_int(self) - o
    def __rsub__(self, o): return o - as_int(self)
    def __mul__(self, o): return as_int(self) * o
    __rmul__ = __mul__
    def __neg__(self): return -as_int(self)
    def __lt__(self, o): return as_int(self) < o
    def __le__(self, o): return as_int(self) <= o
    def __gt__(self, o): return as_int(self) > o
    def __ge__(self, o): return as_int(self) >= o
    def __mod__(self, o): return as_int(self) % o
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def __copy__(self): return self
    def __deepcopy__(self, m): return self
    def item(self): return self

def _mk(cls):
    def init(self, t):
        self.t = t
    cls.__init__ = init
_mk(SReal); _mk(SInt)

def as_int(x):
    if isinstance(x, SBool):
        return SInt(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    return x

def lift(x):
    if is_sym(x): return x
    r = _num(x)
    if r is None: raise Unsupported("lift %r" % (x,))
    return wrap(r[0])

def _div(a, b):
    b = z3.simplify(b)
    if CTX.fork(b == 0):
        raise ZeroDivisionError("division by zero")
    return SReal(z3.simplify(a / b))

def ite(c, a, b):
    """merge of two scalars"""
    if not isinstance(c, SBool):
        return a if c else b
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.If(c.t, bterm(a), bterm(b)))
    ra, rb = _num(a), _num(b)
    if ra is None or rb is None:
        return a if bool(c) else b
    ta, tb = ra[0], rb[0]
    if not (ta.is_int() and tb.is_int()):
        ta, tb = to_real(ta), to_real(tb)
        if CTX.ring_sqrt: ta, tb = rep(ta), rep(tb)
    return wrap(z3.simplify(z3.If(c.t, ta, tb)))

def smax2(a, b):
    if is_sym(a) or is_sym(b):
        if _isinf(a): return a if a > 0 else b
        if _isinf(b): return b if b > 0 else a
        r = ite(lift(a) >= b, a, b)
        if CTX.ring_sqrt and not (is_sym(a) and is_sym(b)):
            if r.t.get_id() not in CTX._maxs:      # named, at least the constant
                m = CTX.fresh_real('max')
                CTX.add(z3.And(m == r.t, m >= rterm(b if is_sym(a) else a)))
                CTX._maxs[r.t.get_id()] = (r.t, m)
            return SReal(CTX._maxs[r.t.get_id()][1])
        return r
    return a if a >= b else b

def smin2(a, b):
    if is_sym(a) or is_sym(b):
        if _isinf(a): return a if a < 0 else b
        if _isinf(b): return b if b < 0 else a
        return ite(lift(a) <= b, a, b)
    return a if a <= b else b

def sand(*cs):
    cs = [c for c in cs]
    if all(not isinstance(c, SBool) for c in cs):
        return all(bool(c) for c in cs)
    if all(isinstance(c, SBool) for c in cs): return memo(('and',) + tuple(c.t.get_id() for c in cs), cs, lambda: SBool(z3.And(*[c.t for c in cs])))
    return SBool(z3.And(*[bterm(c) for c in cs]))

def sor(*cs):
    if all(not isinstance(c, SBool) for c in cs):
        return any(bool(c) for c in cs)
    return SBool(z3.Or(*[bterm(c) for c in cs]))

def snot(c):
    return SBool(z3.Not(c.t)) if isinstance(c, SBool) else (not c)

def simplies(a, b):
    return sor(snot(a), b)

_ufs = {}
def uf(name, *args, sort=None):
    """uninterpreted real function application"""
    key = (name, len(args))
    if key not in _ufs:
        _ufs[key] = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
    return SReal(_ufs[key](*[rterm(a) for a in args]))

def rep(t):
    """an earlier term equal to t as a rational function, or t itself"""
    from . import ring
    if CTX._reps is None: CTX._reps = (ring.Norm(), {}, [])
    n, keys, fracs = CTX._reps
    t = z3.simplify(t)
    try:
        f = n.frac(t)
        if not f[1]:
            k = ring.pkey(f[0])
            if k in keys: return keys[k]
            keys[k] = t
        for t2, f2 in fracs:
            if not f[1] and not f2[1]: continue
            if t2.eq(t) or not n.addf(f, f2, -1)[0]: return t2
        fracs.append((t, f))
    except ring.Giveup: pass
    return t
def named(t):
    """a constant for a compound nonlinear term"""
    if z3.is_const(t) or t.decl().kind() not in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) or sum(not z3.is_rational_value(c) for c in t.children()) < 2: return t
    if t.get_id() not in CTX._maxs:
        m = CTX.fresh_real('term'); CTX.add(m == t); CTX._maxs[t.get_id()] = (t, m)
    return CTX._maxs[t.get_id()][1]
def uf_pow(x, e):
    """x ** e for a fixed non-integer exponent: uninterpreted, positive on positives"""
    if CTX.ring_sqrt: x = SReal(rep(rterm(x)))
    r = uf('pow_%r' % float(e), x)
    CTX.add(z3.Implies(rterm(x) > 0, r.t > 0))
    CTX.add(z3.Implies(rterm(x) == 0, r.t == 0))
    return r


# ----------------------------------------------------------------- symbolic context
class Oblig:
    __slots__ = ('name', 'status', 'backend', 'model', 'info', 'secs')
    def __init__(self, name, status, backend, model=None, info='', secs=0.0):
        self.name, self.status, self.backend, self.model, self.info, self.secs = name, status, backend, model, info, secs
    def pack(self):
        return {k: getattr(self, k) for k in self.__slots__}

class SymCtx:
    RL_FORK = 400_000
    ring_sqrt = False; _reps = None; _maxs = None
    RL_PROVE = 30_000_000

    def __init__(self, deadline=None, max_paths=20000):
        self.obligs = []
        self.covers = set()
        self.paths = 0
        self.max_paths = max_paths
        self.deadline = deadline
        self.solver_secs = 0.0
        self.notes = []
        self.fail_limit = 5

    # --- exploration
    def explore(self, fn):
        """run fn(V) along every feasible path"""
        global CTX
        CTX = self
        work = [[]]
        V = SymV(self)
        try:
            while work:
                self.prefix = work.pop()
                self.work = work
                self.pos = 0
                self.trace = []
                self.pc = []
                self.solver = z3.SolverFor('ALL') if False else z3.Solver()
                self.solver.set('rlimit', self.RL_FORK); self.solver.set('timeout', 2000)
                self.lin = z3.SimpleSolver(); self.lin.set('rlimit', self.RL_FORK); self.lin.set('timeout', 5000)
                self.linabs = LinAbs(); self.lin_n = 0; self.lin_exact = True; self.c_lin = False
                self.fresh_n = 0
                self.inputs = {}
                self._sqrt = {}; self._maxs = {}
                self.tokens = {}
                self.path_label = ''
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Unsupported("more than %d paths" % self.max_paths)
                V.reset()
                try:
                    fn(V)
                except Kill:
                    pass
                except (Unsupported, Timeout, KeyboardInterrupt):
                    raise
                except Exception as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    loc = [f for f in tb if '/repo/' in f.filename] or list(tb)
                    at = "%s:%d %s" % (os.path.basename(loc[-1].filename), loc[-1].lineno, loc[-1].name)
                    if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
                    try:
                        self._record("no unexpected exception (%s at %s: %s)" % (type(e).__name__, at, str(e)[:80]), z3.BoolVal(False))
                    except Kill:
                        pass
                if sum(1 for o in self.obligs if o.status == 'refuted') >= self.fail_limit:
                    self.notes.append('stopped after %d refuted obligations' % self.fail_limit)
                    break
        finally:
            CTX = None

    def _time(self):
        if self.deadline and time.time() > self.deadline:
            raise Timeout("unit deadline")

    def add(self, c):
        c = bterm(c)
        self.pc.append(c)
        self.solver.add(c)

    def _check(self, *cs):
        self._time()
        t = time.time()
        rel = _relevant(self.pc, cs) if cs else self.pc
        if len(rel) == len(self.pc):
            r = self.solver.check(*cs)
        else:
            s = z3.SimpleSolver(); s.set('rlimit', self.RL_FORK); s.set('timeout', 5000)
            s.add(*rel)
            r = s.check(*cs)
        self.solver_secs += time.time() - t
        return r

    def fork(self, c):
        c = bterm(c); c = memo(('s', c.get_id()), c, lambda: z3.simplify(c))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.add(c if d else z3.Not(c))
            return d
        rt, rf = self._lin2(c)
        if rt != z3.unsat and rf != z3.unsat:
            if not self._exact(c):
                rt = self._check(c)
                if rt != z3.unsat: rf = self._check(z3.Not(c))
        if rt == z3.unsat:
            d = False
        elif rf == z3.unsat:
            d = True
        else:
            d = True
            self.work.append(self.trace + [False])
        self.pos += 1
        self.prefix = self.prefix + [d]
        self.trace.append(d)
        self.add(c if d else z3.Not(c))
        return d

    def _lin2(self, c):
        """feasibility of c and of not c in the linear abstraction"""
        self._time()
        t = time.time()
        L = self.linabs
        while self.lin_n < len(self.pc):
            g = L(self.pc[self.lin_n]); self.lin_n += 1
            if g is not None: self.lin.add(g)
            else: self.lin_exact = False
        if L.nonlin: self.lin_exact = False
        n0 = L.nonlin
        L.nonlin = False
        g = L(c)
        self.c_lin = g is not None and not L.nonlin
        L.nonlin = n0 or L.nonlin
        if g is None: return z3.unknown, z3.unknown
        rt = self.lin.check(g)
        rf = z3.sat if rt == z3.unsat else self.lin.check(z3.Not(g))
        self.solver_secs += time.time() - t
        return rt, rf

    def _lin1(self, g):
        """feasibility of the linear condition g in the linear abstraction of the path condition"""
        L = self.linabs
        while self.lin_n < len(self.pc):
            h = L(self.pc[self.lin_n]); self.lin_n += 1
            if h is not None: self.lin.add(h)
            else: self.lin_exact = False
        if L.nonlin: self.lin_exact = False
        return self.lin.check(g)
    def _exact(self, c):
        """the linear answer is exact: nothing relevant is nonlinear"""
        return self.lin_exact and self.c_lin

    def choose(self, n):
        """non-deterministic choice 0..n-1 explored exhaustively"""
        for i in range(n - 1):
            b = self.fresh_bool('choice')
            if self.fork(b): return i
        return n - 1

    def enumerate(self, t, n):
        """t in 0..n-1, unconstrained before: every value is one branch"""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            for k in range(n - 1, 0, -1): self.work.append(self.trace + [('=', k)])
            v = ('=', 0); self.prefix = self.prefix + [v]
        self.pos += 1; self.trace.append(v)
        self.add(t == v[1])
        return v[1]

    def concretize(self, t, limit=64):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(limit):
            self._time()
            if self.pos < len(self.prefix):
                # replay: the decision was taken on a recorded value
                v = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(v)
                if isinstance(v, tuple):
                    if v[0] == '=':
                        self.add(t == v[1]); return v[1]
                    self.add(t != v[1]); continue
                raise Unsupported("replay mismatch")
            rel = _relevant(self.pc, [t])
            s = z3.SimpleSolver(); s.set('rlimit', self.RL_FORK); s.set('timeout', 5000)
            s.add(*rel)
            r = s.check()
            if r == z3.unsat:
                raise Kill()
            if r != z3.sat:
                raise Unsupported("cannot concretize")
            v = s.model().eval(t, model_completion=True).as_long()
            if s.check(t != v) != z3.unsat:
                self.work.append(self.trace + [('!', v)])
            self.pos += 1
            self.prefix = self.prefix + [('=', v)]
            self.trace.append(('=', v))
            self.add(t == v)
            return v
        raise Unsupported("symbolic index with too many values")

    def fresh_real(self, name='r'):
        self.fresh_n += 1
        return z3.Real('%s!%d' % (name, self.fresh_n))
    def fresh_int(self, name='i'):
        self.fresh_n += 1
        return z3.Int('%s!%d' % (name, self.fresh_n))
    def fresh_bool(self, name='b'):
        self.fresh_n += 1
        return z3.Bool('%s!%d' % (name, self.fresh_n))
    def fresh_fun(self, name, *sorts):
        self.fresh_n += 1
        return z3.Function('%s!%d' % (name, self.fresh_n), *sorts)

    def sqrt(self, x):
        x = z3.simplify(x)
        k = x.get_id()
        if k in self._sqrt:
            return SReal(self._sqrt[k][1])
        if z3.is_rational_value(x) and x.numerator_as_long() >= 0:
            import math
            p, q = math.isqrt(x.numerator_as_long()), math.isqrt(x.denominator_as_long())
            if p * p == x.numerator_as_long() and q * q == x.denominator_as_long(): return SReal(z3.Q(p, q))
        if self.ring_sqrt:      # equal rational functions have the same root
            x = rep(x); k = x.get_id()
            if k in self._sqrt: return SReal(self._sqrt[k][1])
        r = self.fresh_real('sqrt')
        self.add(z3.And(r >= 0, r * r == x))
        self._sqrt[k] = (x, r)
        return SReal(r)

    # tokens: symbolic numbers printed into text
    def token(self, x, spec=''):
        if not is_sym(x): return format(x, spec)
        n = len(self.tokens)
        tok = "\u27e6%d\u27e7" % n
        if spec not in ('', 'd', 's', 'n'):
            m = re.fullmatch(r'[-+ ]?\.(\d+)([eEgGn])', spec)
            if isinstance(x, SInt) and spec[-1:].isdigit() or not m or int(m.group(1)) < (17 if m.group(2) in 'gGn' else 16):
                x = SReal(self.fresh_real('rounded'))       # digits are lost
        self.tokens[tok] = x
        return tok

    # --- obligations
    def assume(self, c):
        c = bterm(c)
        self.add(c)
        if self.pos >= len(self.prefix):
            if self._check(c) == z3.unsat:
                raise Kill()

    def prove(self, name, c):
        return self._record(name, bterm(c))

    def lemma(self, name, hyps, goal):
        """an obligation over its own hypotheses only (path condition not used)"""
        sp = self.pc, self.solver, self.lin, self.linabs, self.lin_n, self.lin_exact
        self.pc = [bterm(h) for h in hyps]
        self.solver = z3.Solver(); self.solver.set('rlimit', self.RL_FORK)
        self.solver.add(*self.pc)
        self.lin = z3.SimpleSolver(); self.linabs = LinAbs(); self.lin_n = 0
        try:
            return self._record(name, bterm(goal))
        finally:
            self.pc, self.solver, self.lin, self.linabs, self.lin_n, self.lin_exact = sp

    def _record(self, name, c):
        self._time()
        c = z3.simplify(c)
        if z3.is_true(c):
            self.obligs.append(Oblig(name, 'discharged', 'simplify'))
            return True
        t0 = time.time()
        if is_linear(c) and not isinstance(c, bool) and self._lin1(z3.Not(c)) == z3.unsat: st, be, model, info = 'discharged', 'z3-linear', None, ''
        else: st, be, model, info = decide(self.pc, c, self.RL_PROVE)
        dt = time.time() - t0
        self.solver_secs += dt
        if st == 'refuted' and model is not None:
            vals = {}
            for k, v in self.inputs.items():
                vals[k] = _model_value(model, v)
            model = vals
        self.obligs.append(Oblig(name, st, be, model if st == 'refuted' else None, info, dt))
        if st == 'discharged':
            self.add(c)
            return True
        # continue as if it held, to see later obligations; kill if contradictory
        self.solver.add(c); self.pc.append(c)
        if self._check(c) == z3.unsat:
            raise Kill()
        return False

    def cover(self, name):
        if name in self.covers: return
        s = z3.Solver(); s.set('rlimit', 10_000_000); s.set('timeout', 5000)
        s.add(*self.pc)
        if s.check() != z3.unsat:
            self.covers.add(name)

def _model_value(model, t):
    v = model.eval(t, model_completion=True)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return f
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return str(v)

def _has_quant_or_int(fs):
    seen = set()
    st = list(fs)
    q = i = u = False
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): q = True; st.append(e.body()); continue
        if z3.is_int(e) : i = True
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0: u = True
            st.extend(e.children())
    return q, i, u

_VARS = {}
def vars_of(e):
    k = e.get_id()
    if k in _VARS: return _VARS[k][1]
    out, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            st.extend(x.children())
    if len(_VARS) > 50000: _VARS.clear()
    _VARS[k] = (e, out)
    return out

def _relevant(pc, goals):
    """cone of influence: conjuncts sharing (transitively) variables with the goals"""
    vs = [(c, vars_of(c)) for c in pc]
    need = set()
    for g in goals: need |= vars_of(g)
    keep = [False] * len(vs)
    ch = True
    while ch:
        ch = False
        for i, (c, v) in enumerate(vs):
            if not keep[i] and (not v or v & need):
                keep[i] = True; need |= v; ch = True
    return [c for k, (c, v) in zip(keep, vs) if k]

def decide(pc, goal, rlimit):
    """pc => goal ?  -> (status, backend, model, info)"""
    if z3.is_and(goal) and goal.num_args() > 1 and goal.num_args() <= 64:
        be = set()
        for g in goal.children():
            r = decide(pc, g, rlimit)
            if r[0] != 'discharged': return r
            be.add(r[1])
        return ('discharged', '+'.join(sorted(be)), None, '')
    neg = z3.Not(goal)
    asserts = list(pc) + [neg]
    # 1. rational function normal form for equalities
    from . import ring
    if ring.try_equal(pc, goal):
        return ('discharged', 'ring-normaliser', None, '')
    # 2. linear abstraction: nonlinear monomials and quotients as atoms
    if lin_unsat(asserts): return ('discharged', 'z3-linear', None, '')
    q, i, u = _has_quant_or_int(asserts)
    s = z3.Solver(); s.set('rlimit', rlimit // (10 if not (q or i) else 1)); s.set('timeout', 20000)
    s.add(*asserts)
    r = s.check()
    if r == z3.unsat: return ('discharged', 'z3', None, '')
    if r == z3.sat: return ('refuted', 'z3', s.model(), '')
    info = 'z3: ' + s.reason_unknown()
    if not q and not i and not u:
        try:
            t = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'qfnra-nlsat') if False else z3.TryFor(z3.Tactic('qfnra-nlsat'), 20000)
            s2 = t.solver()
            s2.add(*asserts)
            r = s2.check()
            if r == z3.unsat: return ('discharged', 'z3-nlsat', None, '')
            if r == z3.sat: return ('refuted', 'z3-nlsat', s2.model(), '')
            info += '; nlsat: ' + s2.reason_unknown()
        except z3.Z3Exception as e:
            info += '; nlsat: %s' % e
    r = cvc5_check(asserts)
    if r == 'unsat': return ('discharged', 'cvc5', None, '')
    info += '; cvc5: %s' % r
    s3 = z3.Solver(); s3.set('rlimit', rlimit * 3); s3.set('smt.arith.solver', 2); s3.set('timeout', 20000)
    s3.add(*asserts)
    r = s3.check()
    if r == z3.unsat: return ('discharged', 'z3', None, '')
    if r == z3.sat: return ('refuted', 'z3', s3.model(), '')
    return ('unknown', 'z3+cvc5', None, info)

_LIN = {}
def is_linear(e):
    """syntactically: no product of two non-constants, no quotient, power or quantifier"""
    k = e.get_id(); m = _LIN.get(k)
    if m is not None: return m[1]
    if z3.is_quantifier(e) or not z3.is_app(e): r = False
    else:
        kd = e.decl().kind(); ch = e.children()
        if kd == z3.Z3_OP_MUL: r = sum(0 if _is_num(c) else 1 for c in ch) <= 1 and all(map(is_linear, ch))
        elif kd == z3.Z3_OP_DIV: r = _is_num(ch[1]) and is_linear(ch[0])
        elif kd == z3.Z3_OP_POWER: r = False
        else: r = all(map(is_linear, ch))
    if len(_LIN) > 200000: _LIN.clear()
    _LIN[k] = (e, r)
    return r
def _is_num(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)

class LinAbs:
    """every nonlinear monomial / quotient becomes an atom"""
    def __init__(self):
        self.memo, self.atoms = {}, {}
        self.nonlin = False
    def __call__(self, e):
        if is_linear(e): return e
        try:
            e = z3.simplify(e, som=True)
            self.keep = getattr(self, 'keep', []); self.keep.append(e)
            return self.ab(e)
        except z3.Z3Exception:
            return None
    def ab(self, e):
        k = e.get_id()
        m = self.memo.get(k)
        if m is not None: return m[1]
        if z3.is_quantifier(e) or not z3.is_app(e): raise z3.Z3Exception('quantifier')
        kd = e.decl().kind()
        if kd == z3.Z3_OP_MUL and sum(0 if _is_num(c) else 1 for c in e.children()) > 1:
            self.nonlin = True
            co = [c for c in e.children() if _is_num(c)]; rest = sorted((self.ab(c) for c in e.children() if not _is_num(c)), key=lambda x: x.get_id())
            r = self.atom(tuple(x.get_id() for x in rest), rest, e.sort())
            for c in co: r = c * r
        elif kd in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not (kd == z3.Z3_OP_DIV and _is_num(e.arg(1))):
            self.nonlin = True
            rest = [self.ab(c) for c in e.children()]
            r = self.atom((kd,) + tuple(x.get_id() for x in rest), rest, e.sort())
        elif e.num_args():
            ch = [self.ab(c) for c in e.children()]
            r = _nary(kd, ch) if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_DISTINCT) else e.decl()(*ch)
        else: r = e
        self.memo[k] = (e, r)
        return r
    def atom(self, key, rest, sort):
        if key not in self.atoms: self.atoms[key] = (rest, z3.FreshConst(sort, 'mono'))
        return self.atoms[key][1]

def lin_unsat(asserts):
    """unsat of the abstraction in which every nonlinear monomial / quotient is a fresh variable"""
    if all(map(is_linear, asserts)): return False
    L = LinAbs()
    gs = [L(a) for a in asserts]
    if gs[-1] is None or not L.nonlin: return False
    s = z3.SimpleSolver(); s.set('rlimit', 2_000_000); s.set('timeout', 10000)
    s.add(*[g for g in gs if g is not None])
    return s.check() == z3.unsat

def _nary(kd, a):
    if kd == z3.Z3_OP_AND: return z3.And(*a)
    if kd == z3.Z3_OP_OR: return z3.Or(*a)
    if kd == z3.Z3_OP_ADD: return z3.Sum(*a)
    return z3.Distinct(*a)

def cvc5_check(asserts, secs=20):
    s = z3.Solver(); s.add(*asserts)
    txt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        o = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), f.name], capture_output=True, text=True, timeout=secs + 10)
        out = o.stdout.strip().splitlines()
        return out[0] if out else (o.stderr.strip()[:100] or 'none')
    except Exception as e:
        return 'error %s' % type(e).__name__
    finally:
        os.unlink(f.name)


# ----------------------------------------------------------------- V: the three modes
class VBase:
    symbolic = False
    def flatten(self, x):
        import numpy as np
        if isinstance(x, np.ndarray): return list(x.ravel())
        if isinstance(x, (list, tuple)):
            r = []
            for y in x: r.extend(self.flatten(y))
            return r
        return [x]
    def shape(self, x):
        import numpy as np
        return np.shape(x) if not isinstance(x, (int, float)) else ()
    def reals(self, name, n, **k):
        return [self.real('%s%d' % (name, i), **k) for i in range(n)]
    def eq(self, label, a, b, tol=None):
        fa, fb = self.flatten(a), self.flatten(b)
        if len(fa) != len(fb):
            return self.ensure(label + " (length %d vs %d)" % (len(fa), len(fb)), False)
        for k, (x, y) in enumerate(zip(fa, fb)):
            self.ensure(label, self.close(x, y, tol))
    def le(self, label, a, b, tol=1e-9):
        self.ensure(label, self.leq(a, b, tol))

class SymV(VBase):
    symbolic = True
    def __init__(self, ctx): self.ctx = ctx
    def reset(self): pass
    def real(self, name, lo=None, hi=None, **k):
        t = z3.Real(name)
        self.ctx.inputs[name] = t
        if lo is not None: self.ctx.add(t >= real_val(lo))
        if hi is not None: self.ctx.add(t <= real_val(hi))
        return SReal(t)
    def pos(self, name, hi=None, **k):
        t = z3.Real(name); self.ctx.inputs[name] = t
        self.ctx.add(t > 0)
        return SReal(t)
    def int(self, name, lo=None, hi=None, **k):
        t = z3.Int(name)
        self.ctx.inputs[name] = t
        if lo is not None: self.ctx.add(t >= lo)
        if hi is not None: self.ctx.add(t <= hi)
        return SInt(t)
    def bool(self, name):
        t = z3.Bool(name); self.ctx.inputs[name] = t
        return SBool(t)
    def choice(self, name, n):
        """concrete value 0..n-1, all explored"""
        t = z3.Int(name); self.ctx.inputs[name] = t
        return self.ctx.enumerate(t, n)
    def assume(self, c): self.ctx.assume(c)
    def ensure(self, label, c): return self.ctx.prove(label, c)
    def cover(self, label): self.ctx.cover(label)
    def close(self, x, y, tol=None):
        if isinstance(x, SNum) or isinstance(y, SNum):
            return lift(x) == y
        if isinstance(x, float) or isinstance(y, float):
            return lift(Fraction(x)) == Fraction(y)
        return x == y
    def leq(self, a, b, tol=0): return lift(a) <= b
    def lt(self, a, b): return lift(a) < b
    def lemma(self, label, hyps, goal): return self.ctx.lemma(label, hyps, goal)
    def fresh(self, name='x'): return SReal(self.ctx.fresh_real(name))
    def kill(self): raise Kill()

class ConcFail(Exception):
    def __init__(self, label, inputs): self.label, self.inputs = label, inputs

class ConcV(VBase):
    """inputs from a dictionary, then (missing ones) from rng"""
    def __init__(self, values=None, rng=None):
        self.values = dict(values or {}); self.rng = rng or random.Random(0)
        self.used = {}
        self.failed = None
        self.n_ens = 0
        self.covers = set()
    def reset(self): pass
    def _get(self, name, gen, conv):
        v = self.values.get(name)
        if v is None or isinstance(v, str): v = gen()
        v = conv(v)
        self.used[name] = v
        return v
    def real(self, name, lo=None, hi=None, **k):
        def gen():
            r = self.rng
            a = -4.0 if lo is None else float(lo); b = max(4.0, a + 4.0) if hi is None else float(hi)
            m = r.random()
            if m < 0.5: x = r.uniform(a, b)
            elif m < 0.85: x = float(min(max(r.randint(math.floor(a), math.ceil(b)), a), b))
            else: x = min(max(r.randint(int(math.floor(2 * a)), int(math.ceil(2 * b))) / 2.0, a), b)
            return x
        return self._get(name, gen, float)
    def pos(self, name, hi=4.0, **k):
        return self._get(name, lambda: self.rng.choice([1.0, 0.5, 2.0, self.rng.uniform(1e-3, hi), self.rng.uniform(1e-3, hi)]), float)
    def int(self, name, lo=None, hi=None, **k):
        return self._get(name, lambda: self.rng.randint(-5 if lo is None else lo, (max(5, (lo or 0) + 6)) if hi is None else hi), int)
    def bool(self, name):
        return self._get(name, lambda: self.rng.random() < 0.5, bool)
    def choice(self, name, n):
        return self._get(name, lambda: self.rng.randrange(n), int)
    def assume(self, c):
        if not bool(c): raise Skip()
    def ensure(self, label, c):
        self.n_ens += 1
        if not bool(c):
            raise ConcFail(label, dict(self.used))
        return True
    def cover(self, label): self.covers.add(label)
    def close(self, x, y, tol=None):
        if isinstance(x, (str, bytes)) or x is None or y is None: return x == y
        x, y = float(x), float(y)
        if x == y: return True
        if math.isnan(x) or math.isnan(y): return False
        return abs(x - y) <= (tol or 1e-7) * max(1.0, abs(x), abs(y))
    def leq(self, a, b, tol=1e-9):
        a, b = float(a), float(b)
        return a <= b + tol * max(1.0, abs(a), abs(b))
    def lt(self, a, b): return self.leq(a, b)
    def kill(self): raise Skip()
