"""Ghost data for contracts over sequences, maps and text of unbounded length, and the text/comprehension rewriting
that goes with them. A ghost list has a symbolic length; texts made of it hold placeholders registered in CTX.tokens."""
import ast, re
import z3
from . import core, loops
from .core import SInt, SReal, Unsupported, term

def sint(x): return x if isinstance(x, SInt) else SInt(z3.IntVal(int(x))) if not isinstance(x, SInt) else x
def known(t):
    """concrete value of an integer term, if it has one"""
    if isinstance(t, int): return t
    t = z3.simplify(term(t))
    return t.as_long() if z3.is_int_value(t) else None
def imin(a, b):
    if known(a) is not None and known(b) is not None: return min(known(a), known(b))
    if core.CTX.fork(term(a <= b) if not isinstance(a <= b, bool) else z3.BoolVal(a <= b)): return a
    return b

class GList:
    """n elements (n may be symbolic), element i is at(i)"""
    def __init__(self, n, at): self.n, self.at = n, at
    def vc_len(self):
        k = known(self.n); return self.n if k is None else k
    def __len__(self):
        k = known(self.n)
        if k is None: raise Unsupported('length of a ghost list')
        return k
    def vc_iter(self):
        q = loops.Seq(self.n, self.at); q.tag = getattr(self, 'tag', None); return q
    def __iter__(self):
        k = known(self.n)
        if k is None: raise Unsupported('iteration over a ghost list')
        return iter([self.at(i) for i in range(k)])
    def __bool__(self): return bool(self.n > 0)
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1): raise Unsupported('step of a slice')
            a = 0 if i.start is None else i.start; b = self.n if i.stop is None else i.stop
            def norm(x):
                k = known(x)
                if k is not None and k < 0: return self.n + x
                if k is None and core.CTX.fork(term(x) < 0): return self.n + x
                return x
            a, b = norm(a), imin(norm(b), self.n)
            a = imin(a, b)
            return GList(b - a, lambda j: self.at(a + j))
        k = known(i)
        if k is not None and k < 0: i = self.n + i
        bad = core.sor(i < 0, i >= self.n)
        if core.CTX.fork(core.bterm(bad)): raise IndexError('list index out of range')
        return self.at(i)
    def __add__(self, o):
        o = glist(o); n, m = self.n, o.n
        def at(i):
            if known(i) is not None and known(n) is not None: return self.at(i) if known(i) < known(n) else o.at(i - n)
            return self.at(i) if core.CTX.fork(core.bterm(i < n)) else o.at(i - n)
        return GList(n + m, at)
    def __radd__(self, o): return glist(o) + self
    def __eq__(self, o): raise Unsupported('comparison of ghost lists')
    __hash__ = None

def glist(x): return x if isinstance(x, GList) else GList(len(x), lambda i, x=list(x): x[known(i)] if known(i) is not None else pick(x, i))
def pick(x, i):
    for k, v in enumerate(x[:-1]):
        if core.CTX.fork(term(i) == k): return v
    return x[-1]

def same_list(label, a, b, eq):
    """obligations: two lists agree (lengths, and an arbitrary element)"""
    a, b = glist(a), glist(b)
    core.CTX.prove(label + ': length', a.n == b.n)
    i = SInt(core.CTX.fresh_int('k'))
    if core.CTX.fork(core.bterm(core.sand(i >= 0, i < a.n))): eq(label + ': element', a.at(i), b.at(i)); raise core.Kill()

# ------------------------------------------------------------------ texts
def stok(v):
    """placeholder of a value in a text"""
    k = '\u27e6%d\u27e7' % len(core.CTX.tokens); core.CTX.tokens[k] = v; return k
class Joined:
    def __init__(self, sep, lst): self.sep, self.lst = sep, lst
class Name:
    """an opaque piece of text without line breaks, not starting or ending with a blank; may contain blanks"""
    def __init__(self, key, words=None): self.key, self.words = key, words
TOK = re.compile('(\u27e6[^\u27e7]*\u27e7)')
def fmt(s, args):
    if not isinstance(s, str): return s % args
    vals = args if isinstance(args, tuple) else (args,)
    if not any(core.is_sym(v) or isinstance(v, (GList,)) for v in vals): return s % args
    out, i, k = '', 0, 0
    for m in re.finditer(r'%([-+ 0#]*)(\d*)(\.\d+)?([a-zA-Z%])', s):
        out += s[i:m.start()]; i = m.end()
        if m.group(4) == '%': out += '%'; continue
        v = vals[k]; k += 1
        c = m.group(4)
        if core.is_sym(v):
            if m.group(2) or m.group(1): raise Unsupported('format ' + m.group(0))
            if c in 'di':
                if not isinstance(v, SInt): raise Unsupported('%d of a real')
                out += core.CTX.token(v)
            elif c in 'sr': out += str(v)
            else: out += core.CTX.token(v, (m.group(3) or '.6') + c)
        else: out += m.group(0) % (v,)
    if k != len(vals): raise TypeError('not all arguments converted')
    return out + s[i:]
def join(sep, lst):
    if isinstance(lst, GList) and known(lst.n) is None:
        return stok(Joined(sep, lst))
    return sep.join(lst)
def comp(S, f, kind=list):
    if hasattr(S, 'vc_iter') and not (isinstance(S, GList) and known(S.n) is not None):
        q = S.vc_iter()
        i = SInt(core.CTX.fresh_int('c'))
        if core.CTX.fork(core.bterm(core.sand(i >= 0, i < q.n))): f(q.at(i))      # may raise
        return GList(q.n, lambda j: f(q.at(j)))
    return [f(x) for x in S]

class Line:
    """a line of text with columns given as a ghost list of texts"""
    def __init__(self, parts): self.parts = parts
def columns(text):
    """columns of a written line, as a ghost list of texts; raises Bad when they are not separated"""
    out = [[]]; cur = None
    for p in TOK.split(text):
        if not p: continue
        v = core.CTX.tokens.get(p)
        if v is None:
            q = p.split()
            if not q: cur = None; continue
            if p[0].isspace(): cur = None
            for j, w in enumerate(q):
                if cur is not None and j == 0: raise Bad('columns run together: %r' % text)
                out[-1].append(w); cur = w
            if p[-1].isspace(): cur = None
        elif isinstance(v, Joined):
            if cur is not None or not v.sep or not v.sep.isspace() or '\n' in v.sep: raise Bad('columns run together: %r' % text)
            out[-1] = tuple(out[-1]); out.append(v.lst); out.append([]); cur = 'J'
        else:
            if cur is not None: raise Bad('columns run together: %r' % text)
            out[-1].append(p); cur = p
    r = GList(0, None)
    for o in out:
        o = glist(o) if not isinstance(o, GList) else o
        r = o if known(r.n) == 0 else r if known(o.n) == 0 else r + o
    return r
class Bad(Exception): pass

def lines(text):
    """complete lines of a text of a stream"""
    L = text.split('\n')
    return L[:-1], L[-1]

class _Text(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('__vc', ast.Load()), 'fmt', ast.Load()), [n.left, n.right], []), n)
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and isinstance(n.func.value, ast.Constant) and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('__vc', ast.Load()), 'join', ast.Load()), [n.func.value, n.args[0]], []), n)
        return n
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async and isinstance(n.generators[0].target, ast.Name):
            g = n.generators[0]
            lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), n.elt)
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('__vc', ast.Load()), 'comp', ast.Load()), [g.iter, lam], []), n)
        return n
    visit_GeneratorExp = visit_ListComp

# ------------------------------------------------------------------ functions, maps, streams
_uf = {}
def ufi(name, *a):
    ks = tuple(core._small(x) for x in a)
    if None not in ks: return core.memo(('uf', name) + ks, a, lambda: _ufi(name, a))
    return _ufi(name, a)
def _ufi(name, a):
    k = (name, len(a), 'i')
    if k not in _uf: _uf[k] = z3.Function(name, *([z3.IntSort()] * (len(a) + 1)))
    return SInt(_uf[k](*[term(x) for x in a]))
def ufr(name, *a):
    k = (name, len(a), 'r')
    if k not in _uf: _uf[k] = z3.Function(name + '~', *([z3.IntSort()] * len(a)), z3.RealSort())
    return SReal(_uf[k](*[term(x) for x in a]))

class GMap:
    """a given map with n entries; entry i has key key(i) and value val(i) (val may also be asked by key)"""
    def __init__(self, tag, n, key, val): self.tag, self.n, self.key, self.val = tag, n, key, val
    def vc_len(self): return self.n
    def keys(self):
        g = GList(self.n, lambda i: GKey(self, i)); g.tag = self.tag; return g
    def items(self):
        g = GList(self.n, lambda i: (GKey(self, i), self.val(i))); g.tag = self.tag; return g
    def vc_iter(self): return self.keys().vc_iter()
    def values(self): raise Unsupported('values of a ghost map')
    def __getitem__(self, k):
        i = _keyidx.get(id(k))
        if i is None or i[0] is not self: raise Unsupported('look-up in a ghost map')
        return self.val(i[1])
_keyidx = {}
_keep = []
def GKey(m, i):
    k = m.key(i)
    _keyidx[id(k)] = (m, i); _keep.append(k)
    return k
def gsorted(x, **k):
    if isinstance(x, GMap): return x.keys()
    if isinstance(x, GList):
        return x          # a permutation of the elements: any order is covered by the arbitrary enumeration
    return sorted(x, **k)

class Group:
    def __init__(self, seq, i): self.seq, self.i = seq, i
class Out:
    """ghost text stream: texts and groups of rows"""
    name = 'ghost'
    def __init__(self): self.parts = []
    def write(self, s): self.parts.append(s)
    def close(self): pass
    def flush(self): pass
    def print(self, *a, sep=' ', end='\n', file=None):
        if file is not self: return
        self.write((' ' if sep is None else sep).join(str(x) for x in a) + ('\n' if end is None else end))

def same_cols(label, got, want):
    """obligation: a row has the expected columns. got: GList of texts, want: GList of values"""
    core.CTX.prove(label + ': number of columns', got.n == want.n)
    i = SInt(core.CTX.fresh_int('k'))
    if not core.CTX.fork(core.bterm(core.sand(i >= 0, i < want.n))): return
    t, v = got.at(i), want.at(i)
    core.CTX.prove(label + ': column', text_is(t, v))
def text_is(t, v):
    x = core.CTX.tokens.get(t)
    if x is None and isinstance(t, str):
        try: x = int(t)
        except ValueError:
            try: x = float(t)
            except ValueError: return isinstance(v, str) and t == v
    if isinstance(v, SInt) or isinstance(v, int): return (isinstance(x, SInt) or isinstance(x, int)) and x == v
    if isinstance(v, (SReal, float)): return core.is_sym(x) and core.to_real(x.t) == v if False else (core.lift(x) == v if core.is_sym(x) or isinstance(x, (int, float)) else False)
    return x is v
def rows(out, row, label):
    """contract of a loop writing one row per element of a ghost sequence: after i iterations the stream holds what it
    held before and the rows of the first i elements"""
    st = dict(n=0)
    def inv(L):
        st['n'] += 1
        if st['n'] == 1:
            if not loops.touches(sp, L, out): raise Unsupported('the loop does not write to the stream')
            st['base'] = list(out.parts); return []
        if st['n'] == 2: return []
        seq = L['__seq']; i = L['__i'] - 1
        new = out.parts[len(st['base']) + 1:]
        ok = out.parts[:len(st['base'])] == st['base'] and isinstance(out.parts[len(st['base'])], Group) and all(isinstance(x, str) for x in new)
        if not ok: raise Unsupported('stream changed in an unexpected way')
        text = ''.join(new)
        ls, rest = lines(text)
        ls = [l for l in ls if l.strip()]
        core.CTX.prove('%s: one complete line per record' % label(seq), len(ls) == 1 and not rest.strip())
        try: got = columns(ls[0])
        except Bad as e: core.CTX.prove('%s: %s' % (label(seq), e), False); return []
        same_cols(label(seq), got, row(seq, i))
        return []
    def havoc(L):
        out.parts = st['base'] + [Group(L['__seq'], L['__i'])]
        return {}
    sp = loops.Spec(inv, havoc, variant=lambda L: L['__n'] - L['__i'], name='rows', kind='for'); return sp

class GArr:
    """given array with symbolic shape; row i / element at(i) or at(i, j)"""
    def __init__(self, shape, at): self.shape, self.at_ = tuple(shape), at
    @property
    def ndim(self): return len(self.shape)
    def vc_len(self): return self.shape[0]
    def row(self, i): return GArr(self.shape[1:], lambda *j: self.at_(i, *j)) if len(self.shape) > 1 else self.at_(i)
    def vc_iter(self): return loops.Seq(self.shape[0], self.row)
    def __getitem__(self, i):
        if isinstance(i, (tuple, slice)): raise Unsupported('index of a ghost array')
        if core.CTX.fork(core.bterm(core.sor(i < 0, i >= self.shape[0]))): raise IndexError('index')
        return self.row(i)
    def vc_reshape(self, shape):
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        if len(self.shape) == 1 and len(shape) == 2 and known(shape[1]) in (1, -1) and same_int(shape[0], self.shape[0]): return GArr((self.shape[0], 1), lambda i, j: self.at_(i))
        if len(self.shape) == 2 and len(shape) == 2 and same_int(shape[0], self.shape[0]) and (known(shape[1]) == -1 or same_int(shape[1], self.shape[1])): return self
        raise Unsupported('reshape of a ghost array')
    reshape = lambda self, *s: self.vc_reshape(s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s)
    def __len__(self): raise Unsupported('len')
    def __iter__(self):
        k = known(self.shape[0])
        if k is None: raise Unsupported('iteration')
        return iter([self.row(i) for i in range(k)])
def same_int(a, b):
    if known(a) is not None and known(b) is not None: return known(a) == known(b)
    return term(a).eq(term(b)) if core.is_sym(a) and core.is_sym(b) else False
def gzip(*a):
    if not any(hasattr(x, 'vc_iter') for x in a): return zip(*a)
    q = [x.vc_iter() if hasattr(x, 'vc_iter') else glist(list(x)).vc_iter() for x in a]
    n = q[0].n
    for s in q[1:]: n = imin(n, s.n)
    return GList(n, lambda i: tuple(s.at(i) for s in q))
def grange(*a):
    if not any(core.is_sym(x) and known(x) is None for x in a): return range(*[known(x) if core.is_sym(x) else x for x in a])
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) > 2: raise Unsupported('range with a step')
    n = hi - lo
    if core.CTX.fork(core.bterm(n < 0)): n = 0
    return GList(n, lambda i: lo + i)
class glist_t(list):
    pass
def to_list(x=()):
    if hasattr(x, 'vc_iter'):
        q = x.vc_iter(); r = GList(q.n, q.at); r.tag = getattr(q, 'tag', None); return r
    return list(x)
def genumerate(x, start=0):
    if hasattr(x, 'vc_iter'):
        q = x.vc_iter(); r = GList(q.n, lambda i: (start + i, q.at(i))); r.tag = getattr(q, 'tag', None); return r
    return enumerate(x, start)
