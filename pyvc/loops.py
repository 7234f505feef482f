"""Loop contracts: a loop of a real function is cut at a stated invariant.

`contract(fn, {k: Spec})` takes the source of the function as found in /repo (inspect), replaces the k-th loop
(in source order) by   prove inv; havoc; assume inv; if guard: body; prove inv, variant decreases; stop / leave
and compiles the result in the function's own module. Nothing else of the function is touched. The transformation
is redone from the current source on every run; loops that are not found as expected are 'unsupported'."""
import ast, inspect, textwrap
import z3
from . import core

class Spec:
    """inv(L) -> list of (label, condition); havoc(L) -> dict of new values for the locals assigned in the loop
    (may also havoc objects); variant(L) -> integer term, must be >= 0 at an iteration and decrease.
    L: namespace of locals; L['__i'] is the iteration index of a `for` over a symbolic sequence."""
    assumed = False      # proved in another unit: only the end of the loop is looked at here
    over = None          # over(seq): the loop goes over what the contract is about
    only = False         # nothing after the loop is looked at
    mut = ()      # locals bound outside the loop to objects changed in it, rebound by havoc
    def __init__(self, inv, havoc, variant=None, name='loop', kind=None):
        self.inv, self.havoc, self.variant, self.name, self.kind = inv, havoc, variant, name, kind

def touches(sp, L, obj):
    """the body of the loop names the object, or something bound to it"""
    for n in getattr(sp, 'loads', ()):
        v = L.get(n)
        if isinstance(v, _Undef): continue
        if v is obj or getattr(v, '__self__', None) is obj or (n == 'self' and any(x is obj for x in getattr(v, '__dict__', {}).values())): return True
        if getattr(v, '__closure__', None) and any(c.cell_contents is obj for c in v.__closure__): return True
    return False

class Seq:
    """ghost iterator over a sequence of symbolic length n, element i given by at(i)"""
    def __init__(self, n, at): self.n, self.at = n, at

class _It:
    def __init__(self, seq):
        self.seq = seq; self.i = core.SInt(z3.IntVal(0))

class _RT:
    def __init__(self, specs): self.specs = specs; self.its = {}; self.var0 = {}
    def iter(self, k, S):
        if not hasattr(S, 'vc_iter'): raise core.Unsupported('loop %d over an unexpected sequence %s' % (k, type(S).__name__))
        self.its[k] = _It(S.vc_iter())
        sp = self.specs[k]
        if sp.over is not None and not sp.over(self.its[k].seq): raise core.Unsupported('loop %d goes over something else' % k)
    def _L(self, k, loc):
        L = dict(loc)
        if k in self.its: L['__i'] = self.its[k].i; L['__n'] = self.its[k].seq.n; L['__seq'] = self.its[k].seq
        return L
    def enter(self, k, loc):
        sp = self.specs[k]
        for lab, c in sp.inv(self._L(k, loc)): core.CTX.prove('%s: invariant holds initially: %s' % (sp.name, lab), c)
    def havoc(self, k, loc, names):
        sp = self.specs[k]
        if k in self.its:
            i = core.CTX.fresh_int('i'); core.CTX.add(i >= 0); core.CTX.add(i <= core.term(self.its[k].seq.n))
            self.its[k].i = core.SInt(i)
            if sp.assumed: core.CTX.add(i == core.term(self.its[k].seq.n)); self.its[k].i = core.lift(self.its[k].seq.n)
        new = sp.havoc(self._L(k, loc))
        loc = dict(loc, **new)
        for lab, c in sp.inv(self._L(k, loc)): core.CTX.assume(c)
        miss = [n for n in names if n not in loc]
        for n in miss: loc[n] = _Undef(n)
        bad = [n for n in names if n not in new and n in loc and n not in miss and n not in getattr(sp, 'frame', ())]
        for n in bad: loc[n] = _Undef(n)      # assigned in the loop, not described by the contract
        self.loc = loc
        return tuple(loc[n] for n in names)
    def more(self, k):
        it = self.its[k]
        r = core.CTX.fork(core.term(it.i) < core.term(it.seq.n))
        if not r and self.specs[k].only: raise core.Kill()
        return r
    def next(self, k):
        it = self.its[k]
        return it.seq.at(it.i)
    def start(self, k, loc):
        sp = self.specs[k]
        if sp.variant is not None: self.var0[k] = sp.variant(self._L(k, loc))
    def step(self, k, loc):
        sp = self.specs[k]
        if k in self.its: self.its[k].i = self.its[k].i + 1
        for lab, c in sp.inv(self._L(k, loc)): core.CTX.prove('%s: invariant preserved: %s' % (sp.name, lab), c)
        if sp.variant is not None:
            v = sp.variant(self._L(k, loc))
            core.CTX.prove('%s: terminates' % sp.name, core.sand(self.var0[k] >= 0, v < self.var0[k]))
        raise core.Kill()
    def fmt(self, *a):
        from . import ghost
        return ghost.fmt(*a)
    def join(self, *a):
        from . import ghost
        return ghost.join(*a)
    def comp(self, *a):
        from . import ghost
        return ghost.comp(*a)

class _Undef:
    def __init__(self, n): object.__setattr__(self, '_n', n)
    def __getattr__(self, a): raise core.Unsupported('loop variable %s is outside the loop contract' % self._n)
    def _no(self, *a): raise core.Unsupported('loop variable %s is outside the loop contract' % self._n)
    __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _no
    __iter__ = __len__ = __getitem__ = __setitem__ = __contains__ = __call__ = __neg__ = __truediv__ = __rtruediv__ = __index__ = __hash__ = _no

class _Tr(ast.NodeTransformer):
    def __init__(self, specs): self.specs = specs; self.k = -1; self.done = set()
    def loop(self, node):
        self.k += 1; k = self.k
        if k not in self.specs:
            self.generic_visit(node); return node
        sp = self.specs[k]
        if sp.kind and sp.kind != type(node).__name__.lower(): raise core.Unsupported('loop %d is a %s loop now' % (k, type(node).__name__))
        if node.orelse: raise core.Unsupported('loop else')
        self.done.add(k)
        sp.loads = {n.id for s in node.body for n in ast.walk(s) if isinstance(n, ast.Name)}
        names = sorted(set(sp.mut) | {n.id for s in node.body + ([node.target] if isinstance(node, ast.For) else []) for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        body = [_Cont(k).visit(s) for s in node.body]
        body2 = []
        for s in body:
            r = self.visit(s)
            body2 += r if isinstance(r, list) else [r]
        P = lambda src: ast.parse(src).body
        pre = []
        if isinstance(node, ast.For):
            e = P('__vc.iter(%d, 0)' % k)[0]; e.value.args[1] = node.iter; pre.append(e)
        pre += P('__vc.enter(%d, locals())' % k)
        if names: pre += P('(%s,) = __vc.havoc(%d, locals(), %r)' % (', '.join(names), k, names))
        else: pre += P('__vc.havoc(%d, locals(), [])' % k)
        head = []
        if isinstance(node, ast.For):
            head += P('if not __vc.more(%d): break' % k)
            asg = P('__x = __vc.next(%d)' % k)[0]; asg.targets[0] = node.target; head.append(asg)
        else:
            st = P('if not (0): break')[0]; st.test.operand = node.test; head.append(st)
        head += P('__vc.start(%d, locals())' % k)
        w = ast.While(test=ast.Constant(True), body=head + body2 + P('__vc.step(%d, locals())' % k), orelse=[])
        return pre + [w]
    visit_For = visit_While = loop
    def visit_FunctionDef(self, node):
        if getattr(self, 'top', None) is None:
            self.top = node; self.generic_visit(node)
        return node
    def visit_Lambda(self, node): return node

class _Cont(ast.NodeTransformer):
    def __init__(self, k): self.k = k
    def visit_For(self, n): return n
    visit_While = visit_FunctionDef = visit_Lambda = visit_For
    def visit_Continue(self, n): return ast.parse('__vc.step(%d, locals())' % self.k).body

def contract(fn, specs, text=False):
    """text: also rewrite '..' % x, '..'.join(x) and list comprehensions so that they accept ghost values"""
    raw = fn.__func__ if isinstance(fn, (staticmethod, classmethod)) else fn
    raw = inspect.unwrap(raw)
    try: src = inspect.getsource(raw)
    except (OSError, TypeError) as e: raise core.Unsupported('no source of %r' % fn)
    tree = ast.parse('if 1:\n' + src if src[:1].isspace() else src)      # comments may be indented less than the function
    if src[:1].isspace(): tree.body = tree.body[0].body
    f = tree.body[0]
    if not isinstance(f, ast.FunctionDef) or raw.__closure__: raise core.Unsupported('not a plain function')
    f.decorator_list = []
    tr = _Tr(specs); tree = tr.visit(tree)
    if text:
        from . import ghost
        tree = ghost._Text().visit(tree)
    if tr.done != set(specs): raise core.Unsupported('loops %s not found in %s' % (sorted(set(specs) - tr.done), raw.__qualname__))
    ast.fix_missing_locations(tree); ast.increment_lineno(tree, raw.__code__.co_firstlineno - (2 if src[:1].isspace() else 1))
    glob = raw.__globals__
    ns = _NS(glob)
    code = compile(tree, inspect.getsourcefile(raw) or '<vc>', 'exec')
    rt = _RT(specs)
    loc = {}
    import types
    fcode = next(c for c in code.co_consts if isinstance(c, types.CodeType))
    g = dict(glob); g['__vc'] = rt
    out = types.FunctionType(fcode, g, raw.__name__, raw.__defaults__)
    out.__kwdefaults__ = raw.__kwdefaults__
    out.vc_rt = rt
    return out

class _DynRT(_RT):
    """contracts chosen when a loop over a ghost sequence is entered"""
    def __init__(self, choose): _RT.__init__(self, {}); self.choose = choose
    def begin(self, k, S):
        if not hasattr(S, 'vc_iter'): return False
        seq = S.vc_iter(); sp = self.choose(seq)
        if sp is None: raise core.Unsupported('a loop without a contract')
        self.specs[k] = sp; self.its[k] = _It(seq); return True
class _DynTr(_Tr):
    def __init__(self, rt): self.rt, self.k, self.specs, self.done = rt, -1, {}, set()
    def visit_For(self, node):
        import copy
        if node.orelse: raise core.Unsupported('loop else')
        native = copy.deepcopy(node); _Tr.generic_visit(self, native)
        k = self.k + 1
        self.specs[k] = Spec(None, None); w = self.loop(copy.deepcopy(node))
        src = '__vc_s%d' % k
        native.iter = ast.Name(src, ast.Load())
        head = ast.parse('%s = 0\nif __vc.begin(%d, %s): pass\nelse: pass' % (src, k, src)).body
        head[0].value = node.iter; head[1].body = w[1:]; head[1].orelse = [native]
        return head
    def visit_While(self, node): self.generic_visit(node); return node
_CODE = {}
def _dyncode(fn):
    import types
    raw = inspect.unwrap(fn)
    if raw in _CODE: return _CODE[raw]
    try: src = inspect.getsource(raw)
    except (OSError, TypeError): raise core.Unsupported('no source of %r' % fn)
    tree = ast.parse('if 1:\n' + src if src[:1].isspace() else src)
    if src[:1].isspace(): tree.body = tree.body[0].body
    f = tree.body[0]
    if not any(isinstance(n, ast.For) for n in ast.walk(f)): _CODE[raw] = None; return None
    if not isinstance(f, ast.FunctionDef) or raw.__closure__: raise core.Unsupported('not a plain function')
    f.decorator_list = []
    tree = _DynTr(None).visit(tree)
    ast.fix_missing_locations(tree); ast.increment_lineno(tree, raw.__code__.co_firstlineno - (2 if src[:1].isspace() else 1))
    _CODE[raw] = next(c for c in compile(tree, inspect.getsourcefile(raw) or '<vc>', 'exec').co_consts if isinstance(c, types.CodeType))
    return _CODE[raw]
def dynamic(fn, glob):
    """fn with every `for` loop over a ghost sequence cut at the contract glob['__vc'] chooses on entry; None without loops"""
    import types
    code = _dyncode(fn)
    if code is None: return None
    raw = inspect.unwrap(fn)
    out = types.FunctionType(code, glob, raw.__name__, raw.__defaults__); out.__kwdefaults__ = raw.__kwdefaults__
    return out
def dynamic_object(obj, cls, rt):
    """the methods of obj with loops (and the functions of the module) run under the contracts of rt"""
    import types
    glob = dict(vars(importlib_module(cls.__module__))); glob['__vc'] = rt
    for n, f in list(glob.items()):
        if isinstance(f, types.FunctionType) and f.__module__ == cls.__module__: glob[n] = dynamic(f, glob) or f
    for n, f in vars(cls).items():
        if isinstance(f, types.FunctionType):
            f = dynamic(f, glob)
            if f is not None: obj.__dict__[n] = types.MethodType(f, obj)
def importlib_module(n):
    import sys
    return sys.modules[n]

def _NS(g): return g
