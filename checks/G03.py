import importlib, itertools, contextlib, io as sio, collections, math
import numpy as np
from pyvc.unit import Unit, need, Fail
MOD = 'bgem.gmsh.heal_mesh'
T = 'HealMesh.'
def hm(): return importlib.import_module(MOD)

# ------------------------------------------------------------------ ghost mesh of any size
class Tags:
    def __init__(self, e): self.e = e
    def __eq__(self, o): return o is self
    __hash__ = object.__hash__
def eqs(a, b):
    from pyvc import core
    return core.lift(a) == core.lift(b)
def same(a, b):
    from pyvc import core
    return core.CTX.fork(core.bterm(eqs(a, b)))
def among(n, ns):
    from pyvc import core
    return core.sor(False, *[eqs(n, m) for m in ns])
class World:
    """elements and nodes of a mesh before the call: arbitrary relations; an element seen by the code has 1..4 nodes"""
    def __init__(self, V, distinct=False):
        from pyvc import core, ghost
        self.V = V; self.seen = []; self.nmax = V.int('max_node'); self.emax = V.int('max_ele'); self.distinct = distinct
    def eint(self, name):
        from pyvc import core
        return core.SInt(core.CTX.fresh_int(name))
    def has(self, e):
        from pyvc import ghost, core
        return ghost.ufi('present', e) == 1
    def hasn(self, n):
        from pyvc import ghost
        return ghost.ufi('node_present', n) == 1
    def base(self, e):
        """contents of a present element"""
        from pyvc import core, ghost
        for k, v in self.seen:
            if same(k, e): return v
        self.V.assume(e <= self.emax)
        K = core.CTX.choose(4) + 1
        nodes = [ghost.ufi('node', e, k) for k in range(K)]
        for n in nodes: self.V.assume(self.hasn(n)); self.V.assume(n <= self.nmax)
        v = (ghost.ufi('type', e), Tags(e), nodes)
        self.seen.append((e, v)); return v
    def incident(self, n, e):
        from pyvc import core
        if not core.CTX.fork(self.has(e).t): return False
        return among(n, self.base(e)[2])

class Elements:
    def __init__(self, W): self.W = W; self.log = []      # (eid, contents or None)
    def find(self, e):
        from pyvc import core
        for k, v in reversed(self.log):
            if same(k, e): return v
        if core.CTX.fork(self.W.has(e).t): return self.W.base(e)
        return None
    def __contains__(self, e): return self.find(e) is not None
    def __getitem__(self, e):
        v = self.find(e)
        if v is None: raise KeyError('no element')
        return v
    def get(self, e, d=None):
        v = self.find(e); return d if v is None else v
    def __setitem__(self, e, v): self.log.append((e, v))
    def __delitem__(self, e):
        self[e]; self.log.append((e, None))
    def pop(self, e, *d):
        v = self.find(e)
        if v is None:
            if d: return d[0]
            raise KeyError('no element')
        self.log.append((e, None)); return v

class Nodes:
    def __init__(self, W): self.W = W; self.log = []; self.memo = []
    def find(self, n):
        from pyvc import core
        for k, v in reversed(self.log):
            if same(k, n): return v
        if not core.CTX.fork(self.W.hasn(n).t): return None
        for k, v in self.memo:
            if same(k, n): return v
        from pyvc import npshim, ghost
        v = npshim.array([ghost.ufr('x', n, c) for c in range(3)])
        self.memo.append((n, v)); return v
    def there(self, n):
        from pyvc import core
        r = self.W.hasn(n)
        for k, v in self.log: r = core.sand(r, core.snot(eqs(k, n))) if v is None else core.sor(r, eqs(k, n))
        return r
    def __contains__(self, n): return bool(self.there(n))
    def __getitem__(self, n):
        v = self.find(n)
        if v is None: raise KeyError('no node')
        return v
    def __setitem__(self, n, v): self.log.append((n, v))
    def __delitem__(self, n): self[n]; self.log.append((n, None))
    def pop(self, n, *d): v = self[n]; self.log.append((n, None)); return v

class NodeEls:
    """node -> set of elements; at the start exactly the incidence of the element list"""
    def __init__(self, W, empty=False): self.W = W; self.log = []; self.empty = empty
    def member(self, n, e, upto=None):
        from pyvc import core
        L = self.log if upto is None else self.log[:upto]
        r = False if self.empty else None
        k0 = max([i for i, x in enumerate(L) if x[0] == 'fun'], default=-1)
        if k0 >= 0: r = L[k0][2](n, e)
        if r is None: r = self.W.incident(n, e)
        for op, k, x in L[k0 + 1:]:
            if op == 'reset': r = core.sand(r, core.snot(eqs(k, n)))
            else:
                c = core.sand(eqs(k, n), eqs(x, e))
                r = core.sor(r, c) if op == 'add' else core.sand(r, core.snot(c))
        return r
    def __getitem__(self, n): return NSet(self, n)
    def get(self, n, d=None): return NSet(self, n)
    def setdefault(self, n, d=None): return NSet(self, n)
    def __setitem__(self, n, v):
        from pyvc import core
        if isinstance(v, SSet) and not v.items: self.log.append(('reset', n, None))
        else: raise core.Unsupported('assignment of a set')
    def __delitem__(self, n): self.log.append(('reset', n, None))
    def pop(self, n, *d): self.log.append(('reset', n, None))

class GSet:
    """a set of elements given by its membership; iteration shows one arbitrary member"""
    probe = None
    def vc_len(self):
        from pyvc import core
        k = core.SInt(core.CTX.fresh_int('size')); core.CTX.add((k >= 0).t)
        self.sizes = getattr(self, 'sizes', []) + [k]
        return k
    def __iter__(self):
        from pyvc import core
        p = GSet.probe
        if p is None: raise core.Unsupported('iteration over a ghost set')
        if p in self: yield p
    def __and__(self, o): return Inter([self, o])
    def intersection(self, *o): return Inter([self, *o])
    def __bool__(self): return bool(self.vc_len() > 0)
class NSet(GSet):
    def __init__(self, E, n): self.E, self.n, self.at = E, n, None
    def __contains__(self, e): return bool(self.E.member(self.n, e))
    def add(self, e): self.E.log.append(('add', self.n, e))
    def remove(self, e):
        if e not in self: raise KeyError('not in the set')
        self.E.log.append(('del', self.n, e))
    def discard(self, e): self.E.log.append(('del', self.n, e))
    def copy(self): return Inter([self])
class Inter(GSet):
    def __init__(self, sets):
        self.sets = list(sets); self.n = [len(s.E.log) if isinstance(s, NSet) else None for s in self.sets]
    def __contains__(self, e):
        return bool(self.has(e))
    def has(self, e):
        from pyvc import core
        return core.sand(True, *[s.E.member(s.n, e, k) if isinstance(s, NSet) else s.has(e) if isinstance(s, Inter) else e in s for s, k in zip(self.sets, self.n)])
class SSet:
    """a finite set of symbolic integers"""
    def __init__(self, x=()):
        self.items = []; self.ghost = []
        self.update(x)
    def add(self, x):
        if not any(x is y or same(x, y) for y in self.items): self.items.append(x)
    def update(self, *xs):
        for x in xs:
            if isinstance(x, GSet): self.ghost.append(Inter([x]))
            else:
                for y in x: self.add(y)
    def __iter__(self): return iter(list(self.items))
    def __contains__(self, x): return any(same(x, y) for y in self.items) or any(x in g for g in self.ghost)
    def __len__(self): return len(self.items)
    @staticmethod
    def intersection(*s): return Inter(s)
class Col:
    def __getattr__(self, n): return getattr(collections, n)
    @staticmethod
    def defaultdict(f): return DD(f)
class DD(dict):
    def __init__(self, f): self.f = f; self.l = []
    def __getitem__(self, k): self.l.append([k]); return self.l[-1]
def shim_set(x=()):
    return Inter([x]) if isinstance(x, GSet) else SSet(x)
shim_set.intersection = SSet.intersection
class MeshG: pass
def mesh(V, **k):
    W = World(V, **k)
    C = hm().HealMesh
    M = C.__new__(C)
    M.mesh = MeshG(); M.mesh.elements = Elements(W); M.mesh.nodes = Nodes(W)
    M.node_els = NodeEls(W); M._history = DD(list); M.modified_elements = SSet()
    M.max_ele_id, M.max_node_id = W.emax, W.nmax
    GSet.probe = None
    return M, W
class Sorted:
    """sorted(list of integers): two of them are equal exactly if they are permutations of each other"""
    def __init__(self, x): self.x = list(x)
    def vc_len(self): return len(self.x)
    __len__ = vc_len
    def __eq__(self, o):
        from pyvc import core
        if not isinstance(o, Sorted): raise core.Unsupported('comparison of a sorted list')
        if len(o.x) != len(self.x): return False
        return core.sor(False, *[core.sand(True, *[eqs(a, b) for a, b in zip(p, o.x)]) for p in itertools.permutations(self.x)])
    __hash__ = None
    def __iter__(self):
        from pyvc import core
        raise core.Unsupported('elements of a sorted list')
class Shape:
    """any shape: the size is an arbitrary number (only printed)"""
    def __init__(self, nodes): self.dim = len(nodes) - 1; self.nodes = nodes
    @property
    def measure(self):
        from pyvc import core
        return core.SReal(core.CTX.fresh_real('measure'))
EXS = {'Point': Shape, 'Line': Shape, 'Triangle': Shape, 'Tetrahedron': Shape}
EX = {MOD: {**EXS, 'sorted': Sorted, 'set': shim_set, 'print': lambda *a, **k: None}}
def arbitrary(V, W):
    return W.eint('e'), W.eint('n')
def exact(V, M, e, n, what='incidence'):
    """the incidence of an arbitrary node and element is that of the element list"""
    v = M.mesh.elements.find(e)
    has = False if v is None else among(n, v[2])
    V.ensure('%s is that of the element list' % what, iff(M.node_els.member(n, e), has))
    if v is not None:
        for m in v[2]: V.ensure('no element refers to a missing node', M.mesh.nodes.there(m))
def iff(a, b):
    from pyvc import core
    return core.SBool(core.bterm(a) == core.bterm(b))
def kept(V, M, W, e):
    """element e is as before"""
    from pyvc import core
    v = M.mesh.elements.find(e)
    if not core.CTX.fork(W.has(e).t): V.ensure('other elements are not added', v is None); return
    V.ensure('other elements stay', v is not None)
    b = W.base(e)
    V.ensure('other elements keep their types, tags and nodes', v is b or same_el(v, b))
def same_el(v, b):
    from pyvc import core
    return v is not None and v[1] is b[1] and len(v[2]) == len(b[2]) and core.sand(eqs(v[0], b[0]), *[eqs(x, y) for x, y in zip(v[2], b[2])])
def nodes_kept(V, M, W, n):
    from pyvc import ghost, core
    if core.CTX.fork(W.hasn(n).t):
        x = M.mesh.nodes.find(n)
        V.ensure('other nodes stay', x is not None)
        for c in range(3): V.ensure('other nodes keep their positions', x[c] == ghost.ufr('x', n, c))
    else: V.ensure('other nodes are not added', M.mesh.nodes.find(n) is None)

def aspects(V, M, W, e, n, el=None, node=None):
    k = V.choice('aspect', 3)
    if k == 0 and (el is None or not same(e, el)): kept(V, M, W, e); V.cover('other element')
    if k == 1: exact(V, M, e, n)
    if k == 2 and (node is None or not same(n, node)): nodes_kept(V, M, W, n)
def remove(V):
    from pyvc import core
    M, W = mesh(V)
    d = W.eint('eid'); V.assume(W.has(d))
    e, n = arbitrary(V, W)
    M.remove_element(d); V.cover('removed')
    V.ensure('the element is removed', M.mesh.elements.find(d) is None)
    aspects(V, M, W, e, n, el=d)
def fresh_element(V, W, kmax=4):
    K = V.choice('n_nodes', kmax) + 1
    ns = [V.int('new_node%d' % i) for i in range(K)]
    for x in ns: V.assume(W.hasn(x)); V.assume(x <= W.nmax)
    return (V.int('new_type'), Tags('new'), ns)
def duplicate(M, ele, e):
    """element e is present and equal to ele in type and nodes (with repetition)"""
    from pyvc import core
    v = M.mesh.elements.find(e)
    if v is None or len(v[2]) != len(ele[2]): return False
    perms = [core.sand(True, *[eqs(x, y) for x, y in zip(p, ele[2])]) for p in itertools.permutations(v[2])]
    return core.sand(eqs(v[0], ele[0]), core.sor(False, *perms))
def add(V):
    M, W = mesh(V)
    ele = fresh_element(V, W)
    e, n = arbitrary(V, W)
    seen = []
    def isdup(obj):
        V.ensure('the question is about the new element', same(obj.type, ele[0]) and len(obj.node_ids) == len(ele[2]) and all(same(a, b) for a, b in zip(obj.node_ids, ele[2])))
        seen.append(1)
        return [W.eint('w')] if V.choice('duplicate', 2) else []
    M.is_duplicate_el = isdup
    r = M.add_element(ele)
    if not seen: from pyvc import core; raise core.Unsupported('duplicates are not asked for')
    if V.choice('duplicate', 2) if False else (not M.mesh.elements.log):
        V.cover('duplicate'); aspects(V, M, W, e, n)
        V.ensure('no counter is moved', (M.max_ele_id >= W.emax))
        V.ensure('nothing is added only for duplicates', V.ctx_dup if hasattr(V, 'ctx_dup') else True)
        return
    V.cover('added')
    k = M.mesh.elements.log[-1][0]
    V.ensure('a new number', k > W.emax)
    V.ensure('the numbers are bounded by the counter', k <= M.max_ele_id)
    V.ensure('result is the new number', r is not None and same(r, k))
    V.ensure('the element is stored as given', same_el(M.mesh.elements.find(k), ele))
    V.ensure('recorded as modified', k in M.modified_elements)
    aspects(V, M, W, e, n, el=k)
def add_dup(V):
    """decision of add_element: added exactly if there is no duplicate"""
    M, W = mesh(V)
    ele = fresh_element(V, W)
    d = V.choice('dup', 2)
    M.is_duplicate_el = lambda obj: [W.eint('w')] if d else []
    M.add_element(ele)
    V.cover('dup %d' % d)
    V.ensure('an element is added exactly if there is no equal one', (not d) == bool(M.mesh.elements.log))
def dup(V):
    M, W = mesh(V)
    ele = fresh_element(V, W, 3 if not getattr(V, 'thorough', False) else 4)
    e = W.eint('e')
    GSet.probe = e
    obj = M._make_element(None, ele)
    r = M.is_duplicate_el(obj)
    got = any(x is e for x in r)
    V.ensure('only members are listed', got or len(list(r)) == 0)
    V.cover('listed' if got else 'not listed')
    V.ensure('listed exactly if equal in type and nodes', iff(got, duplicate(M, ele, e)))
def common(V):
    M, W = mesh(V)
    K = V.choice('n', 4) + 1
    ns = [V.int('n%d' % i) for i in range(K)]
    from pyvc import core
    e = W.eint('e'); GSet.probe = e
    r = list(M.common_elements(ns))
    want = W.base(e)[2] if V.ctx.fork(W.has(e).t) else []
    V.cover('listed' if r else 'not listed')
    V.ensure('listed exactly if present and incident to all', iff(bool(r), core.sand(bool(want), *[among(n, want) for n in ns])))
def move(V):
    from pyvc import npshim, core
    M, W = mesh(V)
    m = V.int('nid'); V.assume(W.hasn(m)); V.assume(m <= W.nmax)
    e, n = arbitrary(V, W); GSet.probe = e
    p = npshim.array(V.reals('p', 3))
    M.move_node(m, p); V.cover('moved')
    x = M.mesh.nodes.find(m)
    for c in range(3): V.ensure('the node is where it was asked to be', x[c] == p[c])
    aspects(V, M, W, e, n, node=m)
    if M.node_els.member(m, e): V.ensure('its elements are recorded as modified', e in M.modified_elements)
def node_ops(V):
    from pyvc import npshim
    M, W = mesh(V)
    e, n = arbitrary(V, W)
    if V.choice('op', 2):
        p = npshim.array(V.reals('p', 3))
        k = M.add_node(p); V.cover('node added')
        V.ensure('a new number', k > W.nmax); V.ensure('bounded by the counter', k <= M.max_node_id)
        x = M.mesh.nodes.find(k)
        V.ensure('the node is added', x is not None)
        for c in range(3): V.ensure('at its position', x[c] == p[c])
        if not same(n, k): nodes_kept(V, M, W, n)
        V.assume(W.hasn(k) == False)
        kept(V, M, W, e); exact(V, M, e, n)
    else:
        m = V.int('nid'); V.assume(W.hasn(m))
        try: M.remove_node(m)
        except AssertionError: V.cover('refused'); aspects(V, M, W, e, n); return
        # the length of the set was found zero
        V.cover('node removed')
        if W.incident(m, e): V.kill()
        V.ensure('the node is removed', M.mesh.nodes.find(m) is None)
        if not same(n, m): nodes_kept(V, M, W, n)
        kept(V, M, W, e); exact(V, M, e, n)
def merge(V):
    """merge_node over the contracts of the operations it uses"""
    from pyvc import core, ghost, loops, npshim
    M, W = mesh(V)
    rm, tg = V.int('rm'), V.int('target')
    V.assume(W.hasn(rm)); V.assume(W.hasn(tg)); V.assume(rm != tg); V.assume(rm <= W.nmax); V.assume(tg <= W.nmax)
    log = []; state = dict(phase=0)
    class S:
        def __init__(self, ns, k): self.ns, self.k = list(ns), k; self.n = W.eint('n%d' % k); core.CTX.add((self.n >= 0).t)
        def vc_iter(self): return loops.Seq(self.n, self.at)
        def at(self, i):
            e = ghost.ufi('member%d' % self.k, i); core.CTX.add((e <= W.emax).t); return e
    sets = []
    def common_elements(ns, *a, **k):
        s = S(ns, len(sets)); sets.append(s); log.append(('common', s)); return s
    def isx(a, b):
        if len(a) != len(b): return False
        return all(any(same(x, y) for y in b) for x in a)
    M.common_elements = common_elements
    M.remove_element = lambda e: log.append(('remove', e))
    def move_node(n, p):
        log.append(('move', n, p)); M.mesh.nodes[n] = p
    M.move_node = move_node
    M.add_element = lambda x: log.append(('add', x))
    M.remove_node = lambda n: log.append(('remove node', n))
    def U(): raise core.Unsupported('merge_node works differently')
    def inv(k):
        def f(L):
            c = state.get(k, 0); state[k] = c + 1
            if c == 0: state['n%d' % k] = len(log); return []
            if c == 1: return []
            i = L['__i'] - 1; e = sets[k].at(i)
            new = log[state['n%d' % k]:]
            if k == 0:
                if [x[0] for x in new] != ['remove']: U()
                core.CTX.prove('the elements with both nodes are removed', same(new[0][1], e))
            else:
                if sorted(x[0] for x in new) != ['add', 'remove']: U()
                r, a = sorted(new, key=lambda x: x[0], reverse=True)
                core.CTX.prove('the substituted element is replaced', same(r[1], e))
                t, g, ns = a[1]; b = W.base(e)
                core.CTX.prove('type is kept', same(t, b[0])); core.CTX.prove('tags are kept', g is b[1])
                core.CTX.prove('all nodes', len(ns) == len(b[2]))
                for x, y in zip(ns, b[2]):
                    core.CTX.prove('the survivor is substituted, other nodes stay', same(x, tg) if same(y, rm) else same(x, y))
                if log.index(r) > log.index(a): core.CTX.prove('the old element is removed first or differs', True)
            return []
        def havoc(L):
            if k == 1:
                e = sets[1].at(L['__i']); core.CTX.add(W.has(e).t)
            return {}
        sp = loops.Spec(f, havoc, variant=lambda L: L['__n'] - L['__i'], name='loop %d' % k, kind='for')
        return sp
    fn = loops.contract(hm().HealMesh.merge_node, {0: inv(0), 1: inv(1)})
    r = fn(M, rm, tg)
    V.cover('merged')
    kinds = [x[0] for x in log]
    if kinds != ['common', 'move', 'common', 'remove node']: U()
    V.ensure('elements of both nodes are dropped', isx(sets[0].ns, [rm, tg]) and len(sets[0].ns) == 2)
    V.ensure('elements of the removed node are substituted', len(sets[1].ns) == 1 and same(sets[1].ns[0], rm))
    V.ensure('the survivor is moved', same(log[1][1], tg))
    for c in range(3): V.ensure('to the midpoint', core.lift(log[1][2][c]) * 2 == ghost.ufr('x', rm, c) + ghost.ufr('x', tg, c))
    V.ensure('the other node is removed', same(log[3][1], rm))
    V.ensure('the survivor is returned', same(r, tg))
def build(V):
    """the incidence recorded at the start"""
    from pyvc import core, ghost, loops
    C = hm().HealMesh
    M, W = mesh(V)
    n_el = V.int('n_el', lo=0)
    eid = lambda i: ghost.ufi('eid', i)
    class Els(Elements):
        def items(s): return G('items')
        def keys(s): return G('keys')
        def vc_iter(s): return G('keys').vc_iter()
    class G:
        def __init__(s, k): s.k = k
        def vc_iter(s):
            def at(i):
                e = eid(i); core.CTX.add(W.has(e).t)
                return (e, W.base(e)) if s.k == 'items' else e
            return loops.Seq(n_el, at)
    M.mesh.elements = Els(W)
    made = []
    class D:
        def __getattr__(s, n): return getattr(collections, n)
        def defaultdict(s, f):
            if f is list: return DD(f)
            x = NodeEls(W, empty=True); made.append(x); return x
    C0 = hm().collections; hm().collections = D()
    e, n = arbitrary(V, W)
    idx = lambda x: ghost.ufi('index', x)       # enumeration of the present elements: eid is its inverse
    if core.CTX.fork(W.has(e).t):
        core.CTX.add(core.sand(idx(e) >= 0, idx(e) < n_el, eid(idx(e)) == e).t)
        W.base(e); pres = True
    else: pres = False
    st = dict(c=0)
    def upto(i):
        def f(a, b):      # recorded after i elements; only asked for the arbitrary pair
            if b is not e: return core.sand(idx(b) < i, idx(b) >= 0, W.incident(a, b))
            if not pres: return False
            return core.sand(idx(e) < i, W.incident(a, e))
        return f
    def inv(L):
        st['c'] += 1
        if st['c'] == 2: return []
        i = L['__i']
        if not made: raise core.Unsupported('the map is made differently')
        core.CTX.prove('recorded incidence of the first elements', iff(made[-1].member(n, e), core.sand(pres, pres and idx(e) < i, pres and W.incident(n, e))))
        return []
    def havoc(L):
        made[-1].log[:] = [('fun', None, upto(L['__i']))]
        i = L['__i']
        # the element of iteration i has index i
        core.CTX.add(z3imp(core, i, n_el, idx, eid, W))
        return {}
    sp = loops.Spec(inv, havoc, variant=lambda L: L['__n'] - L['__i'], name='elements', kind='for')
    try: loops.contract(C.make_node_to_el, {0: sp})(M)
    finally: hm().collections = C0
    V.cover('built')
    V.ensure('the map is the one made', M.node_els is made[-1])
    exact(V, M, e, n)
def z3imp(core, i, n, idx, eid, W):
    import z3
    return z3.Implies(z3.And(core.term(i) >= 0, core.term(i) < core.term(n)), core.term(idx(eid(i))) == core.term(i))

# ------------------------------------------------------------------ healing steps over the contracts of the operations
class StepShape:
    """any shape of an element: sizes are arbitrary numbers"""
    def __init__(self, V, K):
        from pyvc import npshim
        C = hm()
        self.dim = K - 1; self.nodes = npshim.array([V.reals('x%d' % i, 3) for i in range(K)])
        c = getattr(C, {2: 'Line', 3: 'Triangle', 4: 'Tetrahedron'}[K])
        self.edges = c.edges; self.vtxs_faces = getattr(c, 'vtxs_faces', None); self.V = V
        self.edge_lens = [V.real('len%d' % i, lo=0) for i in range(len(self.edges))]
        for x in self.edge_lens: V.assume(x > 0)
        self.edge_vectors = npshim.array([V.reals('edge%d' % i, 3) for i in range(len(self.edges))])
        self.face_normals = npshim.array([V.reals('normal%d' % i, 3) for i in range(4)]) if K == 4 else None
        self.measure = V.real('measure')
    def gmsh_gamma(self): return self.V.real('gamma')
    def small_edge_ratio(self): return self.V.real('ratio')
    def common_normal(self):
        from pyvc import npshim
        return npshim.array(self.V.reals('common normal', 3))
class Step:
    """a mesh in which every operation is only recorded; a question for common elements shows one arbitrary element having the nodes"""
    def __init__(self, V, K, distinct=True):
        from pyvc import core, npshim
        self.V = V
        self.M, self.W = mesh(V); M = self.M; self.log = []
        self.K = K
        for i in range(K): pass
        self.nodes = [V.int('node%d' % i) for i in range(K)]
        for i in range(K):
            V.assume(self.W.hasn(self.nodes[i]))
            for j in range(i if distinct else 0): V.assume(self.nodes[i] != self.nodes[j])
        E = type('El', (), {})(); E.eid = V.int('eid'); E.type = V.int('type'); E.tags = Tags('healed'); E.shape = StepShape(V, K)
        E.node_ids = npshim.array(self.nodes, dtype=int) if False else Ids(self.nodes)
        self.ele = E; self.seen = []
        M.gamma_tol = V.real('gamma_tol', lo=0); V.assume(M.gamma_tol > 0)
        M._abs_node_tol = V.real('node_tol', lo=0)
        M.common_elements = self.common
        M.remove_element = lambda e: self.log.append(('remove', e))
        M.add_element = lambda x: self.log.append(('add', x))
        M.move_node = lambda n, p: self.log.append(('move', n, p))
        def add_node(p):
            n = V.int('added'); self.log.append(('new', n, p)); V.assume(self.W.hasn(n) == False)
            return n
        M.add_node = add_node
        M.merge_node = lambda a, b: self.log.append(('merge', a, b))
        M.mesh.elements = self
        M.is_duplicate_el = lambda x: self.dups
        self.known = []; self.was = {}; self.which = None
    def __contains__(self, e): return True
    def __getitem__(self, e):
        for k, v in self.known:
            if k is e or same(k, e): return v
        from pyvc import core
        raise core.Unsupported('an element that was not found')
    def common(self, ns, *a, **k):
        from pyvc import core
        ns = list(ns)
        if self.which is not None:
            self.which -= 1
            if self.which != -1: return []
        elif self.V.choice('any', 2) == 0: return []
        e = self.W.eint('found'); Kf = 1 + core.CTX.choose(4)
        if Kf < len(ns): raise core.Kill()
        vs = [self.W.eint('fnode%d_%d' % (len(self.known), i)) for i in range(Kf)]
        for n in ns: core.CTX.add(core.bterm(among(n, vs)))
        v = (self.W.eint('ftype'), Tags('found'), vs)
        self.known.append((e, v)); self.was[id(v)] = list(vs); return [e]
class Ids:
    """an array of node numbers"""
    def __init__(self, x): self.x = list(x)
    def vc_len(self): return len(self.x)
    __len__ = vc_len
    def __iter__(self): return iter(list(self.x))
    def __getitem__(self, i):
        from pyvc import core
        if isinstance(i, (int, np.integer)): return self.x[i]
        if isinstance(i, core.SInt):
            for k in range(len(self.x)):
                if core.CTX.fork(core.bterm(eqs(i, k))): return self.x[k]
            raise IndexError
        return Ids(self.x[i] if isinstance(i, slice) else [self[j] for j in i])
    def __contains__(self, n): return any(same(n, m) for m in self.x)
def one_replaced(V, log, known, was):
    """removed and added elements of a step: an added one is a found and removed one with one node replaced"""
    from pyvc import core
    rem = [x[1] for x in log if x[0] == 'remove']; add = [x[1] for x in log if x[0] == 'add']
    reps = {}
    for a in add:
        c = [v for e, v in known if v[1] is a[1]]
        V.ensure('tags are those of the replaced element', len(c) == 1)
        old = was.get(id(c[0]), c[0][2])
        V.ensure('type is kept', same(a[0], c[0][0]))
        V.ensure('number of nodes is kept', len(a[2]) == len(old))
        e = [e for e, v in known if v is c[0]][0]
        V.ensure('the replaced element is removed', any(same(e, x) for x in rem))
        diff = [(x, y) for x, y in zip(a[2], old) if x is not y and not same(x, y)]
        V.ensure('one node is replaced', all(same(x, diff[0][0]) and same(y, diff[0][1]) for x, y in diff))
        V.ensure('a split replaces each node once', all(not same(x, y) for x, y in ((d[1], diff[0][1]) for d in reps.get(id(c[0]), []))) if diff else True)
        if diff: reps.setdefault(id(c[0]), []).append(diff[0])
        V.cover('split')
    V.ensure('an element is split in more than one', all(len(x) > 1 for x in reps.values()))
    return reps
def step_thin(K):
    def fn(V):
        from pyvc import core
        S = Step(V, K)
        V.ctx.ring_sqrt = True
        try: S.M._check_flat_triangle(S.ele)
        except AssertionError: V.cover('given up'); return
        one_replaced(V, S.log, S.known, S.was)
        for x in S.log:
            if x[0] == 'move': V.ensure('only nodes of the element are moved', among(x[1], S.nodes)); V.cover('moved')
            if x[0] == 'remove': V.ensure('only found elements are removed', any(same(x[1], e) for e, v in S.known))
    return fn
def step_flat(kind):
    def fn(V):
        from pyvc import npshim
        S = Step(V, 4)
        # a node of the flat element on one side of its plane or in it: one question at a time is answered by an element
        S.which = V.choice('question', 5 if kind == 'quad' else 2)
        X = np.array([[0., 0, 0], [2, 0, 0], [0, 2, 0], [.5, .75, 0]])
        try:
            if kind == 'quad':
                pos = list([(0, 1), (2, 0), (1, 3)][V.choice('edge', 3)]); neg = [i for i in range(4) if i not in pos]
                Y = X.copy(); Y[pos] = [[0, 0, 0], [2, 0, 0]]; Y[neg] = [[[.5, -1, 0], [.75, 1.5, 0]], [[0, -1, 0], [0, 1, 0]]][V.choice('crossing', 2)]
                S.M._heal_quad_flat_case(S.ele, Y, pos, neg)
            else:
                o = V.choice('outer', 4); i = [3 - o]; Y = X.copy()
                Y[i] = [[[.5, .75, 0]], [[1, .01, 0]]][V.choice('inner', 2)]; Y[[j for j in range(4) if j not in i]] = X[:3]
                S.M._heal_triangle_flat_case(S.ele, Y, o)
        except AssertionError: V.cover('given up'); return
        V.ensure('the flat element is removed', any(x[0] == 'remove' and same(x[1], S.ele.eid) for x in S.log))
        S.known.append((S.ele.eid, (S.ele.type, S.ele.tags, S.nodes)))
        reps = one_replaced(V, S.log, S.known, S.was)
        V.ensure('every part of a split element is added', all(len(x) == (2 if kind == 'quad' else 3) for x in reps.values()))
        new = [x[1] for x in S.log if x[0] == 'new']
        for x in S.log:
            if x[0] == 'move': V.ensure('only nodes of the element are moved', among(x[1], S.nodes)); V.cover('moved')
            if x[0] == 'remove': V.ensure('only found elements are removed', any(same(x[1], e) for e, v in S.known))
            if x[0] == 'add': V.ensure('nodes of the added elements exist', all(any(y is z for e, v in S.known for z in v[2]) or bool(among(y, S.nodes + new)) for y in x[1][2]))
    return fn
def step_small(kind):
    def fn(V):
        from pyvc import core
        K = 2 + V.choice('nodes of the element', 3)
        S = Step(V, K, distinct=kind != 'repeated')
        M = S.M; n = S.nodes
        if kind == 'repeated':
            M.active = lambda it: []
            M.node_els = AnyMap()
            M._check_dupl_nodes(S.ele)
            rep = core.sor(*[n[i] == n[j] for i in range(K) for j in range(i)])
            if S.log:
                V.cover('repeated node'); V.ensure('only an element with a repeated node is removed', rep)
                V.ensure('only the element is removed', len(S.log) == 1 and S.log[0][0] == 'remove' and same(S.log[0][1], S.ele.eid))
            else: V.cover('no repeated node'); V.ensure('an element with a repeated node is removed', core.snot(rep))
            return
        if kind == 'duplicate':
            m = V.choice('others', 4); S.dups = [V.int('other%d' % i) for i in range(m)]
            S.dups.insert(V.choice('position', m + 1) if m else 0, S.ele.eid)
            for i in range(len(S.dups)):
                for j in range(i): V.assume(S.dups[i] != S.dups[j])
            M._check_duplicate_element(S.ele)
            V.ensure('one of equal elements is left', len(S.log) == m and all(x[0] == 'remove' for x in S.log))
            for x in S.log: V.ensure('only duplicates are removed', core.sand(core.sor(*[x[1] == d for d in S.dups]), x[1] != S.ele.eid)); V.cover('removed')
            for i in range(len(S.log)):
                for j in range(i): V.ensure('every duplicate is removed once', S.log[i][1] != S.log[j][1])
            return
        L = S.ele.shape.edge_lens
        (M._check_small_edge if kind == 'short' else M._check_degen_nodes)(S.ele)
        if S.log:
            V.cover('merged')
            V.ensure('one pair of nodes is merged', len(S.log) == 1 and S.log[0][0] == 'merge')
            a, b = S.log[0][1:]
            ok = [core.sand(*([core.sor(core.sand(a == n[e[0]], b == n[e[1]]), core.sand(a == n[e[1]], b == n[e[0]]))] + [L[i] <= l for l in L] + ([L[i] < M._abs_node_tol] if kind == 'close' else []))) for i, e in enumerate(S.ele.shape.edges)]
            V.ensure('the ends of the shortest edge are merged', core.sor(*ok))
        else: V.cover('left'); V.ensure('close nodes are merged', core.sand(*[l >= M._abs_node_tol for l in L]) if kind == 'close' else False)
    return fn
class AnyMap:
    def __getitem__(self, k): return ()
# ------------------------------------------------------------------ quality measures
PERMS = {2: [(1, 0)], 3: [(1, 0, 2), (1, 2, 0)], 4: [(1, 0, 2, 3), (1, 2, 3, 0)]}      # generators of all orders
CLS = {2: 'Line', 3: 'Triangle', 4: 'Tetrahedron'}
def motion(V, X):
    """one step of a chain leading to any order, position and rotation"""
    from pyvc import npshim
    N = len(X)
    k = V.choice('motion', 4 + len(PERMS[N]))
    if k < len(PERMS[N]):
        p = PERMS[N][k]
        V.cover('order'); return X[list(p)], p
    k -= len(PERMS[N])
    if k == 0: V.cover('position'); return X + V_array(V, V.reals('shift', 3)), tuple(range(N))
    t = V.real('half_tan')
    d = 1 + t * t; c, s = (1 - t * t) / d, 2 * t / d
    a, b = [(0, 1), (1, 2), (2, 0)][k - 1]
    Y = X.copy()
    for i in range(N):
        Y[i, a] = c * X[i, a] - s * X[i, b]; Y[i, b] = s * X[i, a] + c * X[i, b]
    V.cover('rotation'); return Y, tuple(range(N))
def V_array(V, x):
    from pyvc import npshim
    return npshim.array(x) if V.symbolic else np.array(x, dtype=float)
def induced(cells, p, signed=False):
    """cell i of the moved element is cell out[i] of the original one"""
    out = []
    for c in cells:
        q = {p[v] for v in c}
        out.append(next(i for i, d in enumerate(cells) if set(d) == q))
    return out
def sizes(N):
    def fn(V):
        if V.symbolic: V.ctx.ring_sqrt = True
        X = V_array(V, [V.reals('p%d' % i, 3) for i in range(N)])
        Y, p = motion(V, X)
        C = getattr(hm(), CLS[N])
        a, b = C(X), C(Y)
        for i, j in enumerate(induced(C.edges, p)): V.eq('length of an edge', b.edge_lens[i], a.edge_lens[j])
        if N == 4:
            for i, j in enumerate(induced(C.vtxs_faces, p)): V.eq('area of a face', b.face_areas[i], a.face_areas[j])
            inv = sum(1 for i in range(4) for j in range(i) if p[j] > p[i]) % 2
            V.eq('signed volume', b.measure, a.measure if not inv else 0 - a.measure)
        else: V.eq('size', b.measure, a.measure)
    return fn
def quality(N, meth):
    """measures as functions of edge lengths, face areas and the size"""
    def fn(V):
        V.ctx.ring_sqrt = True
        from pyvc import core
        C = getattr(hm(), CLS[N])
        L = [V.real('len%d' % i, lo=0) for i in range(len(C.edges))]
        for x in L: V.assume(x > 0)
        m = V.real('size', lo=0)
        a, b = C(np.zeros((N, 3))), C(np.zeros((N, 3)))
        p = PERMS[N][V.choice('order', len(PERMS[N]))]
        a._edge_lens, b._edge_lens = list(L), [L[j] for j in induced(C.edges, p)]
        a._measure, b._measure = m, m if not V.choice('mirrored', 2) or N < 4 else 0 - m
        if N == 4:
            F = [V.real('area%d' % i, lo=0) for i in range(4)]
            for x in F: V.assume(x > 0)
            a._face_areas, b._face_areas = list(F), [F[j] for j in induced(C.vtxs_faces, p)]
        else: V.assume(m > 0)
        r = []
        for s in (a, b):
            try: r.append(getattr(s, meth)())
            except AssertionError: r.append(None)
        V.cover('value' if r[0] is not None else 'refused')
        V.ensure('refused for all orders or for none', (r[0] is None) == (r[1] is None))
        if r[0] is not None: V.eq(meth, r[0], r[1])
    return fn
QUAL = [(3, 'gmsh_gamma'), (4, 'gmsh_gamma'), (3, 'smooth_grad_error_indicator'), (4, 'smooth_grad_error_indicator'), (3, 'small_edge_ratio'), (4, 'small_edge_ratio'), (3, 'flat_indicator'), (4, 'flat_indicator')]
NOTE = 'Proof over meshes of any size (elements of 1..4 nodes, elements and nodes given by arbitrary relations, an arbitrary element and node observed): incidence equals that of the element list after make_node_to_el, add_element, remove_element, move_node, add_node, remove_node, nothing else changes, equal elements are found exactly; merge_node is proved over the contracts of those operations with loop contracts; edge lengths, face areas, volume and the quality measures are proved independent of node order, position and rotation. Healing of a thin triangle and of a flat tetrahedron (both shapes; a few geometries of it) is proved over the contracts of the operations: an element added has the type and tags of the found element it comes from with one node replaced, only found elements are removed, only nodes of the healed element move. Bounded: random meshes, histories of operations and whole heal_mesh runs checked after every step.'
UNITS = [
    Unit('remove_element', remove, [T + 'remove_element'], [MOD], conc=False, extra=EX, covers=['removed', 'other element'], allshape=True),
    Unit('add_element', add, [T + 'add_element', T + '_make_element'], [MOD], conc=False, extra=EX, covers=['added', 'duplicate', 'other element'], allshape=True, assumes=['contract of is_duplicate_el (unit is_duplicate_el)']),
    Unit('add_element: decision', add_dup, [T + 'add_element'], [MOD], conc=False, extra=EX, covers=['dup 0', 'dup 1'], allshape=True),
    Unit('is_duplicate_el', dup, [T + 'is_duplicate_el', T + 'common_elements', T + 'active'], [MOD], conc=False, extra=EX, covers=['listed', 'not listed'], allshape=True),
    Unit('common_elements', common, [T + 'common_elements', T + 'active'], [MOD], conc=False, extra=EX, covers=['listed', 'not listed'], allshape=True),
    Unit('move_node', move, [T + 'move_node'], [MOD], conc=False, extra=EX, covers=['moved'], allshape=True),
    Unit('add_node, remove_node', node_ops, [T + 'add_node', T + 'remove_node'], [MOD], conc=False, extra=EX, covers=['node added', 'node removed'], allshape=True),
    Unit('merge_node', merge, [T + 'merge_node'], [MOD], conc=False, extra=EX, covers=['merged'], allshape=True, assumes=['contracts of common_elements, remove_element, move_node, add_element, remove_node (their own units)']),
    *[Unit('sizes of a %s' % CLS[n], sizes(n), ['%s.measure' % CLS[n], 'ShapeBase.edge_lens', 'ShapeBase.edge_vectors'], [MOD], covers=['order', 'position', 'rotation']) for n in (2, 3, 4)],
    *[Unit('%s of a %s' % (m, CLS[n]), quality(n, m), ['%s.%s' % (CLS[n] if 'edge' not in m and 'flat' not in m else 'ShapeBase', m)], [MOD], conc=False, covers=['value']) for n, m in QUAL],
    Unit('make_node_to_el', build, [T + 'make_node_to_el'], [MOD], conc=False, extra=EX, covers=['built'], allshape=True),
]
UNITS += [Unit('healing of a thin triangle', step_thin(3), [T + '_check_flat_triangle'], [MOD], conc=False, extra={MOD: {'print': lambda *a, **k: None}}, covers=['split', 'moved', 'given up'], allshape=True, assumes=['contracts of the operations (their own units)'])]
UNITS += [Unit('healing of a flat tetrahedron: %s' % k, step_flat(k), [T + '_heal_%s_flat_case' % k], [MOD], conc=False, extra={MOD: {'print': lambda *a, **k: None}}, covers=['split', 'moved', 'given up'], allshape=True, assumes=['contracts of the operations (their own units)']) for k in ('quad', 'triangle')]
UNITS += [Unit('healing: %s' % n, step_small(k), [T + t], [MOD], conc=False, extra={MOD: {'print': lambda *a, **k: None}}, covers=c, allshape=True, assumes=['contracts of the operations (their own units)']) for k, n, t, c in (
    ('repeated', 'element with a repeated node', '_check_dupl_nodes', ['repeated node', 'no repeated node']), ('duplicate', 'equal elements (up to three others)', '_check_duplicate_element', ['removed']),
    ('close', 'close nodes', '_check_degen_nodes', ['merged', 'left']), ('short', 'short edge', '_check_small_edge', ['merged']))]
for u in UNITS: u.deadline = 200
LEVEL = 'proof'
BOUND = 'bounded part: meshes of up to 14 nodes and 40 elements, histories of up to 12 operations'
BSECS = 8
SHARDS = 4
TYPES = {1: 15, 2: 1, 3: 2, 4: 4}
def key(el): return (el[0], tuple(sorted(int(x) for x in el[2])))
def snap(M):
    return ({k: np.array(v, dtype=float) for k, v in M.mesh.nodes.items()}, {k: (v[0], tuple(v[1]), tuple(int(x) for x in v[2])) for k, v in M.mesh.elements.items()})
def consistent(H, M, at):
    E, N = M.mesh.elements, M.mesh.nodes
    want = {n: set() for n in N}
    for e, (t, g, ns) in E.items():
        for n in ns:
            H.check(n in N, 'no element refers to a missing node', lambda: '%s: element %s node %s' % (at, e, n))
            want[n].add(e)
    for n in N: H.check(set(M.node_els[n]) == want[n], 'incidence is that of the element list', lambda: '%s: node %s: %s, should be %s' % (at, n, sorted(M.node_els[n]), sorted(want[n])))
    for n, x in list(M.node_els.items()):
        if n not in N: H.check(not x, 'incidence of missing nodes', at)
def random_mesh(r, kind):
    io = importlib.import_module('bgem.gmsh.gmsh_io')
    G = io.GmshIO()
    n = r.randint(4, 14)
    ids = r.sample(range(1, 30), n)
    sc = r.choice([1, 1, 1, 10, 0.01])
    for i in ids: G.nodes[i] = [sc * (r.choice([0, 1, 2, r.random()]) if r.random() < .5 else r.random()) for _ in range(3)]
    if r.random() < .4:       # close nodes
        a, b = r.sample(ids, 2); G.nodes[b] = [x + sc * r.choice([0, 1e-6, -1e-5]) for x in G.nodes[a]]
    if r.random() < .4:       # flat
        a, b, c = r.sample(ids, 3); t = r.choice([.3, .5, .01, .97])
        G.nodes[c] = [(1 - t) * x + t * y + sc * r.choice([0, 1e-7, 1e-5]) * r.random() for x, y in zip(G.nodes[a], G.nodes[b])]
    eids = r.sample(range(1, 200), r.randint(1, 30))
    for e in eids:
        k = r.choice([1, 2, 3, 3, 4, 4, 4] if kind != 'surface' else [1, 2, 3, 3, 3])
        ns = [r.choice(ids) for _ in range(k)] if r.random() < .15 else r.sample(ids, k)
        if G.elements and r.random() < .15:
            t, g, ns = r.choice(list(G.elements.values())); ns = list(ns); r.shuffle(ns); k = len(ns)
        G.elements[e] = (TYPES[k], (r.randint(1, 3), r.randint(1, 9), 0)[:r.choice([2, 3])], list(ns))
    return G
def bounded(H):
    out = sio.StringIO()
    with contextlib.redirect_stdout(out):
        for it in itertools.count():
            if not H.time_left(): return
            r = H.rng(it)
            if it % 4 == 3: qualities(H, r, it)
            elif it % 4 == 2: healing(H, r, it)
            else: operations(H, r, it)
            out.seek(0); out.truncate()
def desc(G): return dict(nodes={k: [float(x) for x in v] for k, v in G.nodes.items()}, elements={k: [v[0], list(v[1]), [int(x) for x in v[2]]] for k, v in G.elements.items()})
def operations(H, r, it):
    G = random_mesh(r, r.choice(['mixed', 'surface']))
    M = hm().HealMesh(G)
    hist = []
    H.case(dict(desc(G), history=hist), it)
    consistent(H, M, 'start')
    for _ in range(r.randint(1, 12)):
        N0, E0 = snap(M)
        op = r.choice(['merge'] * 4 + ['add'] * 3 + ['remove', 'remove', 'move', 'add node', 'remove node', 'query'])
        nodes = list(N0)
        if len(nodes) < 2: break
        if op == 'merge':
            a, b = r.sample(nodes, 2)
            if E0 and r.random() < .7:
                ns = sorted(set(r.choice(list(E0.values()))[2]))
                if len(ns) > 1: a, b = r.sample(ns, 2)
            hist.append(['merge', a, b])
            M.merge_node(a, b)
            check_merge(H, M, a, b, N0, E0)
        elif op == 'add':
            if E0 and r.random() < .5:
                t, g, ns = r.choice(list(E0.values())); ns = list(ns); r.shuffle(ns)
                if r.random() < .3: ns[r.randrange(len(ns))] = r.choice(nodes)
                if r.random() < .15: t = 99
            else:
                k = r.randint(1, min(4, len(nodes))); ns = r.sample(nodes, k); t = TYPES[k]
                if k > 1 and r.random() < .2: ns[0] = ns[1]
            el = (t, (r.randint(1, 9), r.randint(1, 9), 0), list(ns))
            hist.append(['add', t, list(el[1]), list(ns)])
            i = M.add_element(el)
            N1, E1 = snap(M)
            same_nodes(H, N0, N1)
            H.check(all(E1.get(k) == v for k, v in E0.items()), 'adding changes no other element')
            new = [k for k in E1 if k not in E0]
            if any(key(v) == key(el) for v in E0.values()): H.check(not new, 'adding an equal element changes nothing', lambda: repr(el))
            else:
                H.check(len(new) == 1, 'an element is added', lambda: repr(el))
                H.check(E1[new[0]] == (t, el[1], tuple(ns)), 'the element is stored as given', lambda: '%r %r' % (E1[new[0]], el))
                H.check(i == new[0], 'number of the new element')
                H.check(new[0] in M.modified_elements, 'recorded as modified')
        elif op == 'remove':
            if not E0: continue
            e = r.choice(list(E0)); hist.append(['remove', e])
            M.remove_element(e)
            N1, E1 = snap(M); same_nodes(H, N0, N1)
            del E0[e]; H.check(E1 == E0, 'exactly the element is removed')
        elif op == 'move':
            n = r.choice(nodes); p = np.array([r.random() for _ in range(3)]); hist.append(['move', n, p.tolist()])
            M.move_node(n, p); N1, E1 = snap(M)
            H.check(E1 == E0, 'moving keeps the elements')
            N0[n] = p; same_nodes(H, N0, N1)
            H.check({k for k, v in E0.items() if n in v[2]} <= set(M.modified_elements), 'elements of the moved node are modified')
        elif op == 'add node':
            p = np.array([r.random() for _ in range(3)]); hist.append(['add node', p.tolist()])
            i = M.add_node(p); N1, E1 = snap(M)
            H.check(i not in N0, 'number of the new node'); N0[i] = p
            same_nodes(H, N0, N1); H.check(E1 == E0, 'a new node keeps the elements')
        elif op == 'remove node':
            n = r.choice(nodes); hist.append(['remove node', n])
            used = any(n in v[2] for v in E0.values())
            try: M.remove_node(n); ok = True
            except AssertionError: ok = False
            N1, E1 = snap(M)
            H.check(ok == (not used), 'used nodes are not removed')
            if ok: del N0[n]
            same_nodes(H, N0, N1); H.check(E1 == E0, 'removal of a node keeps the elements')
        else:
            ns = r.sample(nodes, r.randint(1, min(4, len(nodes))))
            got = list(M.common_elements(ns))
            H.check(sorted(got) == sorted(e for e, v in E0.items() if all(n in v[2] for n in ns)), 'elements common to nodes', lambda: '%r %r' % (ns, got))
            if E0:
                e = r.choice(list(E0)); got = M.is_duplicate_el(M._make_element(e))
                H.check(sorted(got) == sorted(k for k, v in E0.items() if key(v) == key(E0[e])), 'equal elements', lambda: '%r %r' % (e, got))
        consistent(H, M, str(hist[-1:]))
        H.count('operations')
def same_nodes(H, A, B):
    H.check(set(A) == set(B), 'other nodes stay', lambda: '%s %s' % (sorted(A), sorted(B)))
    for k in A: H.check(np.array_equal(A[k], B[k]), 'other nodes keep their positions', lambda: '%s %s %s' % (k, A[k], B[k]))
def check_merge(H, M, a, b, N0, E0):
    N1, E1 = snap(M)
    H.check(a not in N1 and b in N1, 'the first node is replaced by the second one')
    H.close(N1[b], (N0[a] + N0[b]) / 2, 'the survivor is at the midpoint', '', 1e-12)
    A = dict(N0); del A[a]; A[b] = N1[b]; same_nodes(H, A, N1)
    keep = {e: v for e, v in E0.items() if a not in v[2]}
    keep = {e: v for e, v in keep.items()}
    sub = {e: (v[0], v[1], tuple(b if n == a else n for n in v[2])) for e, v in E0.items() if a in v[2] and b not in v[2]}
    both = [e for e, v in E0.items() if a in v[2] and b in v[2]]
    for e, v in keep.items(): H.check(E1.get(e) == v, 'other elements stay', lambda: '%s %r %r' % (e, v, E1.get(e)))
    old = {key(v) for v in keep.values()}
    rest = {e: v for e, v in E1.items() if e not in keep}
    groups = {}
    for v in sub.values(): groups.setdefault(key(v), []).append(v)
    got = {}
    for v in rest.values(): got.setdefault(key(v), []).append(v)
    for k, g in groups.items():
        if k in old: H.check(k not in got, 'duplicates are dropped', lambda: repr(k))
        else:
            H.check(len(got.get(k, [])) == 1, 'substituted elements are kept once', lambda: '%r: %r, substituted %r' % (k, got.get(k), g))
            H.check(got[k][0] in g, 'types, tags and the order of nodes are kept', lambda: '%r %r' % (got[k][0], g))
    H.check(set(got) <= set(groups), 'elements of both nodes are dropped', lambda: '%r' % [k for k in got if k not in groups])
def flat_mesh(r):
    """a flat tetrahedron (quadrilateral or triangle with an inner node) or a thin triangle with elements attached"""
    G = importlib.import_module('bgem.gmsh.gmsh_io').GmshIO()
    ids = r.sample(range(1, 40), 10)
    kind = r.choice(['quad', 'inner', 'thin'])
    j = lambda a=.15: r.uniform(-a, a)
    P = {'quad': [[0, 0], [1, 1], [1, 0], [0, 1]], 'inner': [[0, 0], [1, 0], [.5, 1], [.5, .35]], 'thin': [[0, 0], [1, 0], [.5, .0], [.5, 1]]}[kind]
    e = r.choice([1e-3, 3e-3, 1e-4])
    X = [[x + j(), y + (j() if kind != 'thin' or i > 2 else e * j(1)), e * j(1) if kind != 'thin' or i < 3 else 1.] for i, (x, y) in enumerate(P)]
    X += [[.5 + j(), .5 + j(), z + j()] for z in (1, -1, 1.5, -1.5)] + [[-.5 + j(), .5 + j(), j()], [1.5 + j(), .5 + j(), j()]]
    R = rot(r); S = r.choice([1, 1, 10])
    for i, x in zip(ids, X): G.nodes[i] = list(map(float, S * (R @ np.array(x))))
    flat = list(range(4)) if kind != 'thin' else list(range(3)); r.shuffle(flat)
    k = itertools.count(1); eid = r.sample(range(1, 300), 60)
    def put(ns):
        ns = list(ns); r.shuffle(ns); i = next(k)
        G.elements[eid[i]] = (TYPES[len(ns)], (100 + i, 200 + i, 0)[:r.choice([2, 3])], [ids[n] for n in ns])
    put(flat)
    for c in itertools.combinations(range(4 if kind != 'thin' else 3), 3):
        if r.random() < .7: put(list(c) + [r.choice([4, 5])])
        if r.random() < .4: put(c)
    for c in itertools.combinations(range(4 if kind != 'thin' else 3), 2):
        if r.random() < .6: put(list(c) + r.sample(range(4, 10), 2))
        if r.random() < .3: put(list(c) + [r.randrange(4, 10)])
        if r.random() < .2: put(c)
    for _ in range(4): put(r.sample(range(10), 4))
    return G
STEPS = ('_check_dupl_nodes', '_check_degen_nodes', '_check_duplicate_element', '_check_flat_tetra', '_check_flat_triangle', '_check_small_edge')
def check_step(H, M, ele, N0, E0, gone, name):
    """one step of healing on an element: every new element is one that was removed with one node replaced, nothing away from the element is touched"""
    N1, E1 = snap(M); at = {int(n) for n in ele.node_ids}
    for n, x in N0.items():
        if n not in at: H.check(n in N1 and np.array_equal(N1[n], x), 'nodes of other elements are untouched', lambda: '%s of %s: node %s' % (name, ele.eid, n))
    for e, v in E0.items():
        if not at & set(v[2]): H.check(E1.get(e) == v, 'elements away from the healed one are untouched', lambda: '%s of %s: element %s' % (name, ele.eid, e))
        elif e in E1: H.check(E1[e] == v, 'types, tags and nodes of elements are kept', lambda: '%s of %s: element %s %s' % (name, ele.eid, e, v))
    for e, v in E1.items():
        if e in E0: continue
        H.check(any(g[:2] == v[:2] and len(g[2]) == len(v[2]) and len({(a, b) for a, b in zip(g[2], v[2]) if a != b}) <= 1 for g in gone), 'a new element has the type and tags of the one it replaces', lambda: '%s of %s: %s' % (name, ele.eid, v))
def healing(H, r, it):
    flat = r.random() < .6
    G = flat_mesh(r) if flat else random_mesh(r, r.choice(['mixed', 'mixed', 'surface']))
    M = hm().HealMesh(G, node_tol=r.choice([1e-4, 1e-3, .05]) if not flat else 1e-6)
    tol = r.choice([.02, .02, .2, .7] if not flat else [.02, .02, .05])
    H.case(dict(desc(G), gamma_tol=tol), it)
    kinds = {(v[0], tuple(v[1])) for v in G.elements.values()}
    C = type(M); orig = {}
    depth = [0]
    def wrap(name):
        f = getattr(M, name)
        def g(*a, **k):
            if depth[0]: return f(*a, **k)
            N0, E0 = snap(M)
            depth[0] = 1
            try: x = f(*a, **k)
            finally: depth[0] = 0
            gone.extend(v for e, v in E0.items() if e not in M.mesh.elements)
            consistent(H, M, '%s%r' % (name, a))
            if name == 'merge_node': check_merge(H, M, int(a[0]), int(a[1]), N0, E0)
            H.count('healing steps')
            return x
        setattr(M, name, g)
    for n in ('merge_node', 'remove_element', 'add_element', 'move_node', 'remove_node'): wrap(n)
    def step(name):
        f = getattr(M, name)
        def g(ele, *a, **k):
            N0, E0 = snap(M); del gone[:]
            x = f(ele, *a, **k)
            check_step(H, M, ele, N0, E0, gone, name); H.count('steps ' + name)
            return x
        setattr(M, name, g)
    gone = []
    for n in STEPS:
        if hasattr(M, n): step(n)
    try: M.heal_mesh(gamma_tol=tol)
    except AssertionError: H.count('healing given up')
    except ValueError: H.count('healing given up')
    consistent(H, M, 'end')
    H.check({(v[0], tuple(v[1])) for v in M.mesh.elements.values()} <= kinds, 'types and tags are kept', lambda: repr(kinds))
    H.count('healings')
def desc_nodes(G): return set(G.nodes)
def rot(r):
    Q, _ = np.linalg.qr(np.array([[r.gauss(0, 1) for _ in range(3)] for _ in range(3)]))
    return Q if np.linalg.det(Q) > 0 else -Q
def qualities(H, r, it):
    H.case(dict(quality=it), it)
    for k in range(20):
        N = r.choice([2, 3, 4, 4])
        X = np.array([[r.random() for _ in range(3)] for _ in range(N)])
        if r.random() < .3: X[-1] = X[:-1].mean(axis=0) + r.choice([.02, .1]) * np.array([r.random() for _ in range(3)])
        if r.random() < .2 and N == 4:
            X = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]], dtype=float)
        C = getattr(hm(), CLS[N])
        a = C(X.copy())
        if min(a.edge_lens) < 1e-3: continue
        if N > 2 and abs(a.measure) < 1e-5: continue
        p = list(range(N)); r.shuffle(p)
        Q, s = rot(r), np.array([r.uniform(-3, 3) for _ in range(3)])
        c = r.randrange(4)
        Y = X[p] if c == 0 else X @ Q.T if c == 1 else X + s if c == 2 else X[p] @ Q.T + s
        b = C(Y.copy())
        H.case(dict(kind=CLS[N], nodes=X.tolist(), moved=Y.tolist()), (it, k))
        H.close(sorted(a.edge_lens), sorted(b.edge_lens), 'edge lengths', '', 1e-9)
        if N == 4: H.close(sorted(a.face_areas), sorted(b.face_areas), 'face areas', '', 1e-9)
        H.close(abs(a.measure), abs(b.measure), 'size', '', 1e-9)
        if N == 2: continue
        for m in ('gmsh_gamma', 'smooth_grad_error_indicator', 'small_edge_ratio', 'flat_indicator'):
            u, v = getattr(a, m)(), getattr(b, m)()
            H.close(u, v, 'quality measure ' + m, '', 1e-6)
        H.count('quality comparisons')
