"""A symbolic heap for contracts over the linked records of a plane decomposition.

Objects are references (integer codes); fields are maps from codes to values, written by the real code. The state before an
operation: named cycles of segment sides of any length ("A": n sides, side k is at(k)), all other sides on cycles apart. A segment
side is a dart (segment, side). `next` of a dart of a cycle is the following dart; its `wire` is the label of the cycle."""
import importlib
import z3
from . import core, loops
from . import ghost as g
from .core import SInt, SBool, Unsupported, term

H = None
POLY = 'bgem.polygons.'
def mod(n): return importlib.import_module(POLY + n)
def isnew(c): return isinstance(c, int) and c < 0
def eq(a, b):
    """equality of codes / sides as a condition"""
    if isinstance(a, int) and isinstance(b, int): return a == b
    if (isnew(a) or isnew(b)): return False          # codes of objects before the operation are not negative
    return core.lift(a) == b
def add(c): core.CTX.add(core.bterm(c))
def decide(c): return c if isinstance(c, bool) else core.CTX.fork(core.bterm(c))
def same(a, b): return decide(core.sand(*[eq(x, y) for x, y in zip(a, b)]))
def ifi(name, *a): return g.ufi(name, *a)
_bf = {}
def ufb(name, *a):
    ks = tuple(core._small(x) for x in a)
    if None not in ks: return core.memo(('ub', name) + ks, a, lambda: _ufb(name, a))
    return _ufb(name, a)
def _ufb(name, a):
    k = (name, len(a))
    if k not in _bf: _bf[k] = z3.Function(name + '?', *([z3.IntSort()] * len(a)), z3.BoolSort())
    return SBool(_bf[k](*[term(x) for x in a]))

class Vec:
    """plane vector with real coordinates"""
    def __init__(self, x, y, of=None):
        self.v = (x, y)
        if of is not None: self.of = of
    def __sub__(self, o): return Vec(self.v[0] - o.v[0], self.v[1] - o.v[1])
    def __add__(self, o): return Vec(self.v[0] + o.v[0], self.v[1] + o.v[1])
    def __mul__(self, t): return Vec(self.v[0] * t, self.v[1] * t)
    __rmul__ = __mul__
    def __neg__(self): return Vec(-self.v[0], -self.v[1])
    def __getitem__(self, i): return self.v[i]
    def __iter__(self): return iter(self.v)
    def __len__(self): return 2
    def copy(self): return Vec(*self.v)
    def same(self, o): return core.sand(core.lift(self.v[0]) == o.v[0], core.lift(self.v[1]) == o.v[1])

class Heap:
    def __init__(self, V, fan=False, plain_sets=False, contracts=()):
        """fan: the named cycles are those of the sides around vertices (a side is where it ends); plain_sets: the nesting of
        loops is not looked at; contracts: functions used by their contract"""
        global H
        self.plain_sets, self.contracts = plain_sets, contracts
        self.fan = fan; self.pts = []; self.on_member = None
        self.V, self.ups, self.base, self.cycles, self.nnew, self.log, self.memo = V, {}, {}, [], 0, [], {}
        self.clock = 0
        H = self
        b = self.base
        b['next'] = self.base_next; b['wire'] = self.base_wire
        b['vtxs'] = lambda s, i: self.pt(ifi('vt', s, i))
        b['vec'] = lambda s: self.pt(ifi('vt', s, 1)).xy - self.pt(ifi('vt', s, 0)).xy
        b['xy'] = lambda p: Vec(g.ufr('x', p), g.ufr('y', p), p)
        b['seg.attr'] = lambda s: self.attr('seg.attr', s)
        b['pt.attr'] = lambda p: self.attr('pt.attr', p)
        b['poly.attr'] = lambda p: self.attr('poly.attr', p)
        b['wire.segment'] = self.base_rep
        b['wire.polygon'] = lambda w: self.pg(ifi('polygon of wire', w))
        b['outer'] = lambda p: self.wr(ifi('outer wire', p))
        b['parent'] = self.base_parent
        b['childs'] = lambda o, x: False if isnew(x) or isnew(o) else core.sand(core.lift(ifi('parent', x)) == o, core.snot(ufb('root', x)))
        b['point.segment'] = self.base_psegment
        b['poly'] = lambda p: self.pg(ifi('polygon of point', p)) if decide(ufb('free', p)) else None
        b['free_points'] = lambda o, x: False if isnew(x) or isnew(o) else core.sand(ufb('free', x), ifi('polygon of point', x) == o)
        b['pt_to_seg'] = self.base_p2s
        mk_classes()
    # ---- objects
    def obj(self, kind, c):
        if isinstance(c, SInt):
            k = g.known(c)
            if k is not None: c = k
        key = (kind, c if isinstance(c, int) else term(c).get_id())
        if key not in self.memo:
            o = K[kind].__new__(K[kind]); o.c = c
            if not isinstance(c, int): add(c >= 0)
            self.memo[key] = o; self.memo[key, 'keep'] = c
            if kind == 'seg' and not isnew(c): add(core.lift(ifi('vt', c, 0)) != ifi('vt', c, 1))
        return self.memo[key]
    def seg(self, c): return self.obj('seg', c)
    def pt(self, c): return self.obj('pt', c)
    def wr(self, c): return self.obj('wr', c)
    def pg(self, c): return self.obj('pg', c)
    def attr(self, f, c):
        k = (f, c if isinstance(c, int) else term(c).get_id())
        if k not in self.memo: self.memo[k] = Val(c); self.memo[k, 'keep'] = c
        return self.memo[k]
    def fresh(self, kind): self.nnew += 1; return -self.nnew
    def log_new(self, w): return [o for k, o in self.log if k == 'new ' + w][-1]
    axiom = None
    fan_walk = None      # contract of Point.segments
    insert = None        # contract of Point.insert_vector
    # ---- fields
    def read(self, f, *key):
        for k, v in reversed(self.ups.get(f, [])):
            if same(k, key): return v() if isinstance(v, Lazy) else v
        if any(isnew(k) for k in key[:1]) and f not in ('childs', 'free_points', 'pt_to_seg') and self.base[f] is self.base0(f): raise AttributeError('%s of a new object is not set' % f)
        return self.base[f](*key)
    def base0(self, f):
        self._b0 = getattr(self, '_b0', {}); return self._b0.setdefault(f, self.base[f])
    def write(self, f, key, v): self.base0(f); self.ups.setdefault(f, []).append((key, v))
    def snap(self, f):
        """the present value of a field, as a function"""
        ups, base = list(self.ups.get(f, [])), self.base[f]
        def read(*key):
            for k, v in reversed(ups):
                if same(k, key): return v() if isinstance(v, Lazy) else v
            return base(*key)
        return read
    def reset(self, f, fn): self.base0(f); self.base[f] = fn; self.ups[f] = []
    # ---- cycles before the operation
    def cycle(self, name, n=None):
        c = Cyc(self, name, len(self.cycles) + 1, None, n); self.cycles.append(c); return c
    def named(self, p):
        for q in self.pts: add(core.lift(q.c) != p.c)
        self.pts.append(p); return p
    def resolve(self, s, i):
        """('new',), ('cyc', C, k) or ('other',)"""
        if isnew(s): return ('new',)
        for C in self.cycles:
            for k in C.known:
                o, sd = C.known[k][1:]
                if o.c is s and (sd is i or isinstance(i, int) and isinstance(sd, int) and i == sd): return ('cyc', C, C.known[k][0])
        for C in self.cycles:
            if decide(ifi('which', s, i) == C.no):
                k = ifi('idx', s, i); add(core.sand(k >= 0, k < C.n, ifi('seg_' + C.name, k) == s, ifi('side_' + C.name, k) == i))
                if self.fan: add(core.lift(ifi('vt', s, i)) == C.point.c)
                return ('cyc', C, k)
        self.off(s, i)
        return ('other',)
    def off(self, s, i):
        """facts about a side that is on none of the named cycles"""
        add(ifi('which', s, i) == 0)
        for p in self.pts: add(core.lift(ifi('vt', s, i)) != p.c)       # the fan of a vertex has all the sides that end there
    def ring(self, d): return (d[0], 1 - d[1]) if self.fan else d
    def base_next(self, s, i):
        r = self.resolve(s, i)
        if r[0] == 'cyc':
            n = self.ring(r[1].at(r[1].wrap(r[2] + 1)))
        elif r[0] == 'other':
            n = self.dart(ifi('nx', s, i), ifi('nxs', s, i)); self.off(n[0].c, n[1]); n = self.ring(n)
        else: raise AttributeError('next of a new segment is not set')
        add(core.lift(ifi('vt', s, i)) == ifi('vt', n[0].c, 1 - n[1]))       # consecutive sides meet in a vertex
        return n
    def dart(self, s, i):
        add(core.sand(i >= 0, i <= 1))
        return (self.seg(s), i)
    def base_wire(self, s, i):
        r = ('other',) if self.fan else self.resolve(s, i)
        if r[0] == 'cyc': return r[1].wire
        w = self.wr(ifi('wire', s, i))
        for C in self.cycles:
            if not self.fan: add(core.lift(w.c) != C.wire.c)
        return w
    def base_rep(self, w):
        for C in self.cycles if not self.fan else []:
            if decide(eq(w, C.wire.c)):
                k = ifi('rep', C.no); add(core.sand(k >= 0, k < C.n)); return C.at(k)
        d = self.dart(ifi('rep seg', w), ifi('rep side', w))
        if not self.fan: add(core.sand(ifi('wire', d[0].c, d[1]) == w, ifi('which', d[0].c, d[1]) == 0))
        return d
    def base_parent(self, w):
        if decide(ufb('root', w)): return None
        return self.wr(ifi('parent', w))
    def base_psegment(self, p):
        if decide(ufb('free', p)): return (None, None)
        for C in self.cycles if self.fan else []:
            if decide(eq(p, C.point.c)):
                k = ifi('rep', C.no); add(core.sand(k >= 0, k < C.n)); return C.at(k)
        d = self.dart(ifi('fan seg', p), ifi('fan side', p))
        if self.fan: self.off(d[0].c, d[1])
        add(core.lift(ifi('vt', d[0].c, d[1])) == p); return d
    def base_p2s(self, a, b):
        if isnew(a) or isnew(b): return None
        if decide(ufb('has', a, b)):
            s = self.seg(ifi('p2s', a, b)); add(core.sand(ifi('vt', s.c, 0) == a, ifi('vt', s.c, 1) == b)); return self.live(s)
        return None
    def live(self, s):
        """facts about a segment of the decomposition"""
        a, b = ifi('vt', s.c, 0), ifi('vt', s.c, 1)
        add(core.sand(ufb('has', a, b), ifi('p2s', a, b) == s.c, core.snot(ufb('has', b, a)), core.snot(ufb('free', a)), core.snot(ufb('free', b))))
        return s
    # ---- contracts of the walks
    def previous(self, s, side):
        """the dart whose next is (s, side)"""
        ups = self.ups.get('next', [])
        seen = []
        for k, v in reversed(ups):
            if any(same(k, q) for q in seen): continue
            seen.append(k)
            if same((v[0].c, v[1]), (s.c, side)): return (self.seg(k[0]), k[1])
        x = self.ring((s, side))
        r = self.resolve(s.c, x[1])
        if r[0] == 'cyc':
            p = r[1].at(r[1].wrap(r[2] - 1, -1))
        elif r[0] == 'other':
            p = self.dart(ifi('pv', s.c, x[1]), ifi('pvs', s.c, x[1])); self.off(p[0].c, p[1]); add(core.sand(ifi('nx', p[0].c, p[1]) == s.c, ifi('nxs', p[0].c, p[1]) == x[1]))
        else: core.CTX.prove('a side has a previous one', False); raise core.Kill()
        add(core.lift(ifi('vt', s.c, 1 - side)) == ifi('vt', p[0].c, p[1]))
        for q in seen:
            if same(q, (p[0].c, p[1])): core.CTX.prove('the previous side exists: next links form cycles', False); raise core.Kill()
        return p
    def path(self, start, end, whole='walk'):
        """sides met by following next from start up to (excluding) end, as pieces ('one', dart) or ('run', C, k, length)"""
        d, out = start, []
        for _ in range(14):
            key = (d[0].c, d[1]); nx = None
            for k, v in reversed(self.ups.get('next', [])):
                if same(k, key): nx = v; break
            if nx is not None: out.append(('one', d))
            else:
                r = self.resolve(*key)
                if r[0] == 'new': raise AttributeError('next of a new segment is not set')
                if r[0] == 'other': raise Unsupported('walk over an unnamed cycle')
                C, k = r[1:]
                best = None          # nearest side of the cycle whose next was changed
                seen = []
                for q, v in reversed(self.ups.get('next', [])):
                    if any(same(q, x) for x in seen): continue
                    seen.append(q)
                    rq = self.resolve(*q)
                    if rq[0] != 'cyc' or rq[1] is not C: continue
                    dist = C.dist(k, rq[2])
                    if best is None or decide(dist < best[0]): best = (dist, v)
                re = self.resolve(end[0].c, end[1])
                if re[0] == 'cyc' and re[1] is C:
                    de = C.dist(k, re[2])
                    if not out and decide(de == 0): de = C.n
                    if best is None or decide(de <= best[0]): out.append(('run', C, k, de)); return Path(self, out)
                if best is None: core.CTX.prove('%s reaches its end' % whole, False); raise core.Kill()
                out.append(('run', C, k, best[0] + 1)); nx = best[1]
            if same((nx[0].c, nx[1]), (end[0].c, end[1])): return Path(self, out)
            if same((nx[0].c, nx[1]), (start[0].c, start[1])): core.CTX.prove('%s reaches its end' % whole, False); raise core.Kill()
            d = nx
        raise Unsupported('walk of many pieces')

class Lazy:
    def __init__(self, f): self.f = f
    def __call__(self): return self.f()

class Path:
    def __init__(self, h, pieces):
        self.h, self.pieces = h, pieces
        self.n = 0
        for p in pieces: self.n = self.n + (1 if p[0] == 'one' else p[3])
    def at(self, i):
        off = 0
        for j, p in enumerate(self.pieces):
            m = 1 if p[0] == 'one' else p[3]
            if j == len(self.pieces) - 1 or decide(core.lift(i) < off + m):
                return p[1] if p[0] == 'one' else p[1].at(p[1].wrap(p[2] + (i - off)))
            off = off + m
    def index(self, s, i):
        """place of a dart on the path, or None"""
        off = 0
        r = None
        for p in self.pieces:
            if p[0] == 'one':
                if same((p[1][0].c, p[1][1]), (s, i)): return off
                off = off + 1
            else:
                if r is None: r = self.h.resolve(s, i)
                if r[0] == 'cyc' and r[1] is p[1]:
                    d = p[1].dist(p[2], r[2])
                    if decide(d < p[3]): return off + d
                off = off + p[3]
        return None
    def glist(self):
        x = g.GList(core.lift(self.n), self.at); x.tag = self; return x

class Cyc:
    def __init__(self, h, name, no, wire, n=None):
        self.h, self.name, self.no, self.known = h, name, no, {}
        self.n = h.V.int('n_' + name, lo=1) if n is None else n
        if h.fan: self.point = h.named(h.pt(ifi('centre', no)))
        else:
            self.wire = h.wr(ifi('label', no)) if wire is None else wire
            for C in h.cycles: add(core.lift(C.wire.c) != self.wire.c)
    def at(self, k):
        k = core.lift(k); key = term(k).get_id()
        if key not in self.known:
            s, i = ifi('seg_' + self.name, k), ifi('side_' + self.name, k)
            add(core.sand(i >= 0, i <= 1, ifi('idx', s, i) == k, ifi('which', s, i) == self.no, k >= 0, k < self.n))
            self.known[key] = (k, self.h.seg(s), i)
            if self.h.fan: add(ifi('vt', s, i) == self.point.c)
        k, o, sd = self.known[key]
        return (o, sd)
    def wrap(self, k, how=1):
        k = core.lift(k)
        if how > 0: return k - self.n if decide(k >= self.n) else k
        return k + self.n if decide(k < 0) else k
    def dist(self, a, b):
        """steps from position a to position b"""
        d = core.lift(b) - a
        return d + self.n if decide(d < 0) else d

class Val:
    """opaque value"""
    def __init__(self, c): self.c = c
class GSet:
    """set kept by an object: membership is a field"""
    def __init__(self, f, kind, owner): self.f, self.kind, self.o = f, kind, owner
    def has(self, x): return H.read(self.f, self.o.c, x.c)
    def __contains__(self, x): return bool(decide(self.has(x)))
    def add(self, x): H.write(self.f, (self.o.c, x.c), True)
    def discard(self, x): H.write(self.f, (self.o.c, x.c), False)
    def remove(self, x):
        if not decide(self.has(x)): raise KeyError('not in ' + self.f)
        self.discard(x)
    def vc_iter(self):
        """an arbitrary enumeration of the present members"""
        H.clock += 1; v = H.clock; has, o, kind, f = H.snap(self.f), self.o, self.kind, self.f
        n0 = H.V.int('size_%d' % v, lo=0)
        new = [x for k, x in H.log if k == 'new ' + WORD[kind] and decide(has(o.c, x.c))]      # order of the enumeration: new ones first
        n = n0 + len(new)
        def at(j):
            for k, x in enumerate(new):
                if decide(core.lift(j) == k): return x
            j = j - len(new)
            x = H.obj(kind, ifi('member', v, j)); add(core.sand(ifi('place', v, x.c) == j, has(o.c, x.c)))
            if H.on_member and kind == 'wr': H.on_member(x)
            return x
        q = loops.Seq(n, at); q.has = lambda c: has(o.c, c)
        def place(c):
            """place of a member"""
            for k, x in enumerate(new):
                if x.c is c or isnew(c) and x.c == c: return k
            j = ifi('place', v, c); add(core.sand(j >= 0, j < n0, ifi('member', v, j) == c)); return j + len(new)
        q.place = place; q.tag = q; q.f = f
        return q
    def __iter__(self): raise Unsupported('iteration over a set')
    def __len__(self): raise Unsupported('size of a set')

class Pair:
    """a two element list field, element i is `field(code, i)`"""
    def __init__(self, f, o): self.f, self.o = f, o
    def ix(self, i):
        if isinstance(i, int) and not isinstance(i, bool): k = i
        elif isinstance(i, SInt):
            return i if g.known(i) is None else g.known(i)
        else: raise Unsupported('index')
        if k not in (0, 1): raise Unsupported('index')
        return k
    def __getitem__(self, i): return H.read(self.f, self.o.c, self.ix(i))
    def __setitem__(self, i, v): H.write(self.f, (self.o.c, self.ix(i)), v)
    def __iter__(self): return iter([self[0], self[1]])
    def __len__(self): return 2
def pair(f):
    def get(self): return Pair(f, self)
    def put(self, v):
        v = list(v); H.write(f, (self.c, 0), v[0]); H.write(f, (self.c, 1), v[1])
    return property(get, put)
def single(f):
    return property(lambda self: H.read(f, self.c), lambda self, v: H.write(f, (self.c,), v))
class NoSet:
    """set whose content is not looked at"""
    def __init__(self, f): self.f = f
    def __contains__(self, x): return True
    def add(self, x): pass
    discard = remove = add
    def vc_iter(self):
        H.clock += 1; v = H.clock
        q = loops.Seq(H.V.int('size_%d' % v, lo=0), lambda j: H.wr(ifi('member', v, j))); q.tag = q; q.f = self.f; return q
    def __iter__(self): raise Unsupported('iteration over a set')
    def __len__(self): raise Unsupported('size of a set')
def rm_segment_contract(self, seg, vtx):
    """contract of Point.rm_segment: the segment of the point is another one of its fan, if there is one"""
    core.CTX.prove('the point is an end of the segment', eq(seg.vtxs[vtx].c, self.c))
    known = any(decide(eq(k[0], self.c)) for k, v in H.ups.get('point.segment', []))
    if known or H.ups.get('vtxs'):
        if not decide(eq(self.segment[0].c, seg.c)): return
        if H.ups.get('vtxs'): return mod('point').Point.rm_segment(self, seg, vtx)
    n = seg.next[vtx]
    if same((n[0].c, n[1]), (seg.c, 1 - vtx)) and decide(eq(self.segment[0].c, seg.c)):
        if not seg.is_dendrite(): raise AssertionError()
        self.set_polygon(seg.wire[1].polygon); return
    H.clock += 1; v = H.clock
    def d():
        e = H.dart(ifi('other', v), ifi('other side', v)); add(core.sand(ifi('vt', e[0].c, e[1]) == self.c, core.snot(eq(e[0].c, seg.c)))); return e
    H.write('point.segment', (self.c,), Lazy(d))
def framed(what, fields, run):
    """run, which changes these fields only"""
    st = lambda: {f: (len(v), id(H.base[f])) for f, v in H.ups.items() if v or f in getattr(H, '_b0', {})}
    b = st(); r = run()
    core.CTX.prove('%s changes nothing else' % what, not any(f not in fields and b.get(f, (0, id(H.base[f]))) != x for f, x in st().items()))
    return r
def checked_rm_segment(real, self, seg, vtx):
    """the real function, and its contract"""
    was, lab = self.segment, 'Point.rm_segment: '
    framed('Point.rm_segment', ('point.segment', 'poly', 'free_points'), lambda: real(self, seg, vtx))
    now = self.segment; prove = core.CTX.prove
    if was[0] is not None and not decide(eq(was[0].c, seg.c)): prove(lab + 'another segment of the point is kept', veq(now, was)); return
    n = seg.next[vtx]
    if same((n[0].c, n[1]), (seg.c, 1 - vtx)):
        q = seg.wire[1].polygon
        prove(lab + 'the end of a lonely segment becomes isolated', now[0] is None and self.poly is not None and veq(self.poly, q)); prove(lab + 'isolated point is registered', H.read('free_points', q.c, self.c)); return
    if now[0] is None: prove(lab + 'a vertex keeps a segment', False); raise core.Kill()
    prove(lab + 'another segment', core.snot(eq(now[0].c, seg.c))); prove(lab + 'a segment that ends there', veq(H.read('vtxs', now[0].c, now[1]), self))
def steps(start):
    if start[0] is None: return
    d = start
    for _ in range(3):
        yield d
        n = d[0].next[d[1]]; d = (n[0], 1 - n[1])
        if same((d[0].c, d[1]), (start[0].c, start[1])): return
    raise Unsupported('walk around a point')
def setof(f, kind, plain=None):
    def put(self, v):
        if type(v) is not set or v: raise Unsupported('assigned set')
        if not isnew(self.c): raise Unsupported('assigned set')
    return property(lambda self: NoSet(f) if plain is not None and plain(self) else GSet(f, kind, self), put)
def ident():
    def put(self, v): raise Unsupported('identifier set')
    return property(lambda self: self.c, put)

K = {}
WORD = dict(seg='segment', wr='wire', pg='polygon', pt='point')
def mk_classes():
    S, P, W, Pg = mod('segment').Segment, mod('point').Point, mod('polygon').Wire, mod('polygon').Polygon
    if K.get('src') == (S, P, W, Pg): return
    class HSeg(S):
        def __init__(self, *a, **k): self.c = H.fresh('seg'); H.log.append(('new segment', self)); S.__init__(self, *a, **k)
        id = ident(); vtxs = pair('vtxs'); next = pair('next'); wire = pair('wire'); attr = single('seg.attr'); _vector = single('vec')
        def previous(self, side): return H.previous(self, Pair('next', self).ix(side))
        def disconnect_wires(self):
            if 'disconnect_wires' not in H.contracts: return framed('Segment.disconnect_wires', ('wire.segment',), lambda: S.disconnect_wires(self))
            H.clock += 1; v = H.clock       # only representative sides change
            H.reset('wire.segment', lambda w: H.dart(ifi('side of loop', v, w), ifi('side of side', v, w)))
        def __repr__(self): return 'segment'
    class HPt(P):
        def __init__(self, *a, **k): self.c = H.fresh('pt'); H.log.append(('new point', self)); P.__init__(self, *a, **k)
        id = ident(); poly = single('poly'); segment = single('point.segment'); xy = single('xy'); attr = single('pt.attr')
        def segments(self, start=(None, None)):
            if start[0] is None: start = self.segment
            if H.fan_walk: return H.fan_walk(start)
            return steps(start)
        def insert_vector(self, vec):
            if not H.insert: raise Unsupported('insert_vector')
            return H.insert(self, vec)
        def rm_segment(self, seg, vtx):
            if 'rm_segment' not in H.contracts: return checked_rm_segment(P.rm_segment, self, seg, vtx)
            return rm_segment_contract(self, seg, vtx)
        def __repr__(self): return 'point'
    class HWr(W):
        def __init__(self, *a, **k): self.c = H.fresh('wr'); H.log.append(('new wire', self)); W.__init__(self, *a, **k)
        id = ident(); parent = single('parent'); childs = setof('childs', 'wr', lambda o: H.plain_sets); polygon = single('wire.polygon'); segment = single('wire.segment'); attr = single('wire.attr')
        def segments(self, start=(None, None), end=(None, None)):
            if self.is_root(): return g.GList(core.lift(0), None)
            if H.fan:
                H.clock += 1; v = H.clock
                return g.GList(H.V.int('sides %d' % v, lo=1), lambda j: H.dart(ifi('walk', v, j), ifi('walk side', v, j)))
            if start[0] is None: start = self.segment
            if end[0] is None: end = start
            p = H.path(start, end); return p.glist()
        def contains_wire(self, w):
            r = ufb('contains wire', self.c, w.c)
            if H.axiom: H.axiom('contains', self, w, r)
            return r
        def contains_point(self, xy):
            if not hasattr(xy, 'of'): raise Unsupported('point inside a wire')
            return ufb('contains point', self.c, xy.of)
        def __repr__(self): return 'wire'
    class HPg(Pg):
        def __init__(self, *a, **k): self.c = H.fresh('pg'); H.log.append(('new polygon', self)); Pg.__init__(self, *a, **k)
        id = ident(); outer_wire = single('outer'); free_points = setof('free_points', 'pt'); attr = single('poly.attr')
        def __repr__(self): return 'polygon'
    K.update(src=(S, P, W, Pg), seg=HSeg, pt=HPt, wr=HWr, pg=HPg)

class IdMap:
    def __init__(self, kind): self.kind, self.added, self.removed = kind, [], []
    def append(self, o): self.added.append(o); return o
    def remove(self, o):
        if any(x is o for x in self.removed): raise KeyError(self.kind)
        self.removed.append(o)
    def __getattr__(self, a): raise Unsupported('use of the map of %s: %s' % (self.kind, a))
class P2S:
    """pt_to_seg"""
    def key(self, k):
        if not isinstance(k, tuple) or len(k) != 2: raise Unsupported('key of pt_to_seg')
        return k
    def __setitem__(self, k, s): H.write('pt_to_seg', self.key(k), s)
    def get(self, k, d=None):
        r = H.read('pt_to_seg', *self.key(k)); return d if r is None else r
    def __delitem__(self, k):
        if self.get(k) is None: raise KeyError('pt_to_seg')
        H.write('pt_to_seg', self.key(k), None)
    def pop(self, k, *d):
        r = self.get(k)
        if r is None:
            if d: return d[0]
            raise KeyError('pt_to_seg')
        H.write('pt_to_seg', self.key(k), None); return r
    def __contains__(self, k): return self.get(k) is not None
    def __getattr__(self, a): raise Unsupported('use of pt_to_seg: ' + a)

def decomposition():
    D = mod('decomp').Decomposition
    d = D.__new__(D)
    d.points, d.segments, d.wires, d.polygons = IdMap('points'), IdMap('segments'), IdMap('wires'), IdMap('polygons')
    d.pt_to_seg = P2S(); d.last_polygon_change = ('before',)
    return d
def _factory(kind):
    def f(*a, **k): return K[kind](*a, **k)
    return f
def genum(x, start=0):
    if not hasattr(x, 'vc_iter'): return enumerate(x, start)
    q = x.vc_iter(); r = g.GList(q.n, lambda i: (core.lift(i) + start, q.at(i))); r.tag = q.tag; return r
class NP:
    """numpy as used by Point.__init__"""
    @staticmethod
    def array(x, dtype=None):
        if isinstance(x, Vec): return x.copy()
        raise Unsupported('array')
    def __getattr__(self, a): raise Unsupported('numpy.' + a)
EXTRA = {POLY + 'point': dict(np=NP()), POLY + 'segment': dict(list=g.to_list), POLY + 'decomp': dict(Segment=_factory('seg'), Wire=_factory('wr'), Polygon=_factory('pg'), Point=_factory('pt'), list=g.to_list, enumerate=genum)}
MODS = [POLY + 'decomp']

def veq(a, b):
    """equality of values of fields"""
    if a is b: return True
    if a is None or b is None: return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] is None or b[0] is None: return a[0] is b[0]
        return core.sand(*[veq(x, y) for x, y in zip(a, b)])
    if isinstance(a, (SBool, bool)) or isinstance(b, (SBool, bool)): return (not a if not b else a) if isinstance(b, bool) and not isinstance(a, SBool) else core.SBool(core.bterm(a) == core.bterm(b))
    if isinstance(a, Vec): return a.same(b)
    if hasattr(a, 'c'): return type(a) is type(b) and eq(a.c, b.c)
    return eq(a, b)

def map_loop(name, F, keys, proved=True):
    """loop changing fields: after i iterations field f holds F[f](i, before, seq) (a function of the key), where `before` reads the
    field as it was at entry. keys[f](): an arbitrary key"""
    st = dict(n=0)
    def fns(L): return {f: F[f](L['__i'], st['old'][f], L['__seq']) for f in F}
    def inv(L):
        st['n'] += 1
        if st['n'] == 1: st['old'] = {f: H.snap(f) for f in F}; return []
        if st['n'] == 2: return []
        H.V.cover('iteration')
        st['n'] = 0
        for f, fn in fns(L).items():
            k = keys[f]()
            core.CTX.prove('%s: invariant preserved: %s' % (name, f), veq(H.read(f, *k), fn(*k)))
        return []
    def havoc(L):
        for f, fn in fns(L).items(): H.reset(f, fn)
        return {}
    sp = loops.Spec(inv, havoc, variant=lambda L: L['__n'] - L['__i'], name=name, kind='for'); sp.assumed = not proved; sp.only = proved
    return sp
def forget(name, *fields):
    """loop changing fields in a way that does not matter here"""
    def havoc(L):
        H.clock += 1; v = H.clock
        for f in fields:
            mk = H.pg if f == 'wire.polygon' else H.wr
            H.reset(f, lambda *k, mk=mk, f=f: mk(ifi('forgotten %s %d' % (f, v), *k)))
        return {}
    sp = loops.Spec(lambda L: [], havoc, name=name, kind='for'); sp.assumed = True
    return sp
def rehang(name, fields):
    """loop that hangs loops elsewhere and keeps parents and children in step (used before a loop that is being proved)"""
    def havoc(L):
        H.clock += 1; v = H.clock
        has = L['__seq'].tag.has; old = {f: H.snap(f) for f in ('parent', 'childs', 'wire.polygon')}
        to = lambda x: H.wr(ifi('hung %d' % v, x))
        H.reset('parent', lambda x: to(x) if decide(has(x)) else old['parent'](x))
        H.reset('childs', lambda o, x: eq(to(x).c, o) if decide(has(x)) else old['childs'](o, x))
        if 'wire.polygon' in fields: H.reset('wire.polygon', lambda x: H.pg(ifi('moved to %d' % v, x)) if decide(has(x)) else old['wire.polygon'](x))
        return {}
    sp = loops.Spec(lambda L: [], havoc, name=name, kind='for'); sp.assumed = True
    return sp
def any_dart(tag='any'):
    """an arbitrary segment side of the state before"""
    k = ('dart', tag)
    if k not in H.memo: H.memo[k] = (H.V.int(tag + ' segment', lo=0), H.V.int(tag + ' side', lo=0, hi=1))
    return H.memo[k]
def any_obj(kind, tag):
    """code of an arbitrary object of the state after: a new one or one of before"""
    k = ('obj', tag)
    if k not in H.memo:
        ns = [o for w, o in H.log if w == 'new ' + WORD[kind]]
        i = H.V.choice(tag + ' is', len(ns) + 1)
        H.memo[k] = ns[i].c if i < len(ns) else any_code(tag)
    return H.memo[k]
def any_code(tag):
    """an arbitrary object of the state before"""
    k = ('code', tag)
    if k not in H.memo: H.memo[k] = H.V.int(tag, lo=0)
    return H.memo[k]
