"""Contracts of the plane decomposition: segments, fans and cycles of segment sides of any size (see pyvc/heap.py)."""
import importlib
from pyvc.unit import Unit, need
MODS = ['bgem.polygons.decomp']
def T(*n): return ['bgem/polygons/%s.py:%s' % tuple(x.split('/')) for x in n]
def core():
    from pyvc import core as c
    return c
def heap():
    from pyvc import heap as h
    return h
def beq(a, b):
    c = core()
    return c.SBool(c.bterm(a) == c.bterm(b))
def is_(o, x): return False if o is None else heap().eq(o.c, x.c)

# ------------------------------------------------------------------ an operation and what it is expected to do
class Op:
    """state before, and after `run` what the operation is expected to have done"""
    def __init__(self, V, part, walks=()):
        hp = heap()
        self.V, self.part = V, part
        self.k = int(part[4:]) if part.startswith('loop') else 0
        self.fan = part in ('fans', 'points', 'registry')
        loop = part.startswith('loop')
        con = set() if part == 'fans' else {'rm_segment'}
        if self.fan or part in ('registered', 'polygons') or loop and self.k not in walks: con.add('disconnect_wires')
        self.h = hp.Heap(V, self.fan, self.fan or part == 'cycles' or loop and self.k in walks, con); self.d = self.h.d = hp.decomposition()
        self.want, self.fans, self.free, self.gone, self.pieces, self.named = [], [], [], [], None, []
        self.h.on_member = lambda x: [assume_registered(V, self.h, y) for y in (x.c, hp.ifi('parent', x.c))]
    # ---- state before
    def vertex(self, name, C=None, k=None):
        """insertion information at a vertex: after side k - 1 of the cycle C (before side k)"""
        hp = heap(); h = self.h
        if self.fan:
            F = h.cycle(name); d = F.at(F.n - 1); n = F.at(0); nx = (n[0], 1 - n[1]); w = h.read('wire', d[0].c, d[1])
            for e in (d, n): h.live(e[0])
            return F.point, (d, nx, w), F
        d = C.at(C.wrap(k - 1, -1)); nx = C.at(k)
        p = d[0].vtxs[d[1]]; hp.add(hp.eq(p.c, nx[0].vtxs[1 - nx[1]].c))
        for e in (d, nx): h.live(e[0])
        return p, (d, nx, C.wire), None
    def points(self, a, b):
        """different points without a segment between them"""
        c = core(); hp = heap()
        self.V.assume(c.lift(a.c) != b.c)
        for x, y in ((a, b), (b, a)): hp.add(c.snot(hp.ufb('has', x.c, y.c)))
    def freept(self, name):
        hp = heap(); p = self.h.pt(self.V.int(name, lo=0)); hp.add(hp.ufb('free', p.c)); return self.h.named(p) if self.fan else p
    def cycle(self, name, **k): return self.h.cycle(name, **k)
    def setup(self): assume_rest(self.V, self.h)
    def run(self, f, specs, *a, order=None):
        """order: the loops met on this path, all by default"""
        from pyvc import loops
        hp = heap(); left = [k for k in (order or range(1, len(specs) + 1))]
        if self.k and self.k not in left: raise core().Kill()
        D = type(self.d); need(D, f)
        def choose(seq):
            w = getattr(seq.tag, 'f', 'walk')
            for k in left:
                if specs[k - 1].over == w: left.remove(k); return specs[k - 1](self.k == k)
        loops.dynamic_object(self.d, D, loops._DynRT(choose))
        g = lambda *x: getattr(self.d, f)(*x[1:])
        if not self.fan: return g(self.d, *a)
        try: return g(self.d, *a)
        except AssertionError: raise core().Kill()       # the statements about loops asserted there are proved with the loops
    def walk(self, name, to):
        return over('walk', lambda proved: heap().forget(name, 'wire') if self.fan else heap().map_loop(name, dict(wire=relabel(to)), dict(wire=heap().any_dart), proved))
    def loops(self, name, to, cond=None, poly=None):
        F = reparent(to, cond)
        if poly: F['wire.polygon'] = mapped(poly, cond)
        return over('childs', lambda proved: self.loop(name, F, proved))
    def loop(self, name, F, proved):
        if not proved and self.h.plain_sets: return heap().forget(name, *[f for f in F if f != 'childs'])
        if not proved and self.k: return heap().rehang(name, F)
        return heap().map_loop(name, F, WKEYS(), proved)
    def pts(self, name, to, cond=None):
        return over('free_points', lambda proved: heap().map_loop(name, repoint(to, cond), WKEYS(), proved))
    def kept(self): return self.keep
    def split(self, name, aw, B):
        """children go to the loop that contains them"""
        def build(proved):
            hp = heap(); to = lambda x: aw if hp.decide(hp.ufb('contains wire', aw.c, x)) else B()
            F = dict(parent=lambda i, old, seq: lambda x: to(x) if moved(seq, i, x) else old(x), childs=lambda i, old, seq: lambda o, x: hp.eq(o, to(x).c) if moved(seq, i, x) else old(o, x))
            return self.loop(name, F, proved)
        return over('childs', build)
    # ---- state after
    def made(self, s, a, b):
        V, hp = self.V, heap()
        V.ensure('the new segment is returned', s is self.d.segments.added[0])
        V.ensure('segment between the given points', core().sand(hp.veq(s.vtxs[0], a), hp.veq(s.vtxs[1], b)))
    def unmade(self, s): self.V.ensure('the given segment is removed', self.d.segments.removed[0] is s)
    def finish(self):
        V, h, part = self.V, self.h, self.part
        if not part.startswith('loop'): getattr(self, 'part_' + part.split()[0])()
        raise core().Kill()
    def changed(self, want, added=0, removed=0):
        """exactly these objects came and went"""
        d = self.d; x = [len(m.added) for m in (d.segments, d.wires, d.polygons)] + [len(m.removed) for m in (d.segments, d.wires, d.polygons)]
        self.V.ensure('objects made and removed', x == want)
    def part_cycles(self):
        k = self.V.choice('part', 3)
        if k == 0: self.rings(self.want)
        if k == 1: self.cover(self.want)
        if k == 2: self.rest()
    part_fans = lambda self: self.part_cycles_(self.fans)
    def part_cycles_(self, want):
        k = self.V.choice('part', 3)
        if k == 0: self.rings(want)
        if k == 1: self.cover(want)
        if k == 2: self.rest()
    def rings(self, want):
        """want: [(name, path, wire or point)] the cycles that replace the named ones"""
        V, h, c, hp = self.V, self.h, core(), heap()
        if not want: return
        which = V.choice('cycle looked at', len(want))
        lab, P, w = want[which]
        if not self.fan:
            for j in range(which): V.ensure('loops carry different labels', c.snot(hp.eq(want[j][2].c, w.c)))
            V.ensure('the label is a loop of the decomposition', not any(x is w for x in self.d.wires.removed))
        rep = w.segment
        if rep[0] is None: V.ensure('%s: representative side is its own' % lab, False)
        V.ensure('%s: representative side is its own' % lab, P.index(rep[0].c, rep[1]) is not None)
        i = V.int('place on the cycle', lo=0)
        if not c.CTX.fork(c.bterm(c.lift(P.n) > i)): return
        d = P.at(i)
        e = P.at(0) if hp.decide(i + 1 == P.n) else P.at(i + 1)
        nx = h.read('next', d[0].c, d[1])
        V.ensure('%s: consecutive sides' % lab, hp.veq(nx, h.ring(e)))
        V.ensure('%s: no removed segment' % lab, c.snot(c.sor(*[hp.eq(d[0].c, s.c) for s in self.gone])))
        if self.fan: V.ensure('%s: sides end in the vertex' % lab, hp.veq(h.read('vtxs', d[0].c, d[1]), w))
        else:
            V.ensure('%s: sides carry the label of the loop' % lab, hp.veq(h.read('wire', d[0].c, d[1]), w))
            V.ensure('%s: consecutive sides meet in a vertex' % lab, hp.veq(h.read('vtxs', d[0].c, d[1]), h.read('vtxs', nx[0].c, 1 - nx[1])))
        V.cover(lab)
    def cover(self, want):
        """sides of the cycles before, and new sides, are on exactly one of the cycles after"""
        V, h, c, hp = self.V, self.h, core(), heap()
        new = [o for k, o in h.log if k == 'new segment']
        k = V.choice('cycle before', len(h.cycles) + len(new))
        if k < len(h.cycles):
            C = h.cycles[k]
            i = V.int('place before', lo=0); V.assume(i < C.n)
            d = C.at(i)
            for s in self.gone:
                if hp.decide(hp.eq(d[0].c, s.c)): return
        else: d = (new[k - len(h.cycles)], V.choice('side', 2))
        on = [P.index(d[0].c, d[1]) is not None for lab, P, w in want]
        V.ensure('a side lies on exactly one of them', sum(on) == 1)
    def rest(self):
        """sides on other cycles are left alone"""
        V, h, hp = self.V, self.h, heap()
        d = hp.any_dart('elsewhere')
        r = h.resolve(*d)
        if r[0] != 'other': return
        for s in self.gone: V.ensure('removed sides are not elsewhere', core().snot(hp.eq(d[0], s.c)))
        V.ensure('sides elsewhere keep their successor', hp.veq(h.read('next', *d), h.base_next(*d)))
        V.ensure('sides elsewhere keep where they end', hp.veq(h.read('vtxs', *d), h.base['vtxs'](*d)))
        if not self.fan: V.ensure('sides elsewhere keep their loop', hp.veq(h.read('wire', *d), h.base_wire(*d)))
    def part_registered(self):
        """parents and children of loops correspond; a loop is the outer one of its polygon or a hole in it"""
        V, h, c, hp = self.V, self.h, core(), heap()
        x, o = (h.obj('wr', hp.any_obj('wr', n)) for n in ('some loop', 'some owner'))
        dead = lambda w, m: c.sor(*[hp.eq(w.c, r.c) for r in m.removed]) if m.removed else False
        if hp.decide(dead(x, self.d.wires)): return
        p = x.parent
        V.ensure('a loop is listed by its parent and nobody else', beq(h.read('childs', o.c, x.c), is_(p, o)))
        q = x.polygon; ow = q.outer_wire
        V.ensure('a loop is the outer one of its polygon or a hole in it', c.sor(hp.eq(ow.c, x.c), is_(p, ow)))
        V.ensure('the outer loop of a polygon belongs to it', hp.veq(ow.polygon, q))
        V.ensure('polygons and loops that are referred to exist', c.snot(c.sor(dead(q, self.d.polygons), dead(ow, self.d.wires), False if p is None else dead(p, self.d.wires))))
        if p is not None:
            V.ensure('a loop is not its own parent', c.snot(hp.eq(p.c, x.c)))
            V.ensure('loops in an outer loop are holes of its polygon, loops in a hole are outer ones', alternate(x, q, ow, p))
    def part_polygons(self):
        V, h, c, hp = self.V, self.h, core(), heap()
        q = h.obj('pg', hp.any_obj('pg', 'some polygon'))
        for r in self.d.polygons.removed:
            if hp.decide(hp.eq(q.c, r.c)): return
        if not hp.isnew(q.c): hp.add(hp.ifi('polygon of wire', hp.ifi('outer wire', q.c)) == q.c); hp.add(hp.ifi('outer wire', q.c) >= 0); assume_registered(V, h, hp.ifi('outer wire', q.c)); assume_registered(V, h, hp.ifi('parent', hp.ifi('outer wire', q.c)))
        ow = q.outer_wire
        V.ensure('polygon owns its outer loop', hp.veq(ow.polygon, q))
        V.ensure('outer loop of a polygon exists', c.snot(c.sor(*[hp.eq(ow.c, r.c) for r in self.d.wires.removed])))
        # what is not concerned stays as it was
        k = V.choice('what', 5)
        if k == 0:
            if self.touched(q): return
            V.ensure('other polygons keep their outer loop', hp.veq(ow, h.base['outer'](q.c)))
            V.ensure('other polygons keep their attribute', q.attr is h.attr('poly.attr', q.c))
        elif k == 1:
            if hp.isnew(q.c): V.ensure('a new polygon has the attribute of the one it was cut from', q.attr is self.old_attr)
            else: V.ensure('polygons keep their attribute', q.attr is h.attr('poly.attr', q.c))
        elif k == 2:
            x = h.obj('wr', hp.any_code('some loop')); was, now = h.base['wire.polygon'](x.c), x.polygon
            if any(hp.decide(hp.eq(x.c, r.c)) for r in self.d.wires.removed): return
            if not self.touched(was): V.ensure('loops of other polygons stay there', hp.veq(was, now))
            elif not hp.veq(was, now) is True: V.ensure('loops move between the polygons concerned', self.touched(now))
        elif k == 3: self.report()
        else:
            s = h.obj('seg', hp.any_code('some segment')); V.ensure('segments keep their attribute', s.attr is h.attr('seg.attr', s.c))
    def touched(self, q): return any(hp_eq(q, x) for x in self.concerned + self.d.polygons.added)
    def report(self):
        """the reported change is what happened"""
        V, h, c, hp = self.V, self.h, core(), heap()
        ch = self.d.last_polygon_change
        if self.shape is None: V.ensure('no change is reported', ch == ('before',)); return
        V.ensure('a change is reported', len(ch) == 3)
        kind = ch[0] if isinstance(ch[0], str) else ch[0].name
        add, rem = self.d.polygons.added, self.d.polygons.removed
        if not add and not rem:
            V.ensure('no polygon came or went', kind in ('none', 'shape'))
            if kind == 'shape':
                V.ensure('polygons of changed shape', len(ch[1]) == 1 and ch[2] is None); V.ensure('polygon of changed shape', hp.veq(ch[1][0], self.concerned[0]))
            else: V.ensure('no polygon changed its shape', not self.shape and ch[1] is None and ch[2] is None)
        elif add:
            V.ensure('a polygon came', kind in ('add', 'split') and len(add) == 1 and not rem)
            V.ensure('the new polygon is named', ch[2] is add[0]); V.ensure('the surviving polygon is named', hp.veq(ch[1], self.concerned[0]))
            n, o = add[0].outer_wire.parent, ch[1].outer_wire
            V.ensure('reported as split exactly if side by side', beq(kind == 'split', False if n is None else is_(o.parent, n)))
            V.ensure('reported as add exactly if inside as a hole', beq(kind == 'add', False if n is None else c.sand(hp.veq(n.polygon, ch[1]), c.snot(hp.eq(n.c, o.c)))))
        else:
            V.ensure('a polygon went', kind in ('remove', 'join') and len(rem) == 1)
            V.ensure('the deleted polygon is named', hp.veq(ch[2], rem[0])); V.ensure('the surviving polygon is another one', c.snot(hp.veq(ch[1], rem[0])))
            b = h.base; n, o = b['parent'](b['outer'](rem[0].c).c), b['outer'](ch[1].c)
            V.ensure('reported as join exactly if side by side', beq(kind == 'join', False if n is None else is_(b['parent'](o.c), n)))
            V.ensure('reported as remove exactly if inside as a hole', beq(kind == 'remove', False if n is None else c.sand(hp.veq(b['wire.polygon'](n.c), ch[1]), c.snot(hp.eq(n.c, o.c)))))
        V.cover(kind)
    def part_points(self):
        V, h, c, hp = self.V, self.h, core(), heap()
        dead = lambda w, m: c.sor(*[hp.eq(w.c, r.c) for r in m.removed]) if m.removed else False
        if V.choice('what', 2):
            news = [o for k, o in h.log if k == 'new segment']
            i = V.choice('a side', len(news) + 1)
            if i < len(news): d = (news[i], V.choice('side', 2))
            else:
                d = hp.any_dart('some'); d = (h.seg(d[0]), d[1])
                if not self.stays(d[0]): return
                h.live(d[0]); h.resolve(d[0].c, d[1])
            p = h.read('vtxs', d[0].c, d[1])
            V.ensure('a vertex is not isolated', not p.is_free()); V.ensure('a vertex has no polygon', p.poly is None); V.cover('vertex')
            return
        x = h.obj('pt', hp.any_obj('pt', 'some point')); o = h.obj('pg', hp.any_obj('pg', 'some polygon'))
        if hp.decide(dead(x, self.d.points)): V.ensure('a removed point is not registered any more', core().snot(h.read('free_points', o.c, x.c))); return
        free = x.is_free(); q = x.poly
        V.ensure('exactly isolated points have a polygon', (q is not None) == bool(free))
        V.ensure('an isolated point is registered with its polygon and no other', beq(h.read('free_points', o.c, x.c), is_(q, o)))
        if q is not None: V.ensure('the polygon of an isolated point exists', c.snot(dead(q, self.d.polygons)))
        if free:
            V.ensure('isolated point', x.segment[1] is None); V.cover('isolated')
            for lab, P, pt in self.fans: V.ensure('isolated points have no segments', c.snot(hp.eq(pt.c, x.c)))
            return
        d = x.segment
        V.ensure('segment of a vertex exists', c.snot(dead(d[0], self.d.segments)))
        V.ensure('segment of a vertex ends there', hp.veq(h.read('vtxs', d[0].c, d[1]), x)); V.cover('vertex')
    def stays(self, s):
        hp = heap()
        return not any(hp.decide(hp.eq(s.c, g.c)) for g in self.gone)
    def part_registry(self):
        V, h, c, hp = self.V, self.h, core(), heap()
        S = self.d.segments
        if V.choice('what', 2):
            k = tuple(h.pt(V.int('key %d' % i, lo=0)).c for i in (0, 1))
            s = h.read('pt_to_seg', *k)
            if s is None: return
            V.ensure('registered segments exist', c.snot(c.sor(*[hp.eq(s.c, r.c) for r in S.removed])))
            V.ensure('registered under its end points', c.sand(hp.eq(s.vtxs[0].c, k[0]), hp.eq(s.vtxs[1].c, k[1]))); V.cover('key')
            return
        s = h.obj('seg', hp.any_obj('seg', 'some segment'))
        if not self.stays(s): return
        if not hp.isnew(s.c): h.live(s)
        a, b = s.vtxs[0], s.vtxs[1]
        V.ensure('registered under its end points', hp.veq(h.read('pt_to_seg', a.c, b.c), s))
        V.ensure('not registered the other way round', h.read('pt_to_seg', b.c, a.c) is None)
        V.ensure('end points differ', c.snot(hp.eq(a.c, b.c)))
        V.ensure('direction of a segment', s._vector.same(b.xy - a.xy)); V.cover('segment')
def over(what, build): build.over = what; return build
def hp_eq(a, b):
    hp = heap()
    return hp.decide(hp.eq(a.c, b.c))
def alternate(x, q, ow, p):
    c = core(); hp = heap(); pq = p.polygon
    isouter = hp.eq(pq.outer_wire.c, p.c)
    return c.sand(c.simplies(isouter, hp.eq(pq.c, q.c)), c.sor(isouter, hp.eq(ow.c, x.c)))
def assume_registered(V, h, x):
    """x: code of a loop of the state before"""
    c = core(); hp = heap(); i = hp.ifi; root = hp.ufb('root', x)
    if hp.isnew(x): return
    p, q = i('parent', x), i('polygon of wire', x); ow = i('outer wire', q); pq = i('polygon of wire', p); po = i('outer wire', pq)
    hp.add(c.sand(i('polygon of wire', ow) == q, c.sor(ow == x, c.sand(c.snot(root), p == ow)), *[t >= 0 for t in (p, q, ow, pq, po)]))
    hp.add(c.sor(root, c.sand(p != x, c.sor(po != p, pq == q), c.sor(po == p, ow == x), c.lift(i('level', p)) < i('level', x))))
def assume_rest(V, h):
    i = heap().ifi
    for x in ([] if h.fan else [C.wire.c for C in h.cycles]) + [heap().any_code('some loop')]:
        for y in (x, i('parent', x), i('outer wire', i('polygon of wire', x)), i('outer wire', i('polygon of wire', i('parent', x)))): assume_registered(V, h, y)
# ------------------------------------------------------------------ what loops do
def WKEYS():
    hp = heap()
    x = lambda: (hp.any_obj('wr', 'some loop'),); f = lambda: (hp.any_code('some point'),)
    return {'parent': x, 'wire.polygon': x, 'childs': lambda: (hp.any_obj('wr', 'some owner'), hp.any_obj('wr', 'some loop')),
            'poly': f, 'point.segment': f, 'free_points': lambda: (hp.any_obj('pg', 'some polygon'), hp.any_code('some point'))}
def relabel(to):
    """sides met so far carry the label"""
    def F(i, old, seq):
        path, w = seq.tag, to()
        def f(s, sd):
            j = path.index(s, sd)
            return w if j is not None and heap().decide(core().lift(j) < i) else old(s, sd)
        return f
    return F
def moved(seq, i, x, cond=None):
    """x is among the first i members of the enumerated set (and cond)"""
    hp = heap(); seq = seq.tag
    if not hp.decide(seq.has(x)): return False
    if cond is not None and not hp.decide(cond(x)): return False
    return hp.decide(core().lift(seq.place(x)) < i)
def mapped(to, cond=None):
    def F(i, old, seq): return lambda x: to() if moved(seq, i, x, cond) else old(x)
    return F
def member(to, cond=None):
    def F(i, old, seq): return lambda o, x: heap().eq(o, to().c) if moved(seq, i, x, cond) else old(o, x)
    return F
def reparent(to, cond=None): return dict(parent=mapped(to, cond), childs=member(to, cond))
def repoint(to, cond=None): return {'poly': mapped(to, cond), 'free_points': member(to, cond), 'point.segment': lambda i, old, seq: lambda x: (None, None) if moved(seq, i, x, cond) else old(x)}
def inside(w, x): return heap().ufb('contains wire', w.c, x)
def no_mutual(k, w1, w2, r):
    c = core(); hp = heap()
    hp.add(c.snot(c.sand(hp.ufb('contains wire', w1.c, w2.c), hp.ufb('contains wire', w2.c, w1.c))))

# ------------------------------------------------------------------ the operations
def split_poly(V, part):
    hp = heap(); c = core(); O = Op(V, part, (1,)); h = O.h
    if O.fan:
        a, ai, Fa = O.vertex('A'); b, bi, Fb = O.vertex('B'); aw = h.wr(V.int('loop', lo=0))
        V.assume(c.sand(hp.eq(ai[2].c, aw.c), hp.eq(bi[2].c, aw.c)))
    else:
        A = O.cycle('A'); aw = A.wire
        q = V.int('b', lo=0); V.assume(q < A.n - 1); p = A.n - 1       # sides are counted from the point a on
        a, ai, _ = O.vertex('a', A, 0); b, bi, _ = O.vertex('b', A, q + 1)
    O.points(a, b); hp.add(c.snot(hp.ufb('root', aw.c)))
    O.setup(); h.axiom = no_mutual
    P = aw.polygon; O.concerned = [P]; O.shape = True; O.old_attr = P.attr; outer = hp.decide(hp.eq(P.outer_wire.c, aw.c))
    L_ = lambda: h.log_new('wire')
    def outer_of(): return aw if hp.decide(hp.ufb('contains wire', aw.c, L_().c)) else L_()
    Q_ = lambda: h.log_new('polygon')
    ins = lambda x: hp.ufb('contains wire', Q_().outer_wire.c, x)
    s = O.run('_split_poly', [O.walk('left loop', L_), O.loops('children of the loop', outer_of),
            O.pts('isolated points', Q_, lambda p: hp.ufb('contains point', Q_().outer_wire.c, p)), O.loops('holes', lambda: Q_().outer_wire, ins, Q_)], a, b, ai, bi, order=[1, 3, 4] if outer else [1, 2, 3, 4])
    O.changed([1, 1, 1, 0, 0, 0]); V.ensure('the new segment is returned', s is O.d.segments.added[0])
    V.ensure('segment between the given points', c.sand(hp.veq(s.vtxs[0], a), hp.veq(s.vtxs[1], b)))
    if O.fan: O.fans = [('fan of the first point', hp.Path(h, [('run', Fa, 0, Fa.n), ('one', (s, 0))]), a), ('fan of the second point', hp.Path(h, [('run', Fb, 0, Fb.n), ('one', (s, 1))]), b)]
    else: O.want = [('right loop', hp.Path(h, [('one', (s, 0)), ('run', A, 0, q + 1)]), aw), ('left loop', hp.Path(h, [('one', (s, 1)), ('run', A, q + 1, p - q)]), O.d.wires.added[0])]
    V.cover('outer' if outer else 'hole')
    O.finish()

def new_wire(V, part):
    hp = heap(); O = Op(V, part); h = O.h
    a, b = O.freept('a'), O.freept('b'); P = h.pg(V.int('polygon', lo=0))
    O.points(a, b)
    for p in (a, b): hp.add(hp.eq(hp.ifi('polygon of point', p.c), P.c))
    O.setup(); O.concerned = [P]; O.shape = False; assume_registered(V, h, hp.ifi('outer wire', P.c)); hp.add(hp.eq(P.outer_wire.polygon.c, P.c))
    O.d.last_polygon_change = ('none', None, None)
    s = O.run('_new_wire', [], P, a, b)
    O.changed([1, 1, 0, 0, 0, 0]); O.made(s, a, b)
    w = O.d.wires.added[0]
    V.ensure('the new loop is a hole of the polygon', core().sand(hp.veq(w.polygon, P), hp.veq(w.parent, P.outer_wire)))
    if O.fan: O.fans = [('fan of the first point', hp.Path(h, [('one', (s, 0))]), a), ('fan of the second point', hp.Path(h, [('one', (s, 1))]), b)]
    else: O.want = [('new loop', hp.Path(h, [('one', (s, 0)), ('one', (s, 1))]), w)]
    O.finish()
def rm_wire(V, part):
    hp = heap(); c = core(); O = Op(V, part); h = O.h
    if O.fan:
        F, G = O.cycle('A', n=c.lift(1)), O.cycle('B', n=c.lift(1)); s, i = F.at(0); t, j = G.at(0)
        V.assume(c.sand(hp.eq(s.c, t.c), c.lift(j) == 1 - i)); aw = h.read('wire', s.c, i); V.assume(hp.eq(h.read('wire', s.c, 1 - i).c, aw.c))
        for e, k in ((s, i), (t, j)): hp.add(hp.eq(h.base_next(e.c, k)[0].c, s.c))
    else:
        A = O.cycle('A', n=c.lift(2)); s, i = A.at(0); t, j = A.at(1); aw = A.wire
        V.assume(c.sand(hp.eq(s.c, t.c), c.lift(j) == 1 - i))
    h.live(s); O.setup(); P = aw.polygon; O.concerned = [P]; O.shape = False; O.gone = [s]
    V.assume(c.sand(c.snot(hp.ufb('root', aw.c)), c.snot(hp.eq(P.outer_wire.c, aw.c))))
    h.axiom = no_mutual
    hp.add(c.sor(hp.ufb('root', hp.any_code('some loop')), c.lift(hp.ifi('parent', hp.any_code('some loop'))) != aw.c))       # nothing lies inside a single segment
    O.d.last_polygon_change = ('none', None, None)
    O.run('_rm_wire', [], s)
    O.changed([0, 0, 0, 1, 1, 0]); O.unmade(s)
    O.finish()
def add_dendrite(V, part):
    hp = heap(); c = core(); O = Op(V, part); h = O.h
    root = V.choice('root', 2)
    A = None if O.fan else O.cycle('A')
    a, ai, F = O.vertex('A', A, 0); b = O.freept('tip'); aw = ai[2]
    O.points(a, b); O.setup()
    V.assume(c.sand(c.snot(hp.ufb('root', aw.c)), c.lift(hp.ifi('polygon of point', b.c)) == aw.polygon.c))
    P = aw.polygon; O.concerned = [P]; O.shape = True
    pts = (a, b) if root == 0 else (b, a)
    s = O.run('_wire_add_dendrite', [], pts, ai, root)
    O.changed([1, 0, 0, 0, 0, 0]); O.made(s, *pts)
    if O.fan: O.fans = [('fan of the root', hp.Path(h, [('run', F, 0, F.n), ('one', (s, root))]), a), ('fan of the tip', hp.Path(h, [('one', (s, 1 - root))]), b)]
    else: O.want = [('loop', hp.Path(h, [('run', A, 0, A.n), ('one', (s, 1 - root)), ('one', (s, root))]), aw)]
    O.finish()
def rm_dendrite(V, part):
    hp = heap(); c = core(); O = Op(V, part); h = O.h
    tip = V.choice('tip', 2)
    if O.fan:
        F, G = O.cycle('root'), O.cycle('tip', n=c.lift(1)); s, i = G.at(0); t, j = F.at(0)
        V.assume(c.sand(hp.eq(s.c, t.c), c.lift(i) == tip, c.lift(j) == 1 - tip, F.n >= 2)); aw = h.read('wire', s.c, 0); V.assume(hp.eq(h.read('wire', s.c, 1).c, aw.c))
    else:
        A = O.cycle('A'); s, i = A.at(0); V.assume(A.n >= 3); t, j = A.at(1); aw = A.wire
        V.assume(c.sand(hp.eq(s.c, t.c), c.lift(i) == tip, c.lift(j) == 1 - tip))
        for k in (1, 2): O.vertex('', A, k)
    h.live(s); O.setup(); P = aw.polygon; O.concerned = [P]; O.shape = True; O.gone = [s]
    V.assume(c.snot(hp.ufb('root', aw.c)))
    O.run('_wire_rm_dendrite', [], s, tip)
    O.changed([0, 0, 0, 1, 0, 0]); O.unmade(s)
    if O.fan: O.fans = [('fan of the root', hp.Path(h, [('run', F, 1, F.n - 1)]), F.point)]
    else: O.want = [('loop', hp.Path(h, [('run', A, 2, A.n - 2)]), aw)]
    O.finish()
def join_wires(V, part):
    hp = heap(); c = core(); O = Op(V, part, (1,)); h = O.h
    if O.fan:
        a, ai, Fa = O.vertex('A'); b, bi, Fb = O.vertex('B')
    else:
        A, B = O.cycle('A'), O.cycle('B'); a, ai, _ = O.vertex('a', A, 0); b, bi, _ = O.vertex('b', B, 0)
    aw, bw = ai[2], bi[2]; O.points(a, b); O.setup()
    V.assume(c.sand(c.snot(hp.eq(aw.c, bw.c)), c.snot(hp.ufb('root', aw.c)), c.snot(hp.ufb('root', bw.c)), hp.eq(aw.polygon.c, bw.polygon.c)))
    for w in (aw, bw): assume_registered(V, h, w.c)
    P = aw.polygon; O.concerned = [P]; O.shape = True
    k = hp.eq(P.outer_wire.c, aw.c); keepa = hp.decide(k); ko = keepa or hp.decide(hp.eq(P.outer_wire.c, bw.c))
    O.keep = aw if keepa else bw
    s = O.run('_join_wires', [O.walk('sides of the removed loop', lambda: O.kept()), O.loops('children of the removed loop', lambda: O.kept().parent if ko else O.kept())], a, b, ai, bi)
    O.changed([1, 0, 0, 0, 1, 0]); O.made(s, a, b)
    rm = O.d.wires.removed[0]; V.ensure('one of the two loops is removed', c.sor(hp.eq(rm.c, aw.c), hp.eq(rm.c, bw.c)))
    keep = bw if hp.decide(hp.eq(rm.c, aw.c)) else aw
    if O.fan: O.fans = [('fan of the first point', hp.Path(h, [('run', Fa, 0, Fa.n), ('one', (s, 0))]), a), ('fan of the second point', hp.Path(h, [('run', Fb, 0, Fb.n), ('one', (s, 1))]), b)]
    else: O.want = [('joined loop', hp.Path(h, [('run', A, 0, A.n), ('one', (s, 1)), ('run', B, 0, B.n), ('one', (s, 0))]), keep)]
    V.cover('outer' if ko else 'holes'); O.finish()
def split_wire(V, part):
    hp = heap(); c = core(); O = Op(V, part, (1,)); h = O.h
    if O.fan:
        Fa, Fb = O.cycle('A'), O.cycle('B'); s, i = Fa.at(0); t, j = Fb.at(0)
        V.assume(c.sand(hp.eq(s.c, t.c), c.lift(i) == 0, c.lift(j) == 1, Fa.n >= 2, Fb.n >= 2)); aw = h.read('wire', s.c, 0); V.assume(hp.eq(h.read('wire', s.c, 1).c, aw.c))
    else:
        A = O.cycle('A'); aw = A.wire; k = V.int('k', lo=2); V.assume(A.n >= k + 2)
        s, i = A.at(0); t, j = A.at(k); V.assume(c.sand(hp.eq(s.c, t.c), c.lift(i) == 1, c.lift(j) == 0))
        for x in (0, 1, k, k + 1): O.vertex('', A, x)
    h.live(s); O.setup(); h.axiom = no_mutual
    V.assume(c.snot(hp.ufb('root', aw.c)))
    P = aw.polygon; O.concerned = [P]; O.shape = True; O.gone = [s]; outer = hp.decide(hp.eq(P.outer_wire.c, aw.c))
    B_ = lambda: h.log_new('wire')
    a_out = lambda: hp.decide(hp.ufb('contains wire', aw.c, B_().c))
    out = lambda: aw if a_out() else B_()
    inn = lambda: B_() if a_out() else aw
    O.run('_split_wire', [O.walk('second loop', B_), O.loops('holes', out), O.loops('loops in the inner one', inn, lambda x: not hp.decide(hp.eq(x, out().c)) and hp.decide(hp.ufb('contains wire', inn().c, x))),
            O.split('children', aw, B_)], s, order=[1, 2, 3] if outer else [1, 4])
    O.changed([0, 1, 0, 1, 0, 0]); O.unmade(s)
    if O.fan: O.fans = [('fan of the first point', hp.Path(h, [('run', Fa, 1, Fa.n - 1)]), Fa.point), ('fan of the second point', hp.Path(h, [('run', Fb, 1, Fb.n - 1)]), Fb.point)]
    else: O.want = [('second loop', hp.Path(h, [('run', A, 1, k - 1)]), O.d.wires.added[0]), ('first loop', hp.Path(h, [('run', A, k + 1, A.n - k - 1)]), aw)]
    V.cover('outer' if outer else 'hole'); O.finish()
def join_poly(V, part):
    hp = heap(); c = core(); O = Op(V, part, (3,)); h = O.h
    if O.fan:
        Fa, Fb = O.cycle('A'), O.cycle('B'); s, i = Fa.at(0); t, j = Fb.at(0)
        V.assume(c.sand(hp.eq(s.c, t.c), c.lift(i) == 0, c.lift(j) == 1, Fa.n >= 2, Fb.n >= 2)); rw, lw = h.read('wire', s.c, 0), h.read('wire', s.c, 1)
    else:
        A, B = O.cycle('A'), O.cycle('B'); s, i = A.at(0); t, j = B.at(0); V.assume(c.sand(A.n >= 2, B.n >= 2)); lw, rw = A.wire, B.wire
        V.assume(c.sand(hp.eq(s.c, t.c), c.lift(i) == 1, c.lift(j) == 0))
        for C in (A, B):
            for x in (0, 1): O.vertex('', C, x)
    h.live(s); O.setup()
    V.assume(c.sand(c.snot(hp.eq(lw.c, rw.c)), c.snot(hp.ufb('root', lw.c)), c.snot(hp.ufb('root', rw.c))))
    for w in (lw, rw): assume_registered(V, h, w.c); assume_registered(V, h, hp.ifi('parent', w.c))
    O.gone = [s]; lp, rp = lw.polygon, rw.polygon; lo, ro = hp.decide(hp.eq(lp.outer_wire.c, lw.c)), hp.decide(hp.eq(rp.outer_wire.c, rw.c))
    i = hp.ifi
    # loops on the two sides of a segment: both outer with the same parent, or the outer one is in the hole
    if lo and ro: V.assume(c.sand(c.lift(i('parent', lw.c)) == i('parent', rw.c), c.lift(lp.c) != rp.c)); V.cover('side by side')
    elif lo: V.assume(c.lift(i('parent', lw.c)) == rw.c); V.cover('hole')
    elif ro: V.assume(c.lift(i('parent', rw.c)) == lw.c); V.cover('hole')
    else: raise c.Kill()
    keep, kp, rm, rmp = (rw, rp, lw, lp) if lo else (lw, lp, rw, rp)
    O.concerned = [kp]; O.shape = True
    K = lambda: kp
    O.run('_join_poly', [O.loops('holes of the removed polygon', lambda: kp.outer_wire, None, K), O.pts('isolated points', K), O.walk('removed loop', lambda: keep)], s)
    O.changed([0, 0, 0, 1, 1, 1]); O.unmade(s)
    V.ensure('one polygon and its outer loop are removed', c.sand(hp.eq(O.d.polygons.removed[0].c, rmp.c), hp.eq(O.d.wires.removed[0].c, rm.c)))
    if O.fan: O.fans = [('fan of the first point', hp.Path(h, [('run', Fa, 1, Fa.n - 1)]), Fa.point), ('fan of the second point', hp.Path(h, [('run', Fb, 1, Fb.n - 1)]), Fb.point)]
    else: O.want = [('joined loop', hp.Path(h, [('run', A, 1, A.n - 1), ('run', B, 1, B.n - 1)]), keep)]
    O.finish()

def split_segment(V, part):
    hp = heap(); c = core(); O = Op(V, part); h = O.h
    m = O.freept('mid')
    if O.fan:
        F = O.cycle('B'); s, i = F.at(0); V.assume(c.lift(i) == 1)
        Fa = O.cycle('A'); t, j = Fa.at(0); V.assume(c.sand(hp.eq(s.c, t.c), c.lift(j) == 0))
    else:
        A = O.cycle('A'); s, i = A.at(0); V.assume(c.sand(c.lift(i) == 1, A.n >= 2)); one = V.choice('dendrite', 2)
        if one: k = V.int('k', lo=1); V.assume(k < A.n); B = A
        else: B = O.cycle('B'); k = 0; V.assume(B.n >= 2)
        t, j = B.at(k); V.assume(c.sand(hp.eq(s.c, t.c), c.lift(j) == 0))
        for C, x in ((A, 0), (A, 1), (B, k), (B, B.wrap(k + 1))): O.vertex('', C, x)
    h.live(s); O.setup(); O.concerned = []; O.shape = None
    a, b = s.vtxs[0], s.vtxs[1]; V.assume(c.sand(c.lift(m.c) != a.c, c.lift(m.c) != b.c))
    r = O.run('split_segment', [], s, m)
    O.changed([1, 0, 0, 0, 0, 0]); V.ensure('the new segment is returned', r is O.d.segments.added[0])
    V.ensure('split end points', c.sand(hp.veq(s.vtxs[0], a), hp.veq(s.vtxs[1], m), hp.veq(r.vtxs[0], m), hp.veq(r.vtxs[1], b)))
    V.ensure('the new part has the attribute of the segment', r.attr is s.attr)
    if O.fan: O.fans = [('fan of the end', hp.Path(h, [('one', (r, 1)), ('run', F, 1, F.n - 1)]), b), ('fan of the middle', hp.Path(h, [('one', (s, 1)), ('one', (r, 0))]), m), ('fan of the start', hp.Path(h, [('run', Fa, 0, Fa.n)]), a)]
    elif one: O.want = [('loop', hp.Path(h, [('one', (s, 1)), ('one', (r, 1)), ('run', A, 1, k - 1), ('one', (r, 0)), ('one', (s, 0)), ('run', A, k + 1, A.n - k - 1)]), A.wire)]
    else: O.want = [('left loop', hp.Path(h, [('one', (s, 1)), ('one', (r, 1)), ('run', A, 1, A.n - 1)]), A.wire), ('right loop', hp.Path(h, [('one', (r, 0)), ('one', (s, 0)), ('run', B, 1, B.n - 1)]), B.wire)]
    O.finish()
def join_segments(i, j): return lambda V, part: join_segments_(V, part, i, j)
def join_segments_(V, part, i, j):
    """segments whose ends i and j meet"""
    hp = heap(); c = core(); O = Op(V, part); h = O.h
    if O.fan:
        M = O.cycle('M', n=c.lift(2)); s, x = M.at(0); t, y = M.at(1); F = O.cycle('B'); e, z = F.at(0); Fa = O.cycle('A'); f, w = Fa.at(0)
        V.assume(c.sand(c.lift(x) == i, c.lift(y) == j, hp.eq(e.c, t.c), c.lift(z) == 1 - j, hp.eq(f.c, s.c), c.lift(w) == 1 - i)); m = M.point
    else:
        A = O.cycle('A'); one = V.choice('dendrite', 2)
        if one: k = V.int('k', lo=2); V.assume(A.n >= k + 2); B = A
        else: B = O.cycle('B'); k = 0; V.assume(c.sand(A.n >= 3, B.n >= 3))
        (s, x), (t, y), (t2, z), (s2, w) = A.at(0), A.at(1), B.at(k), B.at(k + 1)
        V.assume(c.sand(hp.eq(s.c, s2.c), hp.eq(t.c, t2.c), c.lift(x) == i, c.lift(y) == 1 - j, c.lift(z) == j, c.lift(w) == 1 - i))
        for C, q in ((A, 0), (A, 1), (A, 2), (B, k), (B, k + 1), (B, B.wrap(k + 2))): O.vertex('', C, q)
        m = s.vtxs[i]
    h.live(s); h.live(t); O.setup(); O.concerned = []; O.shape = None; O.gone = [t]
    a, b = s.vtxs[1 - i], t.vtxs[1 - j]; O.points(a, b); V.assume(c.sand(c.snot(hp.eq(s.c, t.c)), hp.eq(t.vtxs[j].c, m.c)))
    lw = s.wire[1]
    r = O.run('join_segments', [], m, s, t)
    O.changed([0, 0, 0, 1, 0, 0]); O.unmade(t)
    V.ensure('joined end points', c.sand(hp.veq(s.vtxs[1 - i], a), hp.veq(s.vtxs[i], b)))
    V.ensure('the middle point is isolated', m.segment[0] is None)
    if O.fan: O.fans = [('fan of the end', hp.Path(h, [('one', (s, i)), ('run', F, 1, F.n - 1)]), b), ('fan of the start', hp.Path(h, [('run', Fa, 0, Fa.n)]), a)]
    elif one: O.want = [('loop', hp.Path(h, [('one', (s, i)), ('run', A, 2, k - 2), ('one', (s, 1 - i)), ('run', A, k + 2, A.n - k - 2)]), A.wire)]
    else: O.want = [('first loop', hp.Path(h, [('one', (s, i)), ('run', A, 2, A.n - 2)]), A.wire), ('second loop', hp.Path(h, [('one', (s, 1 - i)), ('run', B, 2, B.n - 2)]), B.wire)]
    O.finish()

# ------------------------------------------------------------------ isolated points
def add_point(V, part):
    hp = heap(); O = Op(V, part); h = O.h
    P = h.pg(V.int('polygon', lo=0)); at = hp.Vec(V.real('px'), V.real('py'))
    O.setup(); O.concerned = []; O.shape = None
    r = O.run('add_free_point', [], at, P)
    O.changed([0, 0, 0, 0, 0, 0]); m = O.d.points
    V.ensure('one new point', len(m.added) == 1 and not m.removed and r is m.added[0])
    V.ensure('the new point is isolated in the polygon', r.is_free() and r.poly is not None and hp.veq(r.poly, P)); V.ensure('place of the new point', r.xy.same(at))
    O.finish()
def rm_point(V, part):
    hp = heap(); O = Op(V, part); h = O.h
    x = O.freept('gone'); O.setup(); O.concerned = []; O.shape = None
    O.run('remove_free_point', [], x)
    O.changed([0, 0, 0, 0, 0, 0]); m = O.d.points
    V.ensure('the point is removed', not m.added and len(m.removed) == 1 and hp.veq(m.removed[0], x))
    O.finish()

# ------------------------------------------------------------------ contracts the operations rely on
def tracking(f, k=0):
    """loop contract: the loop variables hold the item just met"""
    import ast, inspect, textwrap
    hp = heap(); lp = [n for n in ast.walk(ast.parse(textwrap.dedent(inspect.getsource(f)))) if isinstance(n, (ast.For, ast.While))]
    if len(lp) <= k or not isinstance(lp[k], ast.For): return {}
    t = lp[k].target; ev = lambda e, env: eval(compile(ast.Expression(e), '<loop>', 'eval'), {}, env)
    extra = [(s.targets[0].id, s.value) for s in lp[k].body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)]
    def vals(L):
        x = L['__seq'].at(L['__i'] - 1)
        if isinstance(t, ast.Name): env = {t.id: x}
        elif isinstance(t, ast.Tuple) and len(t.elts) == 2 and all(isinstance(e, ast.Name) for e in t.elts): env = {e.id: y for e, y in zip(t.elts, x)}
        else: raise core().Unsupported('loop variable')
        for n, e in extra: env[n] = ev(e, env)
        return env
    def inv(L):
        if not hp.decide(core().lift(L['__i']) >= 1): return []
        return [(n, hp.veq(L[n], v)) for n, v in vals(L).items()]
    def havoc(L): return vals(L) if hp.decide(core().lift(L['__i']) >= 1) else {}
    from pyvc import loops
    return {k: loops.Spec(inv, havoc, variant=lambda L: L['__n'] - L['__i'], name='walk', kind='for')}
def previous(V):
    from pyvc import loops
    hp = heap(); c = core(); h = hp.Heap(V, True, True); side = V.choice('side', 2)
    F = h.cycle('A'); s, i = F.at(0); V.assume(c.lift(i) == 1 - side)
    def walk(start):
        r = h.resolve(start[0].c, start[1])
        if r[0] != 'cyc': raise c.Unsupported('walk around another point')
        return hp.g.GList(F.n, lambda j: F.at(F.wrap(r[2] + j)))
    h.fan_walk = walk
    f = hp.mod('segment').Segment.previous
    r = loops.contract(f, tracking(f))(s, side)
    V.ensure('the side found is followed by the given one', hp.veq(h.read('next', r[0].c, r[1]), (s, side)))
    V.ensure('the side found is the contract', hp.veq(r, h.previous(s, side)))
    V.cover('alone' if hp.decide(F.n == 1) else 'in a fan')

class LA:
    """numpy.linalg as used by new_segment: points are apart"""
    @staticmethod
    def norm(v):
        r = heap().H.V.real('distance'); core().CTX.add(core().bterm(r > 1e-10)); return r
    def __getattr__(self, a): raise core().Unsupported('linalg.' + a)
def stubs(h, names):
    """operations by name: calls are recorded"""
    import inspect
    D = type(h.d); calls = []
    for n in names:
        f = need(D, n); ps = list(inspect.signature(f).parameters)
        def stub(*a, n=n, f=f, **k):
            calls.append((n, list(inspect.signature(f).bind(h.d, *a, **k).arguments.values())[1:])); return ('result of', n)
        setattr(h.d, n, stub)
    return calls
def called(V, h, calls, name, args, r, same):
    """exactly this operation was called, and its result passed on"""
    if not calls and (h.log or any(h.ups.values()) or any(m.added or m.removed for m in (h.d.segments, h.d.wires, h.d.polygons, h.d.points))): raise core().Unsupported('operation carried out elsewhere')
    V.ensure('one operation is carried out', len(calls) == 1)
    V.ensure('the operation that fits', calls[0][0] == name)
    if len(calls[0][1]) != len(args): raise core().Unsupported('arguments of %s' % name)
    V.ensure('arguments of the operation', core().sand(*[deep(x, y) for x, y in zip(calls[0][1], args)]))
    if same: V.ensure('the result is passed on', r == ('result of', name))
    V.cover(name)
def deep(x, y):
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)): return len(x) == len(y) and core().sand(*[deep(a, b) for a, b in zip(x, y)])
    return heap().veq(x, y)
def unchanged(V, d):
    ch = d.last_polygon_change; V.ensure('no polygon change so far', len(ch) == 3 and getattr(ch[0], 'name', ch[0]) == 'none' and ch[1] is None and ch[2] is None)
OPN = ['_new_wire', '_rm_wire', '_wire_add_dendrite', '_wire_rm_dendrite', '_join_wires', '_split_wire', '_split_poly', '_join_poly']
def new_segment(V):
    hp = heap(); c = core(); h = hp.Heap(V, True, True); d = h.d = hp.decomposition(); calls = stubs(h, OPN)
    P, ins = [], {}
    for n in 'AB':
        if V.choice(n + ' isolated', 2):
            p = h.named(h.pt(V.int(n, lo=0))); hp.add(hp.ufb('free', p.c)); ins[id(p)] = None
        else:
            F = h.cycle(n); p = F.point; x, y = F.at(F.n - 1), F.at(0); ins[id(p)] = (x, (y[0], 1 - y[1]), h.read('wire', x[0].c, x[1])); h.live(y[0])
        P.append(p)
    a, b = P; asked = []
    V.assume((b.xy - a.xy)[0] * (b.xy - a.xy)[0] + (b.xy - a.xy)[1] * (b.xy - a.xy)[1] > 0)
    def insert(p, vec):
        q = b if p is a else a; t = q.xy - p.xy
        V.ensure('asked for the place of the new segment', c.sand(c.lift(vec[0] * t[1] - vec[1] * t[0]) == 0, c.lift(vec[0] * t[0] + vec[1] * t[1]) > 0))
        return ins[id(p)]
    h.insert = insert
    pw = lambda p: h.pg(hp.ifi('polygon of point', p.c)) if ins[id(p)] is None else ins[id(p)][2].polygon
    V.assume(hp.eq(pw(a).c, pw(b).c))       # the new segment crosses no other one
    ab, ba = h.read('pt_to_seg', a.c, b.c), h.read('pt_to_seg', b.c, a.c)
    r = need(type(d), 'new_segment')(d, a, b)
    unchanged(V, d)
    if ab is not None or ba is not None:
        V.ensure('nothing is changed', not calls and not any(h.ups.values()) and not h.log and not any(m.added or m.removed for m in (d.segments, d.wires, d.polygons, d.points)))
        V.ensure('the existing segment is returned', hp.veq(r, ab if ab is not None else ba)); V.cover('existing'); return
    ia, ib = ins[id(a)], ins[id(b)]; fa, fb = ia is None, ib is None
    if fa and fb: x = ('_new_wire', [pw(a), a, b])
    elif fa: x = ('_wire_add_dendrite', [(a, b), ib, 1])
    elif fb: x = ('_wire_add_dendrite', [(a, b), ia, 0])
    elif hp.decide(hp.eq(ia[2].c, ib[2].c)): x = ('_split_poly', [a, b, ia, ib])
    else: x = ('_join_wires', [a, b, ia, ib])
    called(V, h, calls, x[0], x[1], r, True)
def delete_segment(V):
    hp = heap(); c = core(); h = hp.Heap(V, True, True); d = h.d = hp.decomposition(); calls = stubs(h, OPN)
    A, B = h.cycle('A'), h.cycle('B'); s, i = A.at(0); t, j = B.at(0); V.assume(c.sand(hp.eq(s.c, t.c), c.lift(i) == 0, c.lift(j) == 1)); h.live(s)
    lone = [hp.decide(C.n == 1) for C in (A, B)]
    if any(lone): V.assume(hp.eq(s.wire[0].c, s.wire[1].c))       # both sides of a tip carry the same label
    r = need(type(d), 'delete_segment')(d, s)
    unchanged(V, d)
    if all(lone): x = ('_rm_wire', [s])
    elif lone[1]: x = ('_wire_rm_dendrite', [s, 1])
    elif lone[0]: x = ('_wire_rm_dendrite', [s, 0])
    elif hp.decide(hp.eq(s.wire[0].c, s.wire[1].c)): x = ('_split_wire', [s])
    else: x = ('_join_poly', [s])
    called(V, h, calls, x[0], x[1], r, False)
def initial(V):
    d = hp_new(); w, p = list(d.wires.values()), list(d.polygons.values())
    V.ensure('nothing drawn', len(d.points) == len(d.segments) == len(d.pt_to_seg) == 0)
    V.ensure('one loop and one polygon', len(w) == len(p) == 1 and p[0] is d.outer_polygon)
    V.ensure('the outer loop', w[0].is_root() and not w[0].childs and w[0].segment[0] is None and w[0].polygon is p[0])
    V.ensure('the outer polygon', p[0].outer_wire is w[0] and not p[0].free_points)
    V.ensure('initial change', d.last_polygon_change[0].name == 'add' and d.last_polygon_change[1] is p[0] and d.last_polygon_change[2] is p[0])
def hp_new(): return importlib.import_module('bgem.polygons.decomp').Decomposition()

OPS = [('splitting a polygon', split_poly, 4, T('decomp/Decomposition._split_poly', 'segment/Segment.connect_vtx', 'polygon/Wire.set_parent', 'point/Point.set_polygon'), ['outer', 'hole'], 'sides, holes, isolated points'),
       ('a new loop', new_wire, 0, T('decomp/Decomposition._new_wire', 'segment/Segment.connect_free_vtx', 'polygon/Wire.set_parent'), [], 'holes, isolated points'),
       ('removing a lonely segment', rm_wire, 0, T('decomp/Decomposition._rm_wire', 'point/Point.rm_segment'), [], 'holes, isolated points'),
       ('adding a tip', add_dendrite, 0, T('decomp/Decomposition._wire_add_dendrite', 'segment/Segment.connect_vtx', 'segment/Segment.connect_free_vtx'), [], 'sides, segments at a vertex'),
       ('removing a tip', rm_dendrite, 0, T('decomp/Decomposition._wire_rm_dendrite', 'segment/Segment.disconnect_wires', 'segment/Segment.disconnect_vtx'), [], 'sides, segments at a vertex'),
       ('joining loops', join_wires, 2, T('decomp/Decomposition._join_wires', 'polygon/Wire.set_parent'), ['outer', 'holes'], 'sides, segments at a vertex, loops'),
       ('splitting a loop', split_wire, 4, T('decomp/Decomposition._split_wire', 'segment/Segment.disconnect_vtx', 'polygon/Wire.set_parent'), ['outer', 'hole'], 'sides, segments at a vertex, loops'),
       ('joining polygons', join_poly, 3, T('decomp/Decomposition._join_poly', 'segment/Segment.disconnect_wires', 'segment/Segment.disconnect_vtx', 'polygon/Wire.set_parent'), ['side by side', 'hole'], 'sides, segments at a vertex, holes, isolated points'),
       ('splitting a segment', split_segment, 0, T('decomp/Decomposition.split_segment', 'segment/Segment.vtx_insert_info', 'segment/Segment.disconnect_vtx', 'segment/Segment.connect_vtx', 'segment/Segment.connect_free_vtx'), [], 'sides, segments at a vertex')] + [
       ('joining segments at ends %d and %d' % (i, j), join_segments(i, j), 0, T('decomp/Decomposition.join_segments', 'segment/Segment.vtx_insert_info', 'segment/Segment.disconnect_vtx', 'segment/Segment.connect_vtx', 'segment/Segment.connect_free_vtx'), [], 'sides, segments at a vertex') for i in (0, 1) for j in (0, 1)]
ASSUMES = ['loop links, labels and vertex links are permutations with finite orbits: loops close', 'loop contains loop: the geometric test (D06), never true both ways', 'point in loop: the geometric test (D06)', 'insertion at a vertex: contract of Point.insert_vector (D07)', 'walks Wire.segments and Point.segments: contracts (D06, D07)', 'identifiers: D04', 'the two sides of a segment carry the same label, or outer loops with the same parent, or an outer loop and the hole around it', 'parents of loops form no cycle', 'nothing lies inside a loop of a single segment; a tip lies in the polygon of its loop', 'segments to be joined meet in a point of exactly two segments, their other ends differ and are not joined by a segment']
PARTS = ['cycles', 'fans', 'registered', 'polygons', 'points', 'registry']
COV = dict(points=['vertex', 'isolated'], registry=['segment', 'key'])
def EX(): return heap().EXTRA
def EX_LA(): ex = dict(heap().EXTRA); ex['bgem.polygons.decomp'] = dict(ex['bgem.polygons.decomp'], la=LA()); return ex
def is_loop(u, *ks): return ': loop' in u.name and (not ks or any(u.name.endswith(' loop %d' % k) for k in ks))
def of_structure():
    """loops, fans and registers: D01"""
    return [u for u in units() if not u.name.endswith(': polygons')]
def of_changes():
    """polygons and the reported change: D05"""
    walks = {(n, k) for n, f, l, t, c, b in OPS for k in WALKS.get(n, ())}
    return [u for u in units() if u.name.endswith(': polygons') or u.name.startswith('choice') or u.name == 'initial state' or is_loop(u) and not any(u.name == '%s: loop %d' % x for x in walks)] + changes_units()
def of_places():
    """attributes, and what is moved to another polygon: D02"""
    n = {'splitting a polygon: ' + x for x in ('polygons', 'points', 'registered', 'loop 2', 'loop 3', 'loop 4')} | {'joining polygons: ' + x for x in ('polygons', 'points', 'registered', 'loop 1', 'loop 2')} | {'splitting a loop: ' + x for x in ('registered', 'polygons', 'loop 2', 'loop 3', 'loop 4')}
    return [u for u in units() if u.name in n or u.name.endswith(': polygons')]
WALKS = {'splitting a polygon': (1,), 'joining loops': (1,), 'splitting a loop': (1,), 'joining polygons': (3,)}
def changes_units():
    return [Unit('reported change by identifiers', reported, ['bgem/polygons/polygons.py:PolygonDecomposition.get_last_polygon_changes'], covers=['shape', 'other'], unbounded='identifiers', mods=['bgem.polygons.polygons'], deadline=60)]
def reported(V):
    P = importlib.import_module('bgem.polygons.polygons').PolygonDecomposition(); C = importlib.import_module('bgem.polygons.decomp').PolygonChange
    class Poly:
        def __init__(self, i): self.id = i
    p, q = Poly(V.int('p', lo=0)), Poly(V.int('q', lo=0)); k = V.choice('kind', 6)
    kind = [C.none, C.shape, C.add, C.remove, C.split, C.join][k]
    P.decomp.last_polygon_change = (kind, None, None) if k == 0 else (kind, [p], None) if k == 1 else (kind, p, q)
    r = need(P, 'get_last_polygon_changes')()
    V.ensure('kind of change', len(r) == 3 and r[0] == kind)
    if k == 1: V.ensure('identifiers of the polygons of changed shape', len(r[1]) == 1 and r[2] is None); V.ensure('identifier', r[1][0] == p.id); V.cover('shape')
    elif k == 0: V.ensure('no polygons', r[1] is None and r[2] is None)
    else: V.ensure('identifier of the first polygon', r[1] == p.id); V.ensure('identifier of the second polygon', r[2] == q.id); V.cover('other')
def units():
    r = []
    for name, f, t in (('a new isolated point', add_point, T('decomp/Decomposition.add_free_point', 'point/Point.__init__')), ('removing an isolated point', rm_point, T('decomp/Decomposition.remove_free_point'))):
        for part in PARTS[2:]: r.append(Unit('%s: %s' % (name, part), lambda V, f=f, part=part: f(V, part), t, covers=[c for c in COV.get(part, []) if c == 'isolated' or part != 'points'], mods=MODS + ['bgem.polygons.point'], extra=EX, conc=False, allshape=True, assumes=ASSUMES, deadline=200))
    
    r.append(Unit('contract: the side before a given one', previous, T('segment/Segment.previous'), covers=['alone', 'in a fan'], unbounded='segments at a vertex', mods=MODS + ['bgem.polygons.segment'], extra=EX, conc=False, allshape=True, deadline=100))
    r.append(Unit('choice of the operation: new segment', new_segment, T('decomp/Decomposition.new_segment'), covers=['existing', '_new_wire', '_wire_add_dendrite', '_join_wires', '_split_poly'], unbounded='segments at a vertex', mods=MODS, extra=EX_LA, conc=False, allshape=True, deadline=100))
    r.append(Unit('choice of the operation: removing a segment', delete_segment, T('decomp/Decomposition.delete_segment'), covers=['_rm_wire', '_wire_rm_dendrite', '_split_wire', '_join_poly'], unbounded='segments at a vertex', mods=MODS, extra=EX, conc=False, allshape=True, deadline=100))
    r.append(Unit('initial state', initial, T('decomp/Decomposition.__init__'), conc=False, deadline=60))
    for name, f, nloops, targets, covers, unb in OPS:
        for part in PARTS + ['loop %d' % (k + 1) for k in range(nloops)]:
            cov = ['iteration'] if part.startswith('loop') else COV.get(part, []) + covers
            r.append(Unit('%s: %s' % (name, part), lambda V, f=f, part=part: f(V, part), targets, covers=cov, unbounded=unb, mods=MODS, extra=EX, conc=False, allshape=True, assumes=ASSUMES, deadline=200))
    return r
