"""Independent reader of boundary-representation files (the format written by OCC, tokens only) and the comparison of a
file with a model in memory. Shared by W01 and W02."""
import importlib, random
BW = 'bgem.bspline.brep_writer'
def bw(): return importlib.import_module(BW)
class Bad(Exception): pass
def req(c, msg, *a):
    if not c: raise Bad(msg + ''.join(' ' + repr(x)[:200] for x in a))

class Reader:
    def __init__(self, text, num=float):
        self.t = text.split(); self.i = 0; self.num = num
    def tok(self):
        req(self.i < len(self.t), 'file ends early'); x = self.t[self.i]; self.i += 1; return x
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def word(self, *w):
        for x in w: y = self.tok(); req(y == x, 'expected', x, y, self.i)
    def int(self):
        x = self.tok()
        try: return int(x)
        except ValueError: raise Bad('expected an integer: %r' % x)
    def float(self):
        x = self.tok()
        try: return self.num(x)
        except ValueError: raise Bad('expected a number: %r' % x)
    def floats(self, n): return [self.float() for _ in range(n)]
    def location(self):
        k = self.int()
        if k == 1: return ('m', [self.floats(4) for _ in range(3)])
        req(k == 2, 'kind of location', k)
        out = []
        while True:
            l = self.int()
            if l == 0: return ('c', out)
            out.append((l, self.int()))
    def curve(self, dim):
        req(self.int() == 7, 'kind of curve')
        r = self.int(); req(r in (0, 1) and self.int() == 0, 'curve flags')
        deg, n, k = self.int(), self.int(), self.int()
        return dict(rational=r, degree=deg, poles=[self.floats(dim + r) for _ in range(n)], knots=[(self.float(), self.int()) for _ in range(k)])
    def surface(self):
        req(self.int() == 9, 'kind of surface')
        ru, rv = self.int(), self.int(); req(ru == rv and ru in (0, 1) and self.int() == 0 and self.int() == 0, 'surface flags')
        du, dv, nu, nv, ku, kv = [self.int() for _ in range(6)]
        P = [[self.floats(3 + ru) for _ in range(nv)] for _ in range(nu)]
        return dict(rational=ru, degree=(du, dv), poles=P, u=[(self.float(), self.int()) for _ in range(ku)], v=[(self.float(), self.int()) for _ in range(kv)])
    def ref(self, x=None):
        x = self.tok() if x is None else x
        req(x[0] in '+-ie', 'orientation', x)
        try: return '+-ie'.index(x[0]) + 1, int(x[1:]), self.int()
        except ValueError: raise Bad('reference %r' % x)
    def shape(self):
        kind = self.tok(); s = dict(kind=kind)
        if kind == 'Ve':
            s['tol'] = self.float(); s['point'] = self.floats(3); s['repr'] = []
            while True:
                p = self.float(); k = self.int()
                if k == 0: break
                raise Bad('vertex representation')
        elif kind == 'Ed':
            s['tol'] = self.float(); s['eflags'] = [self.int() for _ in range(3)]; s['repr'] = []
            while True:
                k = self.int()
                if k == 0: break
                if k == 1: s['repr'].append((1, self.int(), self.int(), self.float(), self.float()))
                elif k == 2: s['repr'].append((2, self.int(), self.int(), self.int(), self.float(), self.float()))
                else: raise Bad('edge representation %d' % k)
        elif kind == 'Fa':
            s['restr'] = self.int(); s['tol'] = self.float(); s['surf'] = self.int(); s['loc'] = self.int()
        else: req(kind in ('Wi', 'Sh', 'So', 'CS', 'Co'), 'kind of shape', kind)
        f = self.tok(); req(len(f) == 7 and set(f) <= {'0', '1'}, 'flags', f); s['flags'] = f
        s['childs'] = []
        while True:
            x = self.tok()
            if x == '*': return s
            s['childs'].append(self.ref(x))
    def section(self, name, fn):
        self.word(name); n = self.int(); out = []
        for _ in range(n): out.append(fn())
        return out
    def model(self):
        self.word('DBRep_DrawableShape', 'CASCADE', 'Topology', 'V1,', '(c)', 'Matra-Datavision')
        M = {}
        M['locations'] = self.section('Locations', self.location)
        M['curves_2d'] = self.section('Curve2ds', lambda: self.curve(2))
        M['curves_3d'] = self.section('Curves', lambda: self.curve(3))
        self.word('Polygon3D', '0', 'PolygonOnTriangulations', '0')
        M['surfaces'] = self.section('Surfaces', self.surface)
        self.word('Triangulations', '0')
        M['shapes'] = self.section('TShapes', self.shape)
        M['root'] = self.ref()
        req(self.i == len(self.t), 'text behind the end', self.t[self.i:][:3])
        return M

KINDS = dict(Compound='Co', CompoundSolid='CS', Solid='So', Shell='Sh', Face='Fa', Wire='Wi', Edge='Ed', Vertex='Ve')
class Compare:
    """walks the model in memory and the records of the file side by side"""
    def __init__(self, M, numbers=True):
        self.M, self.numbers = M, numbers
        self.of = {k: {} for k in ('locations', 'curves_2d', 'curves_3d', 'surfaces', 'shapes')}     # record -> object
        self.rec = {k: {} for k in self.of}                                                           # id(object) -> record
        self.keep = []
    def pair(self, group, obj, n):
        """record n (1..) of a group belongs to obj; False: known"""
        req(1 <= n <= len(self.M[group]), 'reference to a missing record', group, n, len(self.M[group]))
        self.keep.append(obj)
        if n in self.of[group]:
            req(self.of[group][n] is obj, 'one record for two objects', group, n); return False
        req(id(obj) not in self.rec[group], 'one object written twice', group, n)
        self.of[group][n] = obj; self.rec[group][id(obj)] = n
        return True
    def eqn(self, a, b, what):
        if self.numbers: req(same(a, b), 'number differs: ' + what, a, b)
    def loc(self, obj, n, before=None):
        b = bw()
        if not isinstance(obj, b.ComposedLocation) and obj.matrix is None: req(n == 0, 'identity location', n); return
        if before is not None: req(n < before, 'location used before it is written', n, before)
        if not self.pair('locations', obj, n): return
        k, v = self.M['locations'][n - 1]
        if isinstance(obj, b.ComposedLocation):
            req(k == 'c', 'kind of location', n)
            lp = [(l, p) for l, p in obj.location_powers if isinstance(l, b.ComposedLocation) or l.matrix is not None]
            req(len(lp) == len(v), 'factors of a location', n, v)
            for (l, p), (m, q) in zip(lp, v): req(p == q, 'power of a location', p, q); self.loc(l, m, n)
        else:
            req(k == 'm', 'kind of location', n)
            for i in range(3):
                for j in range(4): self.eqn(v[i][j], obj.matrix[i][j], 'matrix')
    def knots(self, a, b):
        if not self.numbers: return
        req(len(a) == len(b), 'number of knots', len(a), len(b))
        for (x, m), (y, n) in zip(a, b): self.eqn(x, y, 'knot'); req(m == n, 'multiplicity', m, n)
    def curve(self, obj, n, group):
        if not self.pair(group, obj, n) or not self.numbers: return
        c = self.M[group][n - 1]
        req(c['rational'] == int(bool(obj.rational)) and c['degree'] == obj.degree, 'degree or rational flag of a curve')
        req(len(c['poles']) == len(obj.poles), 'number of poles')
        for p, q in zip(c['poles'], obj.poles):
            req(len(p) == len(q), 'dimension of a pole')
            for x, y in zip(p, q): self.eqn(x, y, 'pole')
        self.knots(c['knots'], obj.knots)
    def surf(self, obj, n):
        if not self.pair('surfaces', obj, n) or not self.numbers: return
        c = self.M['surfaces'][n - 1]
        req(c['rational'] == int(bool(obj.rational)) and c['degree'] == tuple(obj.degree), 'degree or rational flag of a surface')
        req(len(c['poles']) == len(obj.poles), 'number of poles')
        for P, Q in zip(c['poles'], obj.poles):
            req(len(P) == len(Q), 'number of poles')
            for p, q in zip(P, Q):
                req(len(p) == len(q), 'dimension of a pole')
                for x, y in zip(p, q): self.eqn(x, y, 'pole')
        self.knots(c['u'], obj.knots[0]); self.knots(c['v'], obj.knots[1])
    def shape(self, obj, ref):
        n = len(self.M['shapes']) - ref + 1        # references count from the end
        if not self.pair('shapes', obj, n): return
        s = self.M['shapes'][n - 1]; b = bw()
        req(s['kind'] == KINDS[type(obj).__name__], 'kind of a shape', s['kind'], type(obj))
        req([int(x) for x in s['flags']] == [int(obj.flags[k]) for k in b.ShapeFlag.flag_names], 'flags', s['flags'], obj.flags)
        if s['kind'] == 'Ve':
            self.eqn(s['tol'], obj.tolerance, 'tolerance')
            for x, y in zip(s['point'], obj.point): self.eqn(x, y, 'point')
            req(len(obj.point) == 3, 'point')
        if s['kind'] == 'Ed':
            self.eqn(s['tol'], obj.tol, 'tolerance')
            req(s['eflags'] == [int(x) for x in obj.edge_flags], 'edge flags')
            req(len(s['repr']) == len(obj.repr) and obj.repr, 'representations of an edge', len(s['repr']), len(obj.repr))
            for x, y in zip(s['repr'], obj.repr):
                req(x[0] == int(y[0]), 'kind of representation')
                self.eqn(x[-2], y[1][0], 'parameter range'); self.eqn(x[-1], y[1][1], 'parameter range')
                if x[0] == 1: self.curve(y[2], x[1], 'curves_3d'); self.loc(y[3], x[2])
                else: self.curve(y[2], x[1], 'curves_2d'); self.surf(y[3], x[2]); self.loc(y[4], x[3])
        if s['kind'] == 'Fa':
            req(s['restr'] == obj.restriction_flag, 'face flag'); self.eqn(s['tol'], obj.tol, 'tolerance')
            req(len(obj.repr) == 1, 'surface of a face')
            self.surf(obj.repr[0][0], s['surf']); self.loc(obj.repr[0][1], s['loc'])
        if s['kind'] == 'Ve':
            for y in obj.repr:     # not referenced by the format used, but reachable
                if y[0] == 1: self.extra('curves_3d', y[2]); self.xloc(y[3])
                elif y[0] == 2: self.extra('curves_2d', y[2]); self.extra('surfaces', y[3]); self.xloc(y[4])
                else: self.extra('surfaces', y[3]); self.xloc(y[4])
        req(len(s['childs']) == len(obj.childs), 'number of children', s['kind'], len(s['childs']), len(obj.childs))
        for (o, r, l), c in zip(s['childs'], obj.childs):
            req(o == int(c.orientation), 'orientation of a child', o, c.orientation)
            m = len(self.M['shapes']) - r + 1
            req(1 <= m < n, 'a shape is written before it is referenced', m, n)
            self.shape(c.shape, r); self.loc(c.location, l)
    def extra(self, group, obj):
        self.more.append((group, obj))
    def xloc(self, l):
        b = bw()
        if isinstance(l, b.ComposedLocation):
            self.more.append(('locations', l))
            for q, _ in l.location_powers: self.xloc(q)
        elif l.matrix is not None: self.more.append(('locations', l))
    def run(self, root, location):
        self.more = []
        o, r, l = self.M['root']
        req(o == 1, 'orientation of the root', o)
        self.shape(root, r); self.loc(location, l)
        for g in self.of:
            more = {id(x): x for h, x in self.more if h == g and id(x) not in self.rec[g]}
            left = [i for i in range(1, len(self.M[g]) + 1) if i not in self.of[g]]
            req(len(left) == len(more), 'every reachable object is written exactly once', g, len(self.M[g]), len(self.of[g]), len(more))
            for x in more.values():
                req(getattr(x, 'id', None) in left, 'every reachable object is written exactly once', g)
def same(a, b):
    try: return float(a) == float(b)
    except (TypeError, ValueError): return False

def write(root, location):
    import io
    s = io.StringIO(); bw().write_model(s, root, location); return s.getvalue()

# ------------------------------------------------------------------ random models
import numpy as np
class Model:
    def __init__(self, r):
        self.r = r; self.b = bw()
        self.L = [self.b.Location()]; self.C3, self.C2, self.S = [], [], []
        self.V, self.E, self.W, self.F, self.H, self.O, self.K, self.CO = [], [], [], [], [], [], [], []
        self.hist = []
    def x(self):
        r = self.r; k = r.random()
        v = r.choice([0., 1., -1., .1, .1 + .2, 1e-300, -3e17, 1 / 3, 2, 7, -5, 5e-324, 1.7976931348623157e308]) if k < .3 else r.uniform(-1e3, 1e3) if k < .8 else r.randrange(-9, 9)
        if r.random() < .3: v = np.float64(v) if isinstance(v, float) else np.int64(v)
        return v
    def y(self):      # plain numbers only
        v = self.x(); return v.item() if hasattr(v, 'item') else v
    def pick(self, l): return self.r.choice(l)
    def location(self):
        r = self.r; b = self.b
        if r.random() < .5 or len(self.L) < 2: l = b.Location([[self.y() for _ in range(4)] for _ in range(3)])
        else: l = b.ComposedLocation([(self.pick(self.L), r.randrange(-3, 4)) for _ in range(r.randrange(1, 4))])
        self.L.append(l); return l
    def loc(self):
        if self.r.random() < .6: return self.b.Location() if self.r.random() < .5 else self.L[0]
        return self.location() if self.r.random() < .4 else self.pick(self.L)
    def knots(self, n, deg):
        r = self.r; m = n + deg + 1; k = []; t = r.uniform(-5, 5)
        while m:
            q = min(m, r.randrange(1, deg + 2)); k.append((r.choice([t, np.float64(t)]), q)); m -= q; t += r.uniform(.01, 2)
        return k
    def curve(self, dim):
        r = self.r; rat = r.random() < .4; deg = r.randrange(1, 4); n = r.randrange(deg + 1, deg + 5)
        P = [[self.x() for _ in range(dim + rat)] for _ in range(n)]
        if r.random() < .3: P = np.array(P, dtype=float)
        elif r.random() < .5: P = [tuple(p) for p in P]
        c = (self.b.Curve2D if dim == 2 else self.b.Curve3D)(P, self.knots(n, deg), r.choice([rat, int(rat)]), deg)
        (self.C2 if dim == 2 else self.C3).append(c); return c
    def surface(self):
        r = self.r; rat = r.random() < .4; d = (r.randrange(1, 4), r.randrange(1, 4)); n = [r.randrange(d[i] + 1, d[i] + 4) for i in (0, 1)]
        P = [[[self.x() for _ in range(3 + rat)] for _ in range(n[1])] for _ in range(n[0])]
        if r.random() < .3: P = np.array(P, dtype=float)
        s = self.b.Surface(P, (self.knots(n[0], d[0]), self.knots(n[1], d[1])), rat, d)
        self.S.append(s); return s
    def some(self, l, fn, p=.5): return fn() if not l or self.r.random() < p else self.pick(l)
    def ref(self, s):
        r = self.r; k = r.random()
        if k < .35: return s
        if k < .6: return r.choice([s.p, s.m, s.i, s.e])()
        return self.b.ShapeRef(s, r.choice(list(self.b.Orient)), self.loc())
    def vertex(self):
        r = self.r
        p = [self.x() for _ in range(3)]
        v = self.b.Vertex(r.choice([p, tuple(p)]), *([self.y()] if r.random() < .3 else []))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            k = r.randrange(3)
            if k == 0: v.attach_to_3d_curve(self.y(), self.some(self.C3, lambda: self.curve(3)), self.loc())
            elif k == 1: v.attach_to_2d_curve(self.y(), self.some(self.C2, lambda: self.curve(2)), self.some(self.S, self.surface), self.loc())
            else: v.attach_to_surface(self.y(), self.y(), self.some(self.S, self.surface), self.loc())
        self.V.append(v); return v
    def edge(self, a=None, c=None):
        r = self.r
        a = a or self.some(self.V, self.vertex, .4); c = c or self.some(self.V, self.vertex, .4)
        e = self.b.Edge([self.ref(a), self.ref(c)], *([self.y()] if r.random() < .3 else []))
        if r.random() < .3: e.set_edge_flags(r.randrange(2), r.randrange(2), r.randrange(2))
        self.reprs(e); self.E.append(e); return e
    def reprs(self, e):
        r = self.r
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            if r.random() < .4: e.attach_to_3d_curve((self.y(), self.y()), self.some(self.C3, lambda: self.curve(3)), self.loc())
            elif r.random() < .8: e.attach_to_2d_curve((self.y(), self.y()), self.some(self.C2, lambda: self.curve(2)), self.some(self.S, self.surface), self.loc())
            else: e.attach_to_plane(self.some(self.S, self.surface), (self.y(), self.y()), (self.y(), self.y()))
    def wire(self):
        r = self.r
        if r.random() < .5: w = self.b.Wire([self.ref(self.some(self.E, self.edge)) for _ in range(r.randrange(0, 4))])
        else: w = self.b.Wire([self.ref(e) for e in self.ring(r.randrange(2, 6))])
        self.W.append(w); return w
    def ring(self, n):
        v = [self.some(self.V, self.vertex, .7) for _ in range(n)]
        if len({id(x) for x in v}) < n: v = [self.vertex() for _ in range(n)]
        return [self.edge(v[i - 1], v[i]) for i in range(n)]
    def face(self):
        r = self.r; k = r.random()
        if k < .4:      # implicit surface: chain of 3 or 4 edges, some of them stored reversed; may share edges with earlier ones
            n = r.choice([3, 4]); v = [self.b.Vertex([r.uniform(-5, 5) for _ in range(3)]) for _ in range(n)]
            self.V += v
            if r.random() < .5 and self.E:
                s = self.pick(self.E); q = s.subshapes()
                if q[0] is not q[1] and max(abs(float(x)) for p in q for x in p.point) < 1e6: v[0], v[1] = q
                else: s = None
            else: s = None
            es = []
            for i in range(n):
                a, c = v[i], v[(i + 1) % n]
                if i == 0 and s is not None: es.append(s); continue
                if r.random() < .5: e = self.b.Edge([a, c]); es.append(e)
                else: e = self.b.Edge([c, a]); es.append(e.m())
                self.E.append(e)
            f = self.b.Face(es if r.random() < .5 else [self.ref2(self.b.Wire(es))], tolerance=self.y())
            if s is not None: self.hist.append('shared')
        else:
            n = r.randrange(1, 3)
            if r.random() < .3: ws = self.ring(r.randrange(2, 5))
            else:
                ws = [w for w in self.W if w.is_closed()]; r.shuffle(ws); ws = ws[:n] or [self.b.Wire(self.ring(r.randrange(2, 5)))]
                if r.random() < .2 and len(ws) == 1: ws = ws[0]
            ws = [self.ref(w) for w in ws] if isinstance(ws, list) else ws
            f = self.b.Face(ws, self.some(self.S, self.surface), self.loc(), *([self.y()] if r.random() < .3 else []))
        self.F.append(f); return f
    def ref2(self, w): return r if (r := w) and self.r.random() < .5 else w.m()
    def group(self, cls, lst, item, pool):
        r = self.r
        o = cls([self.ref(self.some(pool, item)) for _ in range(r.randrange(0, 4))])
        lst.append(o); return o
    def shell(self): return self.group(self.b.Shell, self.H, self.face, self.F)
    def solid(self): return self.group(self.b.Solid, self.O, self.shell, self.H)
    def csolid(self): return self.group(self.b.CompoundSolid, self.K, self.solid, self.O)
    def compound(self):
        r = self.r; items = []
        for _ in range(r.randrange(0, 5)):
            l, f = r.choice([(self.V, self.vertex), (self.E, self.edge), (self.W, self.wire), (self.F, self.face), (self.H, self.shell), (self.O, self.solid), (self.K, self.csolid)])
            items.append(self.ref(self.some(l, f)))
        c = self.b.Compound(items)
        if r.random() < .3: c.set_free_shapes()
        self.CO.append(c); return c
    def any(self):
        r = self.r
        f = r.choice([self.vertex, self.edge, self.wire, self.face, self.face, self.shell, self.solid, self.csolid, self.compound, self.compound])
        return f()
    def all(self): return self.V + self.E + self.W + self.F + self.H + self.O + self.K + self.CO
