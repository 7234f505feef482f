"""Contracts of brep_writer: what is written for each part (any number of poles, knots, children, representations)."""
import importlib
from pyvc.unit import Unit, need
MOD = 'bgem.bspline.brep_writer'
def bw(): return importlib.import_module(MOD)
def cnt(V, name, *i):
    from pyvc import ghost as g
    k = g.ufi(name, *i); V.ctx.add((k >= 0).t); return k
def glist(tag, n, at):
    from pyvc import ghost as g
    q = g.GList(n, at); q.tag = tag; return q
def new(cls, **a):
    o = cls.__new__(cls)
    for k, v in a.items(): setattr(o, k, v)
    return o
class Ref:
    """an indexed object: only its number is used"""
    def __init__(self, id): self.id = id
def call(cls, name, specs, *a):
    from pyvc import loops
    f = cls.__dict__.get(name) or need(cls, name)
    return (loops.contract(f, specs) if specs else f)(*a)
def poles(V, tag, d):
    from pyvc import ghost as g
    n = cnt(V, 'n_' + tag); V.ctx.add((n >= 1).t)
    return glist(tag, n, lambda i: [g.ufr('%s_%d' % (tag, k), i) for k in range(d)])
def knots(V, tag):
    from pyvc import ghost as g
    return glist(tag, cnt(V, 'n_' + tag), lambda i: (g.ufr(tag, i), g.ufi(tag + '_mult', i)))
def values(seq, i): return list(seq.at(i))
def out():
    from pyvc import ghost as g
    return g.Out()
CALLS = []
def stub_matrix(mat, shape, values, idx=[]):
    CALLS.append(('matrix', mat, list(shape), values)); return shape
def stub_knots(deg, kn, N): CALLS.append(('knots', deg, kn, N))
STUBS = {MOD: dict(check_matrix=stub_matrix, check_knots=stub_knots)}
def lab(seq): return 'row of %s' % (seq.tag if isinstance(seq.tag, str) else seq.tag[0])

def curve_unit(dim, rat):
    def fn(V):
        from pyvc import rec, core
        b = bw(); del CALLS[:]
        cls = b.Curve3D if dim == 3 else b.Curve2D
        P, K, deg = poles(V, 'pole', dim + rat), knots(V, 'knot'), V.int('degree', lo=1)
        c = cls(P, K, bool(rat), deg)
        m = [x for x in CALLS if x[0] == 'matrix']; k = [x for x in CALLS if x[0] == 'knots']
        V.ensure('poles are checked', len(m) == 1 and m[0][1] is P and len(m[0][2]) == 2 and m[0][2][1] == dim + rat and m[0][3] == b.scalar_types)
        if m and m[0][2][0] is not None: V.ensure('poles are checked: number', m[0][2][0] == P.n)
        V.ensure('knots are checked', len(k) == 1 and k[0][2] is K)
        if k: V.ensure('knots are checked: sizes', core.sand(k[0][1] == deg, k[0][3] == P.n))
        s = out()
        call(cls, '_brep_output', {0: rec.cells(s, values, lab), 2: rec.cells(s, values, lab)}, c, s, {})
        V.cover('written')
        bl = rec.check('record', s, [7, int(rat), 0, deg, P.n, K.n, rec.G('pole', P.n), rec.G('knot', K.n)])
        V.ensure('record ends with a blank', bl)
    return Unit('Curve%dD%s: record of any number of poles and knots' % (dim, ', rational' if rat else ''), fn, ['%s.py:Curve%dD.%s' % (MOD.replace('.', '/'), dim, f) for f in ('_brep_output', '__init__')],
                mods=[MOD], extra=STUBS, covers=['written'], conc=False, allshape=True, unbounded='numbers of poles and knots, all values', assumes=ASSUME)
ASSUME = ['str() of a number parses back to the number (written text is read by its columns)']

def surface_unit(rat):
    def fn(V):
        from pyvc import rec, core, ghost as g
        b = bw(); del CALLS[:]
        n, m_ = cnt(V, 'n_rows'), cnt(V, 'n_cols'); V.ctx.add((n >= 1).t); V.ctx.add((m_ >= 1).t)
        d = 3 + rat
        P = glist('row', n, lambda i: glist(('pole', i), m_, lambda j: [g.ufr('p_%d' % k, i, j) for k in range(d)]))
        U, W = knots(V, 'u_knot'), knots(V, 'v_knot')
        du, dv = V.int('u_degree', lo=1), V.int('v_degree', lo=1)
        # constructor: the loop over rows checks their lengths
        from pyvc import loops
        sp = {0: loops.Spec(lambda L: [], lambda L: {}, variant=lambda L: L['__n'] - L['__i'], name='lengths', kind='for')}
        s = b.Surface.__new__(b.Surface)
        loops.contract(b.Surface.__init__, sp)(s, P, (U, W), bool(rat), (du, dv))
        mm = [x for x in CALLS if x[0] == 'matrix']; k = [x for x in CALLS if x[0] == 'knots']
        V.ensure('poles are checked', len(mm) == 1 and mm[0][1] is P and mm[0][2] == [None, None, d] and mm[0][3] == b.scalar_types)
        V.ensure('knots are checked', len(k) == 2 and {id(x[2]) for x in k} == {id(U), id(W)})
        for x in k:
            V.ensure('knots are checked: sizes', core.sand(x[1] == (du if x[2] is U else dv), x[3] == (n if x[2] is U else m_)))
        o = out()
        row = lambda seq, i: [rec.G(('pole', i), m_)] if seq.tag == 'row' else list(seq.at(i))
        call(b.Surface, '_brep_output', {1: rec.cells(o, row, lab), 2: rec.cells(o, row, lab), 4: rec.cells(o, row, lab), 6: rec.cells(o, row, lab)}, s, o, {})
        V.cover('written')
        bl = rec.check('record', o, [9, int(rat), int(rat), 0, 0, du, dv, n, m_, U.n, W.n, rec.G('row', n), rec.G('u_knot', U.n), rec.G('v_knot', W.n)])
        V.ensure('record ends with a blank', bl)
    return Unit('Surface%s: record of any number of poles and knots' % (', rational' if rat else ''), fn, ['%s.py:Surface.%s' % (MOD.replace('.', '/'), f) for f in ('_brep_output', '__init__')],
                mods=[MOD], extra=STUBS, covers=['written'], conc=False, allshape=True, unbounded='numbers of poles and knots, all values', assumes=ASSUME)

def location(V):
    from pyvc import rec
    b = bw(); del CALLS[:]
    M = [[V.real('m%d%d' % (i, j)) for j in range(4)] for i in range(3)]
    l = b.Location(M)
    V.ensure('matrix is checked', [x for x in CALLS if x[1] is M and x[2] == [3, 4] and set(x[3]) <= {int, float}] != [])
    s = out(); need(l, '_brep_output')(s, {})
    V.cover('written')
    V.ensure('record ends with a blank', rec.check('record', s, [1] + [x for r in M for x in r]))
    i = b.Location(); V.ensure('identity has number 0', i.id == 0 and i.matrix is None)
def composed(V):
    from pyvc import rec, ghost as g
    b = bw()
    n = cnt(V, 'n_factors')
    P = glist('factor', n, lambda i: (Ref(g.ufi('loc', i)), g.ufi('power', i)))
    l = new(b.ComposedLocation, location_powers=P)
    s = out()
    def row(seq, i):
        from pyvc import core
        r, p = P.at(i)
        return [] if core.CTX.fork((r.id == 0).t) else [r.id, p]
    call(b.ComposedLocation, '_brep_output', {0: rec.cells(s, row, lab)}, l, s, {})
    V.cover('written')
    V.ensure('record ends with a blank', rec.check('record', s, [2, rec.G('factor', n), 0]))

SIGN = {1: '+', 2: '-', 3: 'i', 4: 'e'}
def shape(V):
    from pyvc import rec, ghost as g
    b = bw()
    n = cnt(V, 'n_children')
    def at(i):
        r = new(b.ShapeRef, shape=Ref(g.ufi('child', i)), location=Ref(g.ufi('child_location', i)), orientation=list(b.Orient)[V.choice('orientation', 4)])
        return r
    C = glist('child', n, rec.memo(at))
    cls = [b.Compound, b.CompoundSolid, b.Solid, b.Shell, b.Wire, b.Face, b.Edge, b.Vertex][V.choice('kind', 8)]
    name = ['Co', 'CS', 'So', 'Sh', 'Wi', 'Fa', 'Ed', 'Ve'][[b.Compound, b.CompoundSolid, b.Solid, b.Shell, b.Wire, b.Face, b.Edge, b.Vertex].index(cls)]
    fl = [V.int('flag%d' % k, lo=0, hi=1) for k in range(7)]
    F = b.ShapeFlag(*[0] * 7)
    for k, x in zip(b.ShapeFlag.flag_names, fl): dict.__setitem__(F, k, x)
    o = new(cls, childs=C, flags=F, shpname=name)
    need(type(o), '_subrecordoutput'); o._subrecordoutput = lambda stream: stream.write('\n<sub>\n')
    s = out()
    V.ensure('order of the flags', list(b.ShapeFlag.flag_names) == ['free', 'modified', 'checked', 'orientable', 'closed', 'infinite', 'convex'])
    V.ensure('names of the orientations', [x.name for x in b.Orient] == ['Forward', 'Reversed', 'Internal', 'External'] and [int(x) for x in b.Orient] == [1, 2, 3, 4])
    row = lambda seq, i: [(SIGN[int(C.at(i).orientation)], C.at(i).shape.id), C.at(i).location.id]
    call(b.Shape, '_brep_output', {0: rec.cells(s, row, lab)}, o, s, {})
    V.cover('written')
    V.ensure('record ends with a blank', rec.check('record', s, [name, '<sub>', tuple(fl), rec.G('child', n), '*']))

def edge(V):
    from pyvc import rec, ghost as g
    b = bw()
    n = cnt(V, 'n_reprs'); V.ctx.add((n >= 1).t)
    def at(i):
        t = (g.ufr('t0', i), g.ufr('t1', i)); c = Ref(g.ufi('curve', i)); l = Ref(g.ufi('location', i))
        return (b.Edge.Repr.Curve3d, t, c, l) if V.choice('repr', 2) == 0 else (b.Edge.Repr.Curve2d, t, c, Ref(g.ufi('surface', i)), l)
    R = glist('repr', n, rec.memo(at))
    tol = V.real('tol'); fl = tuple(V.int('flag%d' % k) for k in range(3))
    o = new(b.Edge, repr=R, tol=tol, edge_flags=fl)
    s = out()
    def row(seq, i):
        r = R.at(i)
        if len(r) == 4: return [1, r[2].id, r[3].id, r[1][0], r[1][1]]
        return [2, r[2].id, r[3].id, r[4].id, r[1][0], r[1][1]]
    call(b.Edge, '_subrecordoutput', {0: rec.cells(s, row, lab)}, o, s)
    V.cover('written')
    V.ensure('data end with a blank', rec.check('data', s, [tol] + list(fl) + [rec.G('repr', n), 0]))
    e = b.Edge.__new__(b.Edge); e.set_edge_flags(*fl)
    V.ensure('edge flags are those set', all(x is y for x, y in zip(e.edge_flags, fl)))
def face(V):
    from pyvc import rec, ghost as g
    b = bw()
    tol = V.real('tol'); fl = V.int('restriction')
    o = new(b.Face, tol=tol, restriction_flag=fl, repr=[(Ref(V.int('surface')), Ref(V.int('location')))])
    s = out(); need(o, '_subrecordoutput')(s)
    V.cover('written')
    V.ensure('data end with a blank', rec.check('data', s, [fl, tol, o.repr[0][0].id, o.repr[0][1].id]))
def vertex(V):
    from pyvc import rec
    b = bw(); del CALLS[:]
    p = [V.real(x) for x in 'xyz']; tol = V.real('tol')
    o = b.Vertex(p, tol)
    V.ensure('point is checked', [x for x in CALLS if x[1] is p and x[2] == [3] and x[3] == b.scalar_types] != [])
    s = out(); need(o, '_subrecordoutput')(s)
    V.cover('written')
    V.ensure('data end with a blank', rec.check('data', s, [tol] + p + [0, 0]))

def T(*names): return ['%s.py:%s' % (MOD.replace('.', '/'), n) for n in names]
def text_units():
    k = dict(mods=[MOD], extra=STUBS, covers=['written'], conc=False, assumes=ASSUME)
    return [curve_unit(d, r) for d in (2, 3) for r in (0, 1)] + [surface_unit(0), surface_unit(1)] + [
        Unit('Location: record', location, T('Location.__init__', 'Location._brep_output'), allshape=True, **k),
        Unit('ComposedLocation: any number of factors', composed, T('ComposedLocation._brep_output'), allshape=True, unbounded='number of factors', **k),
        Unit('Shape: any number of children', shape, T('Shape._brep_output', 'ShapeRef._writeformat', 'ShapeFlag._brep_output', 'Compound', 'CompoundSolid', 'Solid', 'Shell', 'Wire', 'Face', 'Edge', 'Vertex'), allshape=True, unbounded='number of children', **k),
        Unit('Edge: any number of representations', edge, T('Edge._subrecordoutput', 'Edge.set_edge_flags'), allshape=True, unbounded='number of representations', **dict(k, extra={MOD: dict(STUBS[MOD], enumerate=genum)})),
        Unit('Face: data', face, T('Face._subrecordoutput'), allshape=True, **k),
        Unit('Vertex: data', vertex, T('Vertex.__init__', 'Vertex._subrecordoutput'), allshape=True, **k)]
def genum(*a):
    from pyvc import ghost as g
    return g.genumerate(*a)

# ------------------------------------------------------------------ checks of parts
def matrix(V):
    """check_matrix against its own contract for the rows (induction over the nesting)"""
    from pyvc import core, ghost as g, loops
    b = bw()
    n, k = cnt(V, 'n_rows'), V.int('k', lo=0); V.assume(k < n)
    good = V.choice('mode', 2) == 0          # 0: a valid matrix is accepted, 1: what is accepted is valid
    a = [None, V.int('a')][V.choice('rows', 2)]
    cols = V.choice('cols', 3)
    sub = [] if cols == 0 else [None] if cols == 1 else [V.int('b', lo=0)]
    b0 = sub[0] if sub else None
    VAL = b.scalar_types
    ln, ok = lambda i: cnt(V, 'row_len', i), lambda i: g.ufi('row_ok', i)
    width = lambda: b0 if b0 is not None else ln(0)
    def valid(i): return core.sand(ok(i) == 1, *([ln(i) == width()] if sub else []))
    class Row:
        def __init__(self, i): self.i = i
        def __len__(self): raise core.Unsupported('row')
    def stub(item, s, values, idx=None):
        V.ensure('allowed types are passed on', values is VAL or values == VAL)
        V.ensure('shape of the rows is passed on', len(s) == len(sub))
        i = item.i
        if good: V.assume(valid(i))
        if s:
            if s[0] is None: s[0] = ln(i)
            elif core.CTX.fork((s[0] != ln(i)).t): raise b.ParamError('row')
        if core.CTX.fork((ok(i) != 1).t): raise b.ParamError('row')
        return s
    mat = g.GList(n, Row)
    shape = [a] + list(sub)
    def inv(L):
        i = L['__i']
        r = [('rows before are valid', core.simplies(k < i, valid(k)))]
        if b0 is None and sub: r.append(('width found', core.simplies(i > 0, (lambda w: False if w is None else w == ln(0))(L['shape'][1])) if L['shape'][1] is not None else i == 0))
        elif sub: r.append(('width kept', L['shape'][1] is not None and L['shape'][1] == b0))
        return r
    def havoc(L):
        s = L['shape']
        if b0 is None and sub: s[1] = None if core.CTX.fork((L['__i'] == 0).t) else ln(0)
        return {}
    f = loops.contract(b.check_matrix, {0: loops.Spec(inv, havoc, variant=lambda L: L['__n'] - L['__i'], name='rows', kind='for')})
    f.__globals__['check_matrix'] = stub
    if good and a is not None: V.assume(a == n)
    try: r = f(mat, shape, VAL)
    except b.ParamError as e:
        V.ensure('a valid matrix is accepted', not good); V.cover('rejected'); return
    V.cover('accepted')
    V.ensure('number of rows', n == r[0])
    if a is not None: V.ensure('number of rows as asked', n == a)
    V.ensure('every row is valid', valid(k))
    if sub: V.ensure('width reported', r[1] == width())
def scalar(V):
    import numpy as np
    b = bw()
    class X(float): pass
    vals = [1, 1.5, np.float64(2), np.int64(3), 'a', None, [1], b.Location(), X(1), (1,)]
    types = [(int, float), int, b.scalar_types, (b.Location, b.ComposedLocation), float]
    v, t = vals[V.choice('value', len(vals))], types[V.choice('types', len(types))]
    try: b.check_matrix(v, [], t); ok = True
    except b.ParamError: ok = False
    import builtins
    V.ensure('scalars by their type', ok == builtins.isinstance(v, t)); V.cover('done')
    for mat in (5, None, b.Location()):
        try: b.check_matrix(mat, [None], t); ok = True
        except b.ParamError: ok = False
        V.ensure('no vector', not ok)
def knot_sum(V):
    from pyvc import core, ghost as g, loops
    b = bw()
    K = knots(V, 'knot'); S = lambda i: g.ufi('sum', i)
    V.ctx.add((S(0) == 0).t)
    def inv(L):
        i = L['__i']
        V.ctx.add((S(i + 1) == S(i) + g.ufi('knot_mult', i)).t)
        V.ctx.add(core.bterm(core.simplies(i > 0, S(i) == S(i - 1) + g.ufi('knot_mult', i - 1))))
        acc = [k for k, v in L.items() if not k.startswith('__') and k not in ('deg', 'N', 'knots', 'knot', 'mult')]
        if len(acc) != 1: raise core.Unsupported('sum of multiplicities')
        return [('sum of the multiplicities so far', L[acc[0]] == S(i))]
    def havoc(L):
        acc = [k for k in L if not k.startswith('__') and k not in ('deg', 'N', 'knots', 'knot', 'mult')]
        return {acc[0]: core.SInt(core.CTX.fresh_int('total'))} if len(acc) == 1 else {}
    f = loops.contract(b.check_knots, {0: loops.Spec(inv, havoc, variant=lambda L: L['__n'] - L['__i'], name='knots', kind='for')})
    deg, N = V.int('degree', lo=0), V.int('n_poles', lo=1)
    try: f(deg, K, N); ok = True; V.cover('accepted')
    except AssertionError: ok = False; V.cover('rejected')
    V.ensure('accepted exactly if the multiplicities sum to degree + poles + 1', core.bterm(S(K.n) == deg + N + 1) if ok else core.snot(S(K.n) == deg + N + 1))

ALLOWED = {'Wire': ['Edge'], 'Edge': ['Vertex'], 'Face': ['Wire', 'Edge'], 'Shell': ['Face'], 'Solid': ['Shell'], 'Vertex': []}
KINDS = ['Compound', 'CompoundSolid', 'Solid', 'Shell', 'Wire', 'Face', 'Edge', 'Vertex']
def append(V):
    """appending depends on the kinds only, all pairs are run"""
    b = bw()
    P, C = KINDS[V.choice('parent', 8)], KINDS[V.choice('child', 8)]
    tmp = dict(Compound=lambda: b.Compound(), CompoundSolid=lambda: b.CompoundSolid(), Solid=lambda: b.Solid(), Shell=lambda: b.Shell(), Wire=lambda: b.Wire(), Vertex=lambda: b.Vertex([0., 0., 0.]))
    def make(k):
        if k in tmp: return tmp[k]()
        v = [b.Vertex([float(i), 0., 0.]) for i in range(3)]
        e = [b.Edge([v[i], v[(i + 1) % 3]]) for i in range(3)]
        return e[0] if k == 'Edge' else b.Face([b.Wire(e)])
    p, c = make(P), make(C)
    o = list(b.Orient)[V.choice('orientation', 4)]; L = b.Location([[1., 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.]])
    n0 = list(p.childs)
    how = V.choice('how', 2)
    ok = True
    try: p.append(b.ShapeRef(c, o, L) if how else c)
    except b.ParamError: ok = False
    want = C in ALLOWED[P] if P in ALLOWED else None
    if want is not None: V.ensure('kinds of children', ok == want)
    V.ensure('children before are kept', p.childs[:len(n0)] == n0 and len(p.childs) == len(n0) + ok)
    if ok:
        r = p.childs[-1]
        V.ensure('child is kept as given', r.shape is c and r.orientation == (o if how else b.Orient.Forward) and (r.location is L if how else r.location.id == 0))
    for bad in (None, 3, 'x', L):
        try: p.append(bad); ok = True
        except b.ParamError: ok = False
        V.ensure('not a shape', not ok)
    V.cover('done')

# ------------------------------------------------------------------ converters
class NS:
    def __init__(self, **k): self.__dict__.update(k)
def from_bs(V):
    b = bw(); del CALLS[:]
    rat = V.bool('rational'); rat = bool(rat)
    deg, deg2 = V.int('degree', lo=1), V.int('degree2', lo=1)
    K, K2 = knots(V, 'knot'), knots(V, 'knot2')
    which = V.choice('dim', 3)
    B = lambda K, d: NS(pack_knots=lambda: K, degree=d)
    if which < 2:
        P = poles(V, 'pole', 2 + which + rat)
        c = NS(dim=2 + which, poles=P, basis=B(K, deg), rational=rat)
        r = b.curve_from_bs(c)
        V.ensure('curve of the same dimension', type(r) is (b.Curve2D, b.Curve3D)[which])
        V.ensure('same curve', r.poles is P and r.knots is K and r.rational == rat and r.degree is deg and r._bs_curve is c)
    else:
        from pyvc import loops
        P = glist('row', 2, lambda i: glist(('pole', i), 2, lambda j: [0.] * (3 + rat)))
        c = NS(dim=3, poles=P, u_basis=B(K, deg), v_basis=B(K2, deg2), rational=rat)
        r = b.surface_from_bs(c)
        V.ensure('same surface', r.poles is P and r.knots[0] is K and r.knots[1] is K2 and r.rational == rat and r.degree[0] is deg and r.degree[1] is deg2 and r._bs_surface is c)
    V.cover('done')
def bern(knots, t):
    """values of the basis over a single interval with full multiplicities"""
    from pyvc import core
    import math
    if len(knots) != 2 or knots[0][1] != knots[1][1]: raise core.Unsupported('approximation over more intervals')
    d = knots[0][1] - 1; a, e = knots[0][0], knots[1][0]
    x = (t - a) / (e - a)
    out = []
    for i in range(d + 1):
        w = core.lift(math.comb(d, i))
        for _ in range(i): w = w * x
        for _ in range(d - i): w = w * (1 - x)
        out.append(w)
    return out
def approx(n):
    def fn(V):
        from pyvc import core
        b = bw()
        if n == 2:
            d = 2 + V.choice('dim', 2)
            P = [[V.real('p%d%d' % (i, k)) for k in range(d)] for i in range(2)]; P0 = [list(x) for x in P]
            c = (b.Approx.line_2d if d == 2 else b.Approx.line_3d)(P)
            V.ensure('kind', type(c) is (b.Curve2D if d == 2 else b.Curve3D) and not c.rational and c.degree == c.knots[0][1] - 1)
            t = V.real('t'); w = bern(c.knots, t)
            V.ensure('poles fit the degree', len(w) == len(c.poles))
            V.ensure('parameters 0 to 1', core.sand(core.lift(c.knots[0][0]) == 0, core.lift(c.knots[1][0]) == 1))
            for k in range(d): V.ensure('the straight line', sum((x * core.lift(p[k]) for x, p in zip(w, c.poles)), core.lift(0)) == (1 - t) * P0[0][k] + t * P0[1][k])
        else:
            P = [[V.real('p%d%d' % (i, k)) for k in range(3)] for i in range(n)]; P0 = [list(x) for x in P]
            s, uv = (b.Approx.plane if n == 3 else b.Approx.bilinear)(P)
            V.ensure('kind', type(s) is b.Surface and not s.rational and list(s.degree) == [k[0][1] - 1 for k in s.knots])
            u, v = V.real('u'), V.real('v'); A, B = bern(s.knots[0], u), bern(s.knots[1], v)
            V.ensure('poles fit the degrees', len(s.poles) == len(A) and all(len(x) == len(B) for x in s.poles))
            Q = P0 if n == 4 else [P0[0], P0[1], [y + z - x for x, y, z in zip(*P0)], P0[2]]
            for k in range(3):
                got = sum((x * y * core.lift(q[k]) for x, R in zip(A, s.poles) for y, q in zip(B, R)), core.lift(0))
                V.ensure('the bilinear patch', got == (1 - u) * (1 - v) * Q[0][k] + u * (1 - v) * Q[1][k] + u * v * Q[2][k] + (1 - u) * v * Q[3][k])
            V.ensure('parameters of the given points', [tuple(float(y) for y in x) for x in uv] == ([(0, 0), (1, 0), (1, 1), (0, 1)] if n == 4 else [(0, 0), (1, 0), (0, 1)]))
        V.ensure('points of the caller unchanged', len(P) == len(P0) and all(x is y for p, q in zip(P, P0) for x, y in zip(p, q)) and all(len(p) == len(q) for p, q in zip(P, P0)))
        V.cover('done')
    return Unit({2: 'straight line', 3: 'plane', 4: 'bilinear patch'}[n], fn, T(*{2: ['Approx.line_2d', 'Approx.line_3d', 'Approx._line'], 3: ['Approx.plane', 'Approx.bilinear'], 4: ['Approx.bilinear']}[n]), mods=[MOD], extra=STUBS, covers=['done'], conc=False, allshape=True)
def part_units():
    k = dict(mods=[MOD], conc=False, allshape=True)
    g_ = {MOD: dict(enumerate=genum)}
    return [Unit('check_matrix: any number of rows', matrix, T('check_matrix'), covers=['accepted', 'rejected'], extra=g_, unbounded='number and lengths of rows', **k),
            Unit('check_matrix: scalars', scalar, T('check_matrix'), covers=['done'], conc=False, allshape=True),
            Unit('check_knots: any number of knots', knot_sum, T('check_knots'), covers=['accepted', 'rejected'], unbounded='number of knots', **k),
            Unit('children of a wrong kind', append, T('Shape.append', 'ShapeRef.__init__'), covers=['done'], conc=False, allshape=True),
            Unit('converters from splines', from_bs, T('curve_from_bs', 'surface_from_bs'), covers=['done'], extra=STUBS, unbounded='numbers of poles and knots', **k)] + [approx(n) for n in (2, 3, 4)]

# ------------------------------------------------------------------ closed wires
def closed(V):
    """_set_closed for wires of any number of edges: closed exactly if every vertex ends an even number of them"""
    from pyvc import core, ghost as g, loops
    import z3
    b = bw()
    n = cnt(V, 'n_edges'); w = V.int('w')
    end = lambda k, i: g.ufi('end%d' % k, i)
    C = lambda i, v: g.ufi('ends_up_to', i, v)          # number of ends at v among the first i edges
    H = dict(base=lambda v: core.lift(0), ups=[])
    class Vtx:
        def __init__(self, c): object.__setattr__(self, 'c', c)
        @property
        def n_edges(self):
            for c, x in reversed(H['ups']):
                if core.CTX.fork((core.lift(c) == self.c).t): return x
            return H['base'](self.c)
        @n_edges.setter
        def n_edges(self, x): H['ups'].append((self.c, x))
        __hash__ = object.__hash__
        def __eq__(self, o): raise core.Unsupported('comparison of vertices')
    class E:
        def __init__(self, i): self.i = i
        def subshapes(self): return [Vtx(end(0, self.i)), Vtx(end(1, self.i))]
    class Keys:
        """the vertices met among the first i edges; added: in the present iteration"""
        def __init__(self, i): self.i, self.added = i, []
        def __setitem__(self, v, x): self.added.append(v)
        def setdefault(self, v, x=None): self.added.append(v)
        def add(self, v): self.added.append(v)
        def keys(self): return self.list()
        def vc_iter(self): return self.list().vc_iter()
        def list(self):
            m = cnt(V, 'n_vertices')
            def at(j):
                k = g.ufi('vertex', j); V.ctx.add((C(n, k) >= 1).t); V.ctx.add(core.bterm(core.simplies(C(n, k) % 2 == 1, odd)))
                V.ctx.add(core.bterm(core.simplies(k == w, place == j)))
                return Vtx(k)
            V.ctx.add(core.bterm(core.simplies(C(n, w) >= 1, core.sand(place >= 0, place < m, g.ufi('vertex', place) == w))))
            return glist('vertices', m, at)
        def __getattr__(self, a): raise core.Unsupported('set of vertices: ' + a)
    odd, place = V.bool('some vertex is odd'), V.int('place of w')
    V.ctx.add(core.bterm(core.simplies(odd, C(n, w) % 2 == 1))); V.ctx.add((C(0, w) == 0).t)
    def step(i):
        """definition of C"""
        d = core.ite(end(0, i) == w, 1, 0) + core.ite(end(1, i) == w, 1, 0)
        V.ctx.add(core.bterm(core.sand(C(i + 1, w) == C(i, w) + d, C(i, w) >= 0)))
    name = {}
    def heap(v): return Vtx(v).n_edges
    def setvar(L):
        c = [k for k, x in L.items() if not k.startswith('__') and (isinstance(x, Keys) or (type(x) in (dict, set) and not x))]
        c = [k for k in c if k in sp1.mut]
        if len(c) != 1: raise core.Unsupported('set of vertices')
        return c[0]
    def inv1(L):
        i = L['__i']; S = L[setvar(L)]
        r = [('ends counted so far', heap(w) == C(i, w))]
        if isinstance(S, Keys):
            added = core.sor(*[v.c == w for v in S.added]) if S.added else False
            if S.added or H['ups']: r.append(('vertices met so far', core.sor(added, C(S.i, w) >= 1) == (C(i, w) >= 1) if not isinstance(added, bool) else (C(S.i, w) >= 1) == (C(i, w) >= 1)))
        return r
    def havoc1(L):
        i = L['__i']; H['base'] = lambda v, i=i: C(i, v); H['ups'] = []
        step(i)
        return {setvar(L): Keys(i)}
    sp1 = loops.Spec(inv1, havoc1, variant=lambda L: L['__n'] - L['__i'], name='edges', kind='for'); sp1.mut = empties(b.Wire._set_closed)
    def inv2(L):
        j = L['__i']; c = flag(L)
        return [('closed so far: even vertices only', core.simplies(core.sand(c, place < j, C(n, w) >= 1), C(n, w) % 2 == 0)), ('not closed: an odd vertex', core.simplies(core.snot(c), odd)),
                ('counters are reset', heap(w) == core.ite(core.sand(place < j, C(n, w) >= 1), 0, C(n, w)))]
    def flag(L):
        c = [x for k, x in L.items() if not k.startswith('__') and (isinstance(x, bool) or isinstance(x, core.SBool))]
        if len(c) != 1: raise core.Unsupported('flag')
        return c[0]
    def havoc2(L):
        j = L['__i']
        H['base'] = lambda v, j=j: core.ite(core.sand(place < j, C(n, w) >= 1), 0, C(n, w)) if v is w else g.ufi('heap2', j, v)
        H['ups'] = []
        k = [k for k, x in L.items() if not k.startswith('__') and (isinstance(x, bool) or isinstance(x, core.SBool))][0]
        # counter of the present vertex: not reset before, every vertex is met once
        def other(v, j=j):
            x = g.ufi('heap2', j, v); V.ctx.add(core.bterm(core.simplies(v == g.ufi('vertex', j), x == C(n, v)))); return x
        H['base'] = lambda v, j=j: (core.ite(core.sand(place < j, C(n, w) >= 1), 0, C(n, w)) if v is w else core.ite(v == w, core.ite(core.sand(place < j, C(n, w) >= 1), 0, C(n, w)), other(v)))
        return {k: core.SBool(core.CTX.fresh_bool('closed'))}
    o = new(b.Wire, childs=[], flags=b.ShapeFlag(0, 1, 0, 1, 0, 0, 0)); o.subshapes = lambda: glist('edges', n, E)
    f = loops.contract(b.Wire._set_closed, {0: sp1, 2: loops.Spec(inv2, havoc2, variant=lambda L: L['__n'] - L['__i'], name='vertices', kind='for')})
    f(o)
    V.ensure('closed exactly if every vertex is even', core.snot(odd) if o.flags['closed'] == 1 else odd)
    V.ensure('closed or not', o.flags['closed'] in (0, 1))
    V.ensure('counters are zero afterwards', heap(w) == 0)
    V.cover('closed' if o.flags['closed'] else 'open')
def empties(f):
    """locals bound to an empty dict or set in the current source of f"""
    import ast, inspect
    t = ast.parse('if 1:\n' + inspect.getsource(f)); r = []
    for x in ast.walk(t):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and (isinstance(x.value, ast.Dict) and not x.value.keys or isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id in ('set', 'dict') and not x.value.args): r.append(x.targets[0].id)
    return tuple(r)
def faces(V):
    b = bw()
    n = 1 + V.choice('n', 3); fl = [V.choice('closed%d' % i, 2) for i in range(n)]
    v = [b.Vertex([float(i), 0., 0.]) for i in range(3)]; e = [b.Edge([v[i], v[(i + 1) % 3]]) for i in range(3)]
    ws = [b.Wire(e if x else e[:2]) for x in fl]
    V.ensure('wires know whether they are closed', [bool(w.is_closed()) for w in ws] == [bool(x) for x in fl])
    how = V.choice('how', 3)
    try:
        f = b.Face([w.m() for w in ws] if how == 0 else ws if how == 1 or n > 1 else ws[0]); ok = True
    except Exception as x: ok = False
    V.ensure('a face has closed wires only', ok == all(fl))
    if ok: V.ensure('wires of the face', [c.shape for c in f.childs] == ws and all(c.orientation == (b.Orient.Reversed if how == 0 else b.Orient.Forward) for c in f.childs))
    try: f = b.Face(e if fl[0] else e[:2]); ok = True
    except Exception: ok = False
    V.ensure('edges given for a face make a closed wire', ok == bool(fl[0]))
    if ok: V.ensure('one wire of these edges', len(f.childs) == 1 and type(f.childs[0].shape) is b.Wire and [c.shape for c in f.childs[0].shape.childs] == e)
    try: b.Face([ws[0], e[0]]); ok = True
    except Exception: ok = False
    V.ensure('wires and edges are not mixed', not ok)
    w = b.Wire(e); w.append(e[0]); V.ensure('appending updates the flag', not w.is_closed())
    V.cover('done')
def wire_units():
    return [Unit('Wire._set_closed: any number of edges', closed, T('Wire._set_closed'), mods=[MOD], covers=['closed', 'open'], conc=False, allshape=True, unbounded='number of edges and vertices'),
            Unit('faces of closed wires', faces, T('Face.__init__', 'Wire.__init__', 'Wire.append'), covers=['done'], conc=False)]
