import importlib, io
from fractions import Fraction as F
from pyvc.unit import Unit, need
from checks import brep, spl
LEVEL = 'proof'
NOTE = 'Proved on the source of brep_writer, for any numbers of poles, knots, children, representations and rows: the records written for locations, curves, surfaces and shapes hold exactly the numbers of the object; check_matrix and check_knots accept exactly the well formed; a wire is closed exactly if every vertex has an even number of ends; faces refuse open wires; parts of a wrong kind are refused; converters pass on poles, knots and degrees of the spline. Numbers are printed by Python formatting, which is trusted to read back as the same float. Bounded: random models with extreme and ordinary numbers read back by an independent reader, converted splines compared in exact arithmetic.'
from checks import brepu
UNITS = brepu.text_units() + brepu.part_units() + brepu.wire_units()
BOUND = 'random models of up to about 60 shapes, curves and surfaces of degree 1-3 with up to 9 poles per direction'
BSECS = 8
SHARDS = 5
def basis(r):
    p = r.choice([1, 2, 2, 3]); kn = spl.random_knots(r, p, r.choice([1, 2, 3, 4]))
    return importlib.import_module(spl.BS).SplineBasis(p, kn), p, kn
def unpack(k): return [x for t, m in k for x in [F(t)] * m]
def curve_at(poles, kn, p, rational, t):
    B = spl.reference(kn, p, t)
    s = [sum(b * F(float(q[d])) * (F(float(q[-1])) if rational and d < len(q) - 1 else 1) for b, q in zip(B, poles)) for d in range(len(poles[0]))]
    return [x / s[-1] for x in s[:-1]] if rational else s
def surf_at(P, ku, kv, pu, pv, rational, u, v):
    A, B = spl.reference(ku, pu, u), spl.reference(kv, pv, v)
    n = len(P[0][0])
    s = [sum(a * b * F(float(q[d])) * (F(float(q[-1])) if rational and d < n - 1 else 1) for a, R in zip(A, P) for b, q in zip(B, R)) for d in range(n)]
    return [x / s[-1] for x in s[:-1]] if rational else s
def text(o):
    s = io.StringIO(); need(o, '_brep_output')(s, {}); return s.getvalue()
def pole(r, d, rat): return [r.choice([r.uniform(-9, 9), float(r.randrange(-3, 4)), 1e-9 * r.random(), 1e9 * r.random()]) for _ in range(d)] + ([r.uniform(.1, 3)] if rat else [])
def close(a, b):
    m = max([1] + [abs(x) for x in b])
    return len(a) == len(b) and all(abs(x - y) <= m * F(1, 10**9) for x, y in zip(a, b))
def converters(H, r, it):
    b = brep.bw(); S = importlib.import_module(spl.BS)
    k = r.randrange(5)
    if k == 0:
        d = r.choice([2, 3]); B, p, kn = basis(r); rat = r.random() < .5
        c = S.Curve(B, [pole(r, d, rat) for _ in range(B.size)], rat)
        H.case(('curve_from_bs', d, p, rat, kn, c.poles.tolist()), (it, k))
        f = brep.Reader(text(b.curve_from_bs(c))).curve(d)
        for _ in range(4):
            t = spl.random_param(r, kn, p)
            H.check(close(curve_at(f['poles'], unpack(f['knots']), f['degree'], f['rational'], t), curve_at(c.poles.tolist(), kn, p, rat, t)), 'converted curve', t)
            e = c.eval(t); H.check(close(curve_at(f['poles'], unpack(f['knots']), f['degree'], f['rational'], t), [F(float(x)) for x in e]), 'written curve against Curve.eval', t)
    elif k == 1:
        U, p, ku = basis(r); W, q, kv = basis(r); rat = r.random() < .5
        s = S.Surface((U, W), [[pole(r, 3, rat) for _ in range(W.size)] for _ in range(U.size)], rat)
        H.case(('surface_from_bs', p, q, rat, ku, kv, s.poles.tolist()), (it, k))
        f = brep.Reader(text(b.surface_from_bs(s))).surface()
        for _ in range(3):
            u, v = spl.random_param(r, ku, p), spl.random_param(r, kv, q)
            w = surf_at(f['poles'], unpack(f['u']), unpack(f['v']), f['degree'][0], f['degree'][1], f['rational'], u, v)
            H.check(close(w, surf_at(s.poles.tolist(), ku, kv, p, q, rat, u, v)), 'converted surface', (u, v))
            H.check(close(w, [F(float(x)) for x in s.eval(u, v)]), 'written surface against Surface.eval', (u, v))
    elif k < 4:
        n = k + 1
        P = [pole(r, 3, False) for _ in range(n)]; P0 = [list(x) for x in P]
        if r.random() < .5: P = [tuple(x) for x in P]
        H.case(('plane' if n == 3 else 'bilinear', P0), (it, k))
        s, uv = (b.Approx.plane if n == 3 else b.Approx.bilinear)(P)
        H.check([list(x) for x in P] == P0 and len(uv) == n, 'points of the caller unchanged')
        f = brep.Reader(text(s)).surface()
        Q = [[F(x) for x in p] for p in P0]
        if n == 3: Q = [Q[0], Q[1], [b_ + c - a for a, b_, c in zip(*Q)], Q[2]]
        for _ in range(3):
            u, v = F(r.choice([0, 1, r.random()])), F(r.choice([0, 1, r.random()]))
            ref = [(1 - u) * (1 - v) * a + u * (1 - v) * b_ + u * v * c + (1 - u) * v * d for a, b_, c, d in zip(*Q)]
            H.check(close(surf_at(f['poles'], unpack(f['u']), unpack(f['v']), *f['degree'], f['rational'], u, v), ref), 'value of an approximation', (u, v))
        for (u, v), x in zip(uv, P0):
            H.check(close(surf_at(f['poles'], unpack(f['u']), unpack(f['v']), *f['degree'], f['rational'], u, v), [F(y) for y in x]), 'parameters of the given points', (u, v))
    else:
        d = r.choice([2, 3]); P = [pole(r, d, False) for _ in range(2)]
        H.case(('line', P), (it, k))
        f = brep.Reader(text((b.Approx.line_2d if d == 2 else b.Approx.line_3d)(P))).curve(d)
        t = F(r.choice([0, 1, r.random()]))
        H.check(close(curve_at(f['poles'], unpack(f['knots']), f['degree'], f['rational'], t), [(1 - t) * F(x) + t * F(y) for x, y in zip(*P)]), 'value of a line', t)
def rejected(H, name, fn):
    try: fn()
    except Exception: return
    H.check(False, 'malformed parts are rejected', name)
def bad_matrix(r, rows, cols, M):
    """a matrix not of the given shape"""
    M = [list(x) for x in M]
    k = r.randrange(7)
    if k == 0: M[r.randrange(len(M))].append(1.)
    elif k == 1: M[r.randrange(len(M))].pop()
    elif k == 2: i = r.randrange(len(M)); M[i][r.randrange(len(M[i]))] = r.choice(['1', None, [1.], 'x', 1j])
    elif k == 3: M[r.randrange(len(M))] = r.choice([1., None, 'abc', 'abcd'])
    elif k == 4: M = [[x] for x in M]
    elif k == 5: M = [x + [1.] for x in M] if r.random() < .5 else [x[:-1] for x in M]
    else: return r.choice([5, None, 'xyz', [x for y in M for x in y]])
    return M
def reject(H, r, it):
    b = brep.bw(); M = brep.Model(r)
    k = r.randrange(9)
    if k == 0:
        A = [[M.y() for _ in range(4)] for _ in range(3)]
        B = bad_matrix(r, 3, 4, A) if r.random() < .7 else r.choice([A[:2], A + [[0., 0, 0, 1]], list(zip(*A))])
        if B is None: return
        H.case(('Location', B), (it, k)); rejected(H, 'Location(%r)' % (B,), lambda: b.Location(B))
    elif k == 1:
        l = r.choice([[(5, 1)], [(M.location(), 1.5)], [(M.location(), 'a')], [(None, 1)], [M.location()], 3, [(M.location(), 1), (M.vertex(), 2)], [(M.location(), None)]])
        H.case(('ComposedLocation', repr(l)), (it, k)); rejected(H, 'ComposedLocation(%r)' % (l,), lambda: b.ComposedLocation(l))
    elif k in (2, 3):
        d = k; cls = b.Curve2D if d == 2 else b.Curve3D
        rat = r.random() < .5; deg = r.randrange(1, 4); n = r.randrange(deg + 1, deg + 5)
        P = [[M.x() for _ in range(d + rat)] for _ in range(n)]; K = M.knots(n, deg)
        c = r.randrange(5)
        if c == 0: P = bad_matrix(r, None, d + rat, P)
        elif c == 1: rat = not rat
        elif c == 2: i = r.randrange(len(K)); K[i] = (K[i][0], K[i][1] + r.choice([1, 1, 2, -1]))
        elif c == 3: deg += r.choice([1, -1])
        else: P = P[:-1] if r.random() < .5 else P + [P[0]]
        H.case((cls.__name__, P, K, rat, deg), (it, k)); rejected(H, '%s(%r, %r, %r, %r)' % (cls.__name__, P, K, rat, deg), lambda: cls(P, K, rat, deg))
    elif k == 4:
        rat = r.random() < .4; d = [r.randrange(1, 4), r.randrange(1, 4)]; n = [r.randrange(d[i] + 1, d[i] + 4) for i in (0, 1)]
        P = [[[M.x() for _ in range(3 + rat)] for _ in range(n[1])] for _ in range(n[0])]; K = [M.knots(n[0], d[0]), M.knots(n[1], d[1])]
        c = r.randrange(7)
        if c == 0: i = r.randrange(len(P)); P[i] = bad_matrix(r, n[1], 3 + rat, P[i])
        elif c == 1: rat = not rat
        elif c == 2: j = r.randrange(2); i = r.randrange(len(K[j])); K[j][i] = (K[j][i][0], K[j][i][1] + r.choice([1, -1]))
        elif c == 3: d[r.randrange(2)] += r.choice([1, -1])
        elif c == 4: P = P[:-1]
        elif c == 5: P = [x[:-1] for x in P]
        else: i = r.randrange(len(P)); P[i] = P[i][:-1] if r.random() < .5 else P[i] + [P[i][0]]
        H.case(('Surface', P, K, rat, d), (it, k)); rejected(H, 'Surface(%r, %r, %r, %r)' % (P, K, rat, d), lambda: b.Surface(P, K, rat, d))
    elif k == 5:
        p = r.choice([[1., 2.], [1., 2., 3., 4.], [1., 2., 'a'], [1., 2., None], 5., [[1., 2., 3.]], [1., 2., [3.]], None])
        H.case(('Vertex', p), (it, k)); rejected(H, 'Vertex(%r)' % (p,), lambda: b.Vertex(p))
    elif k == 6:       # children of a wrong kind
        mk = dict(Compound=M.compound, CompoundSolid=M.csolid, Solid=M.solid, Shell=M.shell, Face=M.face, Wire=M.wire, Edge=M.edge, Vertex=M.vertex)
        ok = dict(Compound='CompoundSolid Solid Shell Face Wire Edge Vertex', CompoundSolid='Solid', Solid='Shell', Shell='Face', Face='Wire Edge', Wire='Edge', Edge='Vertex', Vertex='')
        K = r.choice(list(mk)); bad = [c for c in mk if c not in ok[K].split()]
        c = r.choice(bad + ['none']); s = mk[c]() if c != 'none' else r.choice([None, 5, 'x'])
        x = M.ref(s) if c != 'none' else s
        H.case((K, c), (it, k))
        if r.random() < .5: o = mk[K](); rejected(H, '%s().append(%s)' % (K, c), lambda: o.append(x))
        elif K == 'Vertex': pass
        elif K == 'Edge': rejected(H, 'Edge([Vertex, %s])' % c, lambda: b.Edge([M.vertex(), x] if r.random() < .5 else [x, M.vertex()]))
        else:
            good = [mk[r.choice(ok[K].split())]()] if r.random() < .3 and K != 'Face' else []
            rejected(H, '%s([.. %s])' % (K, c), lambda: getattr(b, K)(good + [x]))
    elif k == 7:
        n = r.choice([0, 1, 3]); vs = [M.vertex() for _ in range(n)]
        if r.random() < .5: H.case(('Edge', n), (it, k)); rejected(H, 'Edge of %d vertices' % n, lambda: b.Edge(vs))
        else:
            e = M.edge(); s = M.surface(); c2, c3 = M.curve(2), M.curve(3)
            f, nm = r.choice([(lambda: e.attach_to_3d_curve((0, 1), c2), '3d: Curve2D'), (lambda: e.attach_to_3d_curve((0, 1), s), '3d: Surface'), (lambda: e.attach_to_2d_curve((0, 1), c3, s), '2d: Curve3D'),
                              (lambda: e.attach_to_2d_curve((0, 1), c2, c2), '2d: surface'), (lambda: e.attach_to_plane(c2, (0, 0), (1, 1)), 'plane')])
            H.case(nm, (it, k)); rejected(H, nm, f)
    else:              # open boundaries
        vs = [M.vertex() for _ in range(r.randrange(2, 5))]
        es = [M.edge(r.choice(vs), r.choice(vs)) for _ in range(r.randrange(1, 6))]
        if r.random() < .5: es = (lambda q: [M.edge(q[i - 1], q[i]) for i in range(len(q))])(vs) + es[:r.randrange(0, 2)]
        deg = {}
        for e in es:
            for v in e.subshapes(): deg[id(v)] = deg.get(id(v), 0) + 1
        closed = all(x % 2 == 0 for x in deg.values())
        how = r.randrange(4)
        H.case(('Face', len(es), closed, how, [[vs.index(v) for v in e.subshapes()] for e in es]), (it, k))
        w = b.Wire([M.ref(e) for e in es])
        H.check(bool(w.is_closed()) == closed, 'closed flag of a wire')
        if how == 3:
            w = b.Wire(es[:1])
            for e in es[1:]: w.append(e)
            H.check(bool(w.is_closed()) == closed, 'closed flag of a wire built by steps')
        good = b.Wire(M.ring(3))
        f = [lambda: b.Face([M.ref(e) for e in es], M.surface()), lambda: b.Face([w], M.surface()), lambda: b.Face([good, M.ref(w)], M.surface()), lambda: b.Face(w, M.surface())][how]
        if closed: f()
        else: rejected(H, 'Face with an open boundary', f)
        if r.random() < .2: rejected(H, 'Face of a wire and an edge', lambda: b.Face([good, es[0]], M.surface())); rejected(H, 'Face of nothing', lambda: b.Face([]))
def bounded(H):
    import itertools
    for it in itertools.count():
        if not H.time_left(): break
        r = H.rng(it)
        c = it % 3
        if c == 0: converters(H, r, it); continue
        if c == 1:
            for _ in range(4): reject(H, r, it)
            continue
        M = brep.Model(r); o = M.any(); loc = M.loc()
        H.case((it, type(o).__name__), it)
        t = brep.write(o, loc)
        try: brep.Compare(brep.Reader(t).model(), numbers=True).run(o, loc)
        except brep.Bad as e: H.check(False, 'numbers of the file', lambda: '%s\n%s' % (e, t[:4000]))
