import importlib
from pyvc.unit import Unit, need
from checks import deco
from checks.deco import fl
LEVEL = 'proof'
NOTE = "Proof in two layers. (1) undo.py for histories of any length (ghost stacks of actions): with k operations in effect and m undone, undo, redo, new operations, clear, counts and groups of any size keep 'operations 0..k-1 can be undone in reverse order, the following m redone in the order undone, the drawing is the one after k operations', whatever an operation records meanwhile; every action is undone in the state it led to and redone in the state it started from. (2) every undoable operation of PolygonDecomposition meets that contract of an action: done, undone, redone, undone again against contracts of the Decomposition operations, the state (points with coordinates, segments with ends, places of polygons, attributes, isolated points, boxes of the lookups, identifiers to come) is the same each time; between the steps all objects are replaced by others of the same identifiers and the old ones overwritten, so nothing may be kept in a stale object. Bounded part: random histories of drawing operations, attribute changes and groups, interleaved with undo and redo; after every step the drawing is compared with the snapshot taken when the same number of operations was in effect."
from checks import undou
UNITS = undou.units()
BOUND = 'random histories of up to 60 operations and 120 undo or redo steps'
BSECS = 8
SHARDS = 6
def undo(): return importlib.import_module('bgem.undo')
def snap(d):
    """the drawing by coordinates: points, segments, polygons with attributes, holes and isolated points"""
    at = lambda o: (type(getattr(o, 'attr', None)).__name__, getattr(o, 'attr', None))
    pts = {fl(p.xy): at(p) for p in d.points.values()}
    segs = {frozenset(fl(v.xy) for v in s.vtxs): at(s) for s in d.segments.values()}
    def cyc(w):
        if w.parent is None: return None
        return frozenset((fl(s.vtxs[1 - v].xy), fl(s.vtxs[v].xy)) for s, v in deco.ring_(w))
    pol = {cyc(P.outer_wire): (at(P), frozenset(cyc(c) for c in P.outer_wire.childs), frozenset(fl(p.xy) for p in P.free_points)) for P in d.polygons.values()}
    return pts, segs, pol
def same(H, a, b, key, msg):
    for n, x, y in zip(('points', 'segments', 'polygons'), a, b):
        if x != y:
            dif = [(k, x.get(k, 'missing'), y.get(k, 'missing')) for k in list(x) + [k for k in y if k not in x] if k not in x or k not in y or x[k] != y[k]]
            H.check(False, key + ' (%s)' % n, lambda: '%s %s' % (dif[:3], msg()))
def queries(P, r, tol):
    """answers of the snapping queries at the features"""
    out = []
    d = P.decomp
    for p in d.points.values():
        k, o, t = P._snap_point(fl(p.xy)); out.append(k == 0 and o is p)
    return out
def bounded(H):
    import itertools
    U = undo()
    try:
        for it in itertools.count():
            if not H.time_left(): break
            episode(H, it, U)
    finally:
        U.stack().clear(); deco.pl().disable_undo()
def unsplit(D):
    """the inverse of a split, as an operation of its own"""
    P = D.P
    if not (hasattr(P, '_join_segments') and hasattr(P, '_rm_point')): return None
    for p in D.r.sample(list(D.d.points.values()), len(D.d.points)):
        f = list(p.segments())
        if len(f) != 2: continue
        (s0, v0), (s1, v1) = sorted(f, key=lambda x: -x[1])
        if (v0, v1) != (1, 0): continue
        a, b, q = fl(s0.vtxs[0].xy), fl(s1.vtxs[1].xy), fl(p.xy)
        if s0.vtxs[0] is s1.vtxs[1] or deco.sdist(a, b, q) > 1e-9 or deco.pdist(a, b) < max(deco.pdist(a, q), deco.pdist(b, q)): continue
        D.hist.append(('join', p.id, s0.id, s1.id)); P._join_segments(p, s0, s1); P._rm_point(p); return 'join', p
def episode(H, it, U):
    r = H.rng(it)
    deco.pl().enable_undo(); st = U.stack(); st.clear()
    D = deco.Sketch(r, attrs=r.random() < .8)
    st.clear()
    hist = D.hist
    states = [snap(D.d)]          # states[i]: after i recorded entries
    n = 0
    def msg(): return str(hist[-60:])
    def compare(key):
        try: deco.topology(D.d); deco.geometry(D.d)
        except deco.Bad as e: H.check(False, key + ': consistent drawing (%s)' % e, msg)
        H.check(st.undocount() == n, key + ': number of operations to undo', lambda: '%s %s %s' % (st.undocount(), n, msg()))
        same(H, states[n], snap(D.d), key, msg)
        if D.d.points: H.check(all(queries(D.P, r, D.tol)), key + ': points are found where they are', msg)
        # later queries: lookups answer as those of a drawing made from scratch
        L = importlib.import_module('bgem.polygons.aabb_lookup')
        for s in r.sample(list(D.d.segments.values()), min(3, len(D.d.segments))):
            a, b = s.vtxs
            m = s.parametric(.5)
            H.check(s.id in D.P.segments_lookup.intersect_candidates(L.make_aabb([m], margin=1e-9)), key + ': segments are found where they are', msg)
            q = D.place(fl(m))
            if q and q[0] == 's':
                k, o, t = D.P._snap_point(fl(m)); H.check(k == 1 and o is s, key + ': segments are found by snapping', msg)
    def back(m, stop=True):
        nonlocal n
        while n and (m > 0 or states[n] is None):
            hist.append('undo'); st.undo(); n -= 1; m -= 1
            if stop and states[n] is not None and r.random() < .4: compare('undo')
    def forth(m, stop=True):
        nonlocal n
        while n < len(states) - 1 and (m > 0 or states[n] is None):
            hist.append('redo'); st.redo(); n += 1; m -= 1
            if stop and states[n] is not None and r.random() < .4: compare('redo')
    quiet = r.random() < .2
    for k in range(r.randrange(4, 60)):
        if not H.time_left(): return
        c = r.random()
        H.case(hist[-60:], (it, k))
        if c < (.6 if k < 25 else .4) or quiet and k < 20:
            u0 = st.undocount()
            if r.random() < .12:
                hist.append('group'); j = 0
                with U.group('g'):
                    for _ in range(r.randrange(0, 4)):
                        if D.step(): j += 1
                hist.append('end')
                x = True
            elif r.random() < .06: x = unsplit(D)
            else: x = D.step()
            u1 = st.undocount()
            if u1 != u0 or x:
                if u1 != u0: st_red = st.redocount(); H.check(st_red == 0, 'a new operation ends redoing', msg)
                new = snap(D.d)
                if u1 == u0:
                    same(H, states[n], new, 'nothing recorded, nothing changed', msg); continue
                if u1 < u0: H.check(False, 'operations are recorded', msg)
                del states[n + 1:]
                states += [None] * (u1 - u0 - 1) + [new]      # states inside one request are not compared
                n += u1 - u0
        elif c < .8:
            m = r.choice([1, 1, 2, 3, 8])
            back(m); compare('undo')
        else:
            m = r.choice([1, 1, 2, 3, 8])
            forth(m); compare('redo')
    back(len(states), False); compare('undo of everything')
    forth(len(states), False); compare('redo of everything')
