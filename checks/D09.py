import importlib, math
from pyvc.unit import Unit, need
from checks import deco
from checks.deco import fl, pdist, sdist, isec
LEVEL = 'exploration'
NOTE = "Contracts on every decision of drawing, for all coordinates: a requested point is an existing one within the tolerance (none is missed), else a place on the closest segment within the tolerance, else new at the requested location in the polygon on its side; a place on a segment is its end exactly if that is within the tolerance; a line goes through every point within the tolerance, is divided by exactly the segments it crosses where it crosses them, and is returned as a chain from its first to its last point in their order; moves and splits keep every object findable; the lookups miss nothing near (any number of boxes), crossings and projections are exact. The numbers of candidates are 0 to 3 (an assumption of those units); two segments within the tolerance of one location are treated in a frame of one of them. That the decisions together keep the drawing planar and within the tolerance is decided bounded: random drawing histories (points, lines, removals, moves) whose features are either within half the tolerance or farther than six tolerances; the result of every request is compared with an independent geometric prediction."
from checks import A01, A02, D08, drawu, undou
UNITS = drawu.units() + [u for u in undou.op_units() if u.name in ('undoing moves', 'undoing a split')]
for u in A01.UNITS + A02.UNITS + D08.UNITS:
    if all(u.name != x.name for x in UNITS): UNITS.append(u)
BOUND = 'random histories of up to 60 requests'
BSECS = 8
SHARDS = 6
def quiet_pair(a, b, c, d, tol):
    """segments meet only in a common end point"""
    sh = [p for p in (a, b) if p in (c, d)]
    if len(sh) == 2: return False
    if sh:
        s = sh[0]; u = b if s == a else a; v = d if s == c else c
        x = (u[0] - s[0]) * (v[1] - s[1]) - (u[1] - s[1]) * (v[0] - s[0]); y = (u[0] - s[0]) * (v[0] - s[0]) + (u[1] - s[1]) * (v[1] - s[1])
        return not (abs(x) < 1e-9 * pdist(s, u) * pdist(s, v) and y > 0)
    z = isec(a, b, c, d)
    if z and -1e-12 < z[0] < 1 + 1e-12 and -1e-12 < z[1] < 1 + 1e-12: return False
    return min(sdist(a, b, c), sdist(a, b, d), sdist(c, d, a), sdist(c, d, b)) > tol * .99
def planar(H, D, only=None):
    d, tol = D.d, D.tol
    S = [(s, fl(s.vtxs[0].xy), fl(s.vtxs[1].xy)) for s in d.segments.values()]
    for i, (s, a, b) in enumerate(S):
        H.check(pdist(a, b) > tol * .99, 'segments are longer than the tolerance', lambda: str((a, b)))
        for t, c, e in S[:i]: H.check(quiet_pair(a, b, c, e, tol), 'segments do not cross or overlap', lambda: str((s, t, D.hist)))
        for p in d.points.values():
            if p is not s.vtxs[0] and p is not s.vtxs[1]: H.check(sdist(a, b, fl(p.xy)) > tol * .99, 'points keep the tolerance from other segments', lambda: str((s, p, D.hist)))
    P = [fl(p.xy) for p in d.points.values()]
    for i in range(len(P)):
        for j in range(i): H.check(pdist(P[i], P[j]) > tol * .99, 'points keep the tolerance', lambda: str((P[i], P[j], D.hist)))
def strip(H, r, tag):
    """a request between two nearly parallel lines"""
    tol = r.choice([.01, .1]); n = r.randrange(2, 5)
    P = deco.pl().PolygonDecomposition(tol)
    th, off = r.uniform(0, 6.3), (r.uniform(-5, 5), r.uniform(-5, 5))
    R = lambda x, y: (x * math.cos(th) - y * math.sin(th) + off[0], x * math.sin(th) + y * math.cos(th) + off[1])
    L = 100 * tol; y = 0; ys = []; dr = r.choice([0, r.uniform(0, .2)]) * tol
    for i in range(n):
        ys.append((y, y + i * dr))
        y += r.uniform(1.3, 1.9) * tol
    for a, b in ys: P.add_line(R(r.uniform(-5, 5) * tol, a), R(L + r.uniform(-5, 5) * tol, b))
    H.case(('strip', tol, th, off, ys), tag)
    H.check(len(P.segments) == n, 'close lines are kept apart', lambda: str(P.decomp))
    for _ in range(4):
        i = r.randrange(n - 1); x = r.uniform(.1, .9)
        lo, hi = [a + x * (b - a) for a, b in ys[i:i + 2]]
        q = R(x * L, lo + (hi - lo) * r.uniform(.3, .7))
        if any(pdist(fl(p.xy), q) < 3 * tol for p in P.points.values()): continue
        m = len(P.segments)
        D = min(sdist(fl(s.vtxs[0].xy), fl(s.vtxs[1].xy), q) for s in P.segments.values())
        if D >= tol * .999: continue
        p = P.add_point(q)
        H.check(pdist(fl(p.xy), q) < tol * 1.1 and len(P.segments) == m + 1, 'a request near a segment is a point on it', lambda: str((tol, q, fl(p.xy), str(P.decomp))))
def bounded(H):
    import itertools
    for it in itertools.count():
        if not H.time_left(): break
        r = H.rng(it)
        if it % 8 == 0: strip(H, r, (it, 's'))
        D = deco.Sketch(r)
        for k in range(r.randrange(5, 60)):
            if not H.time_left(): break
            before = {id(p): fl(p.xy) for p in D.d.points.values()}
            bp = list(D.d.points.values()); bs = D.segs()
            H.case(D.hist[-60:], (it, k))
            x = D.step()
            if x is None: continue
            op, o = x
            H.count(op)
            H.case(D.hist[-60:], (it, k))
            d, tol = D.d, D.tol
            eps = 1e-9 * (D.size + 1)
            def msg(): return str((op, o, D.hist))
            try: deco.topology(d); deco.geometry(d)
            except deco.Bad as e: H.check(False, 'the drawing stays a plane subdivision (%s)' % e, msg)
            planar(H, D)
            live = list(d.points.values())
            if op == 'point':
                q, w, p = o
                H.check(any(p is z for z in live), 'the returned point belongs to the drawing', msg)
                old = any(p is z for z in bp)
                if w[0] == 'p': H.check(old and fl(p.xy) == w[1] and len(live) == len(bp), 'a request near a point is that point', msg)
                elif w[0] == 's':
                    H.check(not old and pdist(fl(p.xy), w[2]) < eps and len(live) == len(bp) + 1, 'a request near a segment is a point on it', msg)
                    a, b = bs[w[1]]
                    nb = {fl(s.vtxs[1 - v].xy) for s, v in p.segments()}
                    H.check(nb == {a, b} and len(d.segments) == len(bs) + 1, 'the segment is split at the point', msg)
                else: H.check(not old and fl(p.xy) == tuple(map(float, q)) and p.is_free() and len(live) == len(bp) + 1 and len(d.segments) == len(bs), 'a request away from everything is a new point there', msg)
            if op == 'line':
                a, b, ch, res = o
                if len(ch) == 1:
                    H.check(any(res is z for z in live) and pdist(fl(res.xy), ch[0]) < eps, 'a line shorter than the tolerance is a point', msg)
                else:
                    H.check(len(res) >= 1 and all(any(s is t for t in d.segments.values()) for s in res), 'the returned segments belong to the drawing', msg)
                    # a chain between the snapped ends
                    ends = [set((id(s.vtxs[0]), id(s.vtxs[1]))) for s in res]
                    start = [p for p in live if pdist(fl(p.xy), ch[0]) < eps]
                    H.check(len(start) == 1, 'the first end is a point', msg)
                    cur = start[0]; path = [cur]
                    for s in res:
                        H.check(cur in s.vtxs, 'the returned segments form a chain', msg)
                        cur = s.vtxs[1] if s.vtxs[0] is cur else s.vtxs[0]; path.append(cur)
                    loc = [fl(p.xy) for p in path]
                    H.check(pdist(loc[-1], ch[-1]) < eps, 'the chain ends at the last end', msg)
                    for q in loc: H.check(sdist(fl(a), fl(b), q) < tol + eps, 'the chain is within the tolerance of the request', msg)
                    H.check(len(loc) == len(ch) and all(pdist(p, q) < 1e-6 * (D.size + 1) for p, q in zip(loc, ch)), 'the chain visits every snapped point and crossing', lambda: str((loc, ch)) + msg())
            # nobody moved but those asked for
            for p in bp:
                if any(p is z for z in live) and not (op == 'move' and p is o[0]): H.check(fl(p.xy) == before[id(p)], 'points stay where they were', msg)
            if op == 'move': H.check(pdist(fl(o[0].xy), o[2]) < eps, 'the point moved by the displacement', msg)
            # nothing is hidden from snapping
            q = r.choice(live) if live else None
            if q is not None and r.random() < .5:
                w = D.P._snap_point(list(fl(q.xy))) if hasattr(D.P, '_snap_point') else None
                if w: H.check(w[0] == 0 and w[1] is q, 'points are found by snapping', msg)
            if d.segments and r.random() < .5 and hasattr(D.P, '_snap_point'):
                s = r.choice(list(d.segments.values())); t = r.choice([.5, .3, .8])
                m = s.parametric(t)
                if all(pdist(fl(m), fl(p.xy)) > 2 * tol for p in live) and all(z is s or sdist(fl(z.vtxs[0].xy), fl(z.vtxs[1].xy), fl(m)) > 2 * tol for z in d.segments.values()):
                    w = D.P._snap_point(list(fl(m)))
                    H.check(w[0] == 1 and w[1] is s and abs(w[2] - t) < 1e-9, 'segments are found by snapping', msg)
