import importlib, io, contextlib, math
from fractions import Fraction as F
from pyvc.unit import Unit, need
from checks import deco
from checks.deco import fl, pdist, sdist
LEVEL = 'exploration'
NOTE = "Contracts on the overlay: the points of a line are exactly those within the tolerance, in their order (all coordinates); while one drawing is laid over another, every part kept, cut, crossed or added is mapped to the one it comes from in both, and the polygons that no line of the second drawing touches get theirs through the own segments between (over contracts of drawing, D09; up to 2 lines in up to 2 parts each, every way a point or line may meet the drawing); the composition of the maps for any number of inputs, by induction over the inputs. That the maps agree with geometric containment is decided bounded: random lists of drawings on a small lattice (shared vertices, common and overlapping segments, nested parts, isolated points, empty drawings); every map is compared with geometric containment computed independently."
from checks import mergeu
UNITS = mergeu.units()
BOUND = 'random lists of up to 5 drawings of up to about 12 lines each'
BSECS = 8
SHARDS = 6
EPS = 1e-7
def mg(): return importlib.import_module('bgem.polygons.merge')
def drawing(r, k, off):
    P = deco.pl().PolygonDecomposition()
    X = lambda x, y: (x * 1. + off[0], y * 1. + off[1])
    c = r.random()
    def line(a, b):
        if a != b: P.add_line(X(*a), X(*b))
    pt = lambda: (r.randrange(k + 1), r.randrange(k + 1))
    if c < .08: pass
    elif c < .16:
        for _ in range(r.randrange(1, 4)): P.add_point(X(*pt()))
    elif c < .45:
        h = r.choice([0, 0, .5, 1, 1.5]); j = r.choice([0, 0, .5])
        if 2 * h + j >= k: h = 0
        a, b, g = h, k - h - j, h + r.choice([0, j])
        q = [(a, g), (b, g), (b, g + b - a), (a, g + b - a)]
        if r.random() < .3: q = [(a, g + (b - a) / 2), (a + (b - a) / 2, g), (b, g + (b - a) / 2), (a + (b - a) / 2, g + b - a)]
        for i in range(4): line(q[i - 1], q[i])
        if r.random() < .4:
            e = (b - a) / 4
            s = [(a + e, g + e), (b - e, g + e), (b - e, g + b - a - e), (a + e, g + b - a - e)]
            for i in range(4): line(s[i - 1], s[i])
            if r.random() < .3: line(q[0], s[0])
        for _ in range(r.choice([0, 0, 1, 2])): line(pt(), pt())
    else:
        if r.random() < .5:
            for _ in range(r.randrange(1, 8)): line(pt(), pt())
        else:
            v = pt(); 
            for _ in range(r.randrange(2, 7)): w = pt(); line(v, w); v = w
    if r.random() < .3: P.add_point(X(r.randrange(2 * k + 1) / 2, r.randrange(2 * k + 1) / 2))
    if r.random() < .15 and P.segments: P.delete_segment(r.choice(list(P.segments.values())))
    for o in list(P.polygons.values()): o.attr = r.randrange(100)
    return P
def sample(fc, key):
    """an interior location of a face"""
    if key is None: return (max(p[0] for p in fc.pts.values()) + 1, max(p[1] for p in fc.pts.values()) + 1) if fc.pts else (F(0), F(0))
    j = next(i for i in fc.outer if fc.key(i) == key)
    S = [(fc.pts[a], fc.pts[b]) for a, b in fc.segs.values()]
    for s, side in fc.cycles[j]:
        a, b = [fc.pts[v] for v in fc.segs[s]]
        if side == 0: a, b = b, a      # along the face, face on the left
        m = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2); n = (a[1] - b[1], b[0] - a[0])
        for e in (F(1, 16), F(1, 128), F(1, 2048)):
            q = (m[0] + e * n[0], m[1] + e * n[1])
            if fc.locate(q) == j and min(sdist(fl(c), fl(d), fl(q)) for c, d in S) > 1e-5: return q
    return None
def judge(H, r, ins, res, maps, msg, full=True):
    d = res.decomp
    try: deco.topology(d); outer, fc = deco.geometry(d)
    except deco.Bad as e: H.check(False, 'the overlay is a plane subdivision (%s)' % str(e)[:60], msg)
    S = [(s, fl(s.vtxs[0].xy), fl(s.vtxs[1].xy)) for s in d.segments.values()]
    P = [(p, fl(p.xy)) for p in d.points.values()]
    for i, (s, a, b) in enumerate(S):
        for p, q in P:
            if p is not s.vtxs[0] and p is not s.vtxs[1] and sdist(a, b, q) < EPS: H.check(False, 'no vertex on a segment of the overlay', lambda: str((s, p)) + msg())
        for t, c, e in S[:i]:
            z = deco.isec(a, b, c, e)
            if z and 1e-7 < z[0] < 1 - 1e-7 and 1e-7 < z[1] < 1 - 1e-7: H.check(False, 'segments of the overlay do not cross', lambda: str((s, t)) + msg())
    sam = {k: sample(fc, k) for k in outer}
    for i, (I, M) in enumerate(zip(ins, maps)):
        H.check(len(M) == 3, 'a map for every dimension', msg)
        for p, q in P:
            exp = [o.id for o, x in I['pts'] if pdist(x, q) < EPS]
            if [M[0].get(p.id)] != (exp or [None]): H.check(False, 'point map', lambda: '%s %s %s %s' % (i, p, M[0].get(p.id), exp) + msg())
        for s, a, b in S:
            m = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
            exp = [o.id for o, x, y in I['segs'] if sdist(x, y, m) < EPS]
            if [M[1].get(s.id)] != (exp or [None]): H.check(False, 'segment map', lambda: '%s %s %s %s' % (i, s, M[1].get(s.id), exp) + msg())
        for k, Q in outer.items():
            if sam[k] is None: H.count('unsampled'); continue
            exp = I['at'](sam[k])
            if M[2].get(Q.id) != exp: H.check(False, 'polygon map', lambda: '%s %s %s %s' % (i, Q, M[2].get(Q.id), exp) + msg())
        ids = [{p.id for p, _ in P}, {s.id for s, _, _ in S}, {Q.id for Q in outer.values()}]
        for dim in range(3):
            if not set(M[dim]) <= ids[dim]: H.check(False, 'maps are about objects of the overlay', lambda: str((i, dim, M[dim])) + msg())
        for o, x, y in I['segs']:
            L = sum(pdist(a, b) for s, a, b in S if M[1].get(s.id) == o.id)
            if abs(L - pdist(x, y)) > 1e-6: H.check(False, 'every segment is covered by its parts', lambda: str((i, o)) + msg())
        for dim, have in enumerate((I['pts'], I['segs'], I['pol'])):
            for o in have:
                o = o[0] if isinstance(o, tuple) else o
                if o.id not in M[dim].values(): H.check(False, 'every object has a part', lambda: str((i, dim, o)) + msg())
def describe(P):
    outer, fc = deco.geometry(P.decomp)
    return dict(pts=[(p, fl(p.xy)) for p in P.points.values()], segs=[(s, fl(s.vtxs[0].xy), fl(s.vtxs[1].xy)) for s in P.segments.values()],
                pol=list(P.polygons.values()), at=lambda q: outer[fc.key(fc.locate(q))].id)
def text(P): return [fl(p.xy) for p in P.points.values() if p.is_free()], [(fl(s.vtxs[0].xy), fl(s.vtxs[1].xy)) for s in P.segments.values()]
def bounded(H):
    import itertools
    deco.pl().disable_undo()
    for it in itertools.count():
        if not H.time_left(): break
        r = H.rng(it)
        k = r.choice([1, 2, 2, 3, 4]); off = r.choice([(0, 0), (0, 0), (-3, 7)])
        n = r.choice([1, 2, 2, 2, 3, 3, 4, 5])
        D = [drawing(r, k, off) for _ in range(n)]
        tx = [text(P) for P in D]
        H.case(tx, it)
        def msg(): return ' of ' + str(tx)
        try: ins = [describe(P) for P in D]
        except deco.Bad: continue
        if n == 2 and r.random() < .4 and len(D[0].points):
            # direct: the first one is refined in place, its map omits objects that kept their identity
            before = [set(D[0].points), set(D[0].segments), set(D[0].polygons)]
            res, ma, mb = mg().intersect_single(D[0], D[1])
            full = [dict(ma[d]) for d in range(3)]
            for dim in range(3):
                for i in before[dim]:
                    if i in (res.points, res.segments, res.polygons)[dim]: full[dim].setdefault(i, i)
            mb = [{a: b for a, b in m.items() if b is not None} for m in mb]
            judge(H, r, ins, res, [full, mb], msg); continue
        with contextlib.redirect_stdout(io.StringIO()): res, maps = mg().intersect_decompositions(D)
        H.check(len(maps) == n, 'a map for every input', msg)
        judge(H, r, ins, res, maps, msg)
