import importlib
from fractions import Fraction as F
from pyvc.unit import Unit, need
from checks import deco
LEVEL = 'exploration'
NOTE = "Contracts on the real operations over a symbolic heap (same machinery as D01, any size) prove that a new polygon has the attribute of the one it was cut from and others keep theirs, that isolated points and holes move to a new polygon exactly if its outer loop contains them, that all of a removed polygon's go to the surviving one, and that children of a split loop go to the loop containing them. That the polygons partition the plane (a statement about the drawing in the plane) is decided bounded: random edit histories on exact coordinates; after every edit the polygons, holes, isolated points and loop nesting are compared with the faces of the drawing computed independently in exact arithmetic, sampled locations are looked up in all polygons, and the attributes of new polygons are compared with those of the polygon they were cut from."
from checks import decou
UNITS = decou.of_places()
BOUND = 'random edit histories of up to 90 edits on up to about 40 vertices, nested rings up to depth 4, sampled locations'
BSECS = 8
SHARDS = 6
def bounded(H):
    from checks.D01 import episodes
    last = None
    for D, x in episodes(H):
        d = D.d
        if last is None or last[0] is not D: before = {d.outer_polygon.id: d.outer_polygon}; attr = {id(d.outer_polygon): 'outer'}; keep = []
        else: before, attr = last[1], last[2]
        try: outer, fc = deco.geometry(d)
        except deco.Bad as e: H.fail('geometry: ' + str(e).split(' [')[0], '%s after %s' % (e, D.hist))
        kind, o = x
        new = [P for P in d.polygons.values() if not any(P is Q for Q in before.values())]
        if kind in ('seg',) and new:
            H.check(len(new) == 1, 'one polygon is created', str(D.hist))
            P = new[0]
            # cut from: the polygon on the other side of the new segment
            s = o[0]
            other = [w.polygon for w in s.wire if w.polygon is not P]
            H.check(len(other) == 1 and getattr(P, 'attr', None) == getattr(other[0], 'attr', None), 'attribute of a new polygon', str(D.hist))
        else: H.check(not new, 'polygons are created by new segments only', str(D.hist))
        for P in d.polygons.values():
            if id(P) in attr and P not in new: pass
        if kind == 'split':
            s, n, m, ids, at = o
            H.check(getattr(n, 'attr', None) == at == getattr(s, 'attr', None), 'attribute of a split segment', str(D.hist))
        last = (D, dict(d.polygons.items()), attr)
        if D.r.random() < .3:
            xs = [float(p.xy[0]) for p in d.points.values()] or [0]; ys = [float(p.xy[1]) for p in d.points.values()] or [0]
            for _ in range(4):
                if D.r.random() < .4 and len(d.segments):
                    s = D.r.choice(list(d.segments.values())); t = D.r.random()
                    a, b = s.vtxs[0].xy, s.vtxs[1].xy
                    e = D.r.choice([-1, 1]) * 1e-3
                    q = (float(a[0] + t * (b[0] - a[0]) - e * (b[1] - a[1])), float(a[1] + t * (b[1] - a[1]) + e * (b[0] - a[0])))
                elif D.r.random() < .3: q = (D.r.uniform(min(xs) - 1, max(xs) + 1), D.r.choice(ys))
                else: q = (D.r.uniform(min(xs) - 1, max(xs) + 1), D.r.uniform(min(ys) - 1, max(ys) + 1))
                Q = (F(q[0]), F(q[1]))
                if any(deco.near(deco.xyof(s.vtxs[0]), deco.xyof(s.vtxs[1]), Q) for s in d.segments.values()): continue
                k = fc.key(fc.locate(Q)); P = outer[k]
                got = [R for R in d.polygons.values() if R.contains_point(q)]
                H.check(len(got) == 1 and got[0] is P, 'location belongs to exactly one polygon', '%s in %s, expected %s: %s' % (q, [g.id for g in got], P.id, D.hist))
