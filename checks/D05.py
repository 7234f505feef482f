import importlib
from pyvc.unit import Unit, need
from checks import deco
LEVEL = 'proof'
NOTE = 'Proof by contracts on the real operations over a symbolic heap (any number and size of loops, polygons, isolated points; same machinery as D01): for each operation the reported change is compared with the polygons that came and went; add and remove exactly if one outer loop is the hole of the other, split and join exactly if they share the parent; names of surviving, new and deleted polygon; other polygons keep their loops and attributes; new_segment and delete_segment choose the fitting operation and report none for an existing segment; identifiers are passed on by get_last_polygon_changes. Bounded part: random edit histories, the reported change against the difference of the faces computed independently in exact arithmetic. Assumed about the state before: see the units.'
from checks import decou
UNITS = decou.of_changes()
BOUND = 'random edit histories of up to 90 edits on up to about 40 vertices, nested rings up to depth 4'
BSECS = 8
SHARDS = 6
class Watch(deco.Drawing):
    def before(self):
        d = self.d
        self.b = dict(d.polygons.items())
        self.bobj = {i: P for i, P in self.b.items()}
        self.outer0, self.fc0 = deco.geometry(d)
def lonely(fc, sid):
    return fc.next[(sid, 0)] == (sid, 1) and fc.next[(sid, 1)] == (sid, 0)
def bounded(H):
    import itertools
    C = deco.dc().PolygonChange
    for it in itertools.count():
        if not H.time_left(): break
        r = H.rng(it)
        D = Watch(r)
        H.check(D.d.last_polygon_change[0] == C.add and D.d.last_polygon_change[1] is D.d.outer_polygon and D.d.last_polygon_change[2] is D.d.outer_polygon, 'initial change', '')
        P = deco.pl().PolygonDecomposition(); P.decomp = D.d
        for k in range(r.randrange(5, 90)):
            if not H.time_left(): break
            try: x = D.step()
            except deco.Bad: break
            if x is None: continue
            H.case(D.hist[-90:], (it, k))
            kind, o = x
            d = D.d
            ch = d.last_polygon_change
            if kind == 'again':
                H.check(ch[0] == C.none and ch[1] is None and ch[2] is None, 'existing segment: no change', str(ch)); continue
            if kind not in ('seg', 'del'): continue
            try: outer1, fc1 = deco.geometry(d)
            except deco.Bad: break
            seg = o[0] if kind == 'seg' else o
            B, A = D.bobj, dict(d.polygons.items())
            new = [p for p in A.values() if not any(p is q for q in B.values())]
            old = [p for p in B.values() if not any(p is q for q in A.values())]
            H.count(ch[0].name)
            def msg(): return '%s after %s' % (ch, D.hist)
            f1, f0 = (fc1, D.fc0) if kind == 'seg' else (D.fc0, fc1)
            o1, o0 = (outer1, D.outer0) if kind == 'seg' else (D.outer0, outer1)
            # f1: drawing with the segment
            sides = [None, None]
            for side in (0, 1):
                c = f1.cyc_of[(seg.id, side)]
                sides[side] = o1[f1.key(f1.hole_of[c] if c in f1.hole_of else c)]
            H.check(P.get_last_polygon_changes()[0] == ch[0], 'reported change', msg)
            if sides[0] is sides[1]:
                H.check(not new and not old, 'set of polygons unchanged', msg)
                q = sides[0]
                if lonely(f1, seg.id): H.check(ch[0] == C.none or (ch[0] == C.shape and len(ch[1]) == 1 and ch[1][0] is q), 'lonely segment', msg)
                else: H.check(ch[0] == C.shape and len(ch[1]) == 1 and ch[1][0] is q and ch[2] is None, 'shape of the polygon', msg)
                ids = P.get_last_polygon_changes()
                if ch[0] == C.shape: H.check(ids[1] == [q.id] and ids[2] is None, 'reported identifiers', msg)
                else: H.check(ids[1] is None and ids[2] is None, 'reported identifiers', msg)
                continue
            # one is a hole of the other?
            cyc = [f1.cyc_of[(seg.id, s)] for s in (0, 1)]
            inhole = [c in f1.hole_of for c in cyc]
            if kind == 'seg':
                H.check(len(new) == 1 and not old and new[0] in sides, 'one new polygon', msg)
                orig = sides[0] if sides[1] is new[0] else sides[1]
                H.check(ch[0] == (C.add if any(inhole) else C.split), 'add or split', msg)
                H.check(ch[1] is orig and ch[2] is new[0], 'surviving and new polygon', msg)
                if any(inhole): H.check(sides[inhole.index(True)] is orig, 'the new polygon is the inner one', msg)
                H.check(any(B[i] is orig for i in B), 'the surviving polygon existed', msg)
            else:
                H.check(len(old) == 1 and not new, 'one polygon removed', msg)
                keep = sides[0] if sides[1] is old[0] else sides[1]
                H.check(ch[0] == (C.remove if any(inhole) else C.join), 'remove or join', msg)
                H.check(ch[1] is keep and ch[2] is old[0], 'surviving and deleted polygon', msg)
                if any(inhole): H.check(sides[inhole.index(True)] is keep, 'the outer polygon survives', msg)
                H.check(any(A[i] is keep for i in A), 'the surviving polygon exists', msg)
