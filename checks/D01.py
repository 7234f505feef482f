import importlib
from pyvc.unit import Unit, need
from checks import deco
LEVEL = 'proof'
NOTE = 'Proof by contracts on the real operations over a symbolic heap: loops and fans of any length, any number of loops, polygons and isolated points. For each operation (new isolated point, its removal, new loop, tip, joining and splitting loops, splitting and joining polygons, splitting and joining segments, removal of a lonely segment), from an arbitrary consistent state: the real code leaves a state whose loops are cycles of sides meeting in vertices with one label and a representative of their own (`cycles`), whose fans list every incident segment once (`fans`), whose loops have registered parents and polygons (`registered`), whose isolated points are registered with one existing polygon (`points`) and whose segments are registered under their end points (`registry`); everything elsewhere is untouched. Each loop of the code has its own unit. new_segment and delete_segment are shown to choose the operation whose precondition holds; the initial state is checked. Bounded part: random edit histories on exact coordinates, the complete structure checked after every edit by an independent checker. Assumed about the state before: see the units.'
from checks import decou
UNITS = decou.of_structure()
BOUND = 'random edit histories of up to 90 edits on up to about 40 vertices, nested rings up to depth 4, all orientations'
BSECS = 8
SHARDS = 6
def episodes(H):
    import itertools
    for it in itertools.count():
        if not H.time_left(): break
        r = H.rng(it)
        D = deco.Drawing(r)
        for k in range(r.randrange(5, 90)):
            if not H.time_left(): break
            try: x = D.step()
            except deco.Bad: break        # found below, or a matter of D02
            if x is None: continue
            H.case(D.hist[-90:], (it, k)); H.count(x[0])
            yield D, x
def bounded(H):
    for D, x in episodes(H):
        try:
            deco.topology(D.d)
        except deco.Bad as e: H.fail('structure: ' + str(e).split(' [')[0], '%s after %s' % (e, D.hist))
        kind, o = x
        if kind == 'split':
            s, new, m, ids, at = o
            H.check(s.vtxs[0].id == ids[0] and s.vtxs[1] is m and new.vtxs[0] is m and new.vtxs[1].id == ids[1], 'split end points', str(D.hist))
        if kind == 'join':
            s0, s1, p, (a, b) = o
            H.check({s0.vtxs[0], s0.vtxs[1]} == {a, b} and s1.id not in D.d.segments or D.d.segments.get(s1.id) is not s1, 'joined end points', str(D.hist))
        if kind == 'seg': H.check({o[0].vtxs[0], o[0].vtxs[1]} == {o[1], o[2]}, 'end points of a new segment', str(D.hist))
        if kind == 'again': H.check(o[0] is o[1], 'existing segment is returned', str(D.hist))
        H.check(D.d.check_consistency() is True, 'own consistency check', str(D.hist))
