from pyvc.unit import Unit
from checks import aabb
from checks.aabb import AL, Store, al, vec, member
LEVEL = 'proof'
NOTE = 'Proof for stores with any number of boxes and point sets of any size (symbolic length, generic index): intersect_candidates returns exactly the stored boxes meeting the query, make_aabb contains every point, is contained in every box containing them, and is widened by exactly a positive margin; storing and removing (growing loop under a loop contract) change one slot only. Reals for floats. Bounded histories against brute force on the real numpy.'
T = 'aabb_lookup.py:AABB_Lookup.'
UNITS = []

def query(V):
    from pyvc import core
    S = Store(V)
    q = vec(V, 'q', 4)
    if not V.symbolic:
        q[:] = aabb.rbox(V.rng)
        for k in range(4): V.used['q%d' % k] = float(q[k])
    V.assume(q[0] <= q[2]); V.assume(q[1] <= q[3])
    j = S.pick('j'); st = S.stored(j); b = S.box(j)
    res = S.o.intersect_candidates(q)
    V.cover('in')
    got = member(V, res, j)
    meets = core.sand(b[0] <= q[2], q[0] <= b[2], b[1] <= q[3], q[1] <= b[3], st)
    if bool(meets): V.cover('meets'); V.ensure('a stored box meeting the query is returned', got)
    else: V.cover('apart'); V.ensure('nothing else is returned', core.snot(got) if V.symbolic else not got)
UNITS.append(Unit('intersect_candidates: exactly the stored boxes meeting the query', query, T + 'intersect_candidates', AL, covers=['in', 'meets', 'apart'], samples=500, unbounded='number of boxes and slots, coordinates', allshape=True))

def box_unit(mode):
    def fn(V):
        m = al()
        if V.symbolic:
            from pyvc import sarr, core, npshim
            n = V.int('n', lo=1)
            P = sarr.matrix('P', n, 2)
            lower = [V.real('lo0'), V.real('lo1')]; upper = [V.real('up0'), V.real('up1')]
            import z3
            P.D.add_fact(lambda i: z3.Implies(z3.And(i >= 0, i < n.t), z3.And(*[z3.And(lower[k].t <= P.F[k](i), P.F[k](i) <= upper[k].t) for k in (0, 1)])))
            j = V.int('j', lo=0); V.assume(j < n)
            pj = list(npshim.base(P.at(j.t)))
        else:
            import numpy as np
            n = V.int('n', lo=1, hi=7)
            P = [[V.real('x%d' % i), V.real('y%d' % i)] for i in range(n)]
            j = V.int('j', lo=0, hi=n - 1) % n
            pj = list(P[j]); lower = [min(p[k] for p in P) for k in (0, 1)]; upper = [max(p[k] for p in P) for k in (0, 1)]
            form = V.rng.randrange(3)
            if form == 1: P = [np.array(p) for p in P]
            if form == 2: P = np.array(P)
        if mode == 'margin': mg = V.pos('margin')
        elif mode == 'nonpos': mg = V.real('margin', hi=0)
        else: mg = None
        b = m.make_aabb(P) if mg is None else m.make_aabb(P, mg) if V.symbolic or V.rng.random() < .5 else m.make_aabb(P, margin=mg)
        V.cover('in')
        V.eq('four numbers', len(b) if not V.symbolic else b.shape[0], 4)
        w = mg if mode == 'margin' else 0
        t = 0 if V.symbolic else 1e-9
        for k in (0, 1):
            V.ensure('contains every point', V.leq(b[k] + w, pj[k])); V.ensure('contains every point', V.leq(pj[k] + w, b[2 + k]))
            V.ensure('no larger than needed', V.leq(lower[k] - w, b[k])); V.ensure('no larger than needed', V.leq(b[2 + k], upper[k] + w))
    return fn
for md, nm in ((None, 'no margin'), ('margin', 'positive margin'), ('nonpos', 'margin not positive')):
    UNITS.append(Unit('make_aabb: ' + nm, box_unit(md), 'aabb_lookup.py:make_aabb', AL, covers=['in'], unbounded='number of points, coordinates', allshape=True))
from checks import aabb_ops
UNITS += aabb_ops.UNITS

BOUND = 'random histories of up to 60 additions, replacements, removals over ids < 300 with interleaved queries, small integer and random boxes; random point sets of up to 12 points'
BSECS = 6
SHARDS = 4
def bounded(H):
    import numpy as np, itertools
    for it in itertools.count():
        if not H.time_left(): break
        r = H.rng(it)
        hist = []
        o = al().AABB_Lookup(**({} if r.random() < .5 else dict(init_size=r.choice([1, 2, 5]))))
        ref = {}
        idmax = r.choice([3, 8, 40, 300])
        for step in range(r.randrange(1, 60)):
            if ref and r.random() < r.choice([.2, .5]):
                i = r.choice(list(ref)); o.rm_object(i); del ref[i]; hist.append(['rm', i])
            else:
                i = r.randrange(idmax); b = aabb.rbox(r); ref[i] = b.copy(); o.add_object(i, b); hist.append(['add', i, b.tolist()])
                if r.random() < .5: b[:] = 0.0     # the caller's array is the caller's
            if r.random() < .3:
                q = aabb.rbox(r)
                if ref and r.random() < .5:
                    b = r.choice(list(ref.values())); q = np.array([b[2], b[3], b[2] + r.choice([0, 1]), b[3] + r.choice([0, 1])]) if r.random() < .5 else np.array([b[0] - 1, b[1] - 1, b[0], b[1]])
                H.case(dict(history=hist[-30:], query=q.tolist()), (it, step))
                c = [int(x) for x in o.intersect_candidates(q)]
                want = sorted(i for i, b in ref.items() if b[0] <= q[2] and q[0] <= b[2] and b[1] <= q[3] and q[1] <= b[3])
                H.check(sorted(c) == want, 'boxes meeting the query', '%s, expected %s' % (sorted(c), want))
        n = r.randrange(1, 12)
        P = [[r.choice([r.uniform(-5, 5), float(r.randint(-2, 2))]) for _ in range(2)] for _ in range(n)]
        if r.random() < .2: P = [[int(x) for x in p] for p in P]
        mg = r.choice([None, -1, 0, 0.25, r.uniform(0, 3), 2])
        H.case(dict(points=P, margin=mg), ('box', it))
        A = [np.array(p) for p in P] if r.random() < .5 else P
        c0 = [np.array(p).tolist() for p in A]
        b = al().make_aabb(A) if mg is None else al().make_aabb(A, margin=mg)
        w = mg if mg and mg > 0 else 0
        H.close(b, [min(p[0] for p in P) - w, min(p[1] for p in P) - w, max(p[0] for p in P) + w, max(p[1] for p in P) + w], 'bounding box')
        H.check([np.array(p).tolist() for p in A] == c0, 'points changed', '')
