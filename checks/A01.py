from pyvc.unit import Unit
from checks import aabb
from checks.aabb import AL, Store, al, vec, member
LEVEL = 'proof'
NOTE = 'Proof for stores with any number of boxes and slots (symbolic length, generic index; representation invariant: a row holds a box or the empty mark) that closest_candidates returns every identifier whose content may be the closest, every box containing the location, and no empty slot; the invariant is established by the constructor and kept by add_object (its growing loop under a loop contract) and rm_object. Reals for floats, coordinates up to 1e12. Bounded histories against brute force on the real numpy.'
T = 'aabb_lookup.py:AABB_Lookup.'
UNITS = []

def candidates(kind):
    def fn(V):
        S = Store(V)
        p = vec(V, 'p', 2)
        if not V.symbolic and S.ref and V.rng.random() < .3:
            b = V.rng.choice(list(S.ref.values())); p[:] = b[:2]; V.used['p0'], V.used['p1'] = p
        j = S.pick('j')
        if not V.symbolic and S.ref and kind != 'empty':
            j = V.rng.choice(list(S.ref)); V.used['j'] = j
            if kind == 'inside':
                bb = S.ref[j]; p[:] = [V.rng.choice([bb[0], bb[2], (bb[0] + bb[2]) / 2]), V.rng.choice([bb[1], bb[3], (bb[1] + bb[3]) / 2])]
                V.used['p0'], V.used['p1'] = float(p[0]), float(p[1])
        st = S.stored(j); b = S.box(j)
        if kind == 'empty':
            V.assume(not st if not V.symbolic else _not(st))
        else:
            V.assume(st)
        if kind == 'inside':
            for k in (0, 1): V.assume(b[k] <= p[k]); V.assume(p[k] <= b[2 + k])
        if kind == 'closest':
            # q: the content of j closest to p.  c(k): content of k at its left side.  j may be the closest object:
            # nothing of any other object is closer than q
            q = vec(V, 'q', 2)
            if not V.symbolic:
                q[:] = [min(max(p[0], b[0]), b[2]), min(max(p[1], b[1]), b[3])]; V.used['q0'], V.used['q1'] = float(q[0]), float(q[1])
            for k in (0, 1): V.assume(b[k] <= q[k]); V.assume(q[k] <= b[2 + k])
            dq = (p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1])
            if V.symbolic:
                import z3
                from pyvc import core
                CY = z3.Function('cy', z3.IntSort(), z3.RealSort())
                F = S.F
                pt = [core.rterm(x) for x in p]
                # |p-q| <= |p-c(k)|, c(k) on the left side of box k, stated with the bound it implies (lemma below)
                d2 = z3.Real('dist2q'); core.CTX.add(d2 == core.rterm(dq))
                def fact(i):
                    cx, cy = F[0](i), CY(i)
                    D = (pt[0] - cx) * (pt[0] - cx) + (pt[1] - cy) * (pt[1] - cy)
                    return z3.Implies(S.used(i), z3.And(F[1](i) <= cy, cy <= F[3](i), d2 <= D))
                S.M.D.add_fact(fact)
                # far(i): distance of p and the furthest corner in the maximum norm
                far = z3.Function('far', z3.IntSort(), z3.RealSort())
                def ffact(i):
                    m = z3.Real('m')
                    es = [pt[0] - F[0](i), pt[1] - F[1](i), F[2](i) - pt[0], F[3](i) - pt[1]]
                    return z3.Implies(S.used(i), z3.And(far(i) >= 0, *[far(i) >= e for e in es], z3.Or(*[far(i) == e for e in es])))
                S.M.D.add_fact(ffact)
                # lemma 1: a point of a box is within sqrt(2) * far
                x0, x1, c0, c1, f, a0, a1, e0, e1 = z3.Reals('x0 x1 c0 c1 f a0 a1 e0 e1')
                hyp = [a0 <= c0, c0 <= e0, a1 <= c1, c1 <= e1, x0 - a0 <= f, e0 - x0 <= f, x1 - a1 <= f, e1 - x1 <= f]
                V.lemma('squared distance of contained point <= 2 far^2', hyp, (x0 - c0) * (x0 - c0) + (x1 - c1) * (x1 - c1) <= 2 * f * f)
                S.M.D.add_fact(lambda i: z3.Implies(S.used(i), d2 <= 2 * far(i) * far(i)))
                # lemma 2: D >= 0, D <= distance, distance^2 <= 2 f^2 -> D <= sqrt2float * f
                D, y0, y1 = z3.Reals('D y0 y1')
                dd = (x0 - y0) * (x0 - y0) + (x1 - y1) * (x1 - y1)
                import math
                V.lemma('lower bound', [a0 <= y0, y0 <= e0, a1 <= y1, y1 <= e1, z3.Or(D == a0 - x0, D == a1 - x1, D == x0 - e0, D == x1 - e1), dd <= 2 * f * f, f >= 0],
                        D <= core.real_val(math.sqrt(2)) * f)
                jb = [core.rterm(x) for x in b]
                S.M.D.add_fact(lambda i: z3.Implies(S.used(i), z3.And(*[e <= core.real_val(math.sqrt(2)) * far(i) for e in (jb[0] - pt[0], jb[1] - pt[1], pt[0] - jb[2], pt[1] - jb[3])])))
            else:
                import numpy as np
                for k, bk in S.ref.items():
                    cx, cy = bk[0], V.rng.uniform(bk[1], bk[3])
                    V.assume(dq <= (p[0] - cx) ** 2 + (p[1] - cy) ** 2)
        res = S.o.closest_candidates(p)
        V.cover('in')
        got = member(V, res, j)
        if kind == 'empty': V.ensure('an identifier without a box is never returned', got == False if not V.symbolic else _not(got))
        elif kind == 'inside': V.ensure('a box containing the location is a candidate', got)
        else: V.ensure('an object that may be the closest is a candidate', got)
    return fn

def _not(x):
    from pyvc import core
    return core.snot(x)

UNITS.append(Unit('closest_candidates: may-be-closest objects are returned', candidates('closest'), T + 'closest_candidates', AL, covers=['in'], samples=400, unbounded='number of boxes, slots, coordinates', allshape=True, deadline=120))
UNITS.append(Unit('closest_candidates: containing boxes are returned', candidates('inside'), T + 'closest_candidates', AL, covers=['in'], unbounded='number of boxes, slots, coordinates', allshape=True))
UNITS.append(Unit('closest_candidates: empty slots are not returned', candidates('empty'), T + 'closest_candidates', AL, covers=['in'], unbounded='number of boxes, slots, coordinates', allshape=True))

def empty_store(V):
    import numpy as np
    o = al().AABB_Lookup()
    V.eq('nothing', list(o.closest_candidates(np.array([0.5, 0.25]))), [])
    V.eq('nothing', len(list(o.intersect_candidates(np.array([0.5, 0.25, 1, 1])))), 0)
UNITS.append(Unit('empty store', empty_store, T + '__init__', AL, samples=1, allshape=True))
from checks import aabb_ops
UNITS += aabb_ops.UNITS

BOUND = 'random histories of up to 60 additions, replacements, removals over ids < 300 and 4 queries after each few of them, small integer and random boxes'
BSECS = 6
SHARDS = 4
def bounded(H):
    import numpy as np, itertools
    for it in itertools.count():
        if not H.time_left(): break
        r = H.rng(it)
        hist = []
        o = al().AABB_Lookup(**({} if r.random() < .5 else dict(init_size=r.choice([1, 2, 5]))))
        ref = {}
        idmax = r.choice([3, 8, 40, 300])
        for step in range(r.randrange(1, 60)):
            if ref and r.random() < r.choice([.2, .5]):
                i = r.choice(list(ref)); o.rm_object(i); del ref[i]; hist.append(['rm', i])
            else:
                i = r.randrange(idmax); b = aabb.rbox(r); o.add_object(i, b.copy()); ref[i] = b; hist.append(['add', i, b.tolist()])
            if r.random() < .3:
                b = r.choice(list(ref.values())) if ref and r.random() < .5 else None
                p = np.array([r.choice([r.uniform(-4, 4), float(r.randint(-4, 4))]) for _ in range(2)])
                if b is not None: p = np.array([r.choice([b[0], b[2], (b[0] + b[2]) / 2]), r.choice([b[1], b[3], b[3] + 1])])
                H.case(dict(history=hist[-30:], point=p.tolist()), (it, step))
                c = [int(x) for x in o.closest_candidates(p)]
                H.check(len(c) == len(set(c)), 'candidate repeated', str(c))
                H.check(set(c) <= set(ref), 'candidate without box', '%s of %s' % (c, sorted(ref)))
                if not ref: H.check(len(c) == 0, 'candidates of an empty store', str(c)); continue
                H.check(len(c) > 0, 'no candidates', '')
                # content: polyline touching all sides of the box
                ids = list(ref)
                B = np.array([ref[i] for i in ids])
                for i, bb in ref.items():
                    if bb[0] <= p[0] <= bb[2] and bb[1] <= p[1] <= bb[3]: H.check(i in c, 'containing box missed', 'id %d box %s' % (i, bb))
                # content = points on the four sides, in random position
                for t in range(3):
                    D = {}
                    for i, bb in ref.items():
                        if t == 0:      # diagonal segments
                            pts = _seg(bb, r.random() < .5, p)
                        elif t == 1:
                            pts = [np.array([x, y]) for x in (bb[0], bb[2]) for y in (bb[1], bb[3])]
                        else:
                            pts = [np.array([bb[0], r.uniform(bb[1], bb[3])]), np.array([bb[2], r.uniform(bb[1], bb[3])]), np.array([r.uniform(bb[0], bb[2]), bb[1]]), np.array([r.uniform(bb[0], bb[2]), bb[3]])]
                        D[i] = min(float(np.hypot(*(p - q))) for q in pts)
                    m = min(D.values())
                    for i in D:
                        if D[i] <= m: H.check(i in c, 'closest object missed', 'object %d at distance %g, candidates %s' % (i, D[i], c))

def _seg(b, diag, p):
    import numpy as np
    a, e = (np.array([b[0], b[1]]), np.array([b[2], b[3]])) if diag else (np.array([b[0], b[3]]), np.array([b[2], b[1]]))
    d = e - a; n = float(d @ d)
    t = 0.0 if n == 0 else min(1., max(0., float((p - a) @ d) / n))
    return [a + t * d]
