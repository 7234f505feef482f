"""contracts of the store operations (shared by A01 and A02): the representation invariant is established and kept,
and an operation on one identifier leaves every other one unchanged"""
from pyvc.unit import Unit
from checks.aabb import AL, Store, al, vec, rbox
T = 'aabb_lookup.py:AABB_Lookup.'
UNITS = []

def init_unit(V):
    m = al()
    if V.symbolic:
        import z3
        from pyvc import core, npshim
        n = V.int('init_size', lo=1)
        o = m.AABB_Lookup(init_size=n)
        j = V.int('j', lo=0); V.assume(j < n)
        V.eq('rows', o.boxes.shape[0], n)
        V.eq('every slot is empty', list(npshim.base(o.boxes.at(j.t))), [1e50] * 4)
    else:
        n = V.int('init_size', lo=1, hi=40)
        o = m.AABB_Lookup(init_size=n)
        V.eq('rows', o.boxes.shape, [n, 4])
        V.ensure('every slot is empty', (o.boxes == 1e50).all())
    V.eq('no boxes', o.n_boxes, 0)
    V.cover('in')
UNITS.append(Unit('constructor establishes the invariant', init_unit, T + '__init__', AL, covers=['in'], samples=40, unbounded='initial size', allshape=True))

def patch(mods):
    from pyvc import loops, core
    L = mods[AL].AABB_Lookup
    import z3
    def havoc(loc):
        """after any number of doublings: the rows at entry, then empty rows"""
        from pyvc import sarr, npshim
        import numpy as np
        o = loc['self']
        n = core.CTX.fresh_int('rows'); B0 = o.boxes; n0 = B0.n
        o.vc_rows0 = (B0, n0)
        inf = np.empty(4, dtype=object); inf.fill(o.inf)
        def f(i):
            B0.D.touch(i)
            c = core.SBool(z3.simplify(i < n0))
            return sarr._ite_row(c, B0.f(i), inf)
        o.boxes = sarr.SVec(n, f, (4,))
        return dict(boxes_size=core.SInt(n))
    def inv(loc):
        from pyvc import npshim
        o = loc['self']; bs = loc['boxes_size']
        B0, n0 = getattr(o, 'vc_rows0', (o.boxes, o.boxes.n))
        out = [('boxes_size is the number of rows', bs == o.boxes.shape[0]), ('never shrinks', bs >= core.SInt(n0))]
        if hasattr(o, 'vc_rows0'):
            j = o.vc_j
            row = npshim.base(o.boxes.at(j)); old = npshim.base(B0.at(j))
            inr = z3.And(j >= 0, j < core.term(bs))
            out.append(('old rows kept, new rows empty', core.SBool(z3.Implies(inr, z3.And(*[core.rterm(row[k]) == z3.If(j < n0, core.rterm(old[k]), core.rterm(o.inf)) for k in range(4)])))))
        return out
    L.add_object = loops.contract(L.add_object, {0: loops.Spec(inv, havoc, variant=lambda loc: loc['id'] - loc['boxes_size'], name='add_object growing loop', kind='while')})

def op(kind):
    def fn(V):
        S = Store(V); o = S.o
        i = V.int('id', lo=0) if V.symbolic else V.rng.randrange(300 if V.rng.random() < .3 else 12)
        if not V.symbolic:
            V.used['id'] = i
            if kind == 'rm':
                if not S.ref: V.assume(False)
                i = V.rng.choice(list(S.ref)); V.used['id'] = i
        j = S.pick('j')
        if V.symbolic: o.vc_j = j.t
        was = S.stored(j); old = S.box(j); n0 = o.n_boxes
        if kind == 'rm': V.assume(S.stored(i))
        box = vec(V, 'b', 4) if kind == 'add' else None
        if kind == 'add':
            if not V.symbolic: box = rbox(V.rng)
            V.assume(box[0] <= box[2]); V.assume(box[1] <= box[3])
            o.add_object(i, box)
            if not V.symbolic: S.ref[i] = box
        else:
            o.rm_object(i)
        V.cover('in')
        new = S.slot(j)
        if bool(j == i):
            V.cover('same id')
            if kind == 'add': V.ensure('has a slot', new is not None); V.eq('the new box is stored', new, list(box))
            else: V.ensure('has a slot', new is not None); V.eq('the slot is empty', new, [o.inf] * 4)
        else:
            V.cover('other id')
            if new is None: V.ensure('slot of a stored box kept', _not(was))
            elif bool(was): V.eq('other boxes unchanged', new, old)
            else: V.eq('other slots stay empty', new, [o.inf] * 4)
        # n_boxes bounds the used slots and the rows
        V.ensure('used slots below n_boxes', V.leq(n0, o.n_boxes))
        if kind == 'add': V.ensure('used slots below n_boxes', V.leq(i + 1, o.n_boxes))
        V.ensure('n_boxes within rows', V.leq(o.n_boxes, o.boxes.shape[0]))
    return fn
def _not(x):
    from pyvc import core
    return core.snot(x)
UNITS.append(Unit('add_object: one slot written, all others kept, also when growing', op('add'), T + 'add_object', AL, covers=['in', 'same id', 'other id'], patch=patch, unbounded='ids, number of rows and doublings', allshape=True, assumes=['initial size of the lookup table at least 1']))
UNITS.append(Unit('rm_object: one slot emptied, all others kept', op('rm'), T + 'rm_object', AL, covers=['in', 'same id', 'other id'], unbounded='ids, number of rows', allshape=True))
