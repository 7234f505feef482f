"""shared by A01, A02: a lookup store holding any number of boxes"""
import importlib
AL = 'bgem.polygons.aabb_lookup'
def al(): return importlib.import_module(AL)
BIG = 10 ** 12        # bound of coordinates (empty slots are marked by 1e50)

class Store:
    """abstract state of a lookup: rows 0..R-1, of which the used ones hold a box and the others the empty mark"""
    def __init__(self, V):
        m = al()
        self.V = V
        if V.symbolic:
            import z3
            from pyvc import sarr, core
            self.R = V.int('rows', lo=1); self.n = V.int('n_boxes', lo=0); V.assume(self.n <= self.R)
            self.used = z3.Function('used', z3.IntSort(), z3.BoolSort())
            M = sarr.matrix('box', self.R, 4)
            self.F = M.F
            inf = core.real_val(1e50)
            n, used, F = self.n.t, self.used, M.F
            def inv(i):
                u = z3.And(F[0](i) <= F[2](i), F[1](i) <= F[3](i), *[z3.And(F[k](i) >= -BIG, F[k](i) <= BIG) for k in range(4)])
                e = z3.And(*[F[k](i) == inf for k in range(4)])
                return z3.And(z3.Implies(used(i), z3.And(u, i >= 0, i < n)), z3.Implies(z3.Not(used(i)), e))
            M.D.add_fact(inv)
            self.inv = inv
            o = m.AABB_Lookup()
            self.inf = o.inf
            o.boxes = M; o.n_boxes = self.n
            self.M = M
            o.n_added = V.int('n_added', lo=0); o.n_removed = V.int('n_removed', lo=0)
            self.o = o
        else:
            r = V.rng
            size = r.choice([1, 2, 3, 8])
            o = m.AABB_Lookup(init_size=size) if r.random() < .5 else m.AABB_Lookup()
            self.ref = {}
            for _ in range(r.randrange(9)):
                i = r.randrange(10)
                if i in self.ref and r.random() < .5:
                    o.rm_object(i); del self.ref[i]
                else:
                    b = rbox(r); o.add_object(i, b); self.ref[i] = b
            V.used['store'] = {k: [float(x) for x in b] for k, b in self.ref.items()}
            self.o = o
    def pick(self, name):
        """any identifier of the table"""
        if self.V.symbolic:
            j = self.V.int(name); self.M.D.touch(j.t); return j
        j = self.V.rng.randrange(12); self.V.used[name] = j
        return j
    def stored(self, j):
        if self.V.symbolic:
            from pyvc import core
            self.M.D.touch(j.t)
            return core.SBool(self.used(j.t))
        return j in self.ref
    def box(self, j):
        if self.V.symbolic:
            from pyvc import core
            self.M.D.touch(j.t)
            return [core.SReal(F(j.t)) for F in self.F]
        return [float(x) for x in self.ref.get(j, [0, 0, 0, 0])]
    def slot(self, j):
        """current content of row j -> 'box' values or None if empty / not there"""
        if self.V.symbolic:
            from pyvc import core, npshim
            b = self.o.boxes
            if not core.CTX.fork(core.sand(j >= 0, j < b.shape[0]).t): return None
            row = npshim.base(b.at(j.t))
            return list(row)
        b = self.o.boxes
        if j >= len(b): return None
        return [float(x) for x in b[j]]

def rbox(r):
    import numpy as np
    a, b = sorted([r.choice([r.uniform(-3, 3), float(r.randint(-3, 3))]) for _ in range(2)])
    c, d = sorted([r.choice([r.uniform(-3, 3), float(r.randint(-3, 3))]) for _ in range(2)])
    if r.random() < .2: b = a
    if r.random() < .2: d = c
    return np.array([a, c, b, d])

def vec(V, name, n, lo=-BIG, hi=BIG):
    from pyvc import npshim
    xs = [V.real('%s%d' % (name, i)) for i in range(n)]
    for x in xs: V.assume(x >= lo); V.assume(x <= hi)
    if V.symbolic: return npshim.array(xs)
    import numpy as np
    return np.array(xs)

def member(V, res, j):
    if V.symbolic:
        from pyvc import sarr, core
        if isinstance(res, list) and not res: return core.SBool(core.z3.BoolVal(False))
        if not hasattr(res, 'has'): raise core.Unsupported('result is not an index set')
        return res.has(j)
    return j in set(int(x) for x in res)
