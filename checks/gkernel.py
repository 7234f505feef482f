"""A geometry kernel with arbitrary answers: stands for gmsh.model and gmsh.model.occ in the contracts of the object
sets. Tags it returns are arbitrary; every request is recorded. `dirty` is set by every change of the geometry and
cleared by synchronize: the questions gmsh answers from the synchronised model must not be asked while it is set."""
class Kernel:
    def __init__(self, V, G, tags='symbolic'):
        self.V, self.G, self.tags = V, G, tags
        self.dirty = False; self.synced = False; self.calls = []; self.stale = []
        self.boundary_answer = None; self.boundary_asked = None; self.boundary_combined = None
        self.groups = {}; self.names = {}; self.removed = []; self.ents = []; self.meshed = None; self.sizes = []
        self.cnt = 0; self.maxparts = 2; self.maps = []; self.bounds = []; self.masses = {}
        self.old = G.gmsh
        K = self
        class Miss:
            def __getattr__(self, name):
                if name.startswith('__'): raise AttributeError(name)
                from pyvc.core import Unsupported
                raise Unsupported('geometry kernel: ' + name)
        class Mesh(Miss):
            def generate(self, dim=3): K.ask('generate'); K.meshed = dim
            def removeDuplicateNodes(self, *a): pass
            def getLastEntityError(self): return []
            def setSize(self, dimTags, size): K.sizes.append((list(dimTags), size))
        class Model(Miss):
            mesh = Mesh()
            def getBoundary(self, dimTags, combined=True, oriented=True, recursive=False): K.ask('getBoundary'); return K.get_boundary(dimTags, combined, oriented, recursive)
            def addPhysicalGroup(self, dim, tags, tag=-1, name=''):
                K.ask('addPhysicalGroup'); g = len(K.groups) + 1; K.groups[g] = (dim, list(tags))
                if name: K.names[g] = (dim, name)
                return g
            def setPhysicalName(self, dim, tag, name): K.names[tag] = (dim, name)
            def getEntities(self, dim=-1): K.ask('getEntities'); return [e for e in K.ents if dim in (-1, e[0])]
        class Occ(Miss):
            def __getattr__(self, name):
                if name.startswith('add'):
                    def add(*a, **k):
                        K.dirty = True; K.calls.append((name, a)); return K.new(0)[1]
                    return add
                return Miss.__getattr__(self, name)
            def synchronize(self): K.synced = True; K.dirty = False; K.calls.append(('synchronize',))
            def copy(self, dimTags): return K.op_copy(dimTags)
            def fragment(self, objectDimTags, toolDimTags, tag=-1, removeObject=True, removeTool=True): return K.boolean('fragment', objectDimTags, toolDimTags, removeObject, removeTool)
            def cut(self, objectDimTags, toolDimTags, tag=-1, removeObject=True, removeTool=True): return K.boolean('cut', objectDimTags, toolDimTags, removeObject, removeTool)
            def intersect(self, objectDimTags, toolDimTags, tag=-1, removeObject=True, removeTool=True): return K.boolean('intersect', objectDimTags, toolDimTags, removeObject, removeTool)
            def fuse(self, objectDimTags, toolDimTags, tag=-1, removeObject=True, removeTool=True): return K.boolean('fuse', objectDimTags, toolDimTags, removeObject, removeTool)
            def getMass(self, dim, tag): return K.mass(dim, tag)
            def remove(self, dimTags, recursive=False): K.dirty = True; K.removed += list(dimTags); K.calls.append(('remove', list(dimTags), recursive))
            def translate(self, dimTags, dx, dy, dz): K.dirty = True; K.calls.append(('translate', list(dimTags), dx, dy, dz))
            def rotate(self, dimTags, x, y, z, ax, ay, az, angle): K.dirty = True; K.calls.append(('rotate', list(dimTags), x, y, z, ax, ay, az, angle))
            def dilate(self, dimTags, x, y, z, a, b, c): K.dirty = True; K.calls.append(('dilate', list(dimTags), x, y, z, a, b, c))
            def removeAllDuplicates(self): K.dirty = True
        self.occ = Occ()
        class Gm(Miss):
            model = Model()
        Gm.model.occ = self.occ
        self.gm = Gm()
        G.gmsh = self.gm
    def end(self): self.G.gmsh = self.old
    def ask(self, what):
        if self.dirty: self.stale.append(what)
    def factory(self):
        F = self.G.GeometryOCC
        if not hasattr(F, '_vc_del'):
            F._vc_del = True; F.__del__ = lambda s: None
        f = F.__new__(F)
        # the part of the constructor that does not talk to gmsh
        f.model, f.model_name, f._region_names, f._need_synchronize = self.occ, 'm', {}, False
        return f
    # ------------------------------------------------ answers
    def new(self, d):
        self.cnt += 1
        if self.tags == 'concrete': return (d, 100 + self.cnt)
        return (d, self.V.int('new%d' % self.cnt, lo=1))
    def get_boundary(self, dt, combined, oriented, recursive):
        dt = list(dt)
        self.boundary_asked, self.boundary_combined, self.boundary_oriented = dt, combined, oriented
        n = self.V.choice('boundary size', 3)
        top = max([d for d, t in dt], default=0)
        self.boundary_answer = [self.new(max(0, top - 1)) for i in range(n)]
        self.bounds.append((dt, combined, self.boundary_answer))
        return list(self.boundary_answer)
    def op_copy(self, dt):
        self.dirty = True
        r = [self.new(d) for d, t in dt]
        self.calls.append(('copy', list(dt), r))
        return list(r)
    def boolean(self, op, a, b, ro, rt):
        """arbitrary parts of every entity; a part may be shared by several entities"""
        self.dirty = True
        a, b = list(a), list(b)
        out, m = [], []
        for d, t in a + b:
            n = self.V.choice('parts', self.maxparts + 1)
            parts = []
            for i in range(n):
                old = [p for p in out if p[0] == d and p not in parts] if self.tags == 'concrete' else []
                k = self.V.choice('shared', len(old) + 1) if old else 0
                if k: p = old[k - 1]
                else: p = self.new(d); out.append(p)
                parts.append(p)
            m.append(parts)
        self.maps.append((op, a, b, ro, rt, m))
        return list(out), [list(p) for p in m]
    def mass(self, d, t):
        k = (d, id(t) if not isinstance(t, int) else t)
        if k not in self.masses: self.masses[k] = self.V.real('mass%d' % len(self.masses))
        return self.masses[k]
def kernel(V, G, **k): return Kernel(V, G, **k)
