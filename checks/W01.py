import importlib
from pyvc.unit import Unit, need
from checks import brep
LEVEL = 'proof'
NOTE = 'Proved on the source of brep_writer: each object is indexed at most once and gets its place as number; every _dfs lists all parts of its object (any number of children, factors, representations, wires and edges), parts of the same group before their users, by induction over the model; write_model writes the declared counts and exactly one record per listed object in the order of its numbers (any numbers of records); records (W02 units) reference these numbers. Bounded: whole random models with shared parts, built, printed, changed and written repeatedly; every file is read by an independent reader and walked side by side with the model in memory.'
from checks import brepi, brepu
UNITS = brepi.units()
BOUND = 'random shape graphs of up to about 60 shapes with shared parts, several writes, prints and changes in between'
BSECS = 8
SHARDS = 5
def bounded(H):
    import itertools
    for it in itertools.count():
        if not H.time_left(): break
        r = H.rng(it)
        M = brep.Model(r)
        roots = []
        for k in range(r.randrange(1, 9)):
            if not H.time_left(): break
            c = r.random()
            H.case((it, k, M.hist[-20:]), (it, k))
            if c < .6 or not roots:
                roots.append(M.any()); M.hist.append(type(roots[-1]).__name__)
            elif c < .75:
                o = r.choice(M.all()); M.hist.append('repr ' + type(o).__name__); repr(o); continue
            elif c < .85:
                if M.E: M.reprs(r.choice(M.E)); M.hist.append('attach')
            else:
                o = r.choice(roots)
                if isinstance(o, (M.b.Compound,)): o.append(M.ref(M.some(M.F, M.face))); M.hist.append('append')
            o = r.choice(roots) if r.random() < .7 else r.choice(M.all())
            loc = M.loc(); M.hist.append('write ' + type(o).__name__)
            tree0 = tree(o)
            t = brep.write(o, loc)
            try: brep.Compare(brep.Reader(t).model(), numbers=False).run(o, loc)
            except brep.Bad as e: H.check(False, 'file matches the model', lambda: '%s %s\n%s' % (e, M.hist, t[:4000]))
            H.check(tree(o) == tree0, 'writing keeps the shape tree', lambda: str(M.hist))
def tree(o, d=0): return (id(o), type(o).__name__, tuple(o.flags.items()), tuple((int(c.orientation), id(c.location), tree(c.shape)) for c in o.childs))
