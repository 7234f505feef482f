import importlib
from pyvc.unit import Unit, need
MOD = 'bgem.gmsh.gmsh_io'
def io(): return importlib.import_module(MOD)

# ------------------------------------------------------------------ ghost meshes of any size
def mesh(V):
    from pyvc import ghost as g
    nn, ne, np_ = V.int('n_nodes', lo=0), V.int('n_elements', lo=0), V.int('n_regions', lo=0)
    nodes = g.GMap('nodes', nn, lambda i: g.ufi('node_id', i), lambda i: [g.ufr('x', i), g.ufr('y', i), g.ufr('z', i)])
    def tags(i):
        return g.GList(cnt(V, 'n_tags', i), lambda k: g.ufi('tag', i, k))
    def enodes(i):
        return g.GList(cnt(V, 'n_el_nodes', i), lambda k: g.ufi('el_node', i, k))
    els = g.GMap('elements', ne, lambda i: g.ufi('el_id', i), lambda i: (g.ufi('el_type', i), tags(i), enodes(i)))
    names = {}
    def name(i):
        from pyvc import core
        k = str(core.term(i))
        if k not in names: names[k] = Token(g.Name(k))
        return names[k]
    phys = g.GMap('physical', np_, name, lambda i: (g.ufi('reg_id', i), g.ufi('reg_dim', i)))
    return nodes, els, phys, name
def Token(v):
    from pyvc import ghost as g
    return g.stok(v)
def cnt(V, name, i):
    from pyvc import ghost as g
    k = g.ufi(name, i); V.ctx.add((k >= 0).t); return k
def row(seq, i, M):
    from pyvc import ghost as g, core
    nodes, els, phys, name = M
    if seq.tag == 'nodes': return g.glist([g.ufi('node_id', i), g.ufr('x', i), g.ufr('y', i), g.ufr('z', i)])
    if seq.tag == 'elements':
        t, tags, en = els.val(i)
        return g.glist([g.ufi('el_id', i), t, tags.n]) + tags + en
    rid, dim = phys.val(i)
    return g.glist([dim, rid, core.CTX.tokens[name(i)]])

def write(V):
    from pyvc import ghost as g, loops, core
    G = io().GmshIO()
    M = mesh(V)
    G.nodes, G.elements, G.physical = M[:3]
    out = g.Out(); PR[0] = out.print
    lab = lambda seq: 'row of ' + seq.tag
    specs = {k: g.rows(out, lambda seq, i: row(seq, i, M), lab) for k in (0, 1, 2)}
    loops.contract(io().GmshIO.write_ascii, specs, text=True)(G, out)
    V.cover('written')
    # sections of the text
    sec, cur, want = {}, None, {'$PhysicalNames': 'physical', '$Nodes': 'nodes', '$Elements': 'elements'}
    text = ''
    items = []
    for p in out.parts:
        if isinstance(p, str): text += p; continue
        ls, rest = g.lines(text); V.ensure('a row starts on a new line', not rest)
        items += ls + [p]; text = ''
    ls, rest = g.lines(text); V.ensure('last line complete', not rest); items += ls
    for x in items:
        if isinstance(x, str) and not x.strip(): continue
        if isinstance(x, str) and x.startswith('$End'): V.ensure('sections are closed', cur == '$' + x.strip()[4:]); cur = None
        elif isinstance(x, str) and x.startswith('$'): V.ensure('sections do not nest or repeat', cur is None and x.strip() not in sec); cur = x.strip(); sec[cur] = []
        else: V.ensure('records are in a section', cur is not None); sec[cur].append(x)
    V.ensure('last section is closed', cur is None)
    V.ensure('format', [x.split() for x in sec.get('$MeshFormat', [])] == [['2.2', '0', '8']] and list(sec)[:1] == ['$MeshFormat'])
    for s, m in want.items():
        q = sec.get(s, [])
        V.ensure('section of ' + m, len(q) == 2 and isinstance(q[0], str) and isinstance(q[1], g.Group) and q[1].seq.tag == m)
        n = dict(nodes=M[0], elements=M[1], physical=M[2])[m].n
        V.ensure('declared number of ' + m, g.text_is(q[0].strip(), n))
        V.ensure('all records of ' + m, q[1].i == n)
PR = [None]
def gprint(*a, **k):
    if PR[0]: PR[0](*a, **k)

# ------------------------------------------------------------------ reader
class Fold:
    """map holding the records of the first i lines of the file, and later updates"""
    def __init__(self, tag, i): self.tag, self.i, self.ups = tag, i, []
    def __setitem__(self, k, v): self.ups.append((k, v))
    def vc_len(self):
        from pyvc import ghost as g
        return g.ufi('len_' + self.tag, self.i)
    def __getattr__(self, n):
        from pyvc import core
        raise core.Unsupported('use of a map while reading: ' + n)
    __getitem__ = __contains__ = __iter__ = __len__ = lambda self, *a: self.__getattr__('item')
class Line:
    """a record line: columns as ghost list of texts; name: the text after the first two columns"""
    def __init__(self, cols, name=None): self.cols, self.name = cols, name
    def strip(self, *a): return self
    rstrip = lstrip = strip
    def startswith(self, p):
        from pyvc import core
        if p != '$': raise core.Unsupported('startswith')
        return False
    def __bool__(self): return True
    def __eq__(self, o): return False
    __hash__ = object.__hash__
    def __radd__(self, o): return o + '<line>'
    def __add__(self, o): return '<line>' + o
    def __str__(self): return '<line>'
    def split(self, sep=None, maxsplit=-1):
        from pyvc import ghost as g, core
        if sep is not None: raise core.Unsupported('split at a separator')
        if self.name is None:
            if maxsplit != -1 and not core.CTX.fork((self.cols.n <= maxsplit).t if core.is_sym(self.cols.n) else core.z3.BoolVal(self.cols.n <= maxsplit)): raise core.Unsupported('maxsplit')
            return self.cols
        a, b = self.cols
        if maxsplit == 2: return [a, b, self.name]
        if maxsplit != -1: raise core.Unsupported('maxsplit')
        w = core.SInt(core.CTX.fresh_int('words')); core.CTX.add((w >= 1).t)
        if core.CTX.fork((w == 1).t): return [a, b, self.name]
        return g.glist([a, b]) + g.GList(w, lambda i: Token('word of a name'))
MODES = {'$NOD': 1, '$Nodes': 1, '$ELM': 2, '$Elements': 3, '$MeshFormat': 4, '$PhysicalNames': 5}
def read(V):
    from pyvc import ghost as g, loops, core
    C = io().GmshIO
    G = C()
    V.ensure('a new object is empty', G.nodes == {} and G.elements == {} and G.physical == {} and G.element_data == {})
    PR[0] = None
    n = V.int('n_lines', lo=0)
    tags = ('nodes', 'elements', 'physical')
    cur = dict(kind=None)
    mode = lambda i: g.ufi('section', i)
    def tk(v): return Token(v)
    def at(i):
        """line i of the file: any line that may stand in the section at that place"""
        m = mode(i)
        for k in range(6):
            if core.CTX.fork((m == k).t): break
        else: raise core.Kill()
        marks = list(MODES) + ['$ElementData', '$EndNodes', '$Comments']
        kinds = ['marker', 'blank', 'other' if k == 0 else 'count' if k != 4 else 'format'] + {1: ['node'], 2: ['el1'], 3: ['el2'], 5: ['name']}.get(k, [])
        kind = kinds[V.choice('kind', len(kinds))]
        cur.update(kind=kind, k=k, i=i)
        nxt = k
        if kind == 'marker':
            mk = marks[V.choice('mark', len(marks))]
            if mk == '$ElementData' and k: raise core.Kill()       # precondition: inside no other section
            nxt = MODES.get(mk, 0); cur['mark'] = mk; line = mk + '\n'
        elif kind == 'blank': line = '\n'
        elif kind == 'other': line = '1 2 3 4 5 6 7\n'
        elif kind == 'count': line = Line(g.glist([tk(g.ufi('count', i))]))
        elif kind == 'format': line = '2.2 0 8\n'
        elif kind == 'node':
            r = cur['rec'] = (g.ufi('id', i), [g.ufr('x', i), g.ufr('y', i), g.ufr('z', i)])
            line = Line(g.glist([tk(r[0])] + [tk(x) for x in r[1]]))
        elif kind in ('el1', 'el2'):
            ne = cnt(V, 'n_el_nodes', i); core.CTX.add((ne >= 1).t)
            en = g.GList(ne, lambda q: g.ufi('el_node', i, q)); en_t = g.GList(ne, lambda q: tk(g.ufi('el_node', i, q)))
            if kind == 'el2':
                nt = cnt(V, 'n_tags', i)
                tg = g.GList(nt, lambda q: g.ufi('tag', i, q)); tg_t = g.GList(nt, lambda q: tk(g.ufi('tag', i, q)))
                cols = g.glist([tk(g.ufi('id', i)), tk(g.ufi('type', i)), tk(nt)]) + tg_t + en_t
            else:
                tg = g.glist([g.ufi('tag', i, 0), g.ufi('tag', i, 1)])
                cols = g.glist([tk(g.ufi('id', i)), tk(g.ufi('type', i)), tk(g.ufi('tag', i, 0)), tk(g.ufi('tag', i, 1)), tk(ne)]) + en_t
            cur['rec'] = (g.ufi('id', i), (g.ufi('type', i), tg, en))
            line = Line(cols)
        else:
            nm = tk(g.Name('name'))
            cur['rec'] = (nm, (g.ufi('rid', i), g.ufi('dim', i)))
            line = Line([tk(g.ufi('dim', i)), tk(g.ufi('rid', i))], nm)
        core.CTX.add((mode(i + 1) == nxt).t)
        V.cover(kind)
        return line
    st = dict(n=0)
    def inv(L):
        st['n'] += 1
        if st['n'] == 1:
            core.CTX.add((mode(0) == 0).t)
            return [('outside of sections at the start', core.lift(L['readmode']) == 0), ('text format', L['ftype'] == 0)]
        i = L['__i']
        if st['n'] > 2:
            tag = dict(node='nodes', el1='elements', el2='elements', name='physical').get(cur['kind'])
            for t in tags:
                d = getattr(G, t); want = [cur['rec']] if t == tag else []
                core.CTX.prove('%s records of the file: only what the line says' % t, isinstance(d, Fold) and len(d.ups) <= len(want))
                core.CTX.prove('%s records of the file: the line is stored' % t, len(d.ups) >= len(want))
                if want: stored(V, t, d.ups[0], want[0])
            core.CTX.prove('every data section is read', st['blocks'] == (1 if cur['kind'] == 'marker' and cur['mark'] == '$ElementData' else 0))
        return [('section', core.lift(L['readmode']) == mode(i)), ('text format', L['ftype'] == 0)]
    def havoc(L):
        for t in tags: setattr(G, t, Fold(t, L['__i']))
        st['blocks'] = 0
        md = mode(L['__i'])
        core.CTX.add(((md >= 0) & (md <= 5)).t)
        return dict(readmode=md, ftype=0)
    class File:
        name = 'ghost'; closed = False
        def readline(self): raise core.Unsupported('readline')
        def close(self): File.closed = True
    G.read_element_data_block = lambda f: st.update(blocks=st['blocks'] + 1)
    def it(f, s=None):
        if s != '': raise core.Unsupported('iteration over the lines')
        return g.GList(n, at)
    IT[0] = it
    sp = loops.Spec(inv, havoc, variant=lambda L: L['__n'] - L['__i'], name='reading', kind='for')
    sp.frame = ('vno', 'dsize')
    loops.contract(C.read, {0: sp}, text=True)(G, File())
    V.cover('end')
    for t in tags:
        d = getattr(G, t)
        V.ensure('%s hold exactly the records of the file' % t, isinstance(d, Fold) and not d.ups and d.i == n)
def stored(V, t, got, want):
    from pyvc import ghost as g, core
    (k, v), (k0, v0) = got, want
    P = core.CTX.prove
    if t == 'physical':
        P('region: name', k is k0 or k == k0); P('region: number and dimension', isinstance(v, tuple) and len(v) == 2 and (v[0] == v0[0]) & (v[1] == v0[1])); return
    P(t + ': number of the record', isinstance(k, core.SInt) and k == k0)
    if t == 'nodes':
        v = list(v); P('nodes: three coordinates', len(v) == 3)
        for a, b in zip(v, v0): P('nodes: coordinate', core.lift(a) == b)
        return
    P('elements: record of type, tags, nodes', len(v) == 3)
    P('elements: type', v[0] == v0[0])
    for nm, a, b in (('tags', v[1], v0[1]), ('nodes', v[2], v0[2])):
        a, b = g.glist(a), g.glist(b)
        P('elements: number of ' + nm, a.n == b.n)
        q = core.SInt(core.CTX.fresh_int('q'))
        if core.CTX.fork(((q >= 0) & (q < b.n)).t): P('elements: ' + nm, a.at(q) == b.at(q))
IT = [None]
def giter(*a):
    if IT[0] and len(a) == 2: return IT[0](*a)
    return iter(*a)
def gs(x, **k):
    from pyvc import ghost
    return ghost.gsorted(x, **k)
EX = {MOD: dict(print=gprint, sorted=gs, iter=giter)}
AS = ['sorted() permutes the entries of a map (any order of the rows is covered)', 'str() of a number parses back to the number; a name has no line break and no blank at its ends',
      'lines of a file come one by one from readline; text form only (the binary reader is out of scope)']
UNITS = [
    Unit('write_ascii writes every record of a mesh of any size', write, ['GmshIO.write_ascii'], [MOD], extra=EX, covers=['written'], conc=False, allshape=True, assumes=AS, unbounded='numbers of nodes, elements, regions, tags and element nodes, all ids and coordinates'),
    Unit('read stores every record of a file of any length', read, ['GmshIO.read', 'GmshIO.__init__', 'GmshIO.reset'], [MOD], extra=EX, covers=['end', 'marker', 'blank', 'node', 'el1', 'el2', 'name', 'count'], conc=False, allshape=True, assumes=AS, unbounded='number and order of lines and sections, element types, numbers of tags and nodes'),
]
LEVEL = 'proof'
NOTE = 'Writer and reader are proved against one description of the file, for any number of records; the bounded harness runs whole random files.'

# ------------------------------------------------------------------ bounded: whole files
import os, tempfile, io as sio, contextlib, math
import numpy as np
BOUND = 'random meshes of up to 12 nodes, elements and 6 regions, written, read, written again; random files with any order of sections, blank lines, unknown sections, both ASCII formats'
BSECS = 6
SHARDS = 4
SIZES = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 7: 5, 8: 3, 9: 6, 11: 10, 15: 1, 20: 9, 92: 64, 93: 125}
WORDS = ['fr', 'box', 'side', 'a', '.x', '1', '2', '"', "'", 'é', '#', '$', '%', 'End', '-3', '\\']
def num(r):
    c = r.random()
    if c < .3: return r.choice([0., -0., 1., .1, .1 + .2, 1 / 3, 1e-300, 5e-324, 1.7976931348623157e308, -1e22, 123456789.123456789])
    if c < .4: return r.randrange(-5, 6)
    x = r.uniform(-1, 1) * 10 ** r.randrange(-12, 12)
    return np.float64(x) if c > .9 else x
def name(r, quoted=None):
    w = (' ' * r.randrange(1, 3)).join(r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 3])))
    return '"%s"' % w.replace('"', '') if (r.random() < .5 if quoted is None else quoted) else w
def rmesh(r):
    ident = (lambda: r.randrange(1, 60)) if r.random() < .5 else (lambda: r.choice([r.randrange(1, 10), r.randrange(1, 2**31), 10**12, 0]))
    nodes = {ident(): [num(r) for _ in range(3)] for _ in range(r.choice([0, 1, 3, 12]))}
    els = {}
    for _ in range(r.choice([0, 1, 3, 12])):
        t = r.choice(list(SIZES)); n = SIZES[t]
        els[ident()] = (t, [r.randrange(-3, 20) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 7]))], [ident() for _ in range(n)])
    phys = {name(r): (r.choice([0, 1, 7, -2, 2**31]), r.randrange(0, 4)) for _ in range(r.choice([0, 1, 2, 6]))}
    return nodes, els, phys
def same(G, nodes, els, phys):
    if dict(G.physical) != {k: tuple(v) for k, v in phys.items()}: return 'regions %r %r' % (G.physical, phys)
    if set(G.nodes) != set(nodes) or any(list(map(float, G.nodes[k])) != list(map(float, v)) for k, v in nodes.items()): return 'nodes %r %r' % (G.nodes, nodes)
    if {k: (a, list(b), list(c)) for k, (a, b, c) in G.elements.items()} != els: return 'elements %r %r' % (G.elements, els)
def sections(t):
    """counts and records of the sections of a file"""
    out = {}; cur = None
    for l in t.split('\n'):
        if l.startswith('$End'): cur = None
        elif l.startswith('$'): cur = l; out[cur] = []
        elif cur: out[cur].append(l)
    return out
def file_text(r, nodes, els, phys):
    """an equivalent file, not as the writer lays it out"""
    v1 = r.random() < .25 and not phys
    sp = lambda: ' ' * r.choice([1, 1, 2, 5]) if r.random() < .8 else '\t'
    ln = lambda *a: (' ' if r.random() < .1 else '') + sp().join(str(x) for x in a) + (' ' if r.random() < .1 else '') + '\n'
    fl = lambda x: r.choice([repr, lambda y: '%.17g' % y, lambda y: '%.16e' % y])(float(x))
    N = [ln(k, *[fl(x) for x in v]) for k, v in nodes.items()]
    if v1: E = [ln(k, t, g[0], g[1], len(n), *n) for k, (t, g, n) in els.items()]
    else: E = [ln(k, t, len(g), *g, *n) for k, (t, g, n) in els.items()]
    P = ['%s%d%s%d%s%s\n' % ('', d, sp(), i, sp(), n) for n, (i, d) in phys.items()]
    S = []
    for nm, L in ((('$NOD', '$ENDNOD') if v1 else ('$Nodes', '$EndNodes'), N), (('$ELM', '$ENDELM') if v1 else ('$Elements', '$EndElements'), E), (('$PhysicalNames', '$EndPhysicalNames'), P)):
        if nm[0] == '$PhysicalNames' and not P and r.random() < .7: continue
        r.shuffle(L)
        blank = lambda: '\n' if r.random() < .05 else ''
        S.append(nm[0] + '\n' + '%d\n' % len(L) + ''.join(x + blank() for x in L) + nm[1] + '\n')
    if r.random() < .3: S.append('$Comments\n1 2 3 4 5 6\nnothing 3 4\n$EndComments\n')
    r.shuffle(S)
    j = r.choice(['', '', '\n', '\n\n'])
    return ('' if v1 else '$MeshFormat\n2.2 0 8\n$EndMeshFormat\n') + j.join(S)
def v1_ok(els): return {k: (t, (g + [0, 0])[:2], n) for k, (t, g, n) in els.items()}
def bounded(H):
    import itertools
    d = tempfile.mkdtemp(prefix='vg01')
    f = os.path.join(d, 'm.msh')
    try:
        for it in itertools.count():
            if not H.time_left(): break
            r = H.rng(it)
            nodes, els, phys = rmesh(r)
            if it % 2:
                H.case(('write', len(nodes), len(els), list(phys)), it)
                G = io().GmshIO(); G.nodes, G.elements, G.physical = dict(nodes), dict(els), dict(phys)
                G.filename = f
                with contextlib.redirect_stdout(sio.StringIO()):
                    for k in range(2):
                        if r.random() < .5: G.write_ascii()
                        else:
                            with open(f, 'w') as s: G.write_ascii(s)
                        t = open(f).read()
                        G = io().GmshIO(f)
                        e = same(G, nodes, els, phys); H.check(not e, 'round trip', lambda: '%s\n%s' % (e, t[:3000]))
                        s = sections(t)
                        for k, m in (('$Nodes', nodes), ('$Elements', els), ('$PhysicalNames', phys)):
                            H.check(s[k][0].strip() == str(len(m)) and len([x for x in s[k] if x.strip()]) == len(m) + 1, 'counts written', lambda: t[:3000])
            else:
                els = v1_ok(els)
                t = file_text(r, nodes, els, phys)
                H.case(('read', t[:300]), it)
                open(f, 'w').write(t)
                with contextlib.redirect_stdout(sio.StringIO()): G = io().GmshIO(f)
                e = same(G, nodes, els, phys); H.check(not e, 'records of the file', lambda: '%s\n%s' % (e, t[:3000]))
    finally:
        import shutil; shutil.rmtree(d, ignore_errors=True)
