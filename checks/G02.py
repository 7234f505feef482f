import importlib, os, tempfile, io as sio, contextlib
import numpy as np
from pyvc.unit import Unit, need
from checks.G01 import MOD, io, gprint, gs, Fold, Line, Token
T = 'GmshIO.'
HEAD = ['n_str', 'name', 'n_real', 'time', 'n_int', 't_idx', 'n_comp', 'n_el']

def write(dim, pairs):
    def fn(V):
        from pyvc import ghost as g, core
        N, L = V.int('N', lo=0), V.int('L', lo=0)
        M = V.int('n_ids', lo=0)
        vals = g.GArr((N, L) if dim == 2 else (N,), (lambda i, j: g.ufr('v', i, j)) if dim == 2 else (lambda i: g.ufr('v', i, 0)))
        if dim == 1: L = 1
        ids = g.GList(M, lambda i: g.ufi('id', i))
        name = Token(g.Name('field'))
        out = g.Out()
        row = lambda seq, i: g.glist([g.ufi('id', i)]) + g.GList(L, lambda j: g.ufr('v', i, j))
        from pyvc import loops
        fn = loops.contract(io().GmshIO.write_element_data, {0: g.rows(out, row, lambda seq: 'row of an element')}, text=True)
        try: fn(io().GmshIO(), out, ids, name, vals)
        except AssertionError:
            V.ensure('only inconsistent data are refused', (M != N)); V.ensure('nothing is written of refused data', not out.parts); V.cover('refused'); return
        V.cover('written')
        V.ensure('as many ids as rows', M == N)
        text = ''; k = [j for j, p in enumerate(out.parts) if isinstance(p, g.Group)]
        V.ensure('one group of rows', len(k) == 1)
        head, tail = ''.join(out.parts[:k[0]]), ''.join(out.parts[k[0] + 1:])
        V.ensure('all rows', out.parts[k[0]].i == N)
        V.ensure('end mark', tail.split('\n') == ['$EndElementData', ''])
        ls, rest = g.lines(head)
        V.ensure('header lines', not rest and len(ls) == 9 and ls[0] == '$ElementData')
        V.ensure('name', ls[2] == '"%s"' % name)
        for nm, t, v in (('one name', ls[1], 1), ('one time', ls[3], 1), ('three numbers', ls[5], 3), ('time index', ls[6], 0)):
            V.ensure('header: ' + nm, t.strip() == str(v))
        V.ensure('header: time', float(ls[4]) == 0)
        V.ensure('declared number of components', g.text_is(ls[7].strip(), L)); V.ensure('declared number of elements', g.text_is(ls[8].strip(), N))
    return fn
def head(V):
    from pyvc import ghost as g, core
    n = [V.int(k) for k in ('n_str', 'n_real', 'n_int', 't_idx', 'n_comp', 'n_el')]
    t = V.real('time')
    if not V.symbolic:
        n[0] = V.choice('a', 3); n[1] = V.choice('b', 3); n[2] = V.choice('c', 5)
        nm = V.rng.choice(['f', 'a b', '', '"q"', 'x"y'])
    else: nm = Token(g.Name('field'))
    L = ['%s\n' % n[0], '"%s"\n' % nm, '%s\n' % n[1], '%s\n' % t, '%s\n' % n[2], '%s\n' % n[3], '%s\n' % n[4], '%s\n' % n[5]]
    class F:
        k = 0
        def readline(self): F.k += 1; return L[F.k - 1]
    ok = (n[0] == 1) & (n[1] == 1) & (n[2] == 3)
    try: r = io().GmshIO().read_element_data_head(F())
    except AssertionError: V.ensure('only a wrong head is refused', ~ok if V.symbolic else not ok); V.cover('refused'); return
    V.cover('read')
    V.ensure('a wrong head is refused', ok)
    V.ensure('eight lines are read', F.k == 8)
    V.ensure('name', r[0] == nm)
    for a, b, l in zip(r[1:], [t, n[3], n[4], n[5]], ('time', 'time index', 'components', 'elements')): V.ensure(l, a == b)

def block(V):
    from pyvc import ghost as g, core, loops
    C = io().GmshIO
    G = C()
    N, L = V.int('n_el'), V.int('n_comp')
    t, k = V.real('time'), 0
    known = V.choice('known', 3)      # no data of the field, data of another time, data of the same time
    old = {}
    if known: old = {'field': {1 if known == 1 else 0: ('old', 'data')}}
    G.element_data = {a: dict(b) for a, b in old.items()}
    G.read_element_data_head = lambda f: ('field', t, 0, L, N)
    cur = dict(bad=None, n=0)
    pos = [0]
    class File:
        def readline(self):
            i = pos[0]
            if isinstance(i, int) and i == 0 and not cur['n']: i = core.SInt(core.z3.IntVal(0))
            pos[0] = i + 1; cur['n'] += 1
            c = V.choice('line', 4)
            cur['i'] = i
            if c == 0: cur['bad'] = 'end'; return '$EndElementData\n'
            if c == 1: cur['bad'] = 'marker'; return '$Elements\n'
            if c == 2: cur['bad'] = 'blank'; return V.ctx.enumerate(core.CTX.fresh_int('e'), 2) and '\n' or ''
            m = g.ufi('n_values', i); core.CTX.add((m >= 0).t)
            cur['bad'] = None if core.CTX.fork((m == L).t) else 'length'
            return Line(g.glist([Token(g.ufi('id', i))]) + g.GList(m, lambda j: Token(g.ufr('v', i, j))))
    st = dict(n=0)
    def data(L_): return L_['elem_data']
    def inv(L_):
        st['n'] += 1
        d = data(L_)
        if st['n'] == 1: return [('empty at the start', d == {} and pos[0] == 0)]
        i = L_['__i']
        if st['n'] == 2: return []
        P = core.CTX.prove
        P('one line is read per element', core.lift(pos[0]) == i)
        P('malformed lines are refused', cur['bad'] is None)
        P('the line is stored', isinstance(d, Fold) and len(d.ups) == 1)
        (key, v), = d.ups
        P('number of the element', isinstance(key, core.SInt) and key == g.ufi('id', i - 1))
        v = g.glist(v)
        P('number of values', v.n == L)
        q = core.SInt(core.CTX.fresh_int('q'))
        if core.CTX.fork(((q >= 0) & (q < L)).t): P('value', v.at(q) == g.ufr('v', i - 1, q))
        return []
    def havoc(L_):
        pos[0] = L_['__i']; cur['n'] = 1
        f = Fold('data', L_['__i']); st['fold'] = f
        for q in G.element_data.values():      # the same object may be stored already
            for kk, vv in q.items():
                if vv[1] is data(L_): q[kk] = (vv[0], f)
        return dict(elem_data=f)
    sp = loops.Spec(inv, havoc, variant=lambda L_: L_['__n'] - L_['__i'], name='entries', kind='for')
    sp.mut = ('elem_data',)
    fn = loops.contract(C.read_element_data_block, {0: sp}, text=True)
    snap = {a: dict(b) for a, b in old.items()}
    try: fn(G, File())
    except core.Kill: raise
    except Exception as e:
        V.cover('refused')
        V.ensure('only inconsistent sections are refused', known == 2 or cur['bad'] not in (None, 'end') or cur['bad'] == 'end' and bool(core.lift(cur['i']) < N) or cur['bad'] is None and bool(core.lift(cur['i']) >= N))
        return
    V.cover('read')
    V.ensure('a repeated time is refused', known != 2)
    V.ensure('the section ends after the declared entries', cur['bad'] == 'end' and bool(core.lift(cur['i']) == (N if bool(N >= 0) else 0)))
    d = G.element_data
    V.ensure('only the field is changed', set(d) == {'field'} and set(d['field']) == set(old.get('field', {})) | {0} and all(d['field'][k] == v for k, v in old.get('field', {}).items()))
    r = d['field'][0]
    V.ensure('time of the data', r[0] == t)
    if isinstance(r[1], dict): V.ensure('no entries', r[1] == {} and bool(N <= 0))
    else: V.ensure('entries of all declared elements', isinstance(r[1], Fold) and not r[1].ups and bool(r[1].i == (N if bool(N >= 0) else 0)))
def fields(V):
    from pyvc import ghost as g, core, loops
    C = io().GmshIO
    G = C(); G.filename = 'own.msh'
    own = V.choice('own', 2)
    n = V.int('n_fields', lo=0); m = V.int('n_ids', lo=0)
    ids = g.GList(m, lambda i: g.ufi('id', i))
    cls = V.choice('iterator', 2)
    class It:          # an iterator may be consumed only once
        used = 0
        def vc_iter(self):
            It.used += 1
            V.ensure('ids are taken from an iterator once', It.used <= 1); return ids.vc_iter()
    F = g.GMap('fields', n, lambda i: nm(i), lambda i: ('values', i))
    names = {}
    def nm(i):
        k = str(core.term(i)); return names.setdefault(k, Token(g.Name(k)))
    out = g.Out(); calls = []
    opened = []
    class Ctx:
        def __enter__(s): return out
        def __exit__(s, *a): opened.append('closed'); return False
    def op(f, mode='r'): opened.append((f, mode)); return Ctx()
    OP[0] = op
    G.write_element_data = lambda f, e, name, v: calls.append((f, e, name, v))
    st = dict(n=0)
    def inv(L):
        st['n'] += 1
        if st['n'] == 1: return [('nothing written before', not calls)]
        if st['n'] == 2: return []
        i = L['__i'] - 1
        core.CTX.prove('one section per field', len(calls) == 1)
        f, e, name, v = calls[0]
        core.CTX.prove('the section goes to the file', f is out)
        core.CTX.prove('name of the field', name == nm(i)); core.CTX.prove('values of the field', v[0] == 'values' and v[1] == i)
        e = g.to_list(e)
        core.CTX.prove('all ids', e.n == m)
        q = core.SInt(core.CTX.fresh_int('q'))
        if core.CTX.fork(((q >= 0) & (q < m)).t): core.CTX.prove('id', e.at(q) == ids.at(q))
        return []
    def havoc(L): del calls[:]; return {}
    sp = loops.Spec(inv, havoc, variant=lambda L: L['__n'] - L['__i'], name='fields', kind='for')
    loops.contract(C.write_fields, {0: sp}, text=True)(G, None if own else 'x.msh', It() if cls else ids, F)
    V.cover('end')
    V.ensure('the file is written and closed', opened == [('own.msh' if own else 'x.msh', 'w'), 'closed'])
    V.ensure('format of the file', ''.join(p for p in out.parts).split() == ['$MeshFormat', '2.2', '0', '8', '$EndMeshFormat'] and not calls)
OP = [None]
def gopen(*a, **k): return OP[0](*a, **k)
def G_(n):
    def f(*a, **k):
        from pyvc import ghost
        return getattr(ghost, n)(*a, **k)
    return f
EX = {MOD: dict(print=gprint, sorted=gs, zip=G_('gzip'), range=G_('grange'), enumerate=G_('genumerate'), open=gopen)}
def lp(mods): mods[MOD].list = G_('to_list')
AS = ['str() of a number parses back to the number; a field name has no line break', 'lines of a file come one by one from readline']
UNITS = [
    Unit('write_element_data of any number of rows and components', write(2, 1), [T + 'write_element_data'], [MOD], extra=EX, patch=lp, covers=['written', 'refused'], conc=False, allshape=True, assumes=AS, unbounded='numbers of elements and components, ids, values'),
    Unit('write_element_data of scalars', write(1, 1), [T + 'write_element_data'], [MOD], extra=EX, patch=lp, covers=['written', 'refused'], conc=False, allshape=True, assumes=AS, unbounded='number of elements, ids, values'),
    Unit('read_element_data_head', head, [T + 'read_element_data_head'], [MOD], covers=['read', 'refused'], allshape=True, assumes=AS, samples=100),
    Unit('read_element_data_block of any length', block, [T + 'read_element_data_block'], [MOD], extra=EX, patch=lp, covers=['read', 'refused'], conc=False, allshape=True, assumes=AS, unbounded='declared counts, lines of any kind and length'),
    Unit('write_fields of any number of fields', fields, [T + 'write_fields'], [MOD], extra=EX, patch=lp, covers=['end'], conc=False, allshape=True, assumes=AS, unbounded='number of fields and ids'),
]
LEVEL = 'proof'
NOTE = 'Writer and reader of data sections are proved for any numbers of elements, components and fields, malformed sections included; the bounded harness runs whole random files.'
BOUND = 'random fields: up to 4 fields, 12 elements, 9 components; corrupted sections'
BSECS = 6
SHARDS = 4
NAMES = ['f', 'pressure_p0', 'a b', '  x', 'x ', '"', 'q"', '""', 'é', '$x', '', '1', 'a"b']
from checks.G01 import num
def bounded(H):
    import itertools, shutil
    d = tempfile.mkdtemp(prefix='vg02'); f = os.path.join(d, 'm.msh')
    try:
        for it in itertools.count():
            if not H.time_left(): break
            r = H.rng(it)
            n = r.choice([0, 1, 2, 12]); ids = r.sample(range(1, 40), n)
            F = {}
            for _ in range(r.choice([0, 1, 2, 4])):
                L = r.choice([1, 1, 3, 9]); one = r.random() < .2
                v = np.array([[float(num(r)) for _ in range(L)] for _ in range(n)]).reshape(n, L)
                if r.random() < .2: v = np.rint(v % 100).astype(int)
                F[r.choice(NAMES)] = v[:, 0].copy() if one else v
            G = io().GmshIO()
            H.case((list(F), n, [v.shape for v in F.values()]), it)
            src = {0: lambda: ids, 1: lambda: np.array(ids, dtype=int), 2: lambda: iter(ids), 3: lambda: tuple(ids)}[r.randrange(4)]()
            if r.random() < .3: G.filename = f; G.write_fields(None, src, F)
            else: G.write_fields(f, src, F)
            t = open(f).read()
            R = read(f)
            H.check(set(R.element_data) == set(F), 'names of the fields', lambda: '%r %r' % (list(R.element_data), list(F)))
            for k, v in F.items():
                H.check(set(R.element_data[k]) == {0} and R.element_data[k][0][0] == 0, 'time of a field')
                v = v.reshape(n, v.shape[1] if v.ndim > 1 else 1)
                H.check(R.element_data[k][0][1] == {i: [float(x) for x in q] for i, q in zip(ids, v)}, 'values of a field', lambda: '%r %r\n%s' % (R.element_data[k], v.tolist(), t[:2000]))
            if F and n:
                b = t.split('$ElementData\n')
                j = r.randrange(1, len(b)); L = b[j].split('\n')
                c = r.randrange(6)
                body = 8
                i = r.randrange(body, body + n)
                w = F[list(F)[j - 1]]
                if c == 0: L.pop(i)
                elif c == 1: L.insert(i, L[i])
                elif c == 2: L[i] += ' 1.5'
                elif c == 3: L[i] = ' '.join(L[i].split()[:-1])
                elif c == 4: L[6] = str(int(L[6]) + r.choice([1, -1]))
                else: L[7] = str(int(L[7]) + r.choice([1, -1]))
                b[j] = '\n'.join(L); t2 = '$ElementData\n'.join(b)
                if r.random() < .2: t2 = '\n'.join(t2.split('\n')[:-2]) if c == 0 else t2
                open(f, 'w').write(t2)
                try: read(f)
                except Exception: pass
                else: H.check(False, 'inconsistent sections are refused', lambda: '%d\n%s' % (c, t2[:2000]))
            try: G.write_fields(f, ids + [99], {'x': np.zeros((n, 2))}); H.check(False, 'different numbers of ids and values are refused')
            except AssertionError: pass
            except ValueError: pass
            # times: more sections of one field
            R = io().GmshIO()
            T = r.sample(range(6), 3); V = {}
            for q in T:
                s = sio.StringIO()
                V[q] = {i: [float(num(r))] for i in ids}
                tm = float(num(r))
                s = sio.StringIO('1\n"a"\n1\n%r\n3\n%d\n1\n%d\n%s$EndElementData\n' % (tm, q, n, ''.join('%d %r\n' % (i, x[0]) for i, x in V[q].items())))
                R.read_element_data_block(s); V[q] = (tm, V[q])
            H.check(R.element_data == {'a': V}, 'times of a field', lambda: '%r %r' % (R.element_data, V))
    finally: shutil.rmtree(d, ignore_errors=True)
def read(f):
    with contextlib.redirect_stdout(sio.StringIO()): return io().GmshIO(f)
