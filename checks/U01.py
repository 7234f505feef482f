import importlib
from pyvc.unit import Unit, need
UN = 'bgem.undo'
def un(): return importlib.import_module(UN)
LEVEL = 'proof'
NOTE = 'Proof over histories of any length: undo, redo, recording, clear, counts, texts, save points and receivers are proved against the abstract linear history (two sequences of symbolic length with opaque entries whose do/undo may fail or record actions of their own); group undo/redo order is proved for groups of any size by a loop contract. Entries and callbacks are assumed not to reach into the private fields of the stack. Bounded random histories with nested groups, failures and save points run against a reference history on the real code.'
T = 'undo.py:'
UNITS = []

class Boom(Exception): pass

class GDeque:
    """sequence: `n` opaque entries of an arbitrary older history, then `extra`"""
    def __init__(self, V, name):
        self.name = name
        if V.symbolic:
            self.n = V.int('n_' + name, lo=0)
        else:
            self.n = V.int('n_' + name, lo=0, hi=5)
        self.extra = []
        self.V = V
        self.cache = {}
    def _nonempty(self): return bool(self.n > 0)
    def entry(self, k):
        """entry number n-k of the opaque part (k = 1 is its last one)"""
        if k not in self.cache: self.cache[k] = Entry(self.V, '%s[-%d]' % (self.name, k))
        return self.cache[k]
    def popped(self): return getattr(self, '_popped', 0)
    def append(self, x): self.extra.append(x)
    def pop(self):
        if self.extra: return self.extra.pop()
        if not self._nonempty(): raise IndexError('pop from an empty deque')
        self._popped = self.popped() + 1
        self.n = self.n - 1
        return self.entry(self._popped)
    def clear(self):
        self.extra = []; self.n = self.n * 0; self._popped = -1000
    def vc_len(self): return self.n + len(self.extra)
    def __len__(self): return int(self.vc_len())
    def __bool__(self): return bool(self.vc_len() > 0)
    def __getitem__(self, i):
        from pyvc import core
        if i != -1: raise core.Unsupported('entry other than the last one')
        if self.extra: return self.extra[-1]
        if not self._nonempty(): raise IndexError('deque index out of range')
        return self.entry(self.popped() + 1)
    def __iter__(self):
        from pyvc import core
        raise core.Unsupported('iteration over the history')
    def state(self): return (self.n, list(self.extra), self.popped())

class Entry:
    """opaque history entry"""
    def __init__(self, V, name): self.V, self.name, self.calls, self.mode, self.stack = V, name, [], 0, None
    def _run(self, what):
        self.calls.append(what)
        if self.mode & 2: self.stack.append(Entry(self.V, 'inner of ' + self.name))
        if self.mode & 1: raise Boom()
    def do(self): self._run('do')
    def undo(self): self._run('undo')
    def text(self): return 'T' + self.name

class Recv(list): pass

def make(V, receiver=None):
    s = un().Stack()
    need(s, '_undos'); need(s, '_redos'); need(s, '_receiver'); need(s, '_savepoint')
    s._undos = GDeque(V, 'undos'); s._redos = GDeque(V, 'redos')
    k = V.choice('receiver', 3) if receiver is None else receiver
    s._receiver = [s._undos, Recv(), None][k]
    V.recv = s._receiver
    sp = V.choice('savepoint', 2)
    s._savepoint = None if sp == 0 else V.int('sp', lo=0)
    calls = []
    s.undocallback = lambda: calls.append('u')
    s.docallback = lambda: calls.append('d')
    return s, calls, k

def same(V, lab, d, n, extra):
    V.ensure(lab, d.n == n)
    V.ensure(lab, len(d.extra) == len(extra) and all(a is b for a, b in zip(d.extra, extra)))

def undo_redo(which):
    def fn(V):
        s, calls, k = make(V)
        src, dst = (s._undos, s._redos) if which == 'undo' else (s._redos, s._undos)
        mode = V.choice('mode', 4)
        n0, m0, sp0 = src.n, dst.n, s._savepoint
        top = src.entry(1); top.mode = mode; top.stack = s
        if bool(n0 == 0):
            V.cover('nothing')
            r = getattr(s, which)()
            same(V, 'nothing to do: history unchanged', src, n0, []); same(V, 'nothing to do: history unchanged', dst, m0, [])
            V.ensure('nothing to do: no notification', calls == [])
            V.ensure('nothing to do: receiver kept', s._receiver is V.recv)
            return
        failed = False
        try: getattr(s, which)()
        except Boom: failed = True
        V.ensure('only the most recent entry ran, once', top.calls == [which if which == 'undo' else 'do'] and len(src.cache) == 1 and not dst.cache)
        V.ensure('error passed on exactly when the entry fails', failed == bool(mode & 1))
        if failed:
            V.cover('failure')
            V.ensure('history dropped after a failure', src.vc_len() == 0); V.ensure('history dropped after a failure', dst.vc_len() == 0)
            V.ensure('save point dropped after a failure', s._savepoint is None)
            V.ensure('nothing to undo or redo', (not s.canundo()) and (not s.canredo()))
            e = Entry(V, 'new'); s.append(e)
            V.ensure('recording goes on after a failure', (s._undos.extra == [e]) == (True))
            return
        V.cover('done')
        same(V, 'entry taken from its history', src, n0 - 1, [])
        same(V, 'entry put on the other history', dst, m0, [top])
        V.ensure('receiver restored', s._receiver is V.recv)
        if k == 1: V.ensure('actions of an undo/redo are not recorded', len(V.recv) == 0)
        V.ensure('save point kept', s._savepoint is sp0)
        V.ensure('notified once', calls == ['u' if which == 'undo' else 'd'])
        # and back
        top.mode = 0
        getattr(s, 'redo' if which == 'undo' else 'undo')()
        same(V, 'inverse step restores the history', src, n0 - 1, [top]); same(V, 'inverse step restores the history', dst, m0, [])
        V.ensure('inverse step ran the same entry', top.calls == (['undo', 'do'] if which == 'undo' else ['do', 'undo']))
    return fn
for w in ('undo', 'redo'):
    UNITS.append(Unit('Stack.%s' % w, undo_redo(w), [T + 'Stack.' + w, T + 'Stack._pausereceiver', T + 'Stack.clear'], UN, covers=['nothing', 'failure', 'done'], unbounded='length of both histories, entries', allshape=True))

def append_unit(V):
    s, calls, k = make(V)
    n0, m0, sp0 = s._undos.n, s._redos.n, s._savepoint
    e = Entry(V, 'new')
    s.append(e)
    if k == 0:
        V.cover('main')
        same(V, 'recorded as the most recent', s._undos, n0, [e]); V.ensure('redo discarded', s._redos.vc_len() == 0)
        V.ensure('notified', calls == ['d'])
        V.ensure('can undo, not redo', s.canundo() and not s.canredo())
        V.eq('counts', [s.undocount(), s.redocount()], [n0 + 1, 0])
        V.ensure('text', s.undotext() == 'Undo Tnew' and s.redotext() is None)
        f = Entry(V, 'second'); s.append(f)
        same(V, 'recorded after the first', s._undos, n0, [e, f])
    else:
        V.cover('other')
        same(V, 'history unchanged', s._undos, n0, []); same(V, 'history unchanged', s._redos, m0, [])
        V.ensure('no notification', calls == [])
        if k == 1: V.ensure('received by the active receiver', list(V.recv) == [e])
    V.ensure('action not run', e.calls == [])
    V.ensure('save point kept', s._savepoint is sp0)
UNITS.append(Unit('Stack.append', append_unit, [T + 'Stack.append'], UN, covers=['main', 'other'], unbounded='length of both histories', allshape=True))

def query_unit(V):
    s, calls, k = make(V)
    u, r = s._undos, s._redos
    V.eq('undo count', s.undocount(), u.n); V.eq('redo count', s.redocount(), r.n)
    V.ensure('canundo', bool(s.canundo()) == bool(u.n > 0)); V.ensure('canredo', bool(s.canredo()) == bool(r.n > 0))
    V.ensure('undo text', s.undotext() == ('Undo Tundos[-1]' if bool(u.n > 0) else None))
    V.ensure('redo text', s.redotext() == ('Redo Tredos[-1]' if bool(r.n > 0) else None))
    sp = s._savepoint
    if sp is None: V.ensure('changed without a save point', s.haschanged()); V.cover('nosp')
    else: V.ensure('changed iff depth differs from the save point', bool(s.haschanged()) == bool(sp != u.n)); V.cover('sp')
    V.ensure('queries leave the history alone', not u.extra and not r.extra and calls == [] and not (u.cache and any(e.calls for e in u.cache.values())))
    n0 = u.n
    s.savepoint()
    V.ensure('unchanged at the save point', not s.haschanged())
    V.eq('save point leaves the history alone', [u.n, r.n], [n0, r.n])
    if bool(u.n > 0):
        s.undo(); V.ensure('changed after undo', s.haschanged()); s.redo(); V.ensure('unchanged after undo and redo', not s.haschanged())
    s.append(Entry(V, 'x'))
    if k == 0: V.ensure('changed after an action', s.haschanged())
    s.clear()
    V.eq('cleared', [s.undocount(), s.redocount()], [0, 0])
    V.ensure('cleared: nothing available', not s.canundo() and not s.canredo() and s.undotext() is None and s.redotext() is None)
UNITS.append(Unit('queries, save point, clear', query_unit, [T + 'Stack.' + x for x in ('undocount', 'redocount', 'canundo', 'canredo', 'undotext', 'redotext', 'savepoint', 'haschanged', 'clear')], UN, covers=['sp', 'nosp'], unbounded='length of both histories, save point', allshape=True))

# ---- undoable functions
def action_unit(V):
    m = un()
    s, calls, k = make(V, 0)
    m.setstack(s)
    log = []
    v1, v2 = object(), object()
    form = V.choice('form', 7)
    yields = [None, 'txt', ('txt', v1), ('txt', v1, v2), ('txt',), '', ('txt', (v1,))][form]
    want = [None, None, v1, (v1, v2), None, None, (v1,)][form]
    twice = V.choice('twice', 2)
    arg, kw = object(), object()
    def op(a, b=None):
        log.append(('do', a, b)); yield yields
        log.append(('undo', a, b))
        if twice: yield 'ignored'
    n0 = s._undos.n
    r = m.undoable(op)(arg, b=kw)
    V.ensure('result', (r is want) if form in (2,) else r == want)
    V.ensure('done once with its arguments', log == [('do', arg, kw)])
    V.ensure('one entry recorded', len(s._undos.extra) == 1)
    a = s._undos.extra[0]
    V.ensure('description', a.text() == ('' if yields in (None, '') else 'txt'))
    s.undo(); V.ensure('undone with the same arguments', log == [('do', arg, kw), ('undo', arg, kw)])
    V.ensure('can be redone', s.canredo() and not s._undos.extra)
    s.redo(); V.ensure('redone with the same arguments', log[2:] == [('do', arg, kw)])
    s.undo(); V.ensure('undone again', log[3:] == [('undo', arg, kw)])
    s.redo()
    V.eq('depth', s.undocount(), n0 + 1)
    # failing action is not recorded
    def bad(): 
        raise Boom()
        yield
    try: m.undoable(bad)(); V.ensure('error passed on', False)
    except Boom: pass
    V.ensure('failed action not recorded', s._undos.extra == [a])
    V.cover('in')
UNITS.append(Unit('undoable function: result, recording, undo, redo', action_unit, [T + '_Action.do', T + '_Action.undo', T + '_Action.text', T + 'undoable'], UN, covers=['in'], unbounded='earlier history, argument and result values', allshape=True))

# ---- groups
class GGroup:
    """the entries of a group of any size"""
    def __init__(self, V, mode):
        self.V, self.mode = V, mode; self.done = 0; self.n = V.int('size', lo=0)
    def vc_len(self): return self.n
    def vc_iter(self):
        from pyvc import loops
        return loops.Seq(self.n, lambda i: GEntry(self, i))
    def __reversed__(self): return GRev(self)
class GRev:
    def __init__(self, g): self.g = g
    def vc_iter(self):
        from pyvc import loops
        return loops.Seq(self.g.n, lambda i: GEntry(self.g, self.g.n - 1 - i))
class GEntry:
    def __init__(self, g, i): self.g, self.i = g, i
    def do(self):
        self.g.V.ensure('redo runs entry after entry, first to last', self.i == self.g.done); self.g.done = self.g.done + 1
    def undo(self):
        self.g.V.ensure('undo runs entry after entry, last to first', self.i == self.g.n - 1 - self.g.done); self.g.done = self.g.done + 1

def group_patch(which):
    def patch(mods):
        from pyvc import loops, core
        G = need(mods[UN], '_Group')
        def havoc(L):
            g = L['self']._stack; g.done = L['__i']; return {}
        def inv(L):
            g = L['self']._stack
            return [('one entry per step', g.done == L['__i'])]
        setattr(G, which, loops.contract(getattr(G, which), {0: loops.Spec(inv, havoc, variant=lambda L: L['__n'] - L['__i'], name='group ' + which, kind='for')}))
    return patch
def group_order(which):
    def fn(V):
        from pyvc import core
        if not V.symbolic: V.kill()
        g = need(un(), '_Group')('desc {count}')
        need(g, '_stack')
        g._stack = GGroup(V, which)
        getattr(g, which)()
        V.cover('end')
        V.eq('every entry ran exactly once', g._stack.done, g._stack.n)
    return fn
for w in ('undo', 'do'):
    UNITS.append(Unit('group %s: any number of entries' % w, group_order(w), T + '_Group.' + w, UN, covers=['end'], patch=group_patch(w), conc=False, unbounded='number of entries', allshape=True))

def group_unit(V):
    """entries recorded inside a group (with an inner group, an exception) form one entry"""
    m = un()
    s, calls, k = make(V)
    m.setstack(s)
    n0, m0 = s._undos.n, s._redos.n
    nin, nout, nested, exc = V.choice('before', 3), V.choice('after', 3), V.choice('nested', 3), V.choice('exc', 3)
    log = []
    def op(i):
        log.append(('do', i)); yield 'a%d' % i
        log.append(('undo', i))
    act = m.undoable(op)
    c = [0]
    def a():
        act(c[0]); c[0] += 1
    raised = False
    try:
        with m.group('{count} actions') as g:
            for i in range(nin): a()
            if nested:
                try:
                    with m.group('inner'):
                        for i in range(nested): a()
                        if exc == 2: raise Boom()
                except Boom: pass
            for i in range(nout): a()
            if exc == 1: raise Boom()
    except Boom: raised = True
    V.ensure('exceptions pass through', raised == (exc == 1))
    V.ensure('receiver active before the group is restored', s._receiver is V.recv)
    total = nin + nout + nested
    top = {0: s._undos.extra, 1: list(V.recv) if k == 1 else [], 2: []}[k]
    if k == 0: same(V, 'older history kept', s._undos, n0, top); V.ensure('one entry for the group', len(top) == 1); V.ensure('redo discarded', s._redos.vc_len() == 0)
    elif k == 1: V.ensure('one entry for the group', len(top) == 1); same(V, 'main history unchanged', s._undos, n0, []); same(V, 'main history unchanged', s._redos, m0, [])
    else: same(V, 'recording stays switched off', s._undos, n0, []); V.cover('off'); return
    V.cover('on')
    ent = top[0]
    V.ensure('description of the group', ent.text() == '%d actions' % (nin + nout + (1 if nested else 0)))
    log.clear()
    if k == 0: s.undo()
    else: ent.undo()
    V.ensure('undone together, last first', log == [('undo', i) for i in reversed(range(total))])
    log.clear()
    if k == 0: s.redo()
    else: ent.do()
    V.ensure('redone together, first to last', log == [('do', i) for i in range(total)])
    if k == 0:
        act(99)
        V.ensure('recording goes on after the group', len(s._undos.extra) == 2)
UNITS.append(Unit('group: nesting, exceptions, one entry', group_unit, [T + '_Group.__enter__', T + '_Group.__exit__', T + '_Group.text', T + 'group'], UN, covers=['on', 'off'], samples=120, unbounded='earlier history (up to 2+2+2 actions in the group)', deadline=90))

def stack_unit(V):
    m = un()
    m.setstack(None)
    a = m.stack(); V.ensure('created on demand and kept', a is m.stack() and isinstance(a, m.Stack))
    b = m.Stack(); m.setstack(b); V.ensure('set stack is used', m.stack() is b)
    V.ensure('new stack is empty', not b.canundo() and not b.canredo() and b.undocount() == 0 and b.redocount() == 0 and b.haschanged())
    b.append(Entry(V, 'x')); V.ensure('new stack records', b.undocount() == 1)
UNITS.append(Unit('current stack', stack_unit, [T + 'stack', T + 'setstack', T + 'Stack.__init__'], UN, samples=1, allshape=True))

# ------------------------------------------------------------------ bounded
BOUND = 'random histories of up to 60 steps: actions (some failing on do, undo or redo), groups nested up to 3 deep possibly left by an exception, undo, redo, clear, save points; compared with a reference history'
BSECS = 6
SHARDS = 4
def bounded(H):
    import itertools
    m = un()
    for it in itertools.count():
        if not H.time_left(): break
        r = H.rng(it)
        s = m.Stack(); m.setstack(s)
        doc = []
        fail = {'do': None, 'undo': None}
        def op(i):
            if fail['do'] == i: raise Boom('do')
            doc.append(i); yield ('act %d' % i if i % 3 else ''), i
            if fail['undo'] == i: raise Boom('undo')
            assert doc and doc[-1] == i, 'undo out of order: %s, undoing %d' % (doc, i)
            doc.pop()
            if i % 5 == 0: act(10 ** 6 + 2); doc.pop()      # an undo may use undoable operations itself
        act = m.undoable(op)
        U, R = [], []          # reference: entries = (actions, text)
        sp = None
        c = [0]
        hist = []
        cnt = {'u': 0, 'd': 0}
        s.undocallback = lambda: cnt.__setitem__('u', cnt['u'] + 1)
        s.docallback = lambda: cnt.__setitem__('d', cnt['d'] + 1)
        def one():
            c[0] += 1; i = c[0]
            ret = act(i)
            H.check(ret == i, 'result', '%s for %d' % (ret, i))
            return ([i], 'act %d' % i if i % 3 else '')
        def grp(depth):
            """-> list of actions, text"""
            items = []
            exc = r.random() < .2
            try:
                with m.group('g {count}'):
                    for _ in range(r.randrange(4)):
                        if depth < 3 and r.random() < .3: items.append(grp(depth + 1))
                        else: items.append(one())
                    if exc: raise Boom('group')
            except Boom:
                pass
            return ([x for it2 in items for x in it2[0]], 'g %d' % len(items))
        for step in range(r.randrange(1, 60)):
            k = r.random()
            d0 = dict(cnt)
            if k < .35: hist.append('act'); U.append(one()); R.clear(); ex = (0, 1)
            elif k < .45: hist.append('group'); U.append(grp(0)); R.clear(); ex = (0, 1)
            elif k < .7:
                hist.append('undo')
                ex = (1, 0) if U else (0, 0)
                bad = bool(U) and bool(U[-1][0]) and r.random() < .08
                if bad: fail['undo'] = r.choice(U[-1][0])
                try:
                    s.undo(); H.check(not bad, 'error of a failing undo passed on', str(hist))
                    if U:
                        e = U.pop(); R.append(e)
                except Boom:
                    H.check(bad, 'unexpected error', '')
                    U.clear(); R.clear(); sp = None; ex = (0, 0)
                    break_doc = True
                    doc[:] = []
                fail['undo'] = None
            elif k < .9:
                hist.append('redo')
                ex = (0, 1) if R else (0, 0)
                bad = bool(R) and bool(R[-1][0]) and r.random() < .08
                if bad: fail['do'] = r.choice(R[-1][0])
                try:
                    s.redo(); H.check(not bad, 'error of a failing redo passed on', str(hist))
                    if R: U.append(R.pop())
                except Boom:
                    H.check(bad, 'unexpected error', '')
                    U.clear(); R.clear(); sp = None; ex = (0, 0); doc[:] = []
                fail['do'] = None
            elif k < .93:
                hist.append('bad action'); fail['do'] = c[0] + 1; ex = (0, 0)
                try: one(); H.fail('failing action', '')
                except Boom: pass
                fail['do'] = None
            elif k < .97: hist.append('savepoint'); s.savepoint(); sp = len(U); ex = (0, 0)
            else: hist.append('clear'); s.clear(); U.clear(); R.clear(); sp = None; doc[:] = []; ex = (0, 0)
            H.case(hist[-40:], (it, step))
            H.check(doc == [x for e in U for x in e[0]], 'document follows the history', '%s, expected %s after %s' % (doc, [x for e in U for x in e[0]], hist))
            H.check(s.undocount() == len(U) and s.redocount() == len(R), 'counts', '%s after %s' % ((s.undocount(), s.redocount(), len(U), len(R)), hist))
            H.check(bool(s.canundo()) == bool(U) and bool(s.canredo()) == bool(R), 'availability', str(hist))
            tx = lambda p, L: None if not L else (p + ' ' + L[-1][1]).strip()
            H.check(s.undotext() == tx('Undo', U) and s.redotext() == tx('Redo', R), 'descriptions', '%r %r expected %r %r' % (s.undotext(), s.redotext(), tx('Undo', U), tx('Redo', R)))
            H.check(bool(s.haschanged()) == (sp is None or sp != len(U)), 'save point', str(hist))
            H.check((cnt['u'] - d0['u'], cnt['d'] - d0['d']) == ex, 'notifications', '%s expected %s after %s' % (cnt, ex, hist))
