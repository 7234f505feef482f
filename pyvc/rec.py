"""Contracts over written records: text given by blank separated columns and by groups of rows of loops of any length."""
import z3
from . import core, loops, ghost as g
from .core import SInt, Unsupported

def split(text):
    """-> (leading blank, columns, trailing blank); a column is a tuple of pieces (texts and placeholders)"""
    cols, cur = [], None
    lead = bool(text) and text[0].isspace()
    for p in g.TOK.split(text):
        if not p: continue
        if p in core.CTX.tokens:
            if cur is None: cur = []; cols.append(cur)
            cur.append(p); continue
        for j, w in enumerate(_parts(p)):
            if w.isspace(): cur = None
            else:
                if cur is None: cur = []; cols.append(cur)
                cur.append(w)
    return lead, [tuple(c) for c in cols], bool(text) and text[-1].isspace()
def _parts(p):
    import re
    return [x for x in re.split(r'(\s+)', p) if x]

class G:
    """expected group: all n rows of the sequence with this tag"""
    def __init__(self, tag, n): self.tag, self.n = tag, n
def tag_is(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = [tag_is(x, y) for x, y in zip(a, b)]
        return False if any(x is False for x in r) else core.sand(*r)
    if core.is_sym(a) or core.is_sym(b): return core.lift(a) == b if not (isinstance(a, str) or isinstance(b, str)) else False
    return a == b

def items(parts, label, base_blank=True):
    """columns and groups of a list of stream parts, with the check that they do not run together"""
    out, blank = [], base_blank
    acc = ''
    def flush():
        nonlocal acc, blank
        if not acc: return
        lead, cols, trail = split(acc)
        if cols and not blank and not lead: core.CTX.prove(label + ': columns run together', False)
        out.extend(cols); blank = trail or (blank and not acc); acc = ''
    for p in parts:
        if isinstance(p, str): acc += p; continue
        flush()
        if p.lead is None and not blank: core.CTX.prove(label + ': columns run together', False)
        out.append(p); blank = True
    flush()
    return out, blank

def same(label, got, want):
    """obligation: written columns are the expected values. want: values (numbers, texts, tuples of pieces) and G"""
    core.CTX.prove(label + ': number of columns', len(got) == len(want))
    for a, b in zip(got, want):
        if isinstance(b, G) or isinstance(a, g.Group):
            ok = isinstance(b, G) and isinstance(a, g.Group)
            core.CTX.prove(label + ': groups of rows', ok)
            if ok:
                t = tag_is(a.seq.tag, b.tag)
                core.CTX.prove(label + ': rows of the right sequence', t)
                core.CTX.prove(label + ': all rows', a.i == b.n)
            continue
        bb = b if isinstance(b, tuple) else (b,)
        if len(a) != len(bb): core.CTX.prove(label + ': column', False); continue
        for x, y in zip(a, bb): core.CTX.prove(label + ': column', piece(x, y))
def piece(t, v):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, str): return t == v
    return g.text_is(t, v)

def cells(out, row, label):
    """contract of a loop that writes the columns row(seq, i) for element i of a sequence of any length (rows end with a blank)"""
    st = dict(n=0)
    def inv(L):
        st['n'] += 1
        if st['n'] == 1:
            if not loops.touches(sp, L, out): raise Unsupported('the loop does not write to the stream')
            st['base'] = list(out.parts)
            t = st['base'][-1] if st['base'] else ' '
            st['blank'] = isinstance(t, g.Group) or (t != '' and t[-1].isspace())
            return []
        if st['n'] == 2: return []
        seq = L['__seq']; i = L['__i'] - 1; b = len(st['base'])
        if out.parts[:b] != st['base'] or not (len(out.parts) > b and out.parts[b] is st['grp']): raise Unsupported('stream changed in an unexpected way')
        new = out.parts[b + 1:]
        lab = label(seq)
        if new:
            f, l = new[0], new[-1]
            lead = isinstance(f, str) and f != '' and f[0].isspace()
            trail = isinstance(l, str) and l != '' and l[-1].isspace() or isinstance(l, g.Group)
            if not trail:
                if lead: raise Unsupported('rows separated by a leading blank')
                core.CTX.prove(lab + ': columns run together', False)
            if not lead and not st['blank']: core.CTX.prove(lab + ': columns run together', False)
        got, _ = items(new, lab)
        same(lab, got, row(seq, i))
        return []
    def havoc(L):
        st['grp'] = g.Group(L['__seq'], L['__i']); st['grp'].lead = 1
        out.parts = st['base'] + [st['grp']]
        return {}
    sp = loops.Spec(inv, havoc, variant=lambda L: L['__n'] - L['__i'], name='rows', kind='for'); return sp
def check(label, out, want, base_blank=True):
    got, blank = items(out.parts, label, base_blank)
    same(label, got, want)
    return blank
def memo(f):
    """choices made for an element are the same whenever the element is asked for again"""
    d = {}
    def h(*a):
        k = tuple(str(core.term(x)) for x in a)
        if k not in d: d[k] = f(*a)
        return d[k]
    return h
