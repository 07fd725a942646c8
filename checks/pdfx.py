"""PDF output: analysis runs over the pdf module, and readers of what they produce (dictionaries, token streams)."""
import engine
import lin
import rtypes as T
import stream
import teval
from common import program, method, methods, disp, sh
from front import AnalysisError

DOC = 'pdf::Document'
PAGE = 'pdf::Page'
OBJ = 'pdf::object::Object'
DICT = 'pdf::object::Dictionary'
FONTK = 'fonts::Font'


def zero(a, st, f, g):
    """two integer terms are equal"""
    acc = {}
    x = a.lf(st, f, acc) if f[0] != 'form' else f[1]
    y = a.lf(st, g, acc) if g[0] != 'form' else g[1]
    d = lin.add(x, y, 1, -1)
    if not d[0]:
        return d[1] == 0
    return a.prove(st, d, acc) and a.prove(st, lin.scale(d, -1), acc)


def find_paths(p, ty, pred, depth=6, seen=()):
    """field paths ('*' = through a reference) from a type to all parts whose type satisfies pred"""
    out = []
    if pred(ty):
        return [()]
    if depth == 0:
        return []
    if ty[0] == 'ref':
        return [('*',) + x for x in find_paths(p, ty[2], pred, depth - 1, seen)]
    if ty[0] == 'tuple':
        for i, t in enumerate(ty[1]):
            out += [(i,) + x for x in find_paths(p, t, pred, depth - 1, seen)]
        return out
    if ty[0] == 'path' and ty[1] in p.structs and ty[1] not in seen:
        s = p.structs[ty[1]]
        env = dict(zip(s['params'], ty[2]))
        for i, f in enumerate(s['fields']):
            out += [(i,) + x for x in find_paths(p, T.subst(f[1], env), pred, depth - 1, seen + (ty[1],))]
    return out


def at(a, st, root, path):
    """value at a field path from a memory root"""
    base, pr = root, ()
    for x in path:
        if x == '*':
            v = a.load(st, base, pr)
            if v[0] == 'ref':
                base, pr = v[1], tuple(v[2])
            else:
                base, pr = ('h', v), ()
        else:
            pr = pr + (('field', x),)
    return a.load(st, base, pr)


def peel(t):
    """the value under pointers"""
    while t[0] in ('cref', '&', 'deref') and not (t[0] == 'deref' and t[1][0] in ('emit',)):
        if t[0] == 'deref' and t[1][0] in ('s', 'fld', 'call', 'mval', 'vfld', 'rawp', 'subp', 'elem', 'derefof'):
            return t
        t = t[1]
    return t


def const_bytes(t):
    t = peel(t)
    if t[0] == 'c' and isinstance(t[1], str):
        return t[1].encode()
    if t[0] == 'c' and isinstance(t[1], bytes):
        return t[1]
    if t[0] == 'agg' and t[1] == 'array' and all(x[0] == 'c' and isinstance(x[1], int) for x in t[4]):
        return bytes(x[1] for x in t[4])
    return None


def obj(t):
    """(variant, payload) of a PDF object term"""
    t = peel(t)
    if t[0] == 'agg' and t[2] == OBJ:
        return t[3], (t[4][0] if t[4] else None)
    return None


def entries(t):
    """[(key bytes, object term)] of a dictionary term, or None"""
    t = peel(t)
    o = obj(t)
    if o is not None:
        if o[0] != 'Dictionary':
            return None
        t = peel(o[1])
    if t[0] != 'agg' or t[2] != DICT:
        return None
    prev = t[4][0]
    out = []
    if prev[0] == 'agg' and prev[3] == 'Some':
        q = entries(prev[4][0])
        if q is None:
            return None
        out += q
    elif not (prev[0] == 'agg' and prev[3] == 'None'):
        out.append((None, prev))
    arr = peel(t[4][1])
    if arr[0] != 'agg' or arr[1] != 'array':
        return None
    for e in arr[4]:
        e = peel(e)
        k = const_bytes(e[4][0]) if e[0] == 'agg' and e[1] == 'tuple' else None
        if k is None:
            return None
        out.append((k, e[4][1]))
    return out


class D:
    """a dictionary with duplicate detection"""

    def __init__(self, t):
        self.e = entries(t)
        self.ok = self.e is not None
        self.keys = [k for k, _ in self.e or []]
        self.dup = len(set(self.keys)) != len(self.keys)
        self.open = None in self.keys
        self.d = {k.decode('latin1'): v for k, v in self.e or [] if k is not None}

    def name(self, k):
        o = obj(self.d[k]) if k in self.d else None
        return const_bytes(o[1]).decode('latin1') if o and o[0] == 'Name' and const_bytes(o[1]) is not None else None

    def string(self, k):
        o = obj(self.d[k]) if k in self.d else None
        return const_bytes(o[1]) if o and o[0] == 'LiteralString' else None

    def get(self, k, kind):
        o = obj(self.d[k]) if k in self.d else None
        return o[1] if o and o[0] in ((kind,) if isinstance(kind, str) else kind) else None

    def items(self, k):
        v = self.get(k, 'Array')
        return array_items(v) if v is not None else None


def array_items(v):
    v = peel(v)
    if v[0] == 'agg' and v[1] == 'array':
        return list(v[4])
    return None


def refnum(t):
    """number term of an object reference (payload of Object::Reference)"""
    t = peel(t)
    if t[0] == 'agg' and len(t[4]) == 1:
        return t[4][0]
    if t[0] == 'upd' and len(t[2]) == 1:
        return t[2][0][1]
    return ('fld', t, 0)


def int_of(t):
    """integer term of a numeric object, or ('float', term)"""
    o = obj(t)
    if o is None:
        return None
    if o[0] in ('Usize', 'I32'):
        return o[1]
    return None


class VT:
    """contents of byte vectors as tokens"""

    def __init__(self, a, raw=False):
        self.a = a
        self.raw = raw

    def toks(self, t, base=None):
        """tokens of a vector term down to (excluding) the term `base`; [('base', term), ...] if it starts elsewhere"""
        if base is not None and t == base:
            return []
        k = t[0]
        if k == 'vec0':
            return []
        out = None
        if k == 'vpush':
            out = self.toks(t[1], base)
            x = t[2]
            stream.put(out, [('lit', bytes([x[1]]))] if x[0] == 'c' and isinstance(x[1], int) and not self.raw
                       else [('byte', x)])
        elif k == 'vext':
            out = self.toks(t[1], base)
            c = t[2]
            stream.put(out, self.content(c))
        elif k == 'phi' and t in self.a.phi_info:
            li, loc = self.a.phi_info[t]
            out = self.toks(li.entry[loc], base)
            its = []
            for s in li.iters:
                v = self.a.load(s, loc[0], loc[1])
                its.append((s, self.toks(v, t)))
            if any(x for s, x in its):
                out.append(('loop', li, its))
        elif k == 'c' and isinstance(t[1], (bytes, str)):
            out = [('lit', const_bytes(t))] if t[1] else []
        elif k == 'deref' and (t[1][0] == 'emit' or t[1][0] == 'c'):
            out = self.content(t)
        elif k == 'agg' and t[1] == 'array' and const_bytes(t) is not None:
            out = [('lit', const_bytes(t))] if t[4] else []
        else:
            out = [('base', t)]
        return out

    def content(self, c):
        if c[0] == 'deref' and c[1][0] == 'emit':
            return stream.buftok(self.a, None, c[1], c)
        if c[0] in ('vec0', 'vpush', 'vext', 'phi'):
            return self.toks(c)
        return stream.buftok(self.a, None, c, c)


def succeeds(st, v):
    """the outcome is not known to be Err"""
    if v[0] == 'agg' and v[3] == 'Err':
        return False
    if v[0] == 'call' and st.facts.get(('dis', v)) == 1:
        return False
    return True


def known_ok(st, res):
    return st.facts.get(('dis', res)) == 0


class Run:
    """one analysis of an entry point with serialisation of objects left opaque"""

    def __init__(self, p, key, opaque=(), unroll=12, args=None, st=None, pre=None):
        self.p = p
        self.key = key
        self.a = engine.Analyzer(p)
        self.a.unroll = unroll
        self.a.opaque_hook = stream.hook
        self.a.opaque |= set(opaque)
        if pre:
            pre(self.a)
        self.outs = self.a.entry(key, **({'args': args} if args else {}), **({'st': st} if st else {}))
        self.vt = VT(self.a)

    @property
    def ok(self):
        return [(s, v) for k, s, v in self.outs if k == 'ret' and succeeds(s, v)]

    @property
    def err(self):
        return [(s, v) for k, s, v in self.outs if k == 'ret' and not succeeds(s, v)]

    @property
    def panics(self):
        return [(s, v) for k, s, v in self.outs if k == 'panic']


class Pdf:
    _one = None

    def __init__(self):
        self.p = program('victor')
        self.ow = method(self.p, OBJ, 'write')
        self.dw = method(self.p, DICT, 'write')
        self.runs = {}
        fonts = methods(self.p, FONTK)
        self.fontops = [fonts[n] for n in ('each_code_point', 'glyph_width') if n in fonts]
        page = ('path', PAGE, (('lt', "'doc"),))
        s = self.p.structs[PAGE]
        self.pagety = ('path', PAGE, tuple(('lt', x) for x in s['params']))
        isbytes = lambda t: t[0] == 'path' and t[1] == 'std::Vec' and t[2] and t[2][0] == ('prim', 'u8')
        self.ops = self.one(PAGE, isbytes, 'content stream of a page', nodoc=True)

    def one(self, ty, pred, what, nodoc=False):
        s = self.p.structs[ty]
        c = [x for x in find_paths(self.p, ('path', ty, tuple(('lt', y) for y in s['params'])), pred)
             if not (nodoc and '*' in x)]
        if len(c) != 1:
            raise AnalysisError('%s: %d candidates' % (what, len(c)))
        return c[0]

    @classmethod
    def get(cls):
        if cls._one is None:
            cls._one = cls()
        return cls._one

    def page(self, name):
        """a public operation on pages"""
        if name not in self.runs:
            if name == 'drop':
                c = [im.methods['drop'] for im in self.p.impls if im.trait == 'std::Drop' and im.for_[0] == 'path'
                     and im.for_[1].startswith('pdf::')]
                if len(c) != 1:
                    raise AnalysisError('drop of pages: %d candidates' % len(c))
                key = c[0]
            elif name == 'new':
                key = method(self.p, DOC, 'add_page')
            else:
                key = method(self.p, PAGE, name)
            self.runs[name] = Run(self.p, key, [self.ow, self.dw] + self.fontops)
        return self.runs[name]

    def doc(self):
        if 'doc' not in self.runs:
            self.runs['doc'] = Run(self.p, method(self.p, DOC, 'write_to_pdf'), [self.ow, self.dw])
        return self.runs['doc']
