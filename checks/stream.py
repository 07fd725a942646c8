"""Output of writers and byte vectors along a path, as a sequence of tokens.

A function generic over `W: Write` can only act on its writer through that trait, so an opaque call that is handed a
writer stands for some sequence of write_all calls on it; it is replaced by one call with an unknown buffer (`emit`).
Tokens: ('lit', bytes) ('emit', name, args) ('dec', term) ('fmt', how, spec, term) ('buf', term) ('bytes', [terms])
('push', key, term, event) ('loop', info, [(state, tokens)]) ('call', name, args, event)."""
import rtypes as T
from front import AnalysisError

WRITERARG = {'itoa::write': 0, 'dtoa::write': 0, 'std::Write::write_fmt': 0}


def hook(eng, s, fr, name, args, info):
    i = WRITERARG.get(name)
    if i is None:
        k = info.get('key')
        if k is None or k not in eng.opaque:
            return None
        fn = eng.p.bodies.get(k) or eng.p.plain.get(k)
        cand = []
        for j, (n, t) in enumerate(fn.args):
            t = eng.p.mty(t)
            if t[0] == 'ref' and t[1] and t[2][0] == 'param':
                cand.append(j)
        if not cand:
            return None
        i = cand[-1]
    if i >= len(args):
        return None
    ty = (info.get('atys') or [None] * len(args))[i]
    w = args[i]
    if ty is not None and ty[0] == 'ref':
        ty = ty[2]
        while ty[0] == 'ref':
            w = eng.read_ref(s, w)
            ty = ty[2]
    if ty is None:
        return None
    s.ncall += 1
    buf = ('emit', name, tuple(deep(eng, s, snap(eng, s, a)) for j, a in enumerate(args) if j != i), s.ncall)
    eng.settype(buf, ('ref', False, ('slice', ('prim', 'u8'))))
    callee = ('trait', ty, ('path', 'std::Write', ()), 'write_all', ())
    return eng.call_parsed(s, fr, callee, {}, [w, buf], info.get('span'), '',
                           [('ref', True, ty), ('ref', False, ('slice', ('prim', 'u8')))])


def snap(eng, s, a):
    n = 0
    while a[0] == 'ref' and n < 4:
        a = eng.load(s, a[1], a[2])
        n += 1
    return a


def deep(eng, s, v, n=0):
    """the value with the pointers inside of it replaced by what they point to now"""
    if n > 40:
        return v
    if v[0] == 'ref':
        x = eng.load(s, v[1], v[2])
        return ('cref', deep(eng, s, x, n + 1))
    if v[0] == 'subp' and v[2][:2] == ('c', 0) and v[1][0] == 'ref':
        x = snap(eng, s, v[1])
        if eng.length_of(x)[:2] == v[3][:2]:
            return ('cref', deep(eng, s, x, n + 1))
    if v[0] == 'agg' and v[4]:
        return v[:4] + (tuple(deep(eng, s, x, n + 1) for x in v[4]),) + v[5:]
    return v


def sink(a):
    """identity of a writer or vector behind a pointer value"""
    if a[0] == 'ref':
        return (a[1], tuple(x[:2] for x in a[2]))
    if a[0] == 'mref':
        return sink(a[1])
    return (('h', a), ())


WRITES = ('std::Write::write_all', 'std::Vec::extend_from_slice')


def buftok(eng, st, a, v):
    """tokens of a buffer: pointer value a, contents v at the time"""
    if a[0] == 'emit':
        nm, rest = a[1], a[2]
        if nm == 'itoa::write':
            return [('dec', rest[0])]
        if nm == 'std::Write::write_fmt':
            return fmt(rest[0])
        return [('emit', nm, rest)]
    for x in (a, v):
        if x[0] == 'cref':
            x = x[1]
        if x[0] == 'c' and isinstance(x[1], (bytes, str)):
            return [('lit', x[1] if isinstance(x[1], bytes) else x[1].encode())]
        if x[0] == 'deref' and x[1][0] == 'c' and isinstance(x[1][1], (bytes, str)):
            return [('lit', x[1][1] if isinstance(x[1][1], bytes) else x[1][1].encode())]
    if v[0] == 'agg' and v[1] == 'array':
        out = []
        for x in v[4]:
            out.append(('lit', bytes([x[1]])) if x[0] == 'c' and isinstance(x[1], int) and x[1] >= 0 else ('byte', x))
        return out
    return [('buf', v, a)]


def fmt(f):
    if f[0] != 'fmt':
        return [('buf', f, f)]
    pieces = [p[1] if p[0] == 'c' else p for p in f[1]]
    args = list(f[2]) if len(f) > 2 else []
    specs = list(f[3]) if len(f) > 3 else None
    out = []
    if specs is None:
        order = [(i, None) for i in range(len(args))]
    else:
        order = []
        for j, sp in enumerate(specs):
            order.append((j, sp))
    n = max(len(pieces), len(order))
    for i in range(n):
        if i < len(pieces) and pieces[i]:
            pc = pieces[i]
            out.append(('lit', pc.encode() if isinstance(pc, str) else bytes(pc) if isinstance(pc, bytes) else b'?'))
        if i < len(order):
            j, sp = order[i]
            a = args[j]
            if a[0] != 'fmtarg':
                out.append(('buf', a, a))
            elif a[1] == 'display' and sp is None:
                out.append(('dec', a[2]))
            else:
                out.append(('fmt', a[1], sp, a[2]))
    return out


def tokens(eng, events, sinks, calls=()):
    """tokens written to the sinks (predicate on sink identity), pushes on other vectors, named calls"""
    out = []
    for e in events:
        if e is None:
            continue
        kind, name, args, info = e[:4]
        if kind in ('loop', 'star'):
            li = info['loop']
            out.append(('loop', li, [(s, tokens(eng, s.events(), sinks, calls)) for s in li.iters]))
        elif kind == 'call':
            vals = info.get('vals') or args
            if name in WRITES and sinks(sink(args[0])):
                put(out, buftok(eng, None, args[1], vals[1]))
            elif name in ('std::Vec::push', 'smallvec::SmallVec::push'):
                if sinks(sink(args[0])):
                    x = args[1]
                    put(out, [('lit', bytes([x[1]])) if x[0] == 'c' and isinstance(x[1], int) else ('byte', x)])
                else:
                    out.append(('push', sink(args[0]), args[1], e))
            elif name == 'std::Extend::extend' and sinks(sink(args[0])):
                put(out, buftok(eng, None, args[1], vals[1]))
            elif any(name.endswith(c) for c in calls):
                out.append(('call', name, args, e))
            elif any(sinks(sink(a)) for a in args if a[0] in ('ref', 's', 'fld', 'mref')):
                out.append(('other', name, args, e))
    return out


def put(out, toks):
    for t in toks:
        if t[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + t[1])
        elif t[0] == 'lit' and not t[1]:
            pass
        else:
            out.append(t)


class Cursor:
    """reads a token sequence; lits may be consumed piecewise"""

    def __init__(self, toks):
        self.t = list(toks)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('end',)

    def lit(self, b):
        t = self.peek()
        if t[0] != 'lit' or not t[1].startswith(b):
            return False
        if t[1] == b:
            self.i += 1
        else:
            self.t[self.i] = ('lit', t[1][len(b):])
        return True

    def litre(self, rx):
        """consume a prefix of the current literal matching a bytes regex"""
        t = self.peek()
        if t[0] != 'lit':
            return None
        m = rx.match(t[1])
        if not m:
            return None
        self.lit(m.group(0))
        return m.group(0)

    def take(self, kind):
        t = self.peek()
        if t[0] != kind:
            return None
        self.i += 1
        return t

    @property
    def end(self):
        return self.i >= len(self.t)


def show(t):
    from common import sh
    if t[0] == 'lit':
        return repr(t[1])
    if t[0] == 'loop':
        return 'loop'
    return t[0] + ':' + ' '.join(sh(x)[:80] if isinstance(x, tuple) else str(x)[:80] for x in t[1:3])
