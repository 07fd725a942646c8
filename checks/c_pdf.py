"""PDF writing (P..): file structure, streams and links, serialisation, operators, geometry, fonts, graphics state."""
import re
import struct
import engine
import lin
import rtypes as T
import stream
import teval
from common import program, method, methods, disp, sh
from front import AnalysisError
from pdfx import (Pdf, Run, D, VT, at, find_paths, zero, obj, entries, const_bytes, refnum, peel, array_items, succeeds,
                  known_ok, OBJ, DICT, DOC, PAGE, FONTK)
from report import check

A1 = ('h', ('s', 'arg1'))
A2 = ('h', ('s', 'arg2'))
SINK2 = (('h', ('s', 'arg2')), ())


def const(n):
    return ('c', n, 'usize')


# ---------------------------------------------------------------------------- file layout
class Item:
    """something written, with its length term; or a loop"""

    def __init__(self, kind, x=None, length=None, li=None, iters=None):
        self.kind, self.x, self.length, self.li, self.iters = kind, x, length, li, iters


def items(a, events, sink):
    out = []
    for e in events:
        if e is None:
            continue
        kind, name, args, info = e[:4]
        if kind in ('loop', 'star'):
            li = info['loop']
            its = [(s, items(a, s.events(), sink)) for s in li.iters]
            if any(x for s, x in its):
                out.append(Item('loop', li=li, iters=its))
        elif kind == 'call':
            vals = info.get('vals') or args
            to = [x for x in args if x[0] in ('ref', 's', 'fld', 'mref') and stream.sink(x) == sink]
            if not to:
                continue
            if name in stream.WRITES:
                out.append(Item('w', stream.buftok(a, None, args[1], vals[1]), buflen(a, args[1], vals[1])))
            elif name == 'std::Write::flush':
                continue
            else:
                raise AnalysisError('the writer is handed to %s' % name)
    return out


def buflen(a, ptr, val):
    if ptr[0] == 'ref':
        return a.length_of(val)
    return a.ptr_len(engine.State(), ptr)


def subst_phi(t, m, a):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    q = tuple(subst_phi(x, m, a) for x in t)
    if q != t and t in a.types:
        a.settype(q, a.types[t])
    return q


def entry_of(a, li, t):
    """value of a term (over loop-varying values) when the loop is entered"""
    return subst_phi(t, {phi: li.entry[loc] for loc, phi in li.phis.items()}, a)


def next_of(a, s, li, t):
    """value of the same term at the end of an iteration"""
    return subst_phi(t, {phi: a.load(s, loc[0], loc[1]) for loc, phi in li.phis.items()}, a)


def plus(a, x, y):
    return a.settype(('bin', 'Add', x, y), ('prim', 'usize'))


def same_int(a, st, x, y):
    return zero(a, st, x, y)


def sequential(a, st, li, idx, first, iters):
    """idx takes the values first, first+1, ... over the iterations"""
    return same_int(a, st, entry_of(a, li, idx), first) and all(
        same_int(a, s, next_of(a, s, li, idx), plus(a, idx, const(1))) for s in iters)


class Layout:
    """the output of a document on one successful path, read as a PDF file"""

    def __init__(self, r, run, st, v, sink):
        self.r, self.run, self.a, self.st = r, run, run.a, st
        self.objects = []       # (number term, content tokens, start position form | None, li or None)
        self.pos = lin.const(0)
        self.bad = []
        self.xref = None
        self.trailer = None
        self.startxref = None
        its = items(self.a, st.events(), sink)
        self.cur = Cur(self, its)
        self.parse()

    def fail(self, what, detail=None):
        self.bad.append((what, detail))

    def parse(self):
        c = self.cur
        h = c.litre(rb'%PDF-\d\.\d\n(%[^\n\x00-\x7f]{4,}\n)?')
        if h is None:
            return self.fail('the file does not start with a PDF header line')
        while True:
            c.fill()
            if c.loop() is not None:
                it = c.loop()
                self.object_loop(it)
                c.skip()
                continue
            if c.peeklit(b'xref'):
                break
            if not self.object(c, None):
                return
        self.xref_pos = c.posform()
        if not c.lit(b'xref\n0 '):
            return self.fail('the cross-reference section does not start with its subsection header')
        n = c.take('dec')
        if n is None:
            return self.fail('the cross-reference section has no entry count')
        self.xref_size = n[1]
        if not c.lit(b'\n0000000000 65535 f \n'):
            return self.fail('the cross-reference section does not start with the free entry for object 0')
        c.fill()
        it = c.loop()
        if it is None:
            return self.fail('no loop writing cross-reference entries')
        self.xref = it
        c.skip(track=False)
        if not c.lit(b'trailer\n'):
            return self.fail('no trailer follows the cross-reference entries')
        t = c.take('emit')
        if t is None:
            return self.fail('no trailer dictionary')
        self.trailer = t[2][0]
        if not c.lit(b'\nstartxref\n'):
            return self.fail('startxref does not follow the trailer')
        n = c.take('dec')
        if n is None:
            return self.fail('no position follows startxref')
        self.startxref = n[1]
        if c.litre(rb'\n%%EOF\n?') is None or not c.end:
            return self.fail('the file does not end with %%EOF')

    def object(self, c, li):
        start = c.posform()
        n = c.take('dec')
        if n is None:
            self.fail('an object does not start with its number', c.show())
            return False
        if not c.lit(b' 0 obj\n'):
            self.fail('an object number is not followed by " 0 obj"', c.show())
            return False
        body = []
        while not c.peeklit(b'\nendobj\n'):
            t = c.any()
            if t is None:
                self.fail('an object is not closed by endobj')
                return False
            body.append(t)
        c.lit(b'\nendobj\n')
        self.objects.append((n[1], body, start, li))
        return True

    def object_loop(self, it):
        li = it.li
        # the position at the start of an iteration: a counter that starts at the current position and grows by
        # what an iteration writes
        for loc, phi in li.phis.items():
            if not self.a.isint(phi):
                continue
            if not zero(self.a, self.st, ('form', lin.add(self.cur.posform(), ((), 0))), li.entry[loc]):
                continue
            ok = True
            for s, its in it.iters:
                c = Cur(self, its, lin.atom(phi))
                c.all()
                if not zero(self.a, s, ('form', c.posform()), self.a.load(s, loc[0], loc[1])):
                    ok = False
            if ok:
                break
        else:
            return self.fail('no counter equals the number of bytes written while objects are written', None)
        for s, its in it.iters:
            c = Cur(self, its, lin.atom(phi))
            self.object(c, (li, s))
            if not c.end:
                self.fail('an iteration writes more than one object')
        if len(it.iters) != 1:
            # several kinds of iterations: all were read above
            pass
        self.cur.pos = lin.atom(phi)


class Cur:
    def __init__(self, lay, its, pos=None):
        self.lay = lay
        self.its = list(its)
        self.i = 0
        self.pos = pos or lin.const(0)
        self.buf = []       # tokens not consumed of the current items: (token, length form)
        self.acc = {}

    def form(self, t):
        return self.lay.a.lf(self.lay.st, t, self.acc)

    def posform(self):
        return self.pos

    def fill(self):
        """move writes into the token buffer until it holds something that is not a literal, or a loop is reached"""
        while self.i < len(self.its) and self.its[self.i].kind == 'w' and not any(t[0] != 'lit' for t, _ in self.buf):
            it = self.its[self.i]
            self.i += 1
            n = self.form(it.length)
            toks = it.x
            for j, t in enumerate(toks):
                ln = lin.const(len(t[1])) if t[0] == 'lit' else None
                if t[0] == 'byte':
                    ln = lin.const(1)
                if ln is None:
                    # the rest of the length
                    ln = n
                    for k, u in enumerate(toks):
                        if k != j:
                            ln = lin.add(ln, lin.const(len(u[1]) if u[0] == 'lit' else 1), 1, -1)
                if t[0] == 'lit' and self.buf and self.buf[-1][0][0] == 'lit':
                    b = self.buf[-1][0][1] + t[1]
                    self.buf[-1] = (('lit', b), lin.const(len(b)))
                elif t[0] != 'lit' or t[1]:
                    self.buf.append((t, ln))

    def loop(self):
        if self.buf or self.i >= len(self.its) or self.its[self.i].kind != 'loop':
            return None
        return self.its[self.i]

    def skip(self, track=True):
        it = self.its[self.i]
        self.i += 1
        if not track:
            self.pos = lin.atom(('s', 'position after a loop %d' % self.i))

    def peeklit(self, b):
        self.fill()
        return bool(self.buf) and self.buf[0][0][0] == 'lit' and self.buf[0][0][1].startswith(b)

    def lit(self, b):
        if not self.peeklit(b):
            return False
        s = self.buf[0][0][1][len(b):]
        if s:
            self.buf[0] = (('lit', s), lin.const(len(s)))
        else:
            self.buf.pop(0)
        self.pos = lin.add(self.pos, lin.const(len(b)))
        return True

    def litre(self, rx):
        self.fill()
        if not self.buf or self.buf[0][0][0] != 'lit':
            return None
        m = re.match(rx, self.buf[0][0][1])
        if m is None:
            return None
        self.lit(m.group(0))
        return m.group(0)

    def take(self, kind):
        self.fill()
        if not self.buf or self.buf[0][0][0] != kind:
            return None
        t, n = self.buf.pop(0)
        self.pos = lin.add(self.pos, n)
        return t

    def any(self):
        self.fill()
        if not self.buf:
            return None
        t, n = self.buf[0]
        if t[0] == 'lit':
            k = t[1].find(b'\nendobj\n')
            b = t[1] if k < 0 else t[1][:k]
            self.lit(b)
            return ('lit', b)
        self.buf.pop(0)
        self.pos = lin.add(self.pos, n)
        return t

    def all(self):
        while True:
            self.fill()
            if self.buf:
                t, n = self.buf.pop(0)
                self.pos = lin.add(self.pos, n)
            elif self.i < len(self.its):
                self.i += 1
                self.pos = lin.atom(('s', 'unknown'))
            else:
                return

    @property
    def end(self):
        self.fill()
        return not self.buf and self.i >= len(self.its)

    def show(self):
        return '; '.join(stream.show(t)[:100] for t, _ in self.buf[:3])


def pdf_file(P):
    """(path to the vector of serialised objects, path to the next object number or None) in a document"""
    isobjs = lambda t: t[0] == 'path' and t[1] == 'std::Vec' and t[2] and t[2][0][0] == 'path' and t[2][0][1] == 'std::Vec'
    isid = lambda t: t[0] == 'path' and t[1] == 'pdf::syntax::IndirectObjectId'
    ty = ('path', DOC, ())
    o = find_paths(P.p, ty, isobjs)
    i = find_paths(P.p, ty, isid)
    if len(o) != 1 or len(i) > 1:
        raise AnalysisError('fields holding the serialised objects not identified')
    return o[0], (i[0] if i else None)


def layouts(r, P):
    run = P.doc()
    out = [Layout(r, run, s, v, SINK2) for s, v in run.ok]
    r.fn(*[disp(P.p, k) for k in run.a.analysed])
    return out


def straight(lay):
    return [o for o in lay.objects if o[3] is None]


def norm_div(t):
    """('div', x, n) for nested divisions by constants"""
    n = 1
    while True:
        if t[0] == 'bin' and t[1] == 'Div' and t[3][0] == 'c':
            n *= t[3][1]
            t = t[2]
        elif t[0] == 'cast' and t[2] in ('usize', 'u64'):
            t = t[1]
        else:
            return t, n


def digit(p, t):
    """(x, n) when t is the ASCII digit of (x / n) % 10"""
    if t[0] == 'elem':
        tab = teval.table(p, t[1])
        if tab is None or bytes(tab[:10]) != b'0123456789':
            return None
        d = t[2]
    else:
        if t[0] == 'cast':
            t = t[1]
        if not (t[0] == 'bin' and t[1] == 'Add'):
            return None
        x, y = t[2], t[3]
        if x[0] == 'c':
            x, y = y, x
        if y[0] != 'c' or y[1] != 48:
            return None
        d = x
    while d[0] == 'cast':
        d = d[1]
    if d[0] == 'bin' and d[1] == 'Rem' and d[3][0] == 'c' and d[3][1] == 10:
        return norm_div(d[2])
    return None


def array_bytes(a, t, n=20):
    """element terms of an array value made of updates of another"""
    out = [None] * n
    while t[0] == 'updelem':
        i = t[2]
        if i[0] != 'c':
            return None, None
        if out[i[1]] is None:
            out[i[1]] = t[3]
        t = t[1]
    return out, t


@check('P01', 'The output of Document::write_to_pdf on every successful path is read as a token sequence (literals, decimal '
       'numbers, serialised dictionaries, stored objects; loops as one symbolic iteration). A ghost position (sum of the '
       'lengths of all writes) is compared, by linear arithmetic and induction over the loops, with every recorded offset and '
       'with startxref; cross-reference entries, object numbers and counts likewise. The numbers given out for objects are '
       'tied to their places in the file by an inductive invariant of every method of the object store.')
def p01(r):
    P = Pdf.get()
    p = P.p
    lays = layouts(r, P)
    r.floor('successful paths of write_to_pdf', len(lays), 1)
    where = disp(p, P.doc().key)
    opath, ipath = pdf_file(P)
    first = None
    for lay in lays:
        a, st = lay.a, lay.st
        for w, d in lay.bad:
            r.violate('file structure', where, w, detail=d)
        r.ob('file structure', not lay.bad, where, 'the output has the structure of a PDF file') if not lay.bad else None
        if lay.bad:
            continue
        s_ = straight(lay)
        loops = [o for o in lay.objects if o[3] is not None]
        n = len(s_)
        for i, o in enumerate(s_):
            r.ob('object number', same_int(a, st, o[0], const(i + 1)), where, 'object %d is numbered %d' % (i + 1, i + 1))
        r.floor('fixed objects', n, 1)
        first = n + 1
        objs0 = at(a, st, A1, opath)
        total = lin.const(n)
        if len({id(o[3][0]) for o in loops}) != 1:
            r.violate('stored objects', where, 'expected one loop over the stored objects')
            continue
        for num, body, start, (li, s) in loops:
            s = s.fork()     # numbers of the store fit in 32 bits, by its invariant (below)
            s.lin = s.lin + (lin.add(lin.const(2 ** 32 - 1 - n), a.lf(s, a.length_of(objs0), {}), 1, -1),)
            r.ob('object number', sequential(a, st, li, num, const(n + 1), [s]), where,
                 'stored objects are numbered consecutively from %d' % (n + 1))
            good = len(body) == 1 and body[0][0] == 'buf' and body[0][1][0] == 'elem' and body[0][1][1] == objs0
            r.ob('stored objects', good, where, 'an iteration writes one whole stored object', detail=str(body)[:500])
            if good:
                idx = body[0][1][2]
                r.ob('stored objects', sequential(a, st, li, idx, const(0), [s]), where, 'stored objects are written in order')
                acc = {}
                r.ob('stored objects', a.prove(st, lin.add(a.lf(st, idx, acc), a.lf(st, a.length_of(objs0), acc), 1, -1), acc),
                     where, 'all stored objects are written')
        nobj = plus(a, a.length_of(objs0), const(n + 1))
        r.ob('xref', same_int(a, st, lay.xref_size, nobj), where, 'the cross-reference count is the number of objects plus one',
             detail=sh(lay.xref_size)[:300])
        r.ob('startxref', zero(a, st, ('form', lay.xref_pos), lay.startxref), where,
             'startxref is the position of the cross-reference section')
        d = D(lay.trailer)
        size = d.get('Size', ('Usize', 'I32')) if d.ok else None
        r.ob('trailer', size is not None and same_int(a, st, size, nobj), where,
             'Size of the trailer is the number of objects plus one')
        # cross-reference entries
        li = lay.xref.li
        for s, its in lay.xref.iters:
            c = Cur(lay, its)
            off = None
            toks = []
            while not c.end:
                t = c.any()
                if t is None:
                    break
                toks.append(t)
            if len(toks) == 1 and toks[0][0] == 'buf':
                t = toks[0][1]
                upd, base = array_bytes(a, t)
                fixed = None
                if upd is not None:
                    if base[0] == 'phi':
                        loc = a.phi_info[base][1]
                        fixed = const_bytes(li.entry.get(loc, ('?',)))
                        nxt = a.load(s, loc[0], loc[1])
                        u2, b2 = array_bytes(a, nxt)
                        if u2 is None or b2 != base or any(x is not None for x in u2[10:]):
                            fixed = None
                    else:
                        fixed = const_bytes(base)
                good = upd is not None and fixed is not None and len(fixed) == 20 and fixed[10:] == b' 00000 n \n' and \
                    all(x is None for x in upd[10:])
                r.ob('xref', good, where, 'a cross-reference entry is 20 bytes: offset, " 00000 n" and a two-byte line end')
                if not good:
                    continue
                ds = [digit(p, x) if x is not None else None for x in upd[:10]]
                good = all(d is not None and d[0] == ds[0][0] and d[1] == 10 ** (9 - i) for i, d in enumerate(ds))
                r.ob('xref', good, where, 'the offset of an entry is written with all of its ten digits, in order',
                     detail=str(ds)[:800])
                if good:
                    off = ds[0][0]
            else:
                off = padded(toks)
                r.ob('xref', off is not None, where, 'a cross-reference entry is 20 bytes: ten-digit offset, " 00000 n" and '
                     'a two-byte line end', detail=str([stream.show(t)[:100] for t in toks]))
            if off is None:
                continue
            good = off[0] == 'elem'
            r.ob('xref', good, where, 'entries are written from recorded offsets', detail=sh(off)[:200])
            if not good:
                continue
            vec, idx = off[1], off[2]
            r.ob('xref', sequential(a, st, li, idx, const(0), [s]), where, 'entries are written in order from the first')
            acc = {}
            r.ob('xref', a.prove(st, lin.add(a.lf(st, idx, acc), a.lf(st, a.length_of(vec), acc), 1, -1), acc), where,
                 'all recorded offsets have an entry')
            toks = VT(a, raw=True).toks(vec)
            straights = [t for t in toks if t[0] != 'loop']
            lps = [t for t in toks if t[0] == 'loop']
            good = len(straights) == n and all(t[0] == 'byte' for t in straights) and len(lps) == 1 and toks[-1] is lps[0]
            r.ob('offsets', good, where, 'one offset is recorded per object', detail=str([t[0] for t in toks]))
            if not good:
                continue
            for i, t in enumerate(straights):
                r.ob('offsets', zero(a, st, ('form', s_[i][2]), t[1]), where,
                     'the recorded offset of object %d is its position' % (i + 1), detail=sh(t[1])[:300])
            good = lps[0][1] is loops[0][3][0]
            r.ob('offsets', good, where, 'offsets of stored objects are recorded as they are written')
            for (s2, tk) in lps[0][2]:
                good2 = len(tk) == 1 and tk[0][0] == 'byte' and all(
                    zero(a, s2, ('form', o[2]), tk[0][1]) for o in loops)
                r.ob('offsets', good2, where, 'the recorded offset of a stored object is its position',
                     detail=str([sh(t[1])[:200] for t in tk]))
    if first is None:
        return
    counting_writers(r, P)
    object_store(r, P, first)


def padded(toks):
    """offset term of an entry formatted with {:010}"""
    if len(toks) == 2 and toks[0][0] == 'fmt' and toks[1] == ('lit', b' 00000 n \n') and toks[0][1] == 'display':
        return toks[0][3] if spec_of(toks[0][2]) == (True, 10) else None
    return None


def spec_of(sp):
    """(zero padded, width) of a formatting placeholder"""
    flags = width = None
    if sp is not None and (sp[0] == 'agg' or sp[0] == 'call' and sp[1] == 'std::Argument::new'):
        for x in sp[4] if sp[0] == 'agg' else sp[2]:
            if x[0] == 'c' and len(x) > 2 and x[2] == 'u32':
                flags = x[1]
            if x[0] == 'call' and x[1] == 'std::Count::Is':
                width = x[2][0][1]
            if x[0] == 'agg' and x[3] == 'Is':
                width = x[4][0][1]
    if flags is None:
        return None
    return bool(flags & 8), width


def counting_writers(r, P):
    """every writer type of the crate that counts bytes counts what it hands on"""
    p = P.p
    n = 0
    for im in p.impls:
        if im.trait != 'std::Write' or im.for_[0] != 'path' or im.for_[1] not in p.structs:
            continue
        ints = find_paths(p, im.for_, lambda t: t in (('prim', 'usize'), ('prim', 'u64')), depth=2)
        if not ints:
            continue
        for m, k in sorted(im.methods.items()):
            a = engine.Analyzer(p)
            outs = a.entry(k)
            r.fn(disp(p, k))
            for kk, s, v in outs:
                if kk != 'ret':
                    continue
                n += 1
                for path in ints:
                    before = a.load(type(s)(), A1, ()) if False else ('fld', ('deref', ('s', 'arg1')), path[0])
                    after = at(a, s, A1, path)
                    added = const(0)
                    for e in s.events():
                        if e is None or e[0] != 'call':
                            continue
                        if e[1] == 'std::Write::write_all':
                            added = plus(a, added, buflen(a, e[2][1], e[3]['vals'][1]))
                        elif e[1] == 'std::Write::write':
                            res = e[3].get('res')
                            if res is not None and s.facts.get(('dis', res)) == 0:
                                q = ('vfld', res, 'Ok', 0)
                                a.settype(q, ('prim', 'usize'))
                                added = plus(a, added, q)
                        elif e[1] == 'std::Write::flush':
                            pass
                        else:
                            added = None
                            break
                    if not succeeds(s, v) :
                        continue
                    good = added is not None and zero(a, s, after, plus(a, before, added))
                    r.ob('byte count', good, disp(p, k), '%s counts exactly the bytes it hands on' % m,
                         key='byte count: ' + disp(p, k), detail=sh(after)[:300])
    r.counts['outcomes of counting writers'] = n


def object_store(r, P, first):
    """numbers given out for objects are their places in the file"""
    p = P.p
    opath, ipath = pdf_file(P)
    # the type that owns the vector
    owner = None
    ty = ('path', DOC, ())
    own = owner_of(p, ty, opath)
    o_i, i_p = opath[-1:], None
    if ipath is not None:
        if ipath[:len(opath) - 1] != opath[:-1]:
            raise AnalysisError('the next object number is not stored beside the objects')
        i_p = ipath[len(opath) - 1:] + (0,)
    mod = own.rsplit('::', 1)[0]
    n = 0
    for im in p.impls:
        if im.for_[0] != 'path' or im.for_[1] != own:
            continue
        for m, k in sorted(im.methods.items()):
            fn = p.bodies[k]
            rt = p.mty(fn.ret) if fn.ret else None
            takes = [i for i, (nm, t) in enumerate(fn.args) if p.mty(t)[0] == 'ref' and p.mty(t)[1]
                     and p.mty(t)[2][:2] == ('path', own)]
            if rt is not None and rt[:2] == ('path', own):
                run = Run(p, k, [P.ow, P.dw])
                for s, v in run.ok:
                    n += 1
                    root = v
                    objs = proj(run.a, root, o_i)
                    ok = objs == ('vec0',)
                    if i_p:
                        ok = ok and same_int(run.a, s, proj(run.a, root, i_p), const(first))
                    r.ob('object store', ok, disp(p, k), 'a new store is empty and its first number is %d' % first,
                         key='object store: ' + disp(p, k), detail=sh(v)[:200])
            elif takes:
                if takes != [0]:
                    raise AnalysisError('unexpected signature of %s' % disp(p, k))
                run = Run(p, k, [P.ow, P.dw])
                a = run.a
                r.fn(*[disp(p, x) for x in a.analysed])
                for s, v in run.ok:
                    n += 1
                    objs = at(a, s, A1, o_i)
                    objs0 = ('fld', ('deref', ('s', 'arg1')), o_i[0])
                    base, pushed = unpush(objs)
                    r.ob('object store', base == objs0, disp(p, k), 'objects are only ever appended',
                         key='object store append: ' + disp(p, k), detail=sh(objs)[:200])
                    if base != objs0:
                        continue
                    st = s.fork()
                    if i_p:
                        t0 = ('fld', ('fld', ('deref', ('s', 'arg1')), i_p[0]), 0)
                        a.settype(t0, ('prim', 'u32'))
                        assume_eq(a, st, t0, plus(a, a.length_of(objs0), const(first)))
                        r.ob('object store', same_int(a, st, at(a, s, A1, i_p),
                                                      plus(a, a.length_of(objs), const(first))), disp(p, k),
                             'the next number stays %d plus the number of objects' % first,
                             key='object store invariant: ' + disp(p, k))
                    if rt is not None and rt[:2] == ('path', 'pdf::syntax::IndirectObjectId'):
                        r.ob('object store', len(pushed) == 1 and same_int(
                            a, st, refnum(v), plus(a, a.length_of(objs0), const(first))), disp(p, k),
                            'the number returned is the place in the file of the object added',
                            key='object store number: ' + disp(p, k), detail=sh(v)[:200])
    r.floor('outcomes of object store methods', n, 4)
    # nothing else can reach the fields
    for (nm, t), vis in zip(p.structs[own]['fields'], p.field_vis[own]):
        r.ob('object store', restricted(vis, mod), own, 'field %s is private to its module' % nm)
    for k, b in p.bodies.items():
        if not k.startswith(mod + '::') or '{closure' in k:
            continue
        im = p.impl_of.get(k)
        if im is not None and im.for_[0] == 'path' and im.for_[1] == own:
            continue
        for nm, t in b.args:
            t = p.mty(t)
            if t[0] == 'ref' and t[1] and t[2][:2] == ('path', own) and not private(p, k):
                r.violate('object store', disp(p, k), 'a function other than the methods of the store can modify it')


def restricted(vis, mod):
    return vis == 'default' or isinstance(vis, dict) and vis['restricted']['path'].lstrip(':') == mod


def private(p, k):
    k = re.sub(r'#\d+$', '', k)
    return restricted(p.item_vis.get(k), k.rsplit('::', 1)[0])


def proj(a, v, path):
    for i in path:
        v = a.proj_value(None, v, ('field', i))
    return v


def owner_of(p, ty, path):
    own = None
    for i in path:
        while ty[0] == 'ref':
            ty = ty[2]
        if i == '*':
            continue
        own = ty[1]
        s = p.structs[own]
        ty = T.subst(s['fields'][i][1], dict(zip(s['params'], ty[2])))
    return own


def unpush(v):
    out = []
    while v[0] == 'vpush':
        out.append(v[2])
        v = v[1]
    return v, out[::-1]


def assume_eq(a, st, x, y):
    acc = {}
    f = lin.add(a.lf(st, x, acc), a.lf(st, y, acc), 1, -1)
    for g in (f, lin.scale(f, -1)):
        st.lin = st.lin + (g,)


# ---------------------------------------------------------------------------- links, streams, page tree
class Links:
    """what the output of a document says about the places of its parts"""

    def __init__(self, r, P):
        self.P = P
        self.ok = False
        self.run = P.doc()
        self.opath, self.ipath = pdf_file(P)
        p = P.p
        isv = lambda t: t[0] == 'path' and t[1] == 'std::Vec' and t[2] and t[2][0][:2] == ('path', OBJ)
        isr = lambda t: t[0] == 'path' and t[1] == 'std::Vec' and t[2] and t[2][0][0] == 'tuple'
        ty = ('path', DOC, ())
        self.lists = find_paths(p, ty, isv)
        self.res = find_paths(p, ty, isr)
        for lay in layouts(r, P):
            if lay.bad:
                continue
            self.lay = lay
            self.read(lay)

    def read(self, lay):
        a, st = lay.a, lay.st
        self.fixed = {}
        self.first = len(straight(lay)) + 1
        self.pages = self.catalog = None
        for i, o in enumerate(straight(lay)):
            d = D(o[1][0][2][0]) if len(o[1]) == 1 and o[1][0][0] == 'emit' and o[1][0][2] else None
            if d is None or not d.ok:
                d = None
            self.fixed[i + 1] = d
            if d is not None and d.name('Type') == 'Pages':
                self.pages = i + 1
            if d is not None and d.name('Type') == 'Catalog':
                self.catalog = i + 1

    def const_ref(self, t):
        """number when an object term is a reference to a fixed object"""
        o = obj(t)
        if o is None or o[0] != 'Reference':
            return None
        n = refnum(o[1])
        return n[1] if n[0] == 'c' else None


class Added:
    """objects added to a document by an operation on one path"""

    def __init__(self, L, run, st, rootpath):
        """rootpath: field path from arg1 to the document"""
        self.L, self.run, self.a = L, run, run.a
        a = run.a
        self.root = rootpath
        objs0 = at(a, engine_state0(st), A1, rootpath + L.opath)
        objs1 = at(a, st, A1, rootpath + L.opath)
        self.base, self.terms = unpush(objs1)
        self.appended = self.base == objs0
        self.st = st.fork()
        self.objs0 = objs0
        if L.ipath is not None:
            t0 = at(a, engine_state0(st), A1, rootpath + L.ipath + (0,))
            a.settype(t0, ('prim', 'u32'))
            assume_eq(a, self.st, t0, plus(a, a.length_of(objs0), const(L.first)))
        self.parts = [self.split(t) for t in self.terms]

    def split(self, t):
        """('dict', D) or ('stream', D, contents term or tokens, contents length form)"""
        a = self.a
        toks = self.run.vt.toks(t)
        if not toks or toks[0][0] != 'emit' or not toks[0][2]:
            return ('?', toks)
        d = D(toks[0][2][0])
        if len(toks) == 1:
            return ('dict', d)
        m = re.match(rb'[ \r\n]*stream\r?\n', toks[1][1]) if toks[1][0] == 'lit' else None
        e = re.search(rb'[\r\n]+endstream\s*$', toks[-1][1]) if toks[-1][0] == 'lit' else None
        if m is None or e is None:
            return ('?', toks)
        # contents length: everything but the dictionary and the keywords
        acc = {}
        n = a.lf(self.st, a.length_of(t), acc)
        first = self.emit_len(t)
        if first is None:
            return ('?', toks)
        n = lin.add(n, a.lf(self.st, first, acc), 1, -1)
        n = lin.add(n, lin.const(len(m.group(0)) + len(e.group(0))), 1, -1)
        if len(toks) == 2:
            mid = [('lit', toks[1][1][m.end():e.start()])]
        else:
            mid = [('lit', toks[1][1][m.end():])] + toks[2:-1] + [('lit', toks[-1][1][:e.start()])]
        mid = [x for x in mid if x[0] != 'lit' or x[1]]
        return ('stream', d, mid, n, e.group(0))

    def emit_len(self, t):
        while t[0] in ('vpush', 'vext'):
            if t[0] == 'vext' and t[1] == ('vec0',):
                return t[3]
            t = t[1]
        return None

    def number(self, t):
        """('fixed', n) or ('added', k) of a reference object term"""
        o = obj(t)
        if o is None or o[0] != 'Reference':
            return None
        n = refnum(o[1])
        if n[0] == 'c':
            return ('fixed', n[1])
        for k in range(len(self.terms)):
            if same_int(self.a, self.st, n, plus(self.a, self.a.length_of(self.objs0), const(self.L.first + k))):
                return ('added', k)
        return ('unknown', n)

    def target(self, t):
        """the part an object reference points to"""
        n = self.number(t)
        if n is not None and n[0] == 'added':
            return self.parts[n[1]]
        return None


def engine_state0(st):
    """a state with nothing written yet"""
    return engine.State()


def refs(t):
    """all references inside of an object or dictionary term"""
    out = []
    t = peel(t)
    o = obj(t)
    if o is not None and o[0] == 'Reference':
        return [t]
    if o is not None and o[0] == 'Array':
        for x in array_items(o[1]) or []:
            out += refs(x)
        return out
    if o is not None and o[0] != 'Dictionary':
        return out
    for k, v in entries(t) or []:
        out += refs(v)
    return out


def page_root(P, key):
    """field path from the first argument of an operation on a page to its document"""
    fn = P.p.bodies[key]
    ty = P.p.mty(fn.args[0][1])
    if ty[0] != 'ref':
        raise AnalysisError('%s does not take its page by reference' % key)
    doc = P.p.structs[DOC]['fields'][0][1]
    c = find_paths(P.p, ty[2], lambda t: t[0] == 'path' and t[1] == doc[1])
    if len(c) != 1:
        raise AnalysisError('the document of a page is not identified')
    return c[0]


def sub_path(P, path):
    """a field path of Document as one of the type its first field has"""
    if path is None:
        return None
    if path[0] != 0:
        raise AnalysisError('Document has several fields')
    return path[1:]


class Sub:
    """Links with paths relative to the in-progress document"""

    def __init__(self, L, P):
        self.opath, self.ipath = sub_path(P, L.opath), sub_path(P, L.ipath)
        self.first = L.first
        self.fixed = L.fixed
        self.pages = L.pages


def check_streams(r, where, add):
    for i, q in enumerate(add.parts):
        r.ob('object form', q[0] in ('dict', 'stream') and q[1].ok, where,
             'an added object is a dictionary, or a stream: dictionary, stream keyword, contents, endstream keyword',
             detail=str(q)[:600])
        if q[0] == '?' or not q[1].ok:
            continue
        r.ob('dictionary keys', not q[1].dup, where, 'no key appears twice in a dictionary', detail=str(q[1].keys))
        if q[0] == 'stream':
            n = q[1].get('Length', ('Usize', 'I32'))
            r.ob('stream length', n is not None and zero(add.a, add.st, n, ('form', q[3])), where,
                 'Length of a stream is the length of its contents', detail=sh(n)[:200] if n is not None else None)
        for t in refs(add_dict_term(q)):
            nn = add.number(t)
            good = nn is not None and (nn[0] == 'added' or nn[0] == 'fixed' and nn[1] in add.L.fixed)
            r.ob('references', good, where, 'every reference is to an object of the file', detail=sh(t)[:300])


def add_dict_term(q):
    d = q[1]
    return ('agg', 'adt', DICT, None, (('agg', 'adt', 'std::Option', 'None', (), ()), ('agg', 'array', '', None, tuple(
        ('agg', 'tuple', '', None, (('c', k, '&bytes'), v), ()) for k, v in d.e if k is not None), ())), ())


@check('P02', 'The dictionaries written by Document::write_to_pdf and the objects added when a page is dropped or a font is '
       'first used are reconstructed as terms (keys, names, vectors, numbers). Root, Info, Pages, Kids, Count, Parent, Contents '
       'and resource links are compared with the places where the respective objects are written; Length with the symbolic '
       'length of the stream contents; every reference in every added dictionary must resolve to an object of the file.')
def p02(r):
    P = Pdf.get()
    p = P.p
    L = Links(r, P)
    where = disp(p, P.doc().key)
    lay = getattr(L, 'lay', None)
    r.floor('readable outputs', 1 if lay else 0, 1)
    if not lay:
        return
    a = lay.a
    t = D(lay.trailer)
    r.ob('trailer', t.ok and L.catalog is not None and L.const_ref(t.d.get('Root', ('?',))) == L.catalog, where,
         'Root of the trailer is the catalog')
    if t.ok and 'Info' in t.d:
        r.ob('trailer', L.const_ref(t.d['Info']) in L.fixed, where, 'Info of the trailer is an object of the file')
    r.ob('trailer', t.ok and not t.dup, where, 'no key appears twice in the trailer')
    cat = L.fixed.get(L.catalog)
    r.ob('catalog', cat is not None and L.pages is not None and L.const_ref(cat.d.get('Pages', ('?',))) == L.pages, where,
         'Pages of the catalog is the page tree')
    pg = L.fixed.get(L.pages)
    if pg is None:
        return
    kids = pg.get('Kids', 'Array')
    kpath = None
    for x in L.lists:
        if kids is not None and peel(kids) == at(a, engine_state0(None), A1, x):
            kpath = x
    r.ob('page tree', kpath is not None, where, 'Kids of the page tree are all pages of the document',
         detail=sh(kids)[:200] if kids else None)
    count = pg.get('Count', ('Usize', 'I32'))
    r.ob('page tree', kids is not None and count is not None and same_int(a, lay.st, count, a.length_of(peel(kids))), where,
         'Count of the page tree is the number of its kids')
    res = D(pg.d['Resources']) if 'Resources' in pg.d else None
    rpath = {}
    for k in ('Font', 'ExtGState'):
        v = obj(res.d[k]) if res is not None and res.ok and k in res.d else None
        for x in L.res:
            if v is not None and v[0] == 'DictionaryWithOwnedKeys' and peel(v[1]) == at(a, engine_state0(None), A1, x):
                rpath[k] = x
        r.ob('resources', k in rpath, where, 'pages inherit the %s resources of the document' % k)
    r.ob('resources', len(set(rpath.values())) == len(rpath), where, 'font and graphics state resources are distinct')
    S = Sub(L, P)
    # dropping a page
    for name in ('drop', 'set_color', 'paint_rectangle', 'show_text'):
        run = P.page(name)
        w = disp(p, run.key)
        root = page_root(P, run.key)
        r.fn(*[disp(p, k) for k in run.a.analysed])
        n = 0
        for s, v in [(s, v) for k, s, v in run.outs if k == 'ret']:
            n += 1
            add = Added(S, run, s, root)
            r.ob('objects', add.appended, w, 'objects are only appended')
            if not add.appended:
                continue
            check_streams(r, w, add)
            k0 = at(run.a, engine_state0(s), A1, root + sub_path(P, kpath)) if kpath else None
            k1 = at(run.a, s, A1, root + sub_path(P, kpath)) if kpath else None
            kb, kp = unpush(k1)
            if name != 'drop':
                r.ob('page tree', k1 == k0, w, 'only finishing a page adds to the page tree')
                for kind, path in rpath.items():
                    f0 = at(run.a, engine_state0(s), A1, root + sub_path(P, path))
                    fb, fp = unpush(at(run.a, s, A1, root + sub_path(P, path)))
                    r.ob('resources', fb == f0, w, 'resources are only added')
                    for e in fp:
                        e = peel(e)
                        v2 = e[4][1] if e[0] == 'agg' and e[1] == 'tuple' else None
                        if kind == 'Font':
                            q = add.target(v2) if v2 is not None else None
                            r.ob('resources', q is not None and q[0] == 'dict' and q[1].name('Type') == 'Font'
                                 and q[1].name('Subtype') == 'Type0', w,
                                 'a font resource refers to a font dictionary added with it')
                        else:
                            o = obj(v2) if v2 is not None else None
                            r.ob('resources', o is not None and o[0] == 'GraphicsStateDictionaryAlpha', w,
                                 'a graphics state resource is a graphics state dictionary')
                continue
            r.ob('page tree', kb == k0 and len(kp) == 1, w, 'finishing a page adds one kid to the page tree')
            q = add.target(kp[0]) if len(kp) == 1 else None
            r.ob('page tree', q is not None and q[0] == 'dict' and q[1].ok and q[1].name('Type') == 'Page', w,
                 'the kid added is the page dictionary', detail=sh(kp[0])[:300] if kp else None)
            if q is None or q[0] != 'dict' or not q[1].ok:
                continue
            r.ob('page', add.number(q[1].d.get('Parent', ('?',))) == ('fixed', L.pages), w, 'Parent of a page is the page tree')
            mb = q[1].items('MediaBox')
            r.ob('page', mb is not None and len(mb) == 4, w, 'a page has a media box of four numbers')
            c = add.target(q[1].d.get('Contents', ('?',)))
            ops0 = at(run.a, engine_state0(s), A1, P.ops[1:])
            good = c is not None and c[0] == 'stream' and len(c[2]) == 1 and c[2][0][0] in ('base', 'buf') and \
                peel(c[2][0][1]) == ops0
            r.ob('page', good, w, 'Contents of a page is a stream of its operations',
                 detail=str(c[2])[:300] if c is not None and len(c) > 2 else None)
            r.ob('page', c is not None and c[0] == 'stream' and not (set(c[1].keys) & {b'Filter', b'F', b'FFilter'}), w,
                 'the content stream is declared as what it is: not encoded')
        r.floor('outcomes of page.%s' % name, n, 1)


# ---------------------------------------------------------------------------- serialisation
WS = b'\0\t\n\x0c\r '
DELIM = b'()<>[]{}/%'


def byte_loop(r, where, what, lp, a, st, p, source, decode):
    """lp writes the bytes of source one after the other, each in a form that decode (a function from written bytes to
    the set of bytes they can be read as, or None) maps back to the byte"""
    li = lp[1]
    its = lp[2]
    if not its:
        r.violate(what, where, 'nothing is written for a byte')
        return
    elem = None
    for s, toks in its:
        for e in elems_of(toks, source, a):
            elem = e
    for s, toks in its:
        for f in s.facts:
            for e in elems_in(f, source):
                elem = e
    if elem is None:
        r.violate(what, where, 'the bytes written are not those of the value')
        return
    idx = elem[2]
    r.ob(what, sequential(a, st, li, idx, const(0), [s for s, _ in its]), where, 'bytes are written in order from the first')
    acc = {}
    src = elem[1]
    r.ob(what, a.prove(st, lin.add(a.lf(st, idx, acc), a.lf(st, a.length_of(src), acc), 1, -1), acc), where,
         'bytes are written up to the last')
    bad = []
    for b in range(256):
        outs = set()
        env = {elem: b}
        for s, toks in its:
            if not teval.consistent(p, s, env):
                continue
            w = b''
            for t in toks:
                if t[0] == 'lit':
                    w += t[1]
                elif t[0] == 'byte':
                    try:
                        w += bytes([teval.ev(p, t[1], env) & 255])
                    except teval.Unknown:
                        w = None
                        break
                elif t[0] == 'buf' and peel(t[1])[0] == 'agg':
                    try:
                        w += bytes([teval.ev(p, x, env) & 255 for x in peel(t[1])[4]])
                    except teval.Unknown:
                        w = None
                        break
                elif t[0] == 'fmt' and t[1] in ('upper_hex', 'lower_hex') and spec_of(t[2]) == (True, 2):
                    try:
                        w += (b'%02X' if t[1] == 'upper_hex' else b'%02x') % teval.ev(p, t[3], env)
                    except teval.Unknown:
                        w = None
                        break
                else:
                    w = None
                    break
            outs.add(w)
        if not outs or any(w is None or not decode(w, b) for w in outs):
            bad.append((b, sorted(str(x) for x in outs)))
    r.ob(what, not bad, where, 'every byte is written in a form that reads back as that byte',
         detail='bytes not read back: %s' % bad[:12])


def elems_in(t, source):
    if not isinstance(t, tuple):
        return
    if len(t) == 3 and t[0] == 'elem' and peel(t[1]) == source:
        yield t
    for x in t:
        yield from elems_in(x, source)


def elems_of(toks, source, a):
    for t in toks:
        yield from elems_in(t[1:], source)


def name_decode(w, b):
    if w == bytes([b]):
        return 33 <= b <= 126 and b not in DELIM and b != 35 or b >= 127 or (b < 33 and b not in WS)
    m = re.match(rb'^#([0-9A-Fa-f]{2})$', w)
    return bool(m) and int(m.group(1), 16) == b


def literal_decode(w, b):
    if w == bytes([b]):
        return b not in b'\\()\r'
    esc = {10: b'\\n', 13: b'\\r', 9: b'\\t', 8: b'\\b', 12: b'\\f', 40: b'\\(', 41: b'\\)', 92: b'\\\\'}
    if w == esc.get(b):
        return True
    m = re.match(rb'^\\([0-3][0-7]{2})$', w)
    return bool(m) and int(m.group(1), 8) == b


def hex_decode(w, b):
    return bool(re.match(rb'^[0-9A-Fa-f]{2}$', w)) and int(w, 16) == b


def variant_of(st, scrut):
    v = st.facts.get(('dis', scrut))
    return v


@check('P03', 'The output of Object::write and Dictionary::write is reconstructed per variant. For names and strings, the bytes '
       'written for each of the 256 byte values are computed from the path facts and terms of one symbolic loop iteration and '
       'decoded again by the rules of PDF; loops must cover all bytes, items and pairs in order. Numbers written in the format of '
       'dtoa must be in the range where that is not exponential, and not infinite or NaN.',
       ['itoa writes plain decimal integers; dtoa writes plain decimals exactly for 0 and magnitudes in [1e-6, 1e21)',
        'Display of f32 is plain decimal (std)'])
def p03(r):
    P = Pdf.get()
    p = P.p
    wp = methods(p, DICT).get('write_pairs')
    ops = [P.ow, P.dw] + ([wp] if wp else [])
    run = Run(p, P.ow, ops, unroll=4)
    a = run.a
    w = disp(p, P.ow)
    r.fn(*[disp(p, k) for k in a.analysed])
    r.ob('no panic', not run.panics, w, 'serialisation cannot panic', detail=str([v for s, v in run.panics])[:300])
    scrut = ('deref', ('s', 'arg1'))
    variants = [v[0] for v in p.enums[OBJ]['variants']]
    seen = {v: 0 for v in variants}
    for s, v in run.ok:
        k = s.facts.get(('dis', scrut))
        if k is None:
            r.violate('variants', w, 'output for an unknown kind of object')
            continue
        var = [n for n, _, d in p.enums[OBJ]['variants'] if d == k][0]
        seen[var] += 1
        toks = stream.tokens(a, s.events(), lambda x: x == SINK2)
        val = ('vfld', scrut, var, 0)
        number_or_compound(r, P, run, s, var, toks, val, w)
    for var, n in seen.items():
        r.ob('variants', n > 0, w, 'objects of kind %s are written' % var)
    r.floor('successful outcomes of Object::write', sum(seen.values()), len(variants))
    # dictionaries
    runs = [Run(p, P.dw, ops, unroll=4)] + ([Run(p, wp, ops, unroll=4)] if wp else [])
    for q in runs:
        w = disp(p, q.key)
        r.fn(*[disp(p, k) for k in q.a.analysed])
        for s, v in q.ok:
            toks = stream.tokens(q.a, s.events(), lambda x: x == SINK2)
            if q.key == P.dw:
                c = stream.Cursor(toks)
                good = c.lit(b'<<')
                if wp:
                    e = c.take('emit')
                    good = good and e is not None and e[1].endswith('write_pairs') and peel(e[2][0]) in (scrut, ('s', 'arg1'))
                else:
                    good = good and pairs_tokens(r, P, q, s, c, w)
                good = good and c.litre(re.compile(rb'\s*>>')) is not None and c.end
                r.ob('dictionary', bool(good), w, 'a dictionary is its pairs between << and >>',
                     detail=str([stream.show(t)[:100] for t in toks]))
            else:
                c = stream.Cursor(toks)
                good = pairs_tokens(r, P, q, s, c, w)
                r.ob('dictionary', bool(good) and c.end, w, 'all pairs of a dictionary and of those it is linked to are written',
                     detail=str([stream.show(t)[:100] for t in toks]))


def pairs_tokens(r, P, q, s, c, w):
    """tokens of the pairs of a (linked) dictionary *arg1"""
    a = q.a
    d = ('deref', ('s', 'arg1'))
    prev = s.facts.get(('dis', ('fld', d, 0)))
    if prev is None:
        prev = 0 if c.peek()[0] != 'emit' else 1
    if prev == 1:
        e = c.take('emit')
        if e is None or not (e[1].endswith('write_pairs')) or not mentions_field(e[2][0], d):
            return False
    lp = c.take('loop')
    if lp is None:
        return False
    return pair_loop(r, P, q, s, lp, ('fld', d, 1), w)


def mentions_field(t, d):
    return teval.mentions(t, ('fld', d, 0))


def pair_loop(r, P, q, s, lp, source, w):
    """every iteration writes the name and the value of one pair of source, separated by white space"""
    a = q.a
    li = lp[1]
    ok = True
    for s2, toks in lp[2]:
        c = stream.Cursor(toks)
        ok = ok and c.litre(re.compile(rb'[ \n]+/')) is not None
        nl = c.take('loop')
        if nl is None:
            return False
        # the value
        sep = c.litre(re.compile(rb'[ \n]+'))
        e = c.take('emit')
        if e is None or sep is None or not e[1].endswith('Object::write'):
            return False
        el = [x for x in elems_any(e[2][0])]
        val = peel(e[2][0])
        # value == field 1 of the element, name bytes from its field 0
        if not (val[0] == 'fld' and val[2] == 1 and val[1][0] == 'elem'):
            return False
        el = val[1]
        ok = ok and (c.end or c.litre(re.compile(rb'\s*')) is not None and c.end)
        src = el[1]
        if not same_source(src, source):
            return False
        ok = ok and sequential(a, s, li, el[2], const(0), [s2])
        acc = {}
        ok = ok and a.prove(s, lin.add(a.lf(s, el[2], acc), a.lf(s, a.length_of(src), acc), 1, -1), acc)
        names = set()
        for s3, tk in nl[2]:
            for t in list(tk) + [('x', f) for f in s3.facts]:
                for x in elems_any(t[1:]):
                    if teval.mentions(x[1], ('fld', el, 0)):
                        names.add(x[1])
        if len(names) != 1:
            return False
        byte_loop(r, w, 'name', nl, a, s2, P.p, peel(names.pop()), name_decode)
    return bool(lp[2]) and ok


def same_source(src, source):
    return peel(src) == peel(source) or src == ('deref', source) or peel(src) == ('deref', source)


def elems_any(t):
    if not isinstance(t, tuple):
        return
    if len(t) == 3 and t[0] == 'elem':
        yield t
    for x in t:
        yield from elems_any(x)


def number_or_compound(r, P, run, s, var, toks, val, w):
    a, p = run.a, P.p
    c = stream.Cursor(toks)
    show = lambda: str([stream.show(t)[:120] for t in toks])
    if var in ('Usize', 'I32'):
        t = c.take('dec')
        r.ob('number', t is not None and t[1] == val and c.end, w, 'an integer is written as itself', detail=show())
    elif var == 'Float':
        float_output(r, P, run, s, c, val, w, show)
    elif var == 'Reference':
        t = c.take('dec')
        good = t is not None and refnum(val) == t[1] and c.lit(b' 0 R') and c.end
        r.ob('reference', bool(good), w, 'a reference is its number, generation 0 and R', detail=show())
    elif var in ('Name', 'LiteralString', 'HexString'):
        op, cl, dec = {'Name': (b'/', b'', name_decode), 'LiteralString': (b'(', b')', literal_decode),
                       'HexString': (b'<', b'>', hex_decode)}[var]
        good = c.lit(op)
        lp = c.take('loop')
        good = good and lp is not None and (not cl or c.lit(cl)) and c.end
        r.ob(var, bool(good), w, 'a %s is written between its delimiters' % var, detail=show())
        if good:
            src = set()
            for s2, tk in lp[2]:
                for t in list(tk) + [('x', f) for f in s2.facts]:
                    for x in elems_any(t[1:]):
                        if teval.mentions(x[1], val):
                            src.add(peel(x[1]))
            if len(src) != 1:
                r.violate(var, w, 'the bytes written are not those of the value')
            else:
                byte_loop(r, w, var, lp, a, s, p, src.pop(), dec)
    elif var == 'Array':
        array_output(r, P, run, s, c, val, w, show)
    elif var == 'Dictionary':
        t = c.take('emit')
        good = t is not None and t[1].endswith('Dictionary::write') and teval.mentions(t[2][0], val) or \
            t is not None and peel(t[2][0]) == val
        r.ob('dictionary', bool(good) and c.end, w, 'a dictionary object is written as its dictionary', detail=show())
    elif var == 'DictionaryWithOwnedKeys':
        good = c.lit(b'<<')
        lp = c.take('loop')
        good = good and lp is not None and pair_loop(r, P, run, s, lp, val, w) and \
            c.litre(re.compile(rb'\s*>>')) is not None and c.end
        r.ob('dictionary', bool(good), w, 'a dictionary is its pairs between << and >>', detail=show())
    elif var == 'GraphicsStateDictionaryAlpha':
        t = c.take('emit')
        d = D(t[2][0]) if t is not None and t[2] else None
        good = d is not None and d.ok and not d.dup and c.end and all(
            d.get(k, 'Float') == val for k in ('CA', 'ca')) and set(d.d) <= {'CA', 'ca', 'Type'}
        r.ob('graphics state', bool(good), w, 'a graphics state dictionary sets both constant alpha values', detail=show())
    else:
        r.violate('variants', w, 'no rule for objects of kind %s' % var)


def array_output(r, P, run, s, c, val, w, show):
    """'[' items in order separated by white space ']'"""
    a = run.a
    good = bool(c.lit(b'['))
    n = 0
    ok = True
    src = None
    while good:
        t = c.peek()
        if t[0] == 'emit' and t[1].endswith('Object::write'):
            c.take('emit')
            x = peel(t[2][0])
            ok = ok and x[0] == 'elem' and x[2][0] == 'c' and x[2][1] == n and teval.mentions(x[1], val)
            src = x[1] if x[0] == 'elem' else src
            n += 1
            # further items must be separated
            nx = c.peek()
            if nx[0] == 'emit':
                ok = False
            if nx[0] == 'lit' and re.match(rb'^\s+$', nx[1]) is None and not nx[1].startswith(b']'):
                ok = False
        elif t[0] == 'loop':
            c.take('loop')
            li = t[1]
            for s2, tk in t[2]:
                d = stream.Cursor(tk)
                lead = d.litre(re.compile(rb'\s+'))
                e = d.take('emit')
                trail = d.litre(re.compile(rb'\s+'))
                x = peel(e[2][0]) if e is not None else ('?',)
                if e is None or not d.end or x[0] != 'elem' or not teval.mentions(x[1], val):
                    ok = False
                    continue
                if lead is None and (n or trail is None) and not (n == 0 and same_int(a, s2, x[2], const(0))):
                    ok = False
                ok = ok and sequential(a, s, li, x[2], const(n), [s2])
                acc = {}
                ok = ok and a.prove(s, lin.add(a.lf(s, x[2], acc), a.lf(s, a.length_of(x[1]), acc), 1, -1), acc)
                src = x[1]
                ok = ok and covers(a, s, x[2], a.length_of(x[1]))
            n = None
        elif t[0] == 'lit' and t[1].strip() == b'' and n is not None:
            c.take('lit')
        else:
            break
        if n is None:
            break
    good = good and c.litre(re.compile(rb'\s*\]')) is not None and c.end
    if good and n is not None:
        # all items were written out: the array has exactly n of them
        acc = {}
        ln = src and a.length_of(src)
        if ln is None:
            ln = a.length_of(('deref', val))
        ok = ok and zero(a, s, ln, const(n))
    r.ob('array', good and ok, w, 'an array is all of its items in order, separated, between brackets', detail=show())


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


LO, HI = f32(1e-6), f32(1e21)     # dtoa: -6 < decimal exponent <= 21


def float_output(r, P, run, s, c, val, w, show):
    a = run.a
    t = c.peek()
    if t[0] == 'dec' or t[0] == 'buf' and t[1][0] == 'deref':
        x = t[1]
    elif t[0] == 'emit' and t[1] == 'dtoa::write':
        x = t[2][0]
        lo, hi = magnitude(s, x)
        good = lo is not None and (hi == 0 or lo >= LO and hi <= HI)
        r.ob('number', good, w, 'a number written by dtoa is in the range where it does not use exponents',
             detail='%s facts %s' % (show(), [(sh(f)[:100], v) for f, v in s.facts.items()][:8]))
    else:
        r.violate('number', w, 'a number is not written by a known formatter', detail=show())
        return
    c.i += 1
    r.ob('number', c.end, w, 'nothing else is written for a number', detail=show())
    # the value is that of the object, made finite
    r.ob('number', clamped(s, x, val), w, 'the number written is the value, with infinities and NaN replaced',
         detail=sh(x)[:200] + str([(sh(f)[:100], v) for f, v in s.facts.items()][:4]))


def fconst(t):
    return t[1] if t[0] == 'c' and isinstance(t[1], (int, float)) else None


def magnitude(s, x):
    """bounds known for |x| on a path: (lo, hi), (0, 0) for zero, (None, None) if nothing is known"""
    lo = hi = None
    for f, v in s.facts.items():
        if f[0] != 'bin' or f[1] not in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne') or not isinstance(v, bool):
            continue
        for p, q, op in ((f[2], f[3], f[1]), (f[3], f[2], {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(f[1], f[1]))):
            k = fconst(q)
            isabs = p[0] in ('call', 'f32abs', 'fabs') and teval.mentions(p, x) or p == x and op in ('Eq', 'Ne')
            if k is None or not isabs:
                continue
            if op == 'Eq' and v and k == 0 or op == 'Ne' and not v and k == 0:
                return 0, 0
            if p == x or not v:
                continue        # a comparison that is false says nothing: the value could be NaN
            if op in ('Ge', 'Gt'):
                lo = k if lo is None else max(lo, k)
            if op in ('Lt', 'Le'):
                hi = k if hi is None else min(hi, k)
    if lo is None or hi is None:
        return None, None
    return lo, hi


def clamped(s, x, val):
    """x is val restricted to finite numbers, or a number where val is NaN on this path"""
    nan = None
    for f, v in s.facts.items():
        if f[0] == 'bin' and f[1] in ('Ne', 'Eq') and f[2] == val and f[3] == val:
            nan = (f[1] == 'Ne') == v
        if f[0] in ('f32isnan', 'isnan') or f[0] == 'call' and f[1].endswith('is_nan'):
            if teval.mentions(f, val):
                nan = v
    if nan is True:
        return fconst(x) is not None and abs(x[1]) < 3.41e38
    if x == val:
        return is_finite(s, val)
    # min(max(val, lo), hi) in either order
    b = []
    t = x
    while t[0] in ('f32min', 'f32max') and (fconst(t[2]) is not None or fconst(t[1]) is not None):
        k, t2 = (t[2], t[1]) if fconst(t[2]) is not None else (t[1], t[2])
        b.append((t[0], fconst(k)))
        t = t2
    if t != val or nan is not False and len(b) < 1:
        return False
    F = 3.4028234663852886e38
    for kind, k in b:
        if k is None or f32(abs(k)) != F or (kind == 'f32min') != (k > 0):
            return False
    return {k for k, _ in b} == {'f32min', 'f32max'}


def is_finite(s, val):
    for f, v in s.facts.items():
        if f[0] == 'call' and f[1].endswith('is_finite') and v is True and teval.mentions(f, val):
            return True
    lo, hi = magnitude(s, val)
    return hi is not None


# ---------------------------------------------------------------------------- content streams
N, S_, NM, AR = 'number', 'string', 'name', 'array'
OPERATORS = {
    'w': [N], 'J': [N], 'j': [N], 'M': [N], 'd': [AR, N], 'ri': [NM], 'i': [N], 'gs': [NM], 'q': [], 'Q': [], 'cm': [N] * 6,
    'm': [N] * 2, 'l': [N] * 2, 'c': [N] * 6, 'v': [N] * 4, 'y': [N] * 4, 'h': [], 're': [N] * 4,
    'S': [], 's': [], 'f': [], 'F': [], 'f*': [], 'B': [], 'B*': [], 'b': [], 'b*': [], 'n': [], 'W': [], 'W*': [],
    'BT': [], 'ET': [], 'Tc': [N], 'Tw': [N], 'Tz': [N], 'TL': [N], 'Tf': [NM, N], 'Tr': [N], 'Ts': [N], 'Td': [N] * 2,
    'TD': [N] * 2, 'Tm': [N] * 6, 'T*': [], 'Tj': [S_], 'TJ': [AR], "'": [S_], 'CS': [NM], 'cs': [NM], 'G': [N], 'g': [N],
    'RG': [N] * 3, 'rg': [N] * 3, 'K': [N] * 4, 'k': [N] * 4, 'Do': [NM],
}
PATH = {'m', 'l', 'c', 'v', 'y', 'h', 're'}
PAINT = {'S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*', 'n'}
INTEXT = {'Td', 'TD', 'Tm', 'T*', 'Tj', 'TJ', "'"}
ANYTEXT = INTEXT | {'Tc', 'Tw', 'Tz', 'TL', 'Tf', 'Tr', 'Ts', 'gs', 'g', 'G', 'rg', 'RG', 'k', 'K', 'cs', 'CS', 'w', 'J', 'j',
                    'M', 'd', 'ri', 'i'}
KINDS = {'Usize': N, 'I32': N, 'Float': N, 'Name': NM, 'LiteralString': S_, 'HexString': S_, 'Array': AR}


def operations(toks):
    """[(operator, [operands])] of the tokens of a content stream, operands being object terms or constants; raises
    ValueError where it is not a sequence of white-space separated operands and operators"""
    out = []
    cur = []
    glued = False           # the last thing was written without white space after it
    for t in toks:
        if t[0] == 'emit' and t[1].endswith('Object::write') and t[2]:
            if glued:
                raise ValueError('an operand follows without white space')
            o = obj(t[2][0])
            if o is None:
                raise ValueError('an operand of unknown kind is written')
            cur.append(o)
            glued = True
        elif t[0] == 'dec':
            if glued:
                raise ValueError('an operand follows without white space')
            cur.append(('Usize', t[1]))
            glued = True
        elif t[0] == 'lit':
            s = t[1]
            if glued and s[:1] not in (b' ', b'\n', b'\r', b'\t', b''):
                raise ValueError('%r follows an operand without white space' % s[:10])
            words = re.split(rb'[ \n\r\t]+', s)
            if words and words[0] == b'':
                words = words[1:]
            glued = bool(words) and words[-1] != b''
            for x in [x for x in words if x]:
                if re.match(rb'^[-+]?\d+$', x):
                    cur.append(('I32', ('c', int(x), 'i32')))
                elif re.match(rb'^[-+]?(\d+\.\d*|\.\d+)$', x):
                    cur.append(('Float', ('c', float(x), 'f32')))
                elif x[:1] == b'/':
                    cur.append(('Name', ('c', x[1:], '&bytes')))
                else:
                    out.append((x.decode('latin1'), cur))
                    cur = []
        else:
            raise ValueError('unexpected output: %s' % stream.show(t)[:100])
    if cur:
        raise ValueError('operands without an operator')
    if glued:
        raise ValueError('the last operator is not followed by white space')
    return out


PAGE_OPS = ('set_color', 'paint_rectangle', 'show_text')


def page_outputs(P, name):
    """[(state, value, tokens appended, base kept)] of an operation on a page"""
    run = P.page(name)
    out = []
    for k, s, v in run.outs:
        if k != 'ret':
            continue
        if name == 'new':
            x = v
            while x[0] == 'agg' and x[2] == 'std::Result':
                x = x[4][0]
            t = proj(run.a, x, P.ops)
            toks = run.vt.toks(t)
            out.append((s, v, toks, True))
        else:
            base = at(run.a, engine_state0(s), A1, P.ops)
            toks = run.vt.toks(at(run.a, s, A1, P.ops), base)
            out.append((s, v, toks, not any(t[0] == 'base' for t in toks)))
    return run, out


@check('P04', 'The bytes that every operation on a page appends to its content stream are reconstructed on every path as operands '
       'and operators, and validated against the table of PDF operators: known operator, right number and kinds of operands, '
       'white space between all of them, text operators inside of a text object which is closed, path construction followed by '
       'painting.')
def p04(r):
    P = Pdf.get()
    total = 0
    for name in ('new',) + PAGE_OPS:
        run, outs = page_outputs(P, name)
        w = disp(P.p, run.key)
        r.fn(*[disp(P.p, k) for k in run.a.analysed])
        r.floor('outcomes of %s' % name, len(outs), 1)
        for s, v, toks, kept in outs:
            r.ob('append', kept, w, 'operations are only appended to what was written')
            try:
                ops = operations(toks)
                err = None
            except ValueError as e:
                ops, err = [], str(e)
            r.ob('syntax', err is None, w, 'operands and operators are separated by white space, and complete',
                 key='syntax: %s in %s' % (err, w), detail='%s: %s' % (err, [stream.show(t)[:80] for t in toks]))
            total += len(ops)
            if not succeeds(s, v):
                r.ob('error', not toks, w, 'nothing is written by an operation that fails')
            text = False
            path = False
            for op, args in ops:
                kinds = OPERATORS.get(op)
                r.ob('operator', kinds is not None, w, '%s is an operator of content streams' % op)
                if kinds is None:
                    continue
                got = [KINDS.get(x[0]) for x in args]
                r.ob('operands', got == kinds, w, 'operator %s has its operands (%s)' % (op, ', '.join(kinds) or 'none'),
                     detail=str(got))
                if op == 'BT':
                    r.ob('text object', not text, w, 'text objects are not nested')
                    text = True
                elif op == 'ET':
                    r.ob('text object', text, w, 'a text object is closed after it is opened')
                    text = False
                elif op in INTEXT:
                    r.ob('text object', text, w, 'operator %s is used inside of a text object' % op)
                elif text:
                    r.ob('text object', op in ANYTEXT, w, 'operator %s is allowed in a text object' % op)
                if op in PATH:
                    path = True
                elif op in PAINT:
                    r.ob('path', path, w, 'there is a path to paint')
                    path = False
                elif op not in ('W', 'W*'):
                    r.ob('path', not path, w, 'a path is painted before operator %s' % op)
            r.ob('text object', not text, w, 'text objects are closed')
            r.ob('path', not path, w, 'paths are painted')
    r.floor('operators', total, 10)


# ---------------------------------------------------------------------------- geometry
def poly(t):
    """polynomial normal form of a number term: {sorted atoms: coefficient}"""
    c = fconst(t)
    if c is not None:
        return {(): float(c)} if c else {}
    if t[0] == 'un' and t[1] == 'Neg':
        return {k: -v for k, v in poly(t[2]).items()}
    if t[0] == 'bin' and t[1] in ('Add', 'Sub'):
        a, b = poly(t[2]), poly(t[3])
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if t[1] == 'Add' else -v)
        return {k: v for k, v in out.items() if v}
    if t[0] == 'bin' and t[1] == 'Mul' or t[0] == 'call' and t[1] == 'std::Mul::mul':
        x, y = (t[2], t[3]) if t[0] == 'bin' else t[2][:2]
        out = {}
        for k, v in poly(x).items():
            for l, w in poly(y).items():
                m = tuple(sorted(k + l, key=repr))
                out[m] = out.get(m, 0) + v * w
        return {k: v for k, v in out.items() if v}
    if t[0] == 'bin' and t[1] == 'Div' and fconst(t[3]):
        return {k: v / fconst(t[3]) for k, v in poly(t[2]).items()}
    return {(t,): 1.0}


def pmul(a, b):
    out = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l, key=repr))
            out[m] = out.get(m, 0) + v * w
    return {k: v for k, v in out.items() if v}


def padd(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def peq(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-6 * max(1, abs(a[k])) for k in a)


def num(o):
    """polynomial of a number operand"""
    if o is None or KINDS.get(o[0]) != N:
        return {('?',): 1.0}
    return poly(o[1])


def field_term(a, ptr, *path):
    t = ('deref', ptr)
    for i in path:
        t = ('fld', t, i)
    return t


def fidx(p, ty, name):
    for i, (n, t) in enumerate(p.structs[ty]['fields']):
        if n == name:
            return i
    raise AnalysisError('%s has no field %s' % (ty, name))


@check('P06', 'Operands of the matrix, rectangle and text operators and the entries of the media box are normalised to '
       'polynomials over the arguments and compared with their definition: 1 px = 0.75 pt, y downwards, media box = image of '
       'the page rectangle under the initial matrix, rectangle operands in the order x y width height, text matrix of the font '
       'size, upright, at the origin.')
def p06(r):
    P = Pdf.get()
    p = P.p
    run, outs = page_outputs(P, 'new')
    r.fn(*[disp(p, k) for k in run.a.analysed])
    w = disp(p, run.key)
    mats = []
    for s, v, toks, kept in outs:
        ops = operations(toks)
        good = len(ops) >= 1 and ops[0][0] == 'cm' and len(ops[0][1]) == 6 and sum(1 for o in ops if o[0] == 'cm') == 1
        r.ob('matrix', good, w, 'a page starts with its transformation')
        if not good:
            continue
        m = [num(x) for x in ops[0][1]]
        want = [{(): 0.75}, {}, {}, {(): -0.75}, {}, {}]
        r.ob('matrix', peq(m[0], want[0]) and peq(m[3], want[3]) and all(not m[i] for i in (1, 2)), w,
             'one CSS pixel is 0.75 points and the y axis is flipped', detail=str(m)[:300])
        mats.append(m)
    r.floor('initial matrices', len(mats), 1)
    # media box, at the end of the page, from the size given at the start
    issize = lambda t: t[0] == 'path' and t[1].startswith('euclid::') and 'Size2D' in t[1]
    L = Links(r, P)
    S = Sub(L, P)
    drop = P.page('drop')
    wd = disp(p, drop.key)
    fn = p.bodies[drop.key]
    pagety = p.mty(fn.args[0][1])[2]
    sz = find_paths(p, pagety, issize)
    if len(sz) != 1:
        raise AnalysisError('the size of a page is not identified: %d' % len(sz))
    n = 0
    for s, v in drop.ok:
        add = Added(S, drop, s, page_root(P, drop.key))
        for q in add.parts:
            if q[0] != 'dict' or not q[1].ok or q[1].name('Type') != 'Page':
                continue
            mb = q[1].items('MediaBox')
            if mb is None or len(mb) != 4:
                continue
            n += 1
            got = [num(obj(x)) for x in mb]
            size = at(drop.a, engine_state0(s), A1, sz[0])
            wid, hei = {(('fld', size, 0),): 1.0}, {(('fld', size, 1),): 1.0}
            for m in mats:
                x0, y0 = m[4], m[5]
                x1 = padd(padd(pmul(m[0], wid), pmul(m[2], hei)), m[4])
                y1 = padd(padd(pmul(m[1], wid), pmul(m[3], hei)), m[5])
                good = any(peq(got[0], a) and peq(got[1], b) and peq(got[2], c) and peq(got[3], d)
                           for a, c in ((x0, x1), (x1, x0)) for b, d in ((y0, y1), (y1, y0)))
                r.ob('media box', good, wd, 'the media box is the image of the page rectangle under the initial matrix',
                     detail=str(got)[:600])
    r.floor('media boxes', n, 1)
    # the size is the one given, on creation
    for s, v, toks, kept in outs:
        root = (0,)
        sizep = find_paths(p, p.structs[PAGE]['fields'][0][1], issize)
        t = proj(run.a, v, (0,) + sizep[0]) if len(sizep) == 1 else None
        r.ob('media box', t == ('s', 'arg2'), w, 'the size of a page is the one given', detail=sh(t)[:100] if t else None)
    for name in PAGE_OPS:
        rn, os_ = page_outputs(P, name)
        sizep = find_paths(p, p.structs[PAGE]['fields'][0][1], issize)
        for s, v, toks, kept in os_:
            full = (0,) + sizep[0]
            r.ob('media box', at(rn.a, s, A1, full) == at(rn.a, engine_state0(s), A1, full), disp(p, rn.key),
                 'the size of a page does not change')
            if name != 'show_text':
                r.ob('matrix', not any(o[0] == 'cm' for o in operations(toks)), disp(p, rn.key),
                     'the transformation does not change')
    # rectangles
    run, outs = page_outputs(P, 'paint_rectangle')
    w = disp(p, run.key)
    n = 0
    for s, v, toks, kept in outs:
        for op, args in operations(toks):
            if op == 're' and len(args) == 4:
                n += 1
                want = [field_term(run.a, ('s', 'arg2'), *q) for q in ((0, 0), (0, 1), (1, 0), (1, 1))]
                for x, t, what in zip(args, want, ('x', 'y', 'width', 'height')):
                    r.ob('rectangle', peq(num(x), poly(t)), w, 'the %s of a rectangle is at its place' % what,
                         detail=str(num(x))[:200])
    r.floor('rectangles', n, 1)
    # text
    run, outs = page_outputs(P, 'show_text')
    w = disp(p, run.key)
    TR = [k for k in p.structs if k.endswith('::TextRun') and any(f[0] == 'font_size' for f in p.structs[k]['fields'])
          and any(f[0] == 'origin' for f in p.structs[k]['fields'])]
    n = 0
    argty = p.mty(p.bodies[run.key].args[1][1])[2][1]
    for s, v, toks, kept in outs:
        ops = operations(toks)
        tf = [a for o, a in ops if o == 'Tf']
        tm = [a for o, a in ops if o == 'Tm']
        if not ops:
            continue
        n += 1
        r.ob('text', len(tf) == 1 and len(tm) == 1 and len(tf[0]) == 2 and len(tm[0]) == 6, w,
             'text has one font and one matrix')
        if len(tf) != 1 or len(tm) != 1 or len(tf[0]) != 2 or len(tm[0]) != 6:
            continue
        fs = poly(('fld', field_term(run.a, ('s', 'arg2'), fidx(p, argty, 'font_size')), 0))
        ori = field_term(run.a, ('s', 'arg2'), fidx(p, argty, 'origin'))
        size = num(tf[0][1])
        m = [num(x) for x in tm[0]]
        r.ob('text', peq(pmul(m[0], size), fs), w, 'text is scaled horizontally by the font size', detail=str(m[0])[:200])
        neg = {k: -x for k, x in fs.items()}
        r.ob('text', peq(pmul(m[3], size), neg), w, 'text is scaled vertically by the font size, upright on a flipped page',
             detail=str(m[3])[:200])
        r.ob('text', not m[1] and not m[2], w, 'text is not slanted or rotated')
        r.ob('text', peq(m[4], poly(('fld', ori, 0))) and peq(m[5], poly(('fld', ori, 1))), w, 'text starts at its origin',
             detail=str(m[4:])[:300])
        names = [o for o, a in ops]
        r.ob('text', names.index('Tm') < names.index('Tj') and names.index('Tf') < names.index('Tj') if 'Tj' in names else False,
             w, 'font and matrix are set before text is shown')
    r.floor('texts', n, 1)


# ---------------------------------------------------------------------------- graphics state cache
def known_equal(st, x, y):
    """terms are known to be equal on a path"""
    if x == y:
        return True
    for a, b in ((x, y), (y, x)):
        if st.facts.get(('bin', 'Eq', a, b)) is True or st.facts.get(('bin', 'Ne', a, b)) is False:
            return True
    for a, b in ((x, y), (y, x)):
        if a[0] == 'agg' and a[1] == 'tuple' and a[4]:
            parts = [b[4][i] if b[0] == 'agg' and b[1] == 'tuple' else ('fld', b, i) for i in range(len(a[4]))]
            if all(known_equal(st, u, v) for u, v in zip(a[4], parts)):
                return True
    return False


def tuple_parts(t, n):
    if t[0] == 'agg' and len(t[4]) == n:
        return list(t[4])
    if t[0] == 'upd':
        d = dict(t[2])
        return [d.get(i, ('fld', t[1], i)) for i in range(n)]
    return [('fld', t, i) for i in range(n)]


STATEOPS = {'rg', 'g', 'k', 'cs', 'sc', 'scn', 'gs', 'q', 'Q', 'RG', 'G', 'K', 'CS'}


@check('P08', 'The colour and alpha remembered for a page are followed through every path of every operation: they change exactly '
       'on the paths that write the corresponding operator, to the values written; a path that writes none has established '
       'that the remembered value equals the one asked for. The graphics state selected has the alpha asked for (rounded to '
       '1/65535) through the map of alpha states, whose new entries are registered under a fresh name.')
def p08(r):
    P = Pdf.get()
    p = P.p
    inner = p.structs[PAGE]['fields'][0][1]
    f32t = ('prim', 'f32')
    col = [(0,) + x for x in find_paths(p, inner, lambda t: t == ('tuple', (f32t,) * 3) or t == ('array', f32t, '3')) if '*' not in x]
    if len(col) != 1:
        raise AnalysisError('the remembered colour is not identified: %d candidates' % len(col))
    col = col[0]
    alp = [(0,) + x for x in find_paths(p, inner, lambda t: t == f32t) if '*' not in x]
    alp = [x for x in alp if x[:len(col)] != col]
    if len(alp) != 1:
        raise AnalysisError('the remembered alpha is not identified: %d candidates' % len(alp))
    alp = alp[0]
    run, outs = page_outputs(P, 'new')
    for s, v, toks, kept in outs:
        c = tuple_parts(proj(run.a, v, col), 3)
        r.ob('initial', all(fconst(x) == 0 for x in c), disp(p, run.key), 'a new page is remembered as drawing in black')
        r.ob('initial', fconst(proj(run.a, v, alp)) == 1, disp(p, run.key), 'a new page is remembered as drawing opaque')
        r.ob('initial', not any(o in STATEOPS for o, a in operations(toks)), disp(p, run.key),
             'the graphics state of a new page is the initial one')
    n = 0
    for name in PAGE_OPS:
        run, outs = page_outputs(P, name)
        a = run.a
        w = disp(p, run.key)
        r.fn(*[disp(p, k) for k in a.analysed])
        rootdoc = page_root(P, run.key)
        for s, v, toks, kept in outs:
            n += 1
            ops = operations(toks)
            c0 = at(a, engine_state0(s), A1, col)
            c1 = at(a, s, A1, col)
            a0 = at(a, engine_state0(s), A1, alp)
            a1 = at(a, s, A1, alp)
            rg = [x for o, x in ops if o == 'rg']
            gs = [x for o, x in ops if o == 'gs']
            other = [o for o, x in ops if o in STATEOPS - {'rg', 'gs'}]
            r.ob('operators', not other and len(rg) <= 1 and len(gs) <= 1, w,
                 'the graphics state changes through one colour and one state operator at most')
            if rg:
                parts = tuple_parts(c1, 3)
                r.ob('colour', [x[1] for x in rg[0]] == parts, w, 'the colour remembered is the one written',
                     detail='%s / %s' % (sh(c1)[:200], rg[0]))
            else:
                r.ob('colour', c1 == c0, w, 'the colour remembered stays when none is written', detail=sh(c1)[:200])
            if not gs:
                r.ob('alpha', a1 == a0, w, 'the alpha remembered stays when no graphics state is selected')
            if name == 'set_color' and succeeds(s, v):
                arg = [('fld', ('deref', ('s', 'arg2')), i) for i in range(4)]
                want = ('agg', 'tuple', '', None, tuple(arg[:3]), ())
                r.ob('colour', (not rg and (known_equal(s, c0, want))) or
                     (rg and [x[1] for x in rg[0]] == arg[:3]), w,
                     'after setting a colour, the colour in effect is the one asked for',
                     detail=str([(sh(f)[:100], x) for f, x in s.facts.items()][:4]))
                good = clamp01(a1, arg[3]) if gs else any(known_equal(s, a0, t) for t in clamps(s, arg[3]))
                r.ob('alpha', good, w, 'after setting a colour, the alpha in effect is the one asked for, between 0 and 1',
                     detail=sh(a1)[:200])
            elif name != 'set_color':
                r.ob('colour', not rg and not gs, w, '%s draws in the current colour' % name)
            if gs:
                graphics_state(r, P, run, s, gs[0], a1, w, rootdoc)
    r.floor('outcomes of operations', n, 6)


def clamp01(t, x):
    """t is x limited to 0..1"""
    b = {}
    while t[0] in ('f32min', 'f32max'):
        u, k = (t[1], fconst(t[2])) if fconst(t[2]) is not None else (t[2], fconst(t[1]))
        b[t[0]] = k
        t = u
    return t == x and b.get('f32min') == 1 and b.get('f32max') == 0


def clamps(st, x):
    for f in st.facts:
        for t in subterms(f):
            if t[0] in ('f32min', 'f32max') and clamp01(t, x):
                yield t


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)


def graphics_state(r, P, run, s, args, alpha, w, rootdoc):
    """gs selects a state dictionary with the given alpha"""
    p, a = P.p, run.a
    ismap = lambda t: t[0] == 'path' and t[1] == 'std::HashMap' and t[2] and t[2][0][0] == 'prim'
    isres = lambda t: t[0] == 'path' and t[1] == 'std::Vec' and t[2] and t[2][0][0] == 'tuple'
    doc = P.p.structs[DOC]['fields'][0][1]
    maps = find_paths(p, doc, ismap)
    if len(maps) != 1:
        raise AnalysisError('the map of alpha states is not identified')
    m0 = at(a, engine_state0(s), A1, rootdoc + maps[0])
    m1 = at(a, s, A1, rootdoc + maps[0])
    res = find_paths(p, doc, isres)
    added = []
    for x in res:
        f0 = at(a, engine_state0(s), A1, rootdoc + x)
        b, ps = unpush(at(a, s, A1, rootdoc + x))
        if b != f0:
            r.violate('graphics states', w, 'resources are not only added')
        added += ps
    name = args[0] if args else None
    t = text(name[1]) if name else ('?',)
    if m1 == m0:
        # an existing entry, for this alpha
        good = t[0] == 'mval' and t[1] == m0 and quantised(t[2], alpha) and not added
        r.ob('graphics states', good, w, 'an existing graphics state is selected by its alpha', detail=sh(t)[:300])
        return
    good = m1[0] == 'mins' and m1[1] == m0 and quantised(m1[2], alpha) and s.facts.get(('mhas', m0, m1[2])) is False
    r.ob('graphics states', good, w, 'a new graphics state is recorded once, under its alpha', detail=sh(m1)[:300])
    if not good:
        return
    nm = m1[3]
    r.ob('graphics states', t == text(nm) or t == ('mval', m1, m1[2]), w, 'the state selected is the new one', detail=sh(t)[:200])
    good = len(added) == 1 and added[0][0] == 'agg' and text(added[0][4][0]) == text(nm)
    o = obj(added[0][4][1]) if good else None
    r.ob('graphics states', good and o is not None and o[0] == 'GraphicsStateDictionaryAlpha' and o[1] == alpha, w,
         'the new graphics state is a resource with that name and alpha', detail=str(added)[:300])
    r.ob('graphics states', fresh_name(a, s, nm, m0), w, 'the name of a new graphics state is not in use', detail=sh(nm)[:200])


def quantised(key, alpha):
    """key is alpha times the largest value of the key type, as an integer"""
    if key[0] != 'cast' or key[2] not in ('u8', 'u16', 'u32'):
        return False
    q = poly(key[1])
    top = {'u8': 255., 'u16': 65535., 'u32': 4294967295.}[key[2]]
    off = q.pop((), 0)
    return peq(q, {(alpha,): top}) and 0 <= off <= 0.5


def text(t):
    """the characters of a string or byte vector, without the copies and conversions"""
    while True:
        if t[0] in ('cref', 'deref'):
            t = t[1]
        elif t[0] == 'vext' and t[1] == ('vec0',):
            t = t[2]
        else:
            return t


def fresh_name(a, s, nm, m0):
    """a constant prefix and the number of entries so far"""
    t = text(nm)
    if t[0] != 'format' or t[1][0] != 'fmt':
        return False
    toks = stream.fmt(t[1])
    decs = [x for x in toks if x[0] == 'dec']
    return len(decs) == 1 and all(x[0] in ('lit', 'dec') for x in toks) and decs[0][1] == ('len', m0) or \
        len(decs) == 1 and same_int(a, s, decs[0][1], ('len', m0))


# ---------------------------------------------------------------------------- embedded fonts
FONT_ACC = ['min_x', 'min_y', 'max_x', 'max_y', 'ascender', 'descender', 'postscript_name', 'bytes', 'glyph_count']


def covers(a, st, idx, n):
    """the loop counter idx ended at n or beyond"""
    acc = {}
    return a.prove(st, lin.add(a.lf(st, idx, acc), a.lf(st, n, acc), 1, -1), acc)


def font_call(t, name):
    """font a term is an accessor call of"""
    while t[0] in ('fld', 'vfld', 'cref') or t[0] == 'deref':
        t = t[1]
    return t[2][0] if t[0] == 'call' and t[1] == FONTK + '::' + name else None


def em_units(o, name, font):
    """a numeric object holding a thousand times a length in ems: o = 1000 * font.name()"""
    if o is None or o[0] not in ('I32', 'Float', 'Usize'):
        return False
    t = o[1]
    if t[0] == 'cast':
        t = t[1]
    q = poly(t)
    return len(q) == 1 and list(q.values()) == [1000.0] and all(
        len(k) == 1 and font_call(k[0], name) == font for k in q)


class Chunks:
    """the part of a ToUnicode CMap that lists characters: a loop over all of them, filling buffers and flushing these"""

    def __init__(self, r, w, run, st, toks, font):
        self.r, self.w, self.a, self.st, self.font = r, w, run.a, st, font
        self.read(toks)

    def ob(self, good, what, detail=None):
        self.r.ob('ToUnicode', good, self.w, what, detail=detail)
        return good

    def read(self, toks):
        stars = [i for i, t in enumerate(toks) if t[0] == 'loop']
        good = len(stars) >= 1 and stars[0] == 1 and toks[0][0] == 'lit' and toks[-1][0] == 'lit'
        if not self.ob(good, 'the CMap is a header, lists of characters and an end', str([t[0] for t in toks])):
            return
        head, tail = toks[0][1], toks[-1][1]
        cs = re.search(rb'(\d+)\s+begincodespacerange\s+<0000>\s*<[fF]{4}>\s+endcodespacerange\s*$', head)
        self.ob(b'begincmap' in head and cs is not None and cs.group(1) == b'1', 'codes have two bytes')
        tl = re.match(rb'(endbfchar\n)?\s*endcmap\s', tail)
        if not self.ob(tl is not None, 'the CMap ends with endcmap', str(tail[:40])):
            return
        star = toks[1]
        li = star[1]
        ev = [e for e in self.st.events() if e and e[0] in ('star', 'loop') and e[3]['loop'] is li]
        evs = self.st.events()
        it = [e for e in evs if e and e[0] == 'call' and e[1] == FONTK + '::each_code_point']
        if not self.ob(len(ev) == 1 and ev[0][0] == 'star' and len(it) == 1 and it[0][2][0] == self.font and
                       known_ok(self.st, it[0][3].get('res')), 'the characters are all those of the font',
                       str([e[1:3] for e in it])[:300]):
            return
        # buffers: fill count, characters, glyphs
        rest = toks[2:-1]
        flushed = [(s, tk) for s, tk in star[2] if tk]
        self.K = self.C = self.G = None
        for s, tk in star[2]:
            for loc, phi in li.phis.items():
                v = self.a.load(s, loc[0], loc[1])
                if v[0] == 'updelem':
                    b, i, x = v[1:4]
                    if self.is_arg(x, 2):
                        self.C = loc
                    elif self.is_arg(x, 3):
                        self.G = loc
        if not self.ob(self.C is not None and self.G is not None, 'characters and glyphs of the font are collected'):
            return
        chunk = self.chunk(self.st, rest + [toks[-1]], li)
        ks = set()
        for s, tk in star[2]:
            if tk:
                c = self.chunk(s, tk, li)
                if c is not None:
                    ks |= self.counters(li, s, c)
        if chunk is not None:
            ks |= self.counters(li, self.st, chunk)
        ks = [loc for loc in li.phis if self.a.isint(li.phis[loc]) and all(self.step(li, loc, s, bool(tk)) for s, tk in star[2])]
        if not self.ob(len(ks) == 1, 'every character is stored after those that wait to be written, which are flushed in time',
                       str(len(ks))):
            return
        K = li.phis[ks[0]]
        self.ob(same_int(self.a, self.st, li.entry[ks[0]], const(0)), 'no character waits before the first')
        for s, tk in star[2]:
            if tk:
                c = self.chunk(s, tk, li, True)
                self.ob(c is not None and same_int(self.a, s, c, K), 'all the characters that wait are written when flushing')
        if tl.group(1):
            c = self.chunk(self.st, rest + [toks[-1]], li, True)
            self.ob(c is not None and same_int(self.a, self.st, c, K), 'the characters left over are written at the end')
        else:
            self.ob(not rest and same_int(self.a, self.st, K, const(0)), 'there are no characters left over at the end')

    def is_arg(self, x, i):
        while x[0] in ('fld', 'cast'):
            x = x[1]
        return x[0] == 'carg' and x[2] == i

    def counters(self, li, s, n):
        return {loc for loc, phi in li.phis.items() if self.a.isint(phi) and same_int(self.a, s, n, phi)}

    def step(self, li, loc, s, flush):
        """one character is stored at the place counted by loc, which then counts it"""
        a = self.a
        k = const(0) if flush else li.phis[loc]
        if not same_int(a, s, a.load(s, loc[0], loc[1]), plus(a, k, const(1))):
            return False
        for q, arg in ((self.C, 2), (self.G, 3)):
            v = a.load(s, q[0], q[1])
            if v[0] != 'updelem' or v[1] != li.phis[q] or not self.is_arg(v[3], arg) or not same_int(a, s, v[2], k):
                return False
        return True

    def chunk(self, s, tk, li, report=False):
        """term of the number of characters in a list"""
        ob = self.ob if report else lambda good, what, detail=None: good
        tk = [t for t in tk if t[0] != 'lit' or t[1].strip()]
        ok = len(tk) == 4 and tk[0][0] == 'dec' and tk[1][0] == 'lit' and tk[2][0] == 'loop' and tk[3][0] == 'lit' \
            and re.match(rb'\s+beginbfchar\s+$', tk[1][1]) and re.match(rb'endbfchar\s', tk[3][1])
        if not ob(bool(ok), 'a list of characters is its length, beginbfchar, entries, endbfchar', str([stream.show(t)[:60] for t in tk])):
            return None
        a = self.a
        n = tk[0][1]
        acc = {}
        ob(a.prove(s, lin.add(lin.const(100), a.lf(s, n, acc), 1, -1), acc), 'a list has 100 characters at most')
        l2 = tk[2][1]
        for s2, e in tk[2][2]:
            ok = len(e) == 5 and e[0] == ('lit', b'<') and e[4][0] == 'lit' and re.match(rb'>\s+$', e[4][1]) and \
                e[2][0] == 'lit' and re.match(rb'>\s*<$', e[2][1]) and self.hex4(e[1]) and e[3][0] == 'loop'
            if not ob(bool(ok), 'an entry is a four-digit glyph and the UTF-16 of its character', str([stream.show(t)[:60] for t in e])):
                return None
            g = e[1][3]
            ok = g[0] == 'elem' and g[1] == li.phis[self.G]
            ob(ok and sequential(a, s, l2, g[2], const(0), [s2]) and covers(a, s, g[2], n), 'the glyphs waiting are all written in order',
               sh(g)[:200])
            l3 = e[3][1]
            for s3, u in e[3][2]:
                ok = len(u) == 1 and self.hex4(u[0]) and u[0][3][0] == 'elem'
                if not ob(ok, 'a code unit is written in four digits'):
                    return None
                x = u[0][3]
                ok = sequential(a, s2, l3, x[2], const(0), [s3]) and covers(a, s2, x[2], a.length_of(x[1]))
                ob(ok, 'all code units are written in order')
                y = x[1]
                while y[0] in ('deref', 'vfld', 'fld'):
                    y = y[1]
                ch = y[2][0] if y[0] == 'call' and y[1] == 'char::encode_utf16' else ('?',)
                while ch[0] == 'cref':
                    ch = ch[1]
                ok = ch[0] == 'elem' and ch[1] == li.phis[self.C]
                ob(ok and sequential(a, s, l2, ch[2], const(0), [s2]) and covers(a, s, ch[2], n)
                   and (ch[2] == g[2] or same_int(a, s2, ch[2], g[2])), 'the characters waiting are all written, with their glyph',
                   sh(ch)[:200])
        return n

    def hex4(self, t):
        return t[0] == 'fmt' and t[1] in ('lower_hex', 'upper_hex') and spec_of(t[2]) == (True, 4)


def by_address(r, P, key):
    """two fonts are the same map key exactly if they are the same object, and the hash agrees"""
    p = P.p
    owner = key[1]
    found = set()
    for im in p.impls:
        if im.for_[0] != 'path' or im.for_[1] != owner:
            continue
        if im.trait == 'std::PartialEq':
            a = engine.Analyzer(p)
            for k, s, v in a.entry(im.methods['eq']):
                if k == 'ret':
                    ok = v[0] == 'bin' and v[1] == 'Eq' and swap(v[2]) == v[3] or \
                        v[0] == 'call' and v[1].endswith('::ptr_eq') and len(v[2]) == 2 and swap(v[2][0]) == v[2][1]
                    found.add('eq')
                    r.ob('font map', bool(ok), disp(p, im.methods['eq']), 'equality of map keys compares the fonts by one property',
                         detail=sh(v)[:300])
                    eqt = v[2] if v[0] == 'bin' else None
        if im.trait == 'std::Hash':
            a = engine.Analyzer(p)
            for k, s, v in a.entry(im.methods['hash']):
                if k == 'ret':
                    hs = [e for e in s.events() if e and e[0] == 'call' and 'ash' in e[1]]
                    found.add('hash')
                    ht = hs
    if 'hash' in found and 'eq' in found and eqt is not None:
        arg = lambda e: e[3].get('vals', e[2])[0]
        norm = lambda t: snapref(t)
        good = all(any(x == eqt or x == swap(eqt) for x in (norm(arg(e)), norm(e[2][0]))) for e in ht) or not ht
        r.ob('font map', good, owner, 'the hash of a map key depends on nothing but what equality compares',
             detail='%s / %s' % ([sh(e[2])[:200] for e in ht], sh(eqt)[:200]))
    r.floor('map key functions', len(found), 2)


def snapref(t):
    while t[0] == 'cref':
        t = t[1]
    return t


def swap(t):
    if t == ('s', 'arg1'):
        return ('s', 'arg2')
    if isinstance(t, tuple):
        return tuple(swap(x) for x in t)
    return t


@check('P07', 'The objects and content operators of showing text are reconstructed on every path with the accessors of the font as '
       'atoms. Font file, names, metrics (times 1000) and the widths of all glyphs from 0 are compared with these; the loop over '
       'the characters of the font is checked by induction: each is buffered at the next free place, and buffers are written '
       'completely, with their counts, before they are reused and at the end. Glyph codes are evaluated for all 65536 values. '
       'The name the text operator uses is the one under which the font is registered.',
       ['the accessors of the font (F02, F03)', 'char::encode_utf16'])
def p07(r):
    P = Pdf.get()
    p = P.p
    fonts = methods(p, FONTK)

    def pre(a):
        a.pure = set(a.pure) | {disp(p, fonts[n]) for n in FONT_ACC if n in fonts}
        a.opaque |= {fonts[n] for n in FONT_ACC if n in fonts}
    for n in FONT_ACC:
        r.ob('accessors', n in fonts, FONTK, 'the font has the accessor ' + n)
    run = Run(p, method(p, PAGE, 'show_text'), [P.ow, P.dw] + P.fontops, pre=pre)
    a = run.a
    w = disp(p, run.key)
    r.fn(*[disp(p, k) for k in a.analysed])
    L = Links(r, P)
    if not getattr(L, 'lay', None):
        return r.floor('readable outputs', 0, 1)
    S = Sub(L, P)
    root = page_root(P, run.key)
    doc = p.structs[DOC]['fields'][0][1]
    fmap = find_paths(p, doc, lambda t: t[0] == 'path' and t[1] in ('std::HashMap', 'std::BTreeMap') and t[2] and t[2][0][0] != 'prim')
    fres = fmap and [x for x in find_paths(p, doc, lambda t: t[0] == 'path' and t[1] == 'std::Vec' and t[2] and t[2][0][0] == 'tuple')]
    if len(fmap) != 1:
        raise AnalysisError('the map of fonts is not identified: %d candidates' % len(fmap))
    kty = find_type(p, doc, fmap[0])[2][0]
    if kty[0] == 'path' and kty[1] in p.structs:
        by_address(r, P, kty)
    segty = 'text::ShapedSegment' if 'text::ShapedSegment' in p.structs else None
    at2 = p.mty(p.bodies[run.key].args[1][1])
    while at2[0] == 'ref':
        at2 = at2[2]
    runpath = [x for x in find_paths(p, at2, lambda t: t[0] == 'path' and t[1] == FONTK or t[0] == 'path' and t[1] == 'std::Arc')]
    bad = [v for s, v in run.panics if 'overflow' not in str(v)]
    r.ob('panic', not bad, w, 'showing text stays within its buffers', detail=str([sh(v)[:200] for v in bad][:3]))
    nn = no = 0
    for s, v in run.ok:
        add = Added(S, run, s, root)
        toks = run.vt.toks(at(a, s, A1, P.ops), at(a, engine_state0(s), A1, P.ops))
        ops = operations(toks)
        tf = [x for o, x in ops if o == 'Tf']
        tj = [x for o, x in ops if o in ('Tj',)]
        r.ob('text', len(tf) == 1 and len(tj) == 1, w, 'one font is selected and one string shown', detail=str([o for o, x in ops]))
        if len(tf) != 1 or len(tj) != 1:
            continue
        name = text(tf[0][0][1]) if tf[0] and tf[0][0][0] == 'Name' else ('?',)
        glyphs = glyph_codes(r, P, run, s, tj[0], w)
        m0 = at(a, engine_state0(s), A1, root + fmap[0])
        m1 = at(a, s, A1, root + fmap[0])
        if m1 == m0:
            no += 1
            ok = name[0] == 'mval' and name[1] == m0
            r.ob('font names', ok, w, 'a known font is selected by its name in the map of fonts', detail=sh(name)[:200])
            fk = font_in(name[2]) if ok else None
            r.ob('font names', fk is not None and fk == glyphs, w, 'the font selected is the one of the text shown',
                 detail='%s / %s' % (fk and sh(fk), glyphs and sh(glyphs)))
            r.ob('font names', not add.terms, w, 'a known font is not added again')
            continue
        nn += 1
        ok = m1[0] == 'mins' and m1[1] == m0 and s.facts.get(('mhas', m0, m1[2])) is False
        r.ob('font names', ok, w, 'a new font is recorded once', detail=sh(m1)[:300])
        if not ok:
            continue
        fk = font_in(m1[2])
        r.ob('font names', fk is not None and fk == glyphs, w, 'the font recorded is the one of the text shown',
             detail='%s / %s' % (fk and sh(fk), glyphs and sh(glyphs)))
        nm = m1[3]
        r.ob('font names', fresh_name(a, s, nm, m0), w, 'the name of a new font is not in use', detail=sh(nm)[:200])
        r.ob('font names', name == text(nm) or name == ('mval', m1, m1[2]), w, 'the font selected is the new one', detail=sh(name)[:200])
        pushed = []
        for x in fres:
            b, q = unpush(at(a, s, A1, root + x))
            if b == at(a, engine_state0(s), A1, root + x):
                pushed += q
        ok = len(pushed) == 1 and pushed[0][0] == 'agg' and text(pushed[0][4][0]) == text(nm)
        r.ob('font names', ok, w, 'the new font is a resource with that name', detail=str(pushed)[:300])
        font = None
        for q in add.parts:
            if q[0] in ('dict', 'stream') and q[1].ok:
                for val in q[1].d.values():
                    for t in subterms(val):
                        if t[0] == 'call' and t[1].startswith(FONTK + '::'):
                            font = t[2][0]
        r.ob('font', font is not None and fk is not None and same_font(font, fk), w, 'the font added is the one of the text shown',
             detail='%s / %s' % (font and sh(font), fk and sh(fk)))
        q = add.target(pushed[0][4][1]) if ok else None
        if q is None or q[0] != 'dict' or not q[1].ok:
            r.violate('font', w, 'the font resource is not a font dictionary')
            continue
        embedded(r, P, run, s, add, q[1], font, w)
    r.counts['outcomes with a new font'] = nn
    r.counts['outcomes with a known font'] = no
    r.floor('outcomes with a new font', nn, 1)
    r.floor('outcomes with a known font', no, 1)


def find_type(p, ty, path):
    for i in path:
        while ty[0] == 'ref':
            ty = ty[2]
        if i == '*':
            continue
        s = p.structs[ty[1]]
        ty = T.subst(s['fields'][i][1], dict(zip(s['params'], ty[2])))
    return ty


def font_in(t):
    """the place of a shared font inside of a map key"""
    for x in subterms(t):
        if x[0] in ('fld', 'deref', 's') and ('s', 'arg2') in list(subterms(x)):
            return x
    return None


def same_font(x, y):
    """pointer to a font reached through the same shared pointer"""
    strip = lambda t: t
    while x != y and x[0] in ('fld', 'deref', 'cref', 'call', 'rawp', 'ref'):
        x = x[2][0] if x[0] == 'call' else x[1]
        if not x or not isinstance(x[0], str):
            return False
    return x == y


def glyph_codes(r, P, run, s, args, w):
    """checks the operand of Tj; returns the place of the font of the text"""
    p, a = P.p, run.a
    if len(args) != 1 or args[0][0] != 'HexString':
        r.violate('glyph codes', w, 'text is not shown as one hexadecimal string')
        return None
    toks = VT(a, raw=True).toks(peel(args[0][1]))
    ok = len(toks) == 1 and toks[0][0] == 'loop' and all(
        len(tk) == 2 and all(x[0] == 'byte' for x in tk) or len(tk) == 1 and tk[0][0] == 'buf' and peel(tk[0][1])[0] == 'agg'
        for s2, tk in toks[0][2]) and toks[0][2]
    r.ob('glyph codes', bool(ok), w, 'the text is the codes of its glyphs', detail=str([t[0] for t in toks]))
    if not ok:
        return None
    li = toks[0][1]
    src = None
    for s2, tk in toks[0][2]:
        bs = [x[1] for x in tk] if len(tk) == 2 else list(peel(tk[0][1])[4])
        es = {t for b in bs for t in subterms(b) if t[0] == 'elem'}
        if not (len(bs) == 2 and len(es) == 1):
            r.violate('glyph codes', w, 'a code is not two bytes made of one glyph')
            continue
        e = es.pop()
        src = e[1]
        r.ob('glyph codes', sequential(a, s, li, e[2], const(0), [s2]) and covers(a, s, e[2], a.length_of(e[1])), w,
             'all glyphs of the text are written in order', detail=sh(e)[:200])
        bad = []
        g = ('fld', e, 0)
        for i in range(65536):
            env = {g: i}
            try:
                got = [teval.ev(p, b, env) & 255 for b in bs]
            except teval.Unknown:
                got = None
            if got != [i >> 8, i & 255]:
                bad.append(i)
                if got is None:
                    break
        r.ob('glyph codes', not bad, w, 'a glyph is written as two bytes, most significant first', detail='wrong for %s' % bad[:5])
    if src is None:
        return None
    # the font beside the glyphs in the segment
    if src[0] != 'fld':
        return None
    seg = src[1]
    for i, (n, t) in enumerate(p.structs['text::ShapedSegment' if 'text::ShapedSegment' in p.structs else segname(p)]['fields']):
        if t[0] == 'path' and t[1] == 'std::Arc':
            return ('fld', seg, i)
    return None


def segname(p):
    c = [n for n, s in p.structs.items() if any(t[0] == 'path' and t[1] == 'std::Arc' and t[2] and t[2][0] == ('path', FONTK, ())
                                                 for _, t in s['fields']) and len(s['fields']) >= 2]
    if len(c) != 1:
        raise AnalysisError('the type of text segments is not identified')
    return c[0]


def embedded(r, P, run, s, add, d, font, w):
    a = run.a
    ob = lambda good, what, detail=None: r.ob('font', good, w, what, detail=detail)
    isname = lambda x, k: k in x.d and obj(x.d[k]) is not None and obj(x.d[k])[0] == 'Name' and \
        font_call(obj(x.d[k])[1], 'postscript_name') == font
    ob(d.name('Subtype') == 'Type0' and d.name('Encoding') == 'Identity-H', 'the font is composite, with codes as glyph identifiers')
    ob(isname(d, 'BaseFont'), 'BaseFont is the PostScript name')
    des = d.items('DescendantFonts')
    c = D(des[0]) if des is not None and len(des) == 1 else None
    if not ob(c is not None and c.ok, 'there is one descendant font') and (c is None or not c.ok):
        return
    ob(c.name('Type') == 'Font' and c.name('Subtype') == 'CIDFontType2', 'the descendant is a TrueType-based font')
    ob(isname(c, 'BaseFont'), 'BaseFont of the descendant is the PostScript name')
    si = D(c.d['CIDSystemInfo']) if 'CIDSystemInfo' in c.d else None
    ob(si is not None and si.ok and si.string('Registry') == b'Adobe' and si.string('Ordering') == b'Identity'
       and const_int(si.get('Supplement', ('I32', 'Usize'))) == 0, 'the character collection is Adobe-Identity-0')
    ob(c.name('CIDToGIDMap') in (None, 'Identity'), 'codes are glyph identifiers')
    # widths
    W = c.items('W')
    ok = W is not None and len(W) == 2 and const_int(num_obj(W[0])) == 0
    if not ok:
        ob(False, 'the widths start from glyph 0')
    else:
        ob(True, 'the widths start from glyph 0')
        o = obj(W[1])
        arr = peel(o[1]) if o is not None and o[0] == 'Array' else ('?',)
        toks = VT(a, raw=True).toks(arr)
        ok = len(toks) == 1 and toks[0][0] == 'loop' and toks[0][2]
        ob(bool(ok), 'there are widths of all glyphs', str([stream.show(t)[:80] for t in toks]))
        for s2, tk in toks[0][2] if ok else []:
            o = obj(tk[0][1]) if len(tk) == 1 and tk[0][0] == 'byte' else None
            calls = {t for t in subterms(o[1]) if t[0] == 'call' and t[1] == FONTK + '::glyph_width'} if o else set()
            good = len(calls) == 1 and em_units(o, 'glyph_width', font)
            ob(good, 'a width is a thousand times the one of the font', sh(tk[0][1])[:300] if tk else None)
            if not good:
                continue
            call = calls.pop()
            g = call[2][1]
            i = g[4][0] if g[0] == 'agg' else ('fld', g, 0)
            i0 = i[1] if i[0] == 'cast' else i
            cnt = [t for f in list(s.facts) + [t for k in s.lin for t in k[0]] for t in subterms(f)
                   if t[0] == 'call' and t[1] == FONTK + '::glyph_count' and t[2][0] == font]
            ob(sequential(a, s, toks[0][1], i0, const(0), [s2]), 'the widths are in the order of the glyphs')
            ob(any(covers(a, s, i0, t) for t in set(cnt)), 'the widths are those of all glyphs')
    fd = add.target(c.d.get('FontDescriptor', ('?',)))
    if fd is None or fd[0] != 'dict' or not fd[1].ok:
        return ob(False, 'the descendant has a font descriptor')
    fd = fd[1]
    ob(fd.name('Type') == 'FontDescriptor' and isname(fd, 'FontName'), 'FontName is the PostScript name')
    bb = fd.items('FontBBox')
    ob(bb is not None and len(bb) == 4 and all(em_units(obj(x), n, font) for x, n in zip(bb, ('min_x', 'min_y', 'max_x', 'max_y'))),
       'FontBBox is the bounding box: left, bottom, right, top, in thousandths', [sh(x)[:200] for x in bb or []])
    for k, n in (('Ascent', 'ascender'), ('Descent', 'descender')):
        ob(k in fd.d and em_units(obj(fd.d[k]), n, font), '%s is the one of the font in thousandths' % k,
           sh(fd.d[k])[:200] if k in fd.d else None)
    ff = add.target(fd.d.get('FontFile2', ('?',)))
    if ff is None or ff[0] != 'stream':
        ob(False, 'the font file is embedded')
    else:
        con = ff[2]
        ob(len(con) == 1 and con[0][0] == 'buf' and con[0][1][0] == 'deref' and font_call(con[0][1], 'bytes') == font,
           'the contents of FontFile2 are the bytes of the font', str([stream.show(t)[:100] for t in con]))
        n = ff[1].get('Length1', ('Usize', 'I32'))
        ob(n is not None and con and con[0][0] == 'buf' and same_int(a, add.st, n, a.length_of(con[0][1])),
           'Length1 is the length of the font file')
    tu = add.target(d.d.get('ToUnicode', ('?',)))
    if tu is None or tu[0] != 'stream':
        return ob(False, 'the font has a ToUnicode map')
    Chunks(r, w, run, s, tu[2], font)


def const_int(t):
    return t[1] if t is not None and t[0] == 'c' else None


def num_obj(t):
    o = obj(t)
    return o[1] if o is not None and o[0] in ('I32', 'Usize') else None


# ---------------------------------------------------------------------------- errors of the output
IOERR = ('path', 'std::Error', ())


def is_io(ty):
    return ty is not None and ty[0] == 'path' and ty[1] == 'std::Result' and len(ty[2]) == 2 and ty[2][1] == IOERR


def io_events(a, events, iters):
    """(event, state it is in) of fallible output on a path, in loops as well"""
    for e in events:
        if e is None:
            continue
        if e[0] in ('loop', 'star'):
            for q in e[3]['loop'].iters:
                iters.append(q)
        elif e[0] == 'call' and e[3].get('res') is not None and is_io(a.types.get(e[3]['res'])):
            yield e


def errors_reported(r, a, s, v, w, name, seen):
    """every fallible operation of a successful outcome is known to have succeeded, or its result is what is returned"""
    states = [(s, v)]
    i = 0
    while i < len(states):
        st, val = states[i]
        i += 1
        more = []
        for e in io_events(a, st.events(), more):
            res = e[3]['res']
            ok = known_ok(st, res) or val is not None and res in list(subterms(val))
            r.ob('error reported', ok, w, 'an error of %s is returned' % short_name(e[1]), key='error reported: %s %s' % (w, e[1]),
                 detail='%s at %s' % (sh(res)[:200], e[3].get('span')))
            seen.append(e)
            if e[1] == 'std::Write::write' and name != 'write':
                r.violate('partial write', w, 'the number of bytes that a call of write accepted is not taken into account')
        states += [(q, None) for q in more]


def short_name(n):
    return n[5:] if n.startswith('std::') else n


@check('P05', 'Every path of every function of the PDF writer that returns an I/O result is followed: on a path that does not return '
       'an error, each fallible call (in loops: each one of a symbolic iteration) must be known by the path facts to have '
       'succeeded, or its result be the value returned; panics on errors and buffered writers that are not flushed after the '
       'last write are reported.')
def p05(r):
    P = Pdf.get()
    p = P.p
    fns = []
    ser = [P.ow, P.dw]
    for k, b in sorted(p.bodies.items()):
        if not k.startswith('pdf::') or '{closure' in k or b.ret is None or not is_io(p.mty(b.ret)):
            continue
        fns.append(k)
    r.floor('functions returning I/O results', len(fns), 6)
    wp = method(p, DOC, 'write_to_pdf')
    n = calls = 0
    for k in fns:
        opaque = [x for x in ser if x != k]
        if k != wp:
            opaque.append(wp)
        run = Run(p, k, opaque, unroll=4)
        a = run.a
        w = disp(p, k)
        r.fn(*[disp(p, x) for x in a.analysed])
        bad = [v for s, v in run.panics if 'overflow' not in str(v) and ('unwrap' in str(v) or 'expect' in str(v))]
        r.ob('panic', not bad, w, 'errors do not become panics', detail=str([sh(v)[:200] for v in bad][:3]))
        name = re.sub(r'#\d+$', '', k).rsplit('::', 1)[-1]
        for s, v in run.ok:
            n += 1
            seen = []
            errors_reported(r, a, s, v, w, name, seen)
            calls += len(seen)
            ev = [e for e in s.events() if e is not None and e[0] == 'call']
            for i, e in enumerate(ev):
                if e[1] in ('std::BufWriter::new', 'std::BufWriter::with_capacity', 'std::LineWriter::new'):
                    ws = [j for j, x in enumerate(ev) if x[1].startswith('std::Write::write')]
                    fl = [j for j, x in enumerate(ev) if x[1] == 'std::Write::flush' and (
                        not ws or stream.sink(x[2][0]) == stream.sink(ev[ws[-1]][2][0])) or x[1] == 'std::BufWriter::into_inner']
                    r.ob('flush', bool(fl) and (not ws or fl[-1] > ws[-1]), w, 'a buffered writer is flushed after the last write')
    r.counts['successful outcomes'] = n
    r.counts['fallible calls on them'] = calls
    r.floor('fallible calls', calls, 30)
