"""Font parsing (F..): safety of reading untrusted files, agreement with the OpenType format."""
import itertools

import engine
import lin
import rtypes as T
from common import program, visible_methods, method, disp, sh
from front import AnalysisError
from report import check
from sym import Sym

FONT = 'fonts::Font'
U = ['files under 4 GiB: a saturated position is past the end of the file']


# ---------------------------------------------------------------------------- F01
@check('F01', 'Every path through every entry point of a font (parsing, character lookup, enumeration, metrics), with '
       'unknown bytes and unknown font contents, is followed through the MIR of all callees: no path ends in a panic '
       '(bounds, overflow, unwrap, explicit), every raw pointer read is shown to lie inside the slice it was derived '
       'from, and recursion is absent.',
       ['panics inside std/core are those of the listed partial functions (models.py)'])
def f01(r):
    p = program('victor')
    ents = visible_methods(p, FONT)
    raw = []
    reach = set()
    for name in sorted(ents):
        key, it = ents[name]
        a = engine.Analyzer(p)

        def onraw(st, fr, v, ty, a=a):
            import absint
            okk = False
            if v[0] == 'rawp':
                n = size_of(p, ty[2])
                acc = {}
                if n is not None:
                    av = a.lf(st, v[3], acc)
                    okk = a.prove(st, lin.add(av, lin.const(-n)), acc)
            raw.append((okk, fr.key, sh(v)[:200]))
        a.on_rawderef = onraw
        outs = a.entry(key)
        reach |= set(a.analysed)
        bad = {}
        for k, s, v in outs:
            if k == 'panic':
                bad.setdefault(v, s)
        r.ob('entry', not bad, disp(p, key), '%s(..) cannot panic (%d paths ends)' % (name, len(outs)),
             key='entry: %s panics' % name) if not bad else None
        for (nm, msg, k, span), s in bad.items():
            r.ob('no-panic', False, span, '%s may panic in %s (%s), reached from %s' % (nm, disp(p, k), msg, name),
                 key='no-panic: %s in %s' % (msg or nm, disp(p, k)))
        if not any(o[0] == 'ret' for o in outs):
            r.violate('entry', disp(p, key), 'no normal return found')
    for okk, k, t in raw:
        r.ob('raw-read', okk, disp(p, k), 'raw pointer read of file bytes stays inside the slice',
             key='raw-read: %s' % disp(p, k), detail=t)
    # every unsafe dereference in the fonts module is one of those reached
    for k in reach:
        r.fn(disp(p, k))
    r.floor('entry points', len(ents), 10)
    r.floor('functions', len(reach), 60)
    r.floor('raw reads', len(raw), 10 if any(raw_derefs(p, k) for k in reach) else 0)


def raw_derefs(p, key):
    """does the body dereference a raw pointer?"""
    fn = p.bodies.get(key) or p.plain.get(key)
    return any(t.startswith(('*const', '*mut')) and "('place', %d, (('deref',)" % n in repr(fn.blocks)
               for n, t in fn.locals.items())


def size_of(p, ty):
    if ty is None:
        return None
    if ty[0] == 'prim':
        return {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'bool': 1, 'char': 4}.get(ty[1])
    if ty[0] == 'array' and str(ty[2]).isdigit():
        n = size_of(p, ty[1])
        return None if n is None else n * int(ty[2])
    return None


# ---------------------------------------------------------------------------- composition on parse results
class Parsed:
    """every successful outcome of Font::parse, as (analyzer, state, pointer to the font)"""
    _one = None

    def __init__(self):
        self.p = program('victor')
        self.a = engine.Analyzer(self.p)
        self.key = method(self.p, FONT, 'parse')
        self.outs = self.a.entry(self.key)
        self.ok = []
        self.err = []
        for k, s, v in self.outs:
            if k == 'panic':
                continue        # F01
            if v[0] == 'agg' and v[3] == 'Ok':
                x = v[4][0]
                while x[0] == 'agg' and len(x[4]) == 1:
                    x = x[4][0]
                if x[0] != 'ref':
                    raise AnalysisError('parsed font is not behind a pointer: %s' % sh(x)[:200])
                self.ok.append((s, x))
            elif v[0] == 'agg' and v[3] == 'Err':
                self.err.append((s, v[4][0]))
            else:
                raise AnalysisError('parse returns %s' % sh(v)[:200])

    @classmethod
    def get(cls):
        if cls._one is None:
            cls._one = cls()
        return cls._one

    def call(self, name, st, box, fork=True):
        """outcomes of a method on a parsed font with unknown other arguments"""
        key = method(self.p, FONT, name)
        fn = self.p.bodies[key]
        s = st.fork()
        s.ev = None
        args = [box]
        for n, ty in fn.args[1:]:
            nm = ('s', 'arg%d' % n)
            self.a.settype(nm, self.p.mty(ty))
            args.append(nm)
        self.a.merge = False
        try:
            return [o for o in self.a.run_fn(key, fn, args, s, {}, 0, ()) if o[0] == 'ret']
        finally:
            self.a.merge = True


def newtype(t):
    while t[0] == 'agg' and t[1] in ('adt', 'tuple') and len(t[4]) == 1:
        t = t[4][0]
    return t


def table(tag):
    return lin.atom(('table', tag))


def rd(ty, base, off):
    return lin.atom(('r', ty, lin.add(base, lin.const(off))))


def scaled(S, t):
    """(numerator read, denominator read) of a value in ems: Length::cast(n) / TypedScale::cast(d)"""
    if t[0] == 'call' and t[1] == 'std::Div::div' and len(t[2]) == 2:
        out = []
        for x in t[2]:
            while x[0] == 'call' and x[1].endswith('::cast') or x[0] == '&' or x[0] == 'agg' and len(x[4]) == 1:
                x = x[2][0] if x[0] == 'call' else x[1] if x[0] == '&' else x[4][0]
            while x[0] == 'cast' and x[2] in ('f32', 'f64'):
                x = x[1]
            out.append(S.form(x))
        return out
    return None


@check('F02', 'On every path on which a font file is accepted, the value of each metric (number of glyphs, ascent, '
       'descent, bounding box, scale, advance width, PostScript name, character-map selection) is a symbolic term over '
       'the bytes of the file; it must be the big-endian field at the offset the OpenType specification gives, relative '
       'to the table found under the tag the specification gives.', U)
def f02(r):
    P = Parsed.get()
    for k in P.a.analysed:
        r.fn(disp(P.p, k))
    r.floor('accepting outcomes of parse', len(P.ok), 2)
    spec = {'ascender': ('i16', 'hhea', 4), 'descender': ('i16', 'hhea', 6), 'min_x': ('i16', 'head', 36),
            'min_y': ('i16', 'head', 38), 'max_x': ('i16', 'head', 40), 'max_y': ('i16', 'head', 42)}
    upem = rd('u16', table('head'), 18)
    for n, (s, box) in enumerate(P.ok):
        S = Sym(P.a, s)
        tag = 'accepted outcome %d' % n
        # sfnt version
        v = rd('u32', lin.const(0), 0)
        okv = any(S.proves_eq(v, lin.const(c)) for c in (0x00010000, 0x74727565))
        r.ob('sfnt version', okv, disp(P.p, P.key), 'only TrueType outlines (version 1.0 or "true") are accepted',
             key='sfnt version')
        outs = P.call('glyph_count', s, box)
        for _, s2, val in outs:
            S2 = Sym(P.a, s2)
            f = S2.form(newtype(val))
            r.ob('field', f == rd('u16', table('maxp'), 4), 'Font::glyph_count', 'glyph count is u16 at maxp+4',
                 key='field: glyph_count', detail=S2.show(f))
        for name, (ty, tb, off) in spec.items():
            outs = P.call(name, s, box)
            if not outs:
                r.violate('field', 'Font::' + name, 'no outcome')
            for _, s2, val in outs:
                S2 = Sym(P.a, s2)
                x = scaled(S2, newtype(val))
                good = x is not None and x[0] == rd(ty, table(tb), off) and x[1] == upem
                r.ob('field', good, 'Font::' + name, '%s is %s at %s+%d over unitsPerEm (u16 at head+18)' % (name, ty, tb, off),
                     key='field: ' + name, detail=[S2.show(y) for y in x] if x else sh(val)[:600])
        # advance widths
        widths(r, P, s, box, upem)
        # name
        font_name(r, P, s, box)
        select_cmap(r, P, s, box)


def widths(r, P, s, box, upem):
    cnt = rd('u16', table('hhea'), 34)
    n_ok = 0
    for _, s2, val in P.call('glyph_width', s, box):
        S2 = Sym(P.a, s2)
        if val[0] == 'agg' and val[3] == 'Err':
            continue
        n_ok += 1
        x = scaled(S2, newtype(val[4][0])) if val[0] == 'agg' else None
        good = False
        why = sh(val)[:600]
        if x is not None and len(x[0][0]) == 1 and x[0][0][0][0][0] == 'r' and x[1] == upem:
            a = x[0][0][0][0]
            why = S2.show(x[0])
            g = lin.atom(('fld', ('s', 'arg2'), 0))
            idx = lin.add(a[2], table('hmtx'), 1, -1)     # = 4 * index
            low = lin.scale(g, 4)
            last = lin.add(lin.scale(cnt, 4), lin.const(-4))
            eq_g = S2.proves_eq(idx, low) and S2.proves(lin.add(lin.add(cnt, lin.const(-1)), g, 1, -1))
            eq_l = S2.proves_eq(idx, last) and S2.proves(lin.add(g, lin.add(cnt, lin.const(-1)), 1, -1))
            # min(g, count-1) kept as one atom
            eq_m = all(k % 4 == 0 for _, k in idx[0]) and idx[1] == 0 and len(idx[0]) == 1 and idx[0][0][0][0] == 'min' \
                and sorted(map(repr, (S2.form(idx[0][0][0][1]), S2.form(idx[0][0][0][2])))) == \
                sorted(map(repr, (g, lin.add(cnt, lin.const(-1)))))
            good = a[1] in ('u16',) and (eq_g or eq_l or eq_m)
        r.ob('advance width', good, 'Font::glyph_width',
             'advance of glyph g is u16 at hmtx+4*min(g, numberOfHMetrics-1) over unitsPerEm',
             key='advance width', detail=why)
    if n_ok == 0:
        r.violate('advance width', 'Font::glyph_width', 'no successful outcome')


def find_terms(t, head, out, seen):
    if not isinstance(t, tuple) or id(t) in seen:
        return
    seen.add(id(t))
    if t and t[0] == head:
        out.append(t)
    for x in t:
        find_terms(x, head, out, seen)


def name_record(nm, start):
    """the name record whose string starts at the position: rec with start = name + storage + u16[rec + 10]"""
    rest = lin.add(start, lin.add(nm, rd('u16', nm, 4)), 1, -1)
    if len(rest[0]) == 1 and rest[1] == 0 and rest[0][0][1] == 1 and rest[0][0][0][:2] == ('r', 'u16'):
        return lin.add(rest[0][0][0][2], lin.const(-10))
    return None


def file_byte(t):
    """(source pointer, offset term, index term) of a byte of a part of the file"""
    while t[0] == 'cast':
        t = t[1]
    if t[0] == 'elem' and t[1][0] == 'deref' and t[1][1][0] in ('subp', 'rawp'):
        return t[1][1][1], t[1][1][2], t[2]
    return None


def decoded(P, s2, S2, v):
    """(bytes per character, start form, proof that it goes on to a length) of a string made byte by byte"""
    a = P.a
    if v[0] != 'phi' or v not in a.phi_info:
        return None
    li, d = a.phi_info[v]
    if li.entry.get(d) != ('vec0',):
        return None
    phis = {q: e for e, q in li.phis.items()}

    def pos(st, t):
        _, off, i = t
        return lin.add(a.lf(st, off, {}), a.lf(st, i, {}))

    def at(st, f, val):
        g = lin.const(f[1])
        for x, c in f[0]:
            g = lin.add(g, a.lf(st, val(x), {}) if x in phis else lin.atom(x), 1, c)
        return g
    width = start = step = None
    blank = []
    for s in li.iters:
        w = a.load(s, d[0], d[1])
        if w[0] != 'vpush' or w[1] != v:
            return None
        b = file_byte(w[2])
        if b is None:
            if w[2][0] != 'c':
                return None
            blank.append(s)
            continue
        f = pos(s, b)
        n = lin.add(at(s, f, lambda q: a.load(s, phis[q][0], phis[q][1])), f, 1, -1)
        if n[0] or n[1] not in (1, 2):
            return None
        f0 = lin.add(at(s, f, lambda q: li.entry.get(phis[q], q)), lin.const(1 - n[1]))
        first = lin.add(f, lin.const(1 - n[1]))
        if start is not None and (start, width, step) != (f0, n[1], first):
            return None
        start, width, step = f0, n[1], first
        if width == 2 and high_byte(a, s, pos, first) is not True:
            return None
    if start is None or width == 1 and blank:
        return None
    done = lin.add(step, start, 1, -1)

    def covers(n):
        """all characters up to the length are there: exhausted at the end, replaced only if they must be"""
        fm = lambda f: sum_forms(S2, f)
        if not S2.proves(lin.add(fm(done), n, 1, -1)):
            return False
        for s in blank:
            if high_byte(a, s, pos, step) is False:
                continue
            S3 = Sym(a, s)
            # fewer than two bytes are left
            if not S3.proves(lin.add(lin.add(lin.const(1), n, 1, -1), sum_forms(S3, done))):
                return False
        return True
    return width, sum_forms(S2, start), covers


def sum_forms(S, f):
    g = lin.const(f[1])
    for x, c in f[0]:
        g = lin.add(g, S.form(x), 1, c)
    return g


def high_byte(a, s, pos, f):
    """is the byte at the position known to be zero (True), or not zero (False)?"""
    for t, val in s.facts.items():
        if t[0] == 'bin' and t[1] in ('Eq', 'Ne') and t[3][:2] == ('c', 0):
            b = file_byte(t[2])
            if b is not None and pos(s, b) == f:
                return (t[1] == 'Eq') == val
        elif isinstance(val, tuple) and val[0] == 'c' or isinstance(val, int) and not isinstance(val, bool):
            b = file_byte(t[1]) if t[0] == 'dis' else file_byte(t)
            if b is not None and pos(s, b) == f:
                n = val if isinstance(val, int) else val[1]
                return n == 0
    return None


def font_name(r, P, s, box):
    outs = P.call('postscript_name', s, box)
    nm = table('name')
    for _, s2, val in outs:
        S2 = Sym(P.a, s2)
        v = val
        subs = []
        if v[0] == 'ref':
            v = P.a.load(s2, v[1], v[2])
        find_terms(v, 'subp', subs, set())
        why = sh(v)[:400]
        dec = decoded(P, s2, S2, v)
        start, ln, width = None, None, 1
        if dec is not None:
            width, start, covers = dec
        elif len(set(subs)) == 1 and string_of(v) == subs[0]:
            start, ln = S2.form(subs[0][2]), S2.form(subs[0][3])
        good = start is not None
        if good:
            why = '%s (%d)' % (S2.show(start), width)
            rec = name_record(nm, start)
            good = rec is not None
            if good:
                off = lin.add(rec, nm, 1, -1)
                inrec = off[1] % 12 == 6 and all(k % 12 == 0 for _, k in off[0])
                n = rd('u16', rec, 8)
                fid = S2.proves_eq(rd('u16', rec, 6), lin.const(6))
                mac = S2.proves_eq(rd('u16', rec, 0), lin.const(1))
                ms = S2.proves_eq(rd('u16', rec, 0), lin.const(3)) and S2.proves_eq(rd('u16', rec, 2), lin.const(1))
                full = ln == n if dec is None else covers(n)
                good = inrec and fid and full and (mac and width == 1 or ms and width == 2)
                why += ' %s' % [inrec, fid, full, mac, ms]
        r.ob('name', good, 'Font::postscript_name',
             'PostScript name is the string (offset u16 at record+10 from the storage offset u16 at name+4, length u16 at '
             'record+8) of a 12-byte record with name ID 6 and platform Macintosh, or Microsoft with encoding 1, '
             'decoded as 1-byte or 2-byte characters accordingly', key='name', detail=why)


def string_of(v):
    """the part of the file a string is the decoded form of"""
    while True:
        if v[0] in ('owned', 'deref', 'cref', 'conv') and len(v) >= 2 and isinstance(v[1], tuple):
            v = v[1]
        elif v[0] == 'vext' and v[1] == ('vec0',):
            v = v[2]
        elif v[0] == 'call' and v[1] in ('std::String::from_utf8_lossy', 'std::str::from_utf8', 'std::String::from_utf8'):
            v = v[2][0]
        elif v[0] == 'vfld' and v[2] in ('Ok', 'Borrowed', 'Owned'):
            v = v[1]
        else:
            return v


def subtable(S):
    """(format, subtable position form, record position form) of the selected character map, from the path facts"""
    out = []
    cm = table('cmap')
    cons, _ = S.constraints()
    atoms = {a for f in cons for a, _ in f[0] if a[0] == 'r' and a[1] == 'u16'}
    for a in atoms:
        pos = a[2]
        rest = lin.add(pos, cm, 1, -1)
        if len(rest[0]) == 1 and rest[1] == 0 and rest[0][0][1] == 1 and rest[0][0][0][0] == 'r' and rest[0][0][0][1] == 'u32':
            for fmt in (4, 12):
                if S.proves_eq(lin.atom(a), lin.const(fmt)):
                    out.append((fmt, pos, lin.add(rest[0][0][0][2], lin.const(-4))))
    return out


def select_cmap(r, P, s, box):
    S = Sym(P.a, s)
    subs = subtable(S)
    cm = table('cmap')
    good = False
    for fmt, pos, rec in subs:
        off = lin.add(rec, cm, 1, -1)
        inrec = off[1] % 8 == 4 and all(k % 8 == 0 for _, k in off[0])
        pid = S.proves_eq(rd('u16', rec, 0), lin.const(3))
        enc = S.proves_eq(rd('u16', rec, 2), lin.const({4: 1, 12: 10}[fmt]))
        good = good or inrec and pid and enc
    r.ob('cmap selection', good, disp(P.p, P.key),
         'the character map is a subtable (offset u32 at record+4 from cmap) of an 8-byte record with platform 3 and '
         'encoding 1 (format 4) or 10 (format 12)', key='cmap selection',
         detail=[(f, S.show(a), S.show(b)) for f, a, b in subs])


# ---------------------------------------------------------------------------- F03: character map semantics
def mult(f, n):
    return f[1] % n == 0 and all(c % n == 0 for _, c in f[0])


def r_atoms(f, ty, coef=1):
    return [a for a, c in f[0] if a[0] == 'r' and a[1] == ty and c == coef]


class Map:
    """what the format says about the glyph of a character"""

    def __init__(self, S, fmt, sub):
        self.S, self.fmt, self.sub = S, fmt, sub
        if fmt == 4:
            self.x2 = rd('u16', sub, 6)
            self.n = lin.atom(('div', self.x2, 2))

    def strip(self, f):
        """modulo 2^16: truncation and wrap-around do not matter"""
        while len(f[0]) == 1 and f[1] == 0 and f[0][0][1] == 1:
            a = f[0][0][0]
            if a[0] == 'trunc' and a[1] == 'u16':
                f = a[2]
            elif a[0] == 'wrap' and a[1] == 'Add':
                f = lin.add(a[2], a[3])
            else:
                break
        # constants may be folded to their residue
        return f

    def sentries(self, f):
        return [a for a, _ in f[0] if a[0] == 'r']

    def segment(self, D):
        """D = position of an idDelta entry -> is it one (index any)"""
        return mult(lin.add(lin.add(D, self.sub, 1, -1), lin.add(lin.const(16), lin.scale(self.n, 4)), 1, -1), 2)

    def glyph(self, ch, v):
        """(ok, segment key, why): v is the glyph the format gives to ch, given the path facts"""
        S = self.S
        v = self.strip(v)
        if self.fmt == 12:
            rest = lin.add(v, ch, 1, -1)
            pl, mi = r_atoms(rest, 'u32', 1), r_atoms(rest, 'u32', -1)
            if len(rest[0]) == 2 and len(pl) == 1 and len(mi) == 1 and rest[1] == 0:
                G = mi[0][2]
                if lin.add(pl[0][2], G, 1, -1) == lin.const(8) and self.group(G):
                    return True, G, None
            return False, None, 'not startGlyphID + (c - startCharCode) of a group'
        D = None
        rest = lin.add(v, ch, 1, -1)
        pl = r_atoms(rest, 'u16', 1)
        if len(rest[0]) == 1 and len(pl) == 1 and rest[1] == 0:
            D = pl[0][2]
            R = lin.add(D, lin.scale(self.n, 2))
            if not self.segment(D):
                return False, None, 'not the idDelta of a segment'
            if not S.proves_eq(lin.atom(('r', 'u16', R)), lin.const(0)):
                return False, None, 'idDelta applied to the character although idRangeOffset may be nonzero'
            return True, D, None
        pl = r_atoms(v, 'u16', 1)
        if len(v[0]) == 2 and len(pl) == 2 and v[1] == 0:
            for X, D in ((pl[0][2], pl[1][2]), (pl[1][2], pl[0][2])):
                if not self.segment(D):
                    continue
                R = lin.add(D, lin.scale(self.n, 2))
                st = lin.add(D, lin.scale(self.n, 2), 1, -1)
                want = lin.add(lin.add(R, lin.atom(('r', 'u16', R))),
                               lin.scale(lin.add(ch, lin.atom(('r', 'u16', st)), 1, -1), 2))
                if X == want:
                    if not S.proves_ne(lin.atom(('r', 'u16', R)), lin.const(0)):
                        return False, None, 'glyph array used although idRangeOffset may be zero'
                    if not S.proves_ne(lin.atom(('r', 'u16', X)), lin.const(0)):
                        return False, None, 'idDelta added to a missing glyph (0)'
                    return True, D, None
        return False, None, 'neither c + idDelta nor glyphIdArray[..] + idDelta of a segment'

    def group(self, G):
        return mult(lin.add(G, lin.add(self.sub, lin.const(16)), 1, -1), 12)

    def bounds(self, seg):
        """forms (first, last) of the characters of a segment"""
        if self.fmt == 12:
            return lin.atom(('r', 'u32', seg)), lin.atom(('r', 'u32', lin.add(seg, lin.const(4))))
        st = lin.add(seg, lin.scale(self.n, 2), 1, -1)
        en = lin.add(st, lin.add(lin.scale(self.n, 2), lin.const(2)), 1, -1)
        return lin.atom(('r', 'u16', st)), lin.atom(('r', 'u16', en))

    def starts(self):
        return None

    def outside_some(self, ch):
        """the facts show ch outside of some segment's bounds (the end of a search), or there is no segment"""
        S = self.S
        cons, _ = S.constraints()
        if self.fmt == 12:
            if S.proves_eq(rd('u32', self.sub, 12), lin.const(0)):
                return True
        else:
            if S.proves(lin.add(ch, lin.const(-0x10000))):
                return True
            if S.proves_eq(self.n, lin.const(0)):
                return True
        ty = 'u32' if self.fmt == 12 else 'u16'
        for f in cons:
            for a, c in f[0]:
                if a[0] != 'r' or a[1] != ty:
                    continue
                off = lin.add(a[2], self.sub, 1, -1)
                if self.fmt == 12:
                    kind = 'first' if mult(lin.add(off, lin.const(-16)), 12) else \
                        'last' if mult(lin.add(off, lin.const(-20)), 12) else None
                else:
                    two_n = lin.scale(self.n, 2)
                    ncoef = dict(off[0]).get(self.n[0][0][0], 0)
                    kind = None
                    if ncoef == 0 and mult(lin.add(off, lin.const(-14)), 2):
                        kind = 'last'
                    elif ncoef == 2 and mult(lin.add(lin.add(off, two_n, 1, -1), lin.const(-16)), 2):
                        kind = 'first'
                if kind == 'first' and S.proves(lin.add(lin.add(lin.atom(a), ch, 1, -1), lin.const(-1))):
                    return True
                if kind == 'last' and S.proves(lin.add(lin.add(ch, lin.atom(a), 1, -1), lin.const(-1))):
                    return True
        return False

    def unmapped(self, ch):
        """the facts show that the format gives no glyph of 16 bits to ch in the segment looked at"""
        S = self.S
        cons, neq = S.constraints()
        if self.fmt == 12:
            # startGlyphID + (c - startCharCode) > 0xFFFF
            for f in cons:
                for a, c in f[0]:
                    if a[0] == 'r' and a[1] == 'u32' and self.group(lin.add(a[2], lin.const(-8))):
                        G = lin.add(a[2], lin.const(-8))
                        v = lin.add(lin.add(ch, lin.atom(a)), lin.atom(('r', 'u32', G)), 1, -1)
                        if S.proves(lin.add(v, lin.const(-0x10000))) or S.proves_eq(v, lin.const(0)):
                            return True
            for f, val in S.st.facts.items():
                if f[0] == 'bin' and (f[1] == 'Ne' and val is False or f[1] == 'Eq' and val is True):
                    for x, y in ((f[2], f[3]), (f[3], f[2])):
                        if y[0] == 'c' and y[1] == 0 and self.glyph(ch, S.form(x))[0]:
                            return True
            return False
        for f, val in S.st.facts.items():
            if f[0] == 'bin' and (f[1] == 'Ne' and val is False or f[1] == 'Eq' and val is True):
                for x, y in ((f[2], f[3]), (f[3], f[2])):
                    if y[0] != 'c' or y[1] != 0:
                        continue
                    fx = S.form(x)
                    if self.glyph(ch, fx)[0]:
                        return True
                    # glyphIdArray entry itself is 0
                    if len(fx[0]) == 1 and fx[0][0][0][0] == 'r':
                        X = fx[0][0][0][2]
                        for D in [a[2] for a in self.all_reads(cons, neq) if a[1] == 'u16']:
                            if not self.segment(D):
                                continue
                            R = lin.add(D, lin.scale(self.n, 2))
                            st = lin.add(D, lin.scale(self.n, 2), 1, -1)
                            if X == lin.add(lin.add(R, lin.atom(('r', 'u16', R))),
                                            lin.scale(lin.add(ch, lin.atom(('r', 'u16', st)), 1, -1), 2)):
                                return True
                        # the delta need not have been read
                        for a in self.all_reads(cons, neq):
                            R = a[2]
                            D = lin.add(R, lin.scale(self.n, 2), 1, -1)
                            if self.segment(D):
                                st = lin.add(D, lin.scale(self.n, 2), 1, -1)
                                if X == lin.add(lin.add(R, lin.atom(('r', 'u16', R))),
                                                lin.scale(lin.add(ch, lin.atom(('r', 'u16', st)), 1, -1), 2)):
                                    return True
        return False

    def all_reads(self, cons, neq):
        out = set()

        def go(f):
            for a, _ in f[0]:
                if a[0] == 'r':
                    out.add(a)
                    go(a[2])
        for f in list(cons) + list(neq):
            go(f)
        return out


@check('F03', 'On every accepted font, the symbolic glyph that a lookup returns for a character, and that the enumeration '
       'reports for each character, must be the term the character-map format defines (format 4: idDelta / '
       'idRangeOffset arithmetic modulo 65536; format 12: start glyph plus distance), with path facts showing that the '
       'character lies within the bounds of that segment; .notdef only where the facts show no segment or no glyph; the '
       'enumeration covers each segment from its first to its last character inclusive.', U)
def f03(r):
    P = Parsed.get()
    fm = set()
    n_map = n_cb = n_found = 0
    for n, (s, box) in enumerate(P.ok):
        S = Sym(P.a, s)
        subs = subtable(S)
        if not subs:
            r.violate('cmap', disp(P.p, P.key), 'no character-map format is established on an accepting path')
            continue
        fmt, sub, _ = subs[0]
        if fmt in fm and not r.thorough:
            continue
        fm.add(fmt)
        ch = lin.atom(('s', 'arg2'))
        for _, s2, val in P.call('glyph_id', s, box):
            if val[0] == 'agg' and val[3] == 'Err':
                continue
            S2 = Sym(P.a, s2)
            M = Map(S2, fmt, sub)
            g = S2.form(newtype(val[4][0])) if val[0] == 'agg' else None
            if g is None:
                r.violate('lookup', 'Font::glyph_id', 'unrecognised result', detail=sh(val)[:400])
            elif g == lin.const(0):
                good = M.outside_some(ch) or M.unmapped(ch)
                r.ob('notdef', good, 'Font::glyph_id',
                     'format %d: .notdef is returned only outside every segment or for a glyph that is missing' % fmt,
                     key='notdef: format %d' % fmt, detail=facts(S2, s2, s))
            else:
                n_map += 1
                good, seg, why = M.glyph(ch, g)
                r.ob('lookup', good, 'Font::glyph_id', 'format %d: glyph of a character is the one the format defines' % fmt,
                     key='lookup: format %d glyph' % fmt, detail=[why, S2.show(g)])
                if good:
                    lo, hi = M.bounds(seg)
                    inb = S2.proves(lin.add(ch, lo, 1, -1)) and S2.proves(lin.add(hi, ch, 1, -1))
                    r.ob('lookup bounds', inb, 'Font::glyph_id',
                         'format %d: the segment used contains the character' % fmt, key='lookup: format %d bounds' % fmt,
                         detail=facts(S2, s2, s))
                    fits = good and (fmt == 4 or S2.proves(lin.add(lin.const(0xffff), M.strip(g), 1, -1)))
                    r.ob('lookup fits', fits, 'Font::glyph_id', 'format %d: glyph IDs are not truncated' % fmt,
                         key='lookup: format %d truncation' % fmt)
        n_found += searched(r, P, s, box, fmt, sub, ch)
        for _, s2, val in P.call('each_code_point', s, box):
            if not (val[0] == 'agg' and val[3] == 'Ok'):
                continue
            n_cb += enumeration(r, P, s, s2, fmt, sub)
    for k in P.a.analysed:
        r.fn(disp(P.p, k))
    r.floor('character-map formats', len(fm), 2)
    r.floor('mapped outcomes of a lookup', n_map, 3)
    r.floor('enumeration callbacks', n_cb, 3)
    r.floor('searches that find no character', n_found, 10)


def with_count(P, s, fmt, sub, n):
    """the state with a character map of n segments"""
    S = Sym(P.a, s)
    x2 = rd('u16', sub, 6)
    want = [rd('u32', sub, 12)] if fmt == 12 else [lin.atom(('div', x2, 2))]
    done = [0]
    memo = {}

    def go(v):
        if not isinstance(v, tuple):
            return v
        got = memo.get(id(v))
        if got is not None:
            return got[0]
        out = None
        if v and v[0] in ('from_be', 'cast', 'bin'):
            try:
                fm = S.form(v)
            except Exception:
                fm = None
            if fm in want:
                done[0] += 1
                out = ('c', n, 'u32')
        if out is None:
            new = tuple(go(x) for x in v)
            out = v if new == v else new
        memo[id(v)] = (out, v)
        return out
    s2 = s.fork()
    for k in list(s2.mem):
        v = s2.mem[k]
        if isinstance(v, tuple):
            w = go(v)
            if w is not v:
                s2.mem[k] = w
    return s2, done[0]


def searched(r, P, s, box, fmt, sub, ch):
    """a lookup that finds no segment: with few segments, sorted, none of them has the character"""
    a = P.a
    found = 0
    for n in range(0, 5):
        s1, hits = with_count(P, s, fmt, sub, n)
        if not hits:
            return found
        old = a.unroll, a.unroll_any
        a.unroll, a.unroll_any = 100, True
        try:
            outs = P.call('glyph_id', s1, box)
        finally:
            a.unroll, a.unroll_any = old
        bad = None
        for _, s2, val in outs:
            if val[0] == 'agg' and val[3] == 'Err':
                continue
            S2 = Sym(a, s2)
            M = Map(S2, fmt, sub)
            M.n = lin.const(n)
            g = S2.form(newtype(val[4][0])) if val[0] == 'agg' else None
            if g != lin.const(0) or M.unmapped(ch):
                continue
            found += 1
            segs = [M.bounds(lin.add(sub, lin.const(16 + 12 * k))) if fmt == 12 else
                    M.bounds(lin.add(lin.add(sub, lin.const(16 + 2 * k)), lin.scale(M.n, 4))) for k in range(n)]
            about = {x for b in segs for f in b for x, _ in f[0]} | {x for x, _ in ch[0]}
            cons = [f for f in S2.constraints()[0] if f[0] and all(x in about for x, _ in f[0])]
            for (_, hi), (lo2, _) in itertools.combinations(segs, 2):
                cons.append(lin.add(lin.add(lo2, hi, 1, -1), lin.const(-1)))
            for lo, hi in segs:
                cons.append(lin.add(hi, lo, 1, -1))
            for k, (lo, hi) in enumerate(segs):
                if fmt == 4 and S2.proves(lin.add(ch, lin.const(-0x10000))):
                    break
                if not lin.infeasible(cons + [lin.add(ch, lo, 1, -1), lin.add(hi, ch, 1, -1)], 4000):
                    bad = bad or 'segment %d of %d may have the character' % (k + 1, n)
        r.ob('search', not bad, 'Font::glyph_id', 'format %d: a character is only missing if no segment of a sorted map has it%s' % (fmt, ': ' + bad if bad else ''),
             key='search: format %d, %d segments' % (fmt, n))
    return found


def facts(S, s, base=None):
    out = []
    for f, v in s.facts.items():
        if base is not None and f in base.facts:
            continue
        if f[0] == 'bin' and len(f) == 4:
            out.append('%s %s %s %s' % (S.show(S.form(f[2])), f[1], S.show(S.form(f[3])), v))
        else:
            out.append('%s %s' % (sh(f)[:120], v))
    return out


def callbacks(s):
    return [e for e in s.events() if e.kind == 'call' and e.name == 'callback']


def loops_in(s):
    return [e for e in s.events() if e.kind in ('loop', 'star')]


def has_cb(li):
    return any(callbacks(i) or any(has_cb(e.info['loop']) for e in loops_in(i)) for i in li.iters)


def enumeration(r, P, base, s2, fmt, sub):
    n = 0
    top = [e for e in loops_in(s2) if has_cb(e.info['loop'])]
    r.ob('enumeration', len(top) == 1, 'Font::each_code_point', 'format %d: one loop over the segments' % fmt,
         key='enumeration: format %d segments loop' % fmt)
    if callbacks(s2):
        r.violate('enumeration', 'Font::each_code_point', 'callback outside of the loop over characters')
    for e in top:
        segs = set()
        for it in e.info['loop'].iters:
            inner = [x for x in loops_in(it) if has_cb(x.info['loop'])]
            if not inner:
                r.violate('enumeration', 'Font::each_code_point',
                          'format %d: a segment is passed over without enumerating its characters' % fmt,
                          'enumeration: format %d segment skipped' % fmt, facts(Sym(P.a, it), it, base))
                continue
            for x in inner:
                li = x.info['loop']
                cont = []
                for i2 in li.iters:
                    S = Sym(P.a, i2)
                    M = Map(S, fmt, sub)
                    cbs = callbacks(i2)
                    for cb in cbs:
                        n += 1
                        ch = S.form(newtype(cb.args[1]))
                        g = S.form(newtype(cb.args[2]))
                        good, seg, why = M.glyph(ch, g)
                        r.ob('enumeration', good, 'Font::each_code_point',
                             'format %d: reported glyph is the one the format defines' % fmt,
                             key='enumeration: format %d glyph' % fmt, detail=[why, S.show(ch), S.show(g)])
                        if not good:
                            continue
                        if fmt == 12 and not S.proves(lin.add(lin.const(0xffff), M.strip(g), 1, -1)):
                            r.violate('enumeration', 'Font::each_code_point', 'format 12: reported glyph ID may be truncated')
                        segs.add(seg)
                        cont.append((ch, seg))
                if not cont:
                    continue
                phis = set()
                for ch, seg in cont:
                    phis.add(ch)
                if len(phis) != 1 or len(cont[0][0][0]) != 1 or len({c[1] for c in cont}) != 1:
                    r.violate('enumeration', 'Font::each_code_point', 'format %d: several characters per step' % fmt)
                    continue
                ch, seg = cont[0]
                cover(r, P, base, it, li, ch, seg, fmt, sub)
        for seg in segs:
            segment_range(r, P, base, s2, e.info['loop'], seg, fmt, sub)
    return n


def cover(r, P, base, outer, li, ch, seg, fmt, sub):
    """the loop over characters runs from the first to the last one, inclusive, and skips only unmapped ones"""
    S0 = Sym(P.a, outer)
    lo, hi = Map(S0, fmt, sub).bounds(seg)
    atom = ch[0][0][0]
    # the loop-varying value and how it advances
    if atom[0] == 'it' or atom[0] == 'phi':
        phi = [(d, f) for d, f in li.phis.items() if S0.form(f) == ch or f == atom]
    else:
        phi = []
    if not phi:
        r.violate('enumeration', 'Font::each_code_point', 'format %d: characters do not come from the loop counter' % fmt)
        return
    d, f = phi[0]
    first = S0.form(li.entry[d])
    r.ob('enumeration', first == lo, 'Font::each_code_point', 'format %d: enumeration starts at the first character' % fmt,
         key='enumeration: format %d first' % fmt, detail=S0.show(first))
    flags = [dd for dd, ff in li.phis.items() if P.a.typeof(ff) == ('prim', 'bool')]
    for i2 in li.iters:
        S = Sym(P.a, i2)
        M = Map(S, fmt, sub)
        nv = P.a.load(i2, d[0], d[1])
        step = S.delta(f, nv)
        ended = any(P.a.load(i2, x[0], x[1]) == ('c', True, 'bool') for x in flags)
        good = step == 1 or step == 0 and ended and S.proves_eq(ch, hi)
        r.ob('enumeration', good, 'Font::each_code_point', 'format %d: characters advance by one' % fmt,
             key='enumeration: format %d step' % fmt, detail=[sh(nv)[:200], ended])
        inb = S.proves(lin.add(hi, ch, 1, -1))
        r.ob('enumeration', inb, 'Font::each_code_point', 'format %d: enumeration stops at the last character' % fmt,
             key='enumeration: format %d last' % fmt, detail=facts(S, i2, outer))
        if not callbacks(i2):
            notchar = any(k[0] == 'ischar' and v is False for k, v in i2.facts.items()) or \
                S.proves(lin.add(ch, lin.const(-0x110000)))
            r.ob('enumeration', notchar or M.unmapped(ch), 'Font::each_code_point',
                 'format %d: only unmapped characters and surrogates are skipped' % fmt,
                 key='enumeration: format %d skipped' % fmt, detail=facts(S, i2, outer))
    # leaving the loop: past the last character, or flagged as ended
    So = Sym(P.a, outer)
    past = So.proves(lin.add(lin.add(ch, hi, 1, -1), lin.const(-1)))
    flag = any(outer.facts.get(li.phis[x]) is True for x in flags)
    r.ob('enumeration', past or flag, 'Font::each_code_point', 'format %d: the last character is included' % fmt,
         key='enumeration: format %d inclusive' % fmt, detail=facts(So, outer, base))


def segment_range(r, P, base, final, li, seg, fmt, sub):
    """the loop over segments starts with segment 0, steps by one and ends with the last one"""
    S = Sym(P.a, final)
    M = Map(S, fmt, sub)
    if fmt == 12:
        rel = lin.add(seg, lin.add(sub, lin.const(16)), 1, -1)
        stride, count = 12, rd('u32', sub, 12)
    else:
        rel = lin.add(seg, lin.add(lin.add(sub, lin.const(16)), lin.scale(M.n, 4)), 1, -1)
        stride, count = 2, M.n
    its = [(a, c) for a, c in rel[0]]
    good = rel[1] == 0 and len(its) == 1 and its[0][0][0] == 'it' and its[0][1] == stride
    back = not good and len(its) == 2 and any(a[0] == 'it' and c == -stride for a, c in its)
    if back:
        it = [a for a, c in its if a[0] == 'it'][0]
        good = rel == lin.add(lin.scale(count, stride), lin.add(lin.atom(it), lin.const(1)), 1, -stride)
    r.ob('enumeration', good, 'Font::each_code_point', 'format %d: segments are taken one after the other from the first' % fmt,
         key='enumeration: format %d segment order' % fmt, detail=S.show(rel))
    if good:
        it = its[0][0] if not back else it
        done = S.proves(lin.add(lin.atom(it), count, 1, -1))
        r.ob('enumeration', done, 'Font::each_code_point', 'format %d: all segments are enumerated' % fmt,
             key='enumeration: format %d all segments' % fmt, detail=facts(S, final, base))


# ---------------------------------------------------------------------------- F04: record tables are searched completely
@check('F04', 'A font is rejected for lack of a usable PostScript name or character map only on paths whose facts show '
       'that every record of that table was visited (a counter over all records has reached the record count), and a '
       'record is passed over only if its fields, read at their format-defined offsets, contradict the accepted '
       '(platform, encoding, name ID / subtable format) combinations; of several usable character maps the last record '
       'wins.', U)
def f04(r):
    P = Parsed.get()
    for k in P.a.analysed:
        r.fn(disp(P.p, k))
    nm, cm = table('name'), table('cmap')
    spec = {
        'NoSupportedPostscriptName': (nm, 6, 12, rd('u16', nm, 2), 'name'),
        'NoSupportedCmap': (cm, 4, 8, rd('u16', cm, 2), 'cmap'),
    }
    seen = {k: 0 for k in spec}
    for s, e in P.err:
        if e[0] != 'agg' or e[3] not in spec:
            continue
        seen[e[3]] += 1
        tb, hdr, stride, count, label = spec[e[3]]
        S = Sym(P.a, s)
        cons, _ = S.constraints()
        its = {a for f in cons for a, _ in f[0] if a[0] == 'it'}
        done = [i for i in its if S.proves(lin.add(lin.atom(i), count, 1, -1))]
        r.ob('complete', bool(done) or S.proves_eq(count, lin.const(0)), disp(P.p, P.key),
             '%s: rejected only after all records' % label, key='complete: ' + label, detail=facts(S, s))
    for k, n in seen.items():
        r.floor('rejecting outcomes ' + k, n, 1)
    # records that are passed over
    skips = {'name': 0, 'cmap': 0}
    done = set()
    for s, _ in [(x, None) for x, _ in P.ok] + P.err:
        for e in loops_in(s):
            li = e.info['loop']
            if id(li) in done:
                continue
            done.add(id(li))
            for i in li.iters:
                S = Sym(P.a, i)
                for label, (tb, hdr, stride, count, _) in (('name', spec['NoSupportedPostscriptName']),
                                                           ('cmap', spec['NoSupportedCmap'])):
                    rec = record_of(S, i, tb, hdr, stride, li)
                    if rec is None:
                        continue
                    skips[label] += 1
                    if label == 'name':
                        combos = [{0: 1}, {0: 3, 2: 1}]
                        combos = [dict(c, **{}) for c in combos]
                        for c in combos:
                            c[6] = 6
                    else:
                        combos = [{0: 3, 2: 1, 'fmt': 4}, {0: 3, 2: 10, 'fmt': 12}]
                    for c in combos:
                        ex = []
                        for off, val in c.items():
                            if off == 'fmt':
                                a = lin.atom(('r', 'u16', lin.add(cm, lin.atom(('r', 'u32', lin.add(rec, lin.const(4)))))))
                            else:
                                a = rd('u16', rec, off)
                            ex += [lin.add(a, lin.const(-val)), lin.add(lin.const(val), a, 1, -1)]
                        r.ob('skip', not S.possible(ex), disp(P.p, P.key),
                             '%s: a record is passed over only if it is not a supported one' % label,
                             key='skip: %s %s' % (label, sorted((str(a), b) for a, b in c.items())), detail=facts(S, i, s))
                    if label == 'cmap':
                        its = [(a, k) for a, k in lin.add(rec, tb, 1, -1)[0] if a[0] == 'it']
                        back = len(its) == 1 and its[0][1] == -stride
                        r.ob('preference', back, disp(P.p, P.key),
                             'cmap: records are tried from the last to the first (full Unicode before BMP)', key='preference: cmap',
                             detail=S.show(rec))
    for k, n in skips.items():
        r.floor('passed-over record paths ' + k, n, 1)


def record_of(S, i, tb, hdr, stride, li):
    """position of the record looked at in this iteration"""
    cons, neq = S.constraints()
    out = set()

    def go(f):
        for a, _ in f[0]:
            if a[0] == 'r':
                rel = lin.add(a[2], lin.add(tb, lin.const(hdr)), 1, -1)
                mine = [x for x, c in rel[0] if x[0] == 'it' and x[1] == li.key]
                if mine and all(c % stride == 0 for _, c in rel[0]) and a[1] in ('u16', 'u32'):
                    base = lin.add(a[2], lin.const(-(rel[1] % stride)))
                    out.add(base)
                go(a[2])
    for f in list(cons) + list(neq):
        go(f)
    return out.pop() if len(out) == 1 else None
