"""Plain text in pages: which segments are on which line and page, and where."""
import itertools

import engine
from common import disp
from front import AnalysisError
from report import check
from layx import Numbers, Z, add, sub, mul, infeasible, poly, say, sym, one, tail
from c_layout import vec, unvec
from c_inline import T, Differs, Unknown, bare, eq, must, number_facts

UNIT = ('c', (), '()')


def eu(kind, *xs):
    return ('agg', 'adt', 'euclid::' + kind, None, tuple(xs) + (UNIT,), ())


def flat(eng, st, v):
    """(kind, numbers) of a length, a scale, a point, a size or a number"""
    if v[0] == 'ref':
        v = eng.read_ref(st, v)
    if v[0] == 'agg' and v[1] == 'adt' and v[2].startswith('euclid::'):
        return v[2][8:], [x for x in v[4] if x != UNIT]
    if eng.typeof(v) == ('prim', 'f32') or v[0] == 'c' and isinstance(v[1], float):
        return 'f32', [v]
    return None, None


def operator(op):
    def f(eng, st, fr, name, args, info):
        (a, x), (b, y) = flat(eng, st, args[0]), flat(eng, st, args[1])
        if a is None or b is None or a == b == 'f32':
            return None
        if op in ('Add', 'Sub'):
            kind = a if a == b else None
        elif op == 'Mul':
            kind = a if len(x) > 1 else b if len(y) > 1 else 'Length' if 'Length' in (a, b) else 'TypedScale'
        else:
            kind = a if len(x) > 1 else 'TypedScale' if a == b == 'Length' else a
        if kind is None:
            return None
        n = max(len(x), len(y))
        x, y = (x * n)[:n] if len(x) == 1 else x, (y * n)[:n] if len(y) == 1 else y
        v = eu(kind, *[eng.binop(st, op, p, q, ('prim', 'f32')) for p, q in zip(x, y)])
        if name.endswith('_assign'):
            eng.write_ref(st, args[0], v)
            return [('ret', st, UNIT)]
        return [('ret', st, v)]
    return f


def comparison(op):
    def f(eng, st, fr, name, args, info):
        (a, x), (b, y) = flat(eng, st, args[0]), flat(eng, st, args[1])
        if a != 'Length' or b != 'Length':
            return None
        return [('ret', st, eng.binop(st, op, x[0], y[0], ('prim', 'f32')))]
    return f


def numbers(eng, st, v):
    if v[0] == 'ref':
        v = eng.read_ref(st, v)
    out = []
    if v[0] == 'agg':
        for x in v[4]:
            if x != UNIT:
                out += numbers(eng, st, x)
        return out
    return [v]


def of(f):
    """a model by its numbers"""
    def m(eng, st, fr, name, args, info):
        v = f(*[numbers(eng, st, a) for a in args])
        return [('ret', st, v)]
    return m


EUCLID = {
    'std::PartialOrd::gt': comparison('Gt'), 'std::PartialOrd::lt': comparison('Lt'), 'std::PartialOrd::ge': comparison('Ge'), 'std::PartialOrd::le': comparison('Le'),
    'std::Mul::mul': operator('Mul'), 'std::Div::div': operator('Div'), 'std::Add::add': operator('Add'), 'std::Sub::sub': operator('Sub'),
    'std::AddAssign::add_assign': operator('Add'), 'std::SubAssign::sub_assign': operator('Sub'),
    'euclid::TypedScale::inv': of(lambda s: eu('TypedScale', ('bin', 'Div', ('c', 1.0, 'f32'), s[0]))),
    'euclid::TypedSideOffsets2D::from_length_all_same': of(lambda m: eu('TypedSideOffsets2D', *m * 4)),
    'euclid::TypedSideOffsets2D::new_all_same': of(lambda m: eu('TypedSideOffsets2D', *m * 4)),
    'euclid::TypedPoint2D::origin': of(lambda: eu('TypedPoint2D', Z, Z)),
    'euclid::TypedRect::inner_rect': of(lambda r, o: box(add(r[0], o[3]), add(r[1], o[0]), sub(r[2], add(o[3], o[1])), sub(r[3], add(o[0], o[2])))),
    'euclid::TypedRect::from_size': of(lambda s: box(Z, Z, *s)),
}
for _n, _f in (('min_x', lambda r: r[0]), ('min_y', lambda r: r[1]), ('max_x', lambda r: add(r[0], r[2])), ('max_y', lambda r: add(r[1], r[3])), ):
    EUCLID['euclid::TypedRect::%s_typed' % _n] = of(lambda r, _f=_f: eu('Length', _f(r)))
    EUCLID['euclid::TypedRect::' + _n] = of(lambda r, _f=_f: _f(r))
for _i, _n in enumerate(('width', 'height')):
    EUCLID['euclid::TypedSize2D::%s_typed' % _n] = of(lambda s, _i=_i: eu('Length', s[_i]))
for _i, _n in enumerate(('x', 'y')):
    EUCLID['euclid::TypedPoint2D::%s_typed' % _n] = of(lambda s, _i=_i: eu('Length', s[_i]))


def box(x, y, w, h):
    return ('agg', 'adt', 'euclid::TypedRect', None, (eu('TypedPoint2D', x, y), eu('TypedSize2D', w, h)), ())


class Plain(T):
    show_fails, no_glyph = 0, None

    def __init__(self):
        super().__init__()
        p, a = self.p, self.a
        a.models.update(EUCLID)
        a.models['xi_unicode::LineBreakIterator::new'] = self.on_breaks
        self.plain = one((k for k, b in p.bodies.items() if k == 'text_plain::layout'), 'text_plain::layout')
        self.style = one((k for k in p.structs if k == 'text_plain::Style'), 'text_plain::Style')
        doc = one((k for k in p.structs if k == 'pdf::Document'), 'pdf::Document')
        page = one((k for k in p.structs if k == 'pdf::Page'), 'pdf::Page')
        self.page = page
        self.new_doc, self.add_page, self.show = self.method(doc, 'new'), self.method(doc, 'add_page'), self.method(page, 'show_text')
        font = one((k for k in p.structs if tail(k) == 'Font'), 'Font')
        self.ascender = self.method(font, 'ascender')
        self.drops = [im.methods['drop'] for im in p.impls if im.trait and tail(im.trait) == 'Drop' and 'drop' in im.methods]

    def start(self, parts, justify):
        """parts: [(text, whether a line ends after it)]"""
        self.unstop()
        st = engine.State()
        self.breaks = []
        at = 0
        for t, hard in parts:
            at += len(t)
            self.breaks.append(('agg', 'tuple', None, None, (('c', at, 'usize'), ('c', hard, 'bool')), ()))
        f32 = lambda n: self.number(n)
        self.stop(self.font_glyph, self.on_glyph)
        self.stop(self.font_width, self.on_width)
        self.stop(self.ascender, lambda eng, s, fr, name, args, info: [('ret', s, eu('Length', f32('ascender')))])
        self.stop(self.new_doc, lambda eng, s, fr, name, args, info: [('ret', s, sym('document'))])
        self.stop(self.add_page, self.on_page)
        self.stop(self.show, self.on_show)
        for d in self.drops:
            self.stop(d, lambda eng, s, fr, name, args, info: [('ret', s, UNIT)])
        self.text_value = self.boxed(st, self.text(''.join(t for t, _ in parts)))[4][0]
        style = self.mk(self.style, page_size=eu('TypedSize2D', f32('page width'), f32('page height')), page_margin=eu('Length', f32('margin')), font=sym('font'),
                        font_size=eu('Length', f32('font size')), line_height=f32('line height'), justify=('c', justify, 'bool'))
        return self.a.entry(self.plain, args=[self.text_value, self.boxed(st, style)[4][0]], st=st)

    def number(self, n):
        s = sym(n)
        self.a.settype(s, ('prim', 'f32'))
        return s

    def on_breaks(self, eng, st, fr, name, args, info):
        import models
        p, cs = models.text_of(eng, st, args[0])
        must(cs is not None and len(cs) == self.breaks[-1][4][0][1] if self.breaks else cs == [], 'the breaks are those of another text')
        n = self.boxed(st, vec(self.breaks))[4][0]
        return [('ret', st, models.seqit(n, ('c', 0, 'usize'), ('c', len(self.breaks), 'usize'), 'val'))]

    def on_page(self, eng, s, fr, name, args, info):
        s.event('page', tuple(numbers(eng, s, args[1])), (), {})
        k = len([1 for e in s.events() if e[0] == 'page'])
        v = sym('page %d' % k)
        eng.settype(v, ('path', self.page, ()))
        return [('ret', s, v)]

    def on_show(self, eng, s, fr, name, args, info):
        pages = len([1 for e in s.events() if e[0] == 'page'])
        pg = self.a.snapshot(s, args[0])
        must(pg == sym('page %d' % pages), 'a text is on a page that is not the last')
        run = eng.read_ref(s, args[1])
        g = lambda n: self.get(s, run, 'primitives::TextRun.' + n)
        seg = g('segment')
        seg = eng.read_ref(s, seg) if seg[0] in ('ref', 'cref') else seg
        glyphs = unvec(self.get(s, seg, 'ShapedSegment.glyphs'))
        must(glyphs is not None, 'a text with glyphs that are not known: %s' % str(self.get(s, seg, 'ShapedSegment.glyphs'))[:300])
        s.event('show', (''.join(x[1][6:] for x in glyphs), numbers(eng, s, g('font_size'))[0], *numbers(eng, s, g('origin'))), (), {})
        if len([1 for e in s.events() if e[0] == 'show']) == self.show_fails:
            return [('ret', s, ('agg', 'adt', 'std::Result', 'Err', (sym('show error'),), ()))]
        return [('ret', s, ('agg', 'adt', 'std::Result', 'Ok', (args[0],), ()))]

    def on_glyph(self, eng, s, fr, name, args, info):
        if args[1] == ('c', ord(self.no_glyph or '\0'), 'char'):
            return [('ret', s, ('agg', 'adt', 'std::Result', 'Err', (sym('glyph error'),), ()))]
        return super().on_glyph(eng, s, fr, name, args, info)


# ---------------------------------------------------------------------- what a path should show
MM = ('bin', 'Div', ('c', 96.0, 'f32'), ('c', 25.3999996, 'f32'))       # CSS px in a millimetre, as the compiler writes 25.4


class Pages:
    def __init__(self, num, justify):
        self.num, self.justify = num, justify
        self.shown, self.pages = [], 0
        self.left = self.top = mul(sym('margin'), MM)
        self.width = sub(mul(sym('page width'), MM), mul(('c', 2.0, 'f32'), self.left))
        self.bottom = sub(mul(sym('page height'), MM), self.top)

    def is_(self, a, rel, b, no):
        if self.num.holds(a, rel, b):
            return True
        if self.num.holds(a, no, b):
            return False
        raise Unknown('%s and %s' % (say(poly(a)), say(poly(b))))

    def all(self, parts):
        fs, lh = sym('font size'), sym('line height')
        base = mul(fs, add(mul(('c', 0.5, 'f32'), sub(lh, ('c', 1.0, 'f32'))), sym('ascender')))
        self.pages, y = 1, self.top
        todo = [(t.rstrip('\n'), hard) for t, hard in parts]
        while todo:
            line, total, soft = [], Z, False
            while todo:
                t, hard = todo[0]
                w = mul(fs, wide(t))
                if line and self.is_(add(total, w), '>', self.width, '<=') and self.is_(total, '>', Z, '<='):
                    soft = True
                    break
                line.append((t, w))
                total = add(total, w)
                todo.pop(0)
                if hard:
                    break
            space = Z
            if soft and self.justify and len(line) > 1:
                extra = sub(self.width, total)
                if not self.num.holds(extra, '<=', Z):
                    space = ('bin', 'Div', extra, ('c', float(len(line) - 1), 'f32'))
            x = self.left
            for t, w in line:
                self.shown.append((self.pages, t, x, add(y, base)))
                x = add(x, w, space)
            y = add(y, mul(fs, lh))
            if todo and self.is_(y, '>', self.bottom, '<='):
                self.pages, y = self.pages + 1, self.top


def wide(text):
    return add(Z, *[sym('w ' + c) for c in text])


def path_ok(l, parts, justify, fails, kind, st, v):
    given = [(poly(mul(sym('font size'), sym('w ' + c))), '>=') for t, _ in parts for c in t]
    n = Numbers(l, st)
    n.facts = number_facts(l, st) + given
    if infeasible(n.facts):
        return
    must(kind == 'ret', 'the layout panics')
    ok = v[0] == 'agg' and v[3] == 'Ok'
    if fails:
        must(not ok and v[0] == 'agg' and v[3] == 'Err' and fails in str(v[4]), 'an error is lost')
        return
    must(ok and v[4][0] == sym('document'), 'the result is not the document')
    o = Pages(n, justify)
    try:
        o.all(parts)
    except Unknown as e:
        raise Differs('the lines do not depend on which of %s is greater' % e)
    shown, page = [], 0
    for e in st.events():
        if e[0] == 'page':
            page += 1
            eq(n, 'the width of page %d' % page, e[1][0], mul(sym('page width'), MM))
            eq(n, 'the height of page %d' % page, e[1][1], mul(sym('page height'), MM))
        elif e[0] == 'show':
            shown.append((page,) + e[1])
    got, want = [''.join('%d:"%s" ' % (s[0], s[1]) for s in x) for x in (shown, o.shown)]
    must(got == want, 'the texts on pages are %s where they should be %s' % (got, want))
    must(page == o.pages, 'there are %d pages where %d are needed' % (page, o.pages))
    for i, (s, w) in enumerate(zip(shown, o.shown)):
        what = 'of text %d, "%s"' % (i + 1, w[1])
        eq(n, 'the font size ' + what, s[2], sym('font size'))
        eq(n, 'the left ' + what, s[3], w[2])
        eq(n, 'the baseline ' + what, s[4], w[3])


def texts(thorough):
    ts = [('a ', False), ('bc', False), ('d\n', True), ('\n', True)]
    for n in range(1, (5 if thorough else 4)):
        for x in itertools.product(ts, repeat=n):
            x = list(x)
            x[-1] = (x[-1][0], True)        # the end of a text ends a line
            yield tuple(x)


def plain():
    if not hasattr(plain, 'x'):
        plain.x = Plain()
    return plain.x


def one_text(parts, justify, fails, glyph=None):
    l = plain()
    l.show_fails, l.no_glyph = fails, glyph
    outs = l.start(parts, justify)
    for kind, st, v in outs:
        path_ok(l, parts, justify, ('show error' if fails else 'glyph error' if glyph else None), kind, st, v)
    return len(outs)


def worker(job):
    out = []
    for parts, justify, fails, glyph in job:
        name = '%s%s' % ('|'.join(t.replace('\n', '\\n') for t, _ in parts), ', justified' if justify else '')
        try:
            out.append((name, one_text(parts, justify, fails, glyph), ''))
        except Differs as e:
            out.append((name, 0, str(e)))
            if len([1 for o in out if o[2]]) >= 3:
                break
    return out


@check('T02', rule='on every path of the layout of plain text with scripted break opportunities, each segment is shown once, in order, where greedy line and page breaking has it '
       'for the answers of the comparisons of widths on the path', trusted=('xi-unicode gives the break opportunities, in order, and the end of the text as the last', 'lengths are compared as rational numbers, not with the rounding of f32'))
def t02(R):
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing
    l = plain()
    R.fn(l.plain)
    where = disp(l.p, l.plain)
    all_ = list(dict.fromkeys(texts(R.thorough)))
    groups = [('not justified', [(t, False, 0, None) for t in all_]), ('justified', [(t, True, 0, None) for t in all_]),
              ('no text', [((), False, 0, None), ((), True, 0, None)]),
              ('errors', [(t, False, k, None) for t in all_ if 1 < len(t) < 4 for k in range(1, len(t) + 1)] + [(t, False, 0, c) for t in all_ if len(t) < 4 for c in 'acd' if any(c in x for x, _ in t)])]
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork')) as ex:
        for group, todo in groups:
            jobs = [todo[k::64] for k in range(64) if todo[k::64]]
            bad, paths = [], 0
            for res in ex.map(worker, jobs):
                for t, n, why in res:
                    paths += n
                    if why:
                        bad.append((len(t), t, why))
            bad.sort()
            R.floor('texts: ' + group, len(todo), 2)
            R.ob('%s: %d texts, %d paths' % (group, len(todo), paths), not bad, where, '' if not bad else
                 'pages of "%s": %s (and %d others)' % (bad[0][1], bad[0][2], len(bad) - 1), group, bad[0][1] if bad else '')
