"""Lines of inline content: where texts break, and where everything on a line is."""
import itertools

import engine
from common import disp
from front import AnalysisError
from report import check
from layx import Numbers, Z, RELS, add, sub, mul, fmax, infeasible, padd, poly, same, say, sym, one, tail
from c_layout import L, OUT, SIDES, vec, unvec


LINE = ('c', 1.20000005, 'f32')      # the height of a line, in font sizes: 1.2, as the compiler writes it

MARGINS = ('LLLL', 'PALP')      # top, left, bottom, right
PADDINGS = ('LLLL', 'LPPL')


class T(L):
    def __init__(self):
        super().__init__()
        p, a = self.p, self.a
        a.unroll, a.unroll_any, a.unroll_width = 300, True, 1000
        a.max_depth = 60
        a.chars = {}
        a.rec_limit = 8
        a.merge = False
        a.models['std::AddAssign::add_assign'] = self.on_add
        font = one((k for k in p.structs if tail(k) == 'Font'), 'Font')
        self.font_glyph = self.method(font, 'glyph_id')
        self.font_width = self.method(font, 'glyph_width')
        self.segment = one((k for k in p.structs if tail(k) == 'ShapedSegment'), 'ShapedSegment')
        self.text_run = one((k for k in p.structs if k.endswith('inline::TextRun')), 'TextRun of a line')

    def on_add(self, eng, st, fr, name, args, info):
        o = eng.read_ref(st, args[0])
        x = args[1]
        if o[0] != 'agg' or o[2] != 'euclid::Length' or x[0] != 'agg' or x[2] != 'euclid::Length':
            return None
        eng.write_ref(st, args[0], o[:4] + ((eng.binop(st, 'Add', o[4][0], x[4][0], ('prim', 'f32')),) + o[4][1:], ()))
        return [('ret', st, ('c', (), '()'))]

    def boxed(self, st, v):
        st.nframe += 1
        b = ('l', st.nframe, 'box')
        st.mem[b] = v
        return ('agg', 'adt', 'std::Arc', None, (('ref', b, ()),), ())

    def text(self, s):
        return vec([('c', ord(c), 'char') for c in s])

    def on_glyph(self, eng, s, fr, name, args, info):
        c = args[1]
        if c[0] != 'c':
            raise AnalysisError('the glyph of a character that is not known: %s' % str(c)[:600])
        return [('ret', s, ('agg', 'adt', 'std::Result', 'Ok', (sym('glyph ' + chr(c[1])),), ()))]

    def on_width(self, eng, s, fr, name, args, info):
        g = args[1]
        if g[0] != 's' or not g[1].startswith('glyph '):
            raise AnalysisError('the width of a glyph that is not known')
        w = sym('w ' + g[1][6:])
        self.a.settype(w, ('prim', 'f32'))
        return [('ret', s, ('agg', 'adt', 'std::Result', 'Ok', (('agg', 'adt', 'euclid::Length', None, (w, ('c', (), '()')), ()),), ()))]

    # ------------------------------------------------------------------ inline content
    def box(self, st, it):
        """('text', style, text) ('inline', style, first, last, kids) ('abs', style, outside) ('float', style)"""
        if it[0] == 'text':
            v = self.var('InlineLevelBox', 'TextRun', self.mk(self.text_run, parent_style=sym('style ' + it[1]), text=self.text(it[2])))
        elif it[0] == 'inline':
            v = self.var('InlineLevelBox', 'InlineBox', self.mk('InlineBox', style=sym('style ' + it[1]), first_fragment=('c', it[2], 'bool'), last_fragment=('c', it[3], 'bool'),
                                                               children=vec([self.box(st, k) for k in it[4]])))
        elif it[0] == 'abs':
            v = self.var('InlineLevelBox', 'OutOfFlowAbsolutelyPositionedBox', self.mk('AbsolutelyPositionedBox', style=sym('style ' + it[1]), contents=sym('contents ' + it[1])))
        else:
            v = self.var('InlineLevelBox', 'OutOfFlowFloatBox', self.mk('FloatBox', style=sym('style ' + it[1]), contents=sym('contents ' + it[1])))
        return self.boxed(st, v)

    def styles(self, st, items, position, percent):
        for it in items:
            n = it[1]
            if ('h', sym('style ' + n)) not in st.mem:
                vals = {'%s-%s' % (k, s): '%s %s %s' % (n, k, s) for k in ('margin', 'padding', 'border') for s in ('top', 'left', 'bottom', 'right')}
                extra = {'font_size': self.mk('FontSize', self.length('fs ' + n))}
                for s in ('top', 'left', 'bottom', 'right'):
                    extra[s] = self.lp(OUT, 'L', '%s %s' % (n, s))
                if it[0] == 'abs':
                    extra['specified_display'] = self.var('box_::Display', 'GeneratingBox', self.var('DisplayGeneratingBox', 'OutsideInside', outside=self.var('DisplayOutside', it[2]),
                                                                                                      inside=self.var('DisplayInside', 'Flow')))
                self.style_of(st, sym('style ' + n), position=position, extra=extra, values=vals, margins=MARGINS[percent], paddings=PADDINGS[percent])
            if it[0] == 'inline':
                self.styles(st, it[4], position, percent)

    def start(self, items, position='Static', percent=False):
        """(the list of absolutely positioned fragments, outcomes)"""
        self.unstop()
        st = engine.State()
        self.stop(self.font_glyph, self.on_glyph)
        self.stop(self.font_width, self.on_width)
        self.stop(self.abs_box, self.on_abs)
        self.styles(st, items, position, percent)
        me = self.boxed(st, self.mk('InlineFormattingContext', inline_level_boxes=vec([self.box(st, i) for i in items])))[4][0]
        cb = self.boxed(st, self.containing())[4][0]
        out = self.boxed(st, vec([sym('earlier')]))[4][0]
        return out, self.a.entry(self.ifc, args=[me, cb, sym('rank'), out], st=st)

    def on_abs(self, eng, s, fr, name, args, info):
        vals = [self.a.snapshot(s, a) for a in args]
        return [('ret', s, ('positioned',) + tuple(vals))]


# ---------------------------------------------------------------------- what CSS has
class Unknown(Exception):
    """what happens depends on a comparison the code did not make"""


class Level:
    def __init__(self, x):
        self.x, self.kids, self.height = x, [], Z

    def grow(self, h):
        self.height = fmax(self.height, h)


class Lines:
    """inline content in lines, with the answers one path knows"""

    def __init__(self, num, relative, percent):
        self.num, self.relative, self.percent = num, relative, percent
        self.x, self.y = Z, Z
        self.lines, self.abs, self.stack = [], [], []
        self.now = Level(Z)

    def greater(self, a, b):
        if self.num.holds(a, '<=', b):
            return False
        if self.num.holds(a, '>', b):
            return True
        raise Unknown('%s and %s' % (say(poly(a)), say(poly(b))))

    def all(self, items):
        for it in items:
            if it[0] == 'text':
                self.text(it[1], it[2])
            elif it[0] == 'inline':
                self.open(it)
                self.all(it[4])
                self.close(False)
                self.now = self.stack.pop()['up']
            elif it[0] == 'abs':
                self.abs.append((it[1], self.x if it[2] == 'Inline' else Z, self.y))

    def open(self, it):
        n = it[1]
        def edge(k, side):
            kind = {'padding': PADDINGS, 'margin': MARGINS}.get(k, ('LLLL',) * 2)[self.percent][SIDES.index(side)]
            v = sym('%s %s %s' % (n, k, side))
            return {'L': v, 'P': mul(sym('cbis'), v), 'A': Z}[kind]
        e = lambda side: {k: edge(k, side) for k in ('padding', 'border', 'margin')}
        left, right = e('left') if it[2] else dict.fromkeys(e('left'), Z), e('right')
        if it[2]:
            self.x = add(self.x, *left.values())
        self.stack.append({'name': n, 'start': left, 'end': right, 'top': e('top'), 'bottom': e('bottom'), 'last': it[3], 'at': sub(self.x, self.now.x), 'up': self.now})
        self.now = Level(self.x)

    def close(self, broken):
        """the part on this line of the innermost open box"""
        b = self.stack[-1]
        self.part(b, self.now, broken)

    def part(self, b, level, broken):
        end = b['end'] if b['last'] and not broken else dict.fromkeys(b['end'], Z)
        rel = (sym(b['name'] + ' left'), sym(b['name'] + ' top')) if self.relative else (Z, Z)
        sums = add(*b['top'].values(), *b['bottom'].values())
        b['up'].kids.append(('box', b['name'], (add(b['at'], rel[0]), add(*b['top'].values(), rel[1]), sub(self.x, level.x), level.height), b['start'], end, b['top'], b['bottom'], level.kids))
        b['up'].grow(add(level.height, sums))
        if b['last'] and not broken:
            self.x = add(self.x, *end.values())

    def end_line(self, top):
        self.lines.append((self.y, top.height, top.kids))
        self.y = add(self.y, top.height)

    def text(self, style, text):
        fs = sym('fs ' + style)
        while True:
            words = text.split(' ')
            k = 1
            while k < len(words) and not self.greater(mul(fs, wide(' '.join(words[:k + 1]))), sub(sym('cbis'), self.x)):
                k += 1
            got, text = ' '.join(words[:k]), ' '.join(words[k:])
            w, h = mul(fs, wide(got)), mul(fs, LINE)
            self.now.kids.append(('text', style, (sub(self.x, self.now.x), Z, w, h), got))
            self.x = add(self.x, w)
            self.now.grow(h)
            if not text:
                return
            level = self.now
            for b in self.stack[::-1]:
                self.part(b, level, True)
                level = b['up']
            self.end_line(level)
            self.x = Z
            up = Level(Z)
            for b in self.stack:
                b['up'], b['at'], b['start'] = up, Z, dict.fromkeys(b['start'], Z)
                up = Level(Z)
            self.now = up


def wide(text):
    return add(Z, *[sym('w ' + c) for c in text])


def letters(items):
    for it in items:
        if it[0] == 'text':
            for c in it[2]:
                yield it[1], c
        elif it[0] == 'inline':
            yield from letters(it[4])


# ---------------------------------------------------------------------- comparing
class Differs(Exception):
    pass


def eq(n, what, got, want):
    if not same(got, want) and not n.equal(got, want):
        raise Differs('%s is %s where CSS has %s' % (what, say(poly(got))[:300], say(poly(want))[:300]))


def must(ok, what):
    if not ok:
        raise Differs(what)


def eq_rect(l, st, n, what, t, want):
    for name, g, x in zip(('the start', 'the top', 'the width', 'the height'), l.rect(st, t), want):
        eq(n, '%s of %s' % (name, what), g, x)


def kids_ok(l, st, n, where, v, want):
    fs = unvec(l.a.load(st, *v[1:3]) if v[0] == 'ref' else v)
    must(fs is not None and len(fs) == len(want), '%s has %s parts where it should have %d' % (where, 'unknown' if fs is None else len(fs), len(want)))
    for i, (f, w) in enumerate(zip(fs, want)):
        must(f[0] == 'agg', 'part %d of %s is not known' % (i + 1, where))
        if w[0] == 'text':
            what = '"%s" in %s' % (w[3], where)
            must(f[3] == 'Text', 'part %d of %s is not a text' % (i + 1, where))
            t = l.get(st, f, 'Text.0')
            g = lambda m: l.get(st, t, 'TextFragment.' + m)
            must(g('parent_style') == sym('style ' + w[1]), 'the style of ' + what)
            shaped = g('text')
            glyphs = unvec(l.get(st, shaped, 'ShapedSegment.glyphs'))
            text = None if glyphs is None else ''.join(x[1][6:] if x[0] == 's' else '?' for x in glyphs)
            must(text == w[3], '%s has the glyphs of "%s"' % (what, text))
            eq(n, 'the advance of ' + what, l.get(st, shaped, 'ShapedSegment.advance_width')[4][0], wide(w[3]))
            eq_rect(l, st, n, what, g('content_rect'), w[2])
        else:
            what = 'the part of %s in %s' % (w[1], where)
            must(f[3] == 'Box', 'part %d of %s is not a box' % (i + 1, where))
            t = l.get(st, f, 'Box.0')
            g = lambda m: l.get(st, t, 'BoxFragment.' + m)
            must(g('style') == sym('style ' + w[1]), 'the style of ' + what)
            eq_rect(l, st, n, what, g('content_rect'), w[2])
            for k in ('padding', 'border', 'margin'):
                s = l.sides(st, g(k))
                for side, x in zip(('start', 'end', 'top', 'bottom'), w[3:7]):
                    eq(n, 'the %s %s of %s' % (side, k, what), s[side], x[k])
            kids_ok(l, st, n, what, g('children'), w[7])


def path_ok(l, items, relative, percent, out, kind, st, v):
    given = []
    for s, c in letters(items):
        given.append((poly(mul(sym('fs ' + s), sym('w ' + c))), '>='))
    n = Numbers(l, st)
    n.facts = [f for f in number_facts(l, st)] + given
    if infeasible(n.facts):
        return
    must(kind == 'ret', 'the layout panics')
    o = Lines(n, relative, percent)
    try:
        o.all(items)
    except Unknown as e:
        raise Differs('the lines do not depend on which of %s is greater' % e)
    o.end_line(o.now)
    fs = unvec(l.get(st, v, 'FlowChildren.fragments'))
    must(fs is not None and len(fs) == len(o.lines), 'there are %s lines where CSS has %d' % ('unknown' if fs is None else len(fs), len(o.lines)))
    for i, (f, (y, h, kids)) in enumerate(zip(fs, o.lines)):
        what = 'line %d' % (i + 1)
        must(f[0] == 'agg' and f[3] == 'Anonymous', what + ' is not an anonymous fragment')
        t = l.get(st, f, 'Anonymous.0')
        eq_rect(l, st, n, what, l.get(st, t, 'AnonymousFragment.rect'), (Z, y, sym('cbis'), h))
        must(l.get(st, t, 'AnonymousFragment.mode') == l.ltr, 'the writing mode of ' + what)
        kids_ok(l, st, n, what, l.get(st, t, 'AnonymousFragment.children'), kids)
    eq(n, 'the height of the lines', l.px(st, l.get(st, v, 'FlowChildren.block_size')), o.y)
    s, e, through = l.collapsed(st, l.get(st, v, 'FlowChildren.collapsible_margins_in_children'))
    for x in (*s, *e):
        eq(n, 'a margin of the lines', x, Z)
    ps = unvec(l.a.load(st, *out[1:3]))
    must(ps is not None and ps[:1] == [sym('earlier')] and len(ps) == 1 + len(o.abs), 'the absolutely positioned boxes')
    for p, (name, x, y) in zip(ps[1:], o.abs):
        must(p[0] == 'positioned' and refers_box(l, st, p[1], name), 'the absolutely positioned box ' + name)
        c = [q for q in p[2:] if q[0] == 'agg']
        must(len(c) == 1 and sym('rank') in p[2:], 'the static position and rank of ' + name)
        gx, gy = l.lengths(st, c[0], 'flow_relative::Vec2', 'inline', 'block')
        eq(n, 'the start of the static position of ' + name, gx, x)
        eq(n, 'the top of the static position of ' + name, gy, y)


def refers_box(l, st, b, name):
    return l.get(st, b, 'AbsolutelyPositionedBox.style') == sym('style ' + name)


def number_facts(l, st):
    """the comparisons of lengths a path made"""
    out = []
    for f, v in st.facts.items():
        if f[0] == 'bin' and f[1] in RELS and isinstance(v, bool):
            a, b = bare(f[2]), bare(f[3])
            out.append((padd(poly(a), poly(b), -1), RELS[f[1]][0 if v else 1]))
    return out


def bare(t):
    while t[0] == 'agg' and t[1] == 'adt' and t[3] is None and t[4]:
        t = t[4][0]
    return t


# ---------------------------------------------------------------------- contents
def number(items, c):
    """with a style of its own for each box, and that of the parent for texts"""
    def go(its, up):
        out = []
        for it in its:
            if it[0] == 'text':
                out.append(('text', up, it[1]))
                continue
            c[0] += 1
            n = chr(64 + c[0])
            if it[0] == 'inline':
                out.append(('inline', n, it[1], it[2], go(it[3], n)))
            else:
                out.append((it[0], n) + it[1:])
        return tuple(out)
    return go(items, 'P')


def contents(thorough):
    t = lambda s: ('text', s)
    i = lambda *k, f=(True, True): ('inline', f[0], f[1], k)
    one_ = [(t(s),) for s in ('a', 'ab', 'a b', 'a b c', 'ab c de', 'a b c d', ' a', 'a ', ' a b', 'a b ', ' a b c ', 'a b c d e', ' ')]
    yield 'one text', 'Static', False, one_
    flags = [(True, True), (True, False), (False, True), (False, False)]
    texts = ['a', 'b c', ' d', 'e ']
    shapes = []
    for f in flags:
        for s in ('a', 'a b', ' a', 'a ', 'a b c'):
            shapes.append((i(t(s), f=f),))
        for a, b in itertools.product(texts, texts):
            shapes += [(t(a), i(t(b), f=f)), (i(t(a), f=f), t(b)), (i(t(a), f=f), i(t(b), f=f))]
            shapes.append((i(t(a), i(t(b)), f=f),))
            shapes.append((i(i(t(a), f=f), t(b)),))
        shapes.append((i(f=f),))
        shapes.append((t('a b'), i(f=f), t('c')))
        shapes.append((i(i(i(t('a b'))), f=f),))
    for a, b, c in itertools.product(('a', 'b c', ' d') if not thorough else texts, repeat=3):
        shapes += [(t(a), i(t(b)), t(c)), (i(t(a), i(t(b)), t(c)),), (i(i(t(a)), t(b)), t(c))]
        if thorough:
            shapes += [(t(a), i(i(t(b)), t(c))), (i(t(a)), i(t(b)), i(t(c))), (i(t(a), i(t(b), i(t(c)))),)]
    yield 'boxes and texts', 'Static', False, shapes
    yield 'relatively positioned boxes', 'Relative', False, shapes if thorough else [s for k, s in enumerate(shapes) if k % 4 == 0]
    yield 'percentages', 'Static', True, shapes if thorough else [s for k, s in enumerate(shapes) if k % 5 == 0]
    o = [('abs', 'Inline'), ('abs', 'Block'), ('float',)]
    outs = []
    for x in o:
        outs += [(x,), (x, x), (t('a b'), x), (x, t('a b')), (t('a'), x, t(' b')), (i(x),), (i(t('a b'), x),), (i(x, t('a b')),), (t('a b'), i(t('c'), x, t(' d')))]
    yield 'boxes out of the flow', 'Static', False, outs


def lines():
    if not hasattr(lines, 'x'):
        lines.x = T()
    return lines.x


def one_content(items, position, percent):
    l = lines()
    out, outs = l.start(items, position, percent)
    for kind, st, v in outs:
        path_ok(l, items, position == 'Relative', percent, out, kind, st, v)
    return len(outs)


def show(items):
    return ''.join(it[2] if it[0] == 'text' else '<%s%s%s>%s</>' % ('' if it[2] else '…', it[1], '' if it[3] else '…', show(it[4])) if it[0] == 'inline' else '<%s>' % ' '.join(it[0::2])
                   for it in items)


def worker(job):
    out = []
    for position, percent, items in job:
        try:
            out.append((show(items), one_content(items, position, percent), ''))
        except Differs as e:
            out.append((show(items), 0, str(e)))
            if len([1 for o in out if o[2]]) >= 3:
                break
    return out


@check('T01', rule='on every path of the inline layout of scripted contents, the lines, and the positions, sizes and edges of everything on them, are those of CSS 2.1, 9.4.2, '
       'for the answers of the comparisons of widths on the path', trusted=('lengths are compared as rational numbers, not with the rounding of f32', 'glyphs are not narrower than zero'))
def t01(R):
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing
    l = lines()
    R.fn(l.ifc)
    where = disp(l.p, l.ifc)
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork')) as ex:
        for group, position, percent, cs in contents(R.thorough):
            cs = list(dict.fromkeys(number(c, [0]) for c in cs))
            todo = [(position, percent, c) for c in cs]
            jobs = [todo[k::64] for k in range(64) if todo[k::64]]
            bad, paths = [], 0
            for res in ex.map(worker, jobs):
                for t, n, why in res:
                    paths += n
                    if why:
                        bad.append((len(t), t, why))
            bad.sort()
            R.floor('contents: ' + group, len(cs), 10)
            R.ob('%s: %d contents, %d paths' % (group, len(cs), paths), not bad, where, '' if not bad else
                 'lines of "%s": %s (and %d others)' % (bad[0][1], bad[0][2], len(bad) - 1), group, bad[0][1] if bad else '')
