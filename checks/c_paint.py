"""Painting: from the tree of fragments to the operations on a page."""
import itertools

import engine
from common import disp
from front import AnalysisError
from report import check
from layx import Z, add, mul, neg, one, poly, say, sub, sym, tail, Numbers
from c_layout import L, vec, box_fragment


class P(L):
    def __init__(self):
        super().__init__()
        p = self.p
        self.frag = self.enum('layout::fragments::Fragment')
        self.paint_frag = self.method(self.frag, 'paint_onto')
        page = self.struct('pdf::Page')
        self.ops = {n: self.method(page, n) for n in ('set_color', 'paint_rectangle', 'show_text')}
        self.rgba = one((k for k in p.structs if tail(k) == 'RGBA' and k.startswith('primitives')), 'RGBA')
        self.doc = self.struct('dom::Document')
        self.unroll()

    def unroll(self):
        self.a.unroll = 100
        self.a.unroll_any = True

    def op(self, eng, s, fr, name, args, info):
        """an operation on the page: noted; it can be followed by another on the same page"""
        self.note(s, name, args, info)
        key = info.get('key')
        if key == self.ops['show_text']:
            self.n += 1
            good = s.fork()
            return [('ret', good, ('agg', 'adt', 'std::Result', 'Ok', (args[0],), ())), ]
        return [('ret', s, args[0])]

    def rect_at(self, n):
        V, R = 'physical::Vec2', 'physical::Rect'
        return self.mk(R, top_left=self.mk(V, x=self.length(n + '.x'), y=self.length(n + '.y')),
                       size=self.mk(V, x=self.length(n + '.w'), y=self.length(n + '.h')))

    def flow_rect(self, n):
        V, R = 'flow_relative::Vec2', 'flow_relative::Rect'
        return self.mk(R, start_corner=self.mk(V, inline=self.length(n + '.x'), block=self.length(n + '.y')),
                       size=self.mk(V, inline=self.length(n + '.w'), block=self.length(n + '.h')))

    def start(self):
        self.unstop()
        for k in self.ops.values():
            self.stop(k, self.op)
        self.stop(self.paint_frag, self.noted)
        st = engine.State()
        st.mem['h', sym('cb')] = self.rect_at('cb')
        return st

    def done(self, st):
        """operations on the page and fragments painted, in order"""
        ks = {v: k for k, v in self.ops.items()}
        ks[self.paint_frag] = 'child'
        return [(ks[e[3]['key']], e) for e in st.events() if e[0] == 'call' and e[3].get('key') in ks]


def paint():
    if not hasattr(paint, 'x'):
        paint.x = P()
    return paint.x


def finished(r, w, outs):
    for kind, st, v in outs:
        if kind != 'ret':
            r.violate('panic', w, 'can panic: %s' % (v,), key='panic: ' + w)
        elif any(e[0] in ('loop', 'star') for e in st.events()):
            raise AnalysisError('a loop over the children is not followed: ' + w)
        else:
            yield st


def corner(l, st, t):
    """the numbers of a rectangle of the page: x, y, width, height; of a physical rectangle as well"""
    if t[0] == 'agg' and t[2] == l.struct('physical::Rect'):
        return l.rect(st, t, 'physical')
    if t[0] == 'agg' and tail(t[2]).endswith('Rect') and len(t[4]) == 2:
        o, s = t[4]
        if o[0] == s[0] == 'agg':
            return list(o[4][:2]) + list(s[4][:2])
    return None


def the(l, st, e, test):
    vs = [v for v in e[3]['vals'] if v[0] == 'agg' and test(v)]
    return vs[0] if len(vs) == 1 else None


def numbers_ok(r, l, st, rule, w, what, got, want):
    if not r.ob(rule, got is not None and len(got) == len(want), w, '%s is not known' % what, key='%s: %s, %s' % (rule, what, w)):
        return
    n = Numbers(l, st)
    names = ('left edge', 'top edge', 'width', 'height') if len(got) == 4 else ('x', 'y')
    for k, g, x in zip(names, got, want):
        r.ob(rule, n.equal(g, x), w, '%s of %s is %s and not %s' % (k, what, say(poly(g)), say(poly(x))), key='%s: %s of %s, %s' % (rule, k, what, w))


def children_ok(r, l, st, w, cs, names, x, y, wd, h):
    """the children of a fragment are painted once each, in order, after its own marks, at its position"""
    got = []
    for k, e in cs:
        if k == 'child':
            got.append([n for n in names if l.refers_to(st, e[3]['vals'][0], n)])
    r.ob('children', got == [[n] for n in names], w, 'the children painted are %s, not each of %s once, in order' % (got, names), key='children: ' + w)
    for k, e in cs:
        if k == 'child':
            numbers_ok(r, l, st, 'place', w, 'what the children are painted in', corner(l, st, the(l, st, e, lambda v: v[2] == l.struct('physical::Rect'))), (x, y, wd, h))


def refers_to(l, st, ptr, n):
    """that argument is a reference to child n (a symbol)"""
    v = l.a.snapshot(st, ptr)
    while v[0] in ('cref', '&'):
        v = v[1]
    return v == sym(n) or v == ('deref', sym(n)) or v[0] == 'deref' and v[1] == sym(n)


P.refers_to = refers_to


@check('G05', rule='painting a fragment, for every kind of fragment and every number of children up to four, leads to exactly the page operations its '
       'style and place call for', trusted=('lengths are compared as rational numbers, not with the rounding of f32',
                                            'pages draw what their operations say (P05 to P08)'))
def g05(r):
    l = paint()
    n = 0
    for kids in range(5):
        names = ['child %d' % i for i in range(kids)]
        n += box(r, l, names)
        n += anonymous(r, l, names)
    n += text(r, l)
    for k in range(5):
        n += document(r, l, ['fragment %d' % i for i in range(k)])
    r.floor('paths through painting', n, 30)


def color_of(l, st, v):
    """the components of the colour passed to a page"""
    return v[4] if v is not None and len(v[4]) == 4 else None


CHANNELS = ('red', 'green', 'blue', 'alpha')


def rgba(l, n):
    """a colour with unknown components"""
    for c in CHANNELS:
        l.a.settype(sym('%s.%s' % (n, c)), ('prim', 'u8'))
    return ('agg', 'adt', 'cssparser::RGBA', None, tuple(sym('%s.%s' % (n, c)) for c in CHANNELS), ())


def with_children(l, frag, names, style=True):
    """a fragment with those children"""
    b = frag[4][0]
    sname = tail(b[2])
    vs = list(b[4])
    vs[l.idx(b[2], 'children')] = vec([sym(n) for n in names])
    if style:
        vs[l.idx(b[2], 'style')] = sym('style')
    return frag[:4] + ((b[:4] + (tuple(vs),) + b[5:],),) + frag[5:]


def box(r, l, names):
    w = 'box with %d children' % len(names)
    st = l.start()
    bg = sym('bg')
    l.style_of(st, sym('style'), extra={'background_color': bg, 'color': rgba(l, 'color')})
    st.mem['h', sym('self')] = with_children(l, box_fragment(l, 'b', False), names)
    st.mem['h', sym('cb')] = l.rect_at('cb')
    outs = l.a.entry(l.paint_frag, args=[sym('self'), sym('page'), sym('cb')], st=st)
    r.fn(disp(l.p, l.paint_frag))
    n = 0
    seen = set()
    for st in finished(r, w, outs):
        n += 1
        cs = l.done(st)
        marks = [(k, e) for k, e in cs if k != 'child']
        d = st.facts.get(('dis', bg))
        if not r.ob('currentcolor', d in (0, 1), w, 'the kind of background colour is not looked at', key='kind: ' + w):
            continue
        who = [[sym('color.' + c) for c in CHANNELS], [('fld', ('vfld', bg, 'RGBA', 0), i) for i in range(4)]][d]
        see = visible(st, who[3])
        ws = w + ', ' + ('background currentcolor', 'background a colour')[d]
        if not r.ob('alpha', see is not None, ws, 'whether the background is painted does not depend on its alpha', key='alpha: ' + ws):
            continue
        seen.add((d, see))
        want = ['set_color', 'paint_rectangle'] if see else []
        ws += ', visible' if see else ', transparent'
        if r.ob('background', [k for k, _ in marks] == want, ws, 'it does %s on the page and not %s' % ([k for k, _ in marks] or 'nothing', want or 'nothing'), key='background: ' + ws) and see:
            r.ob('order', [k for k, _ in cs][:2] == want, ws, 'children are painted before the background', key='order: ' + ws)
            color_ok(r, l, st, ws, marks[0][1], who)
            side = lambda p, s: sym('b.%s-%s' % (p, s))
            left, top = [sub(add(sym('b.' + c), sym('cb.' + c)), side('padding', s), side('border', s)) for c, s in (('x', 'left'), ('y', 'top'))]
            wd, h = [add(sym('b.' + c), *[side(p, s) for p in ('padding', 'border') for s in ss]) for c, ss in (('w', ('left', 'right')), ('h', ('top', 'bottom')))]
            rect = the(l, st, marks[1][1], lambda v: tail(v[2]).endswith('Rect'))
            numbers_ok(r, l, st, 'border box', ws, 'the rectangle painted', corner(l, st, rect) if rect else None, (left, top, wd, h))
        children_ok(r, l, st, ws, cs, names, *content('b'))
    r.ob('cases', len(seen) == 4, w, 'the cases told apart are only %s' % sorted(seen), key='cases: ' + w)
    return n


def content(b):
    return add(sym(b + '.x'), sym('cb.x')), add(sym(b + '.y'), sym('cb.y')), sym(b + '.w'), sym(b + '.h')


def visible(st, alpha):
    """whether the path is for an alpha above zero"""
    lo, hi = 0, 255
    for f, v in st.facts.items():
        if f == alpha and isinstance(v, int):
            return v > 0
        if f == ('not', alpha) and 0 in v:
            lo = max(lo, 1)
        if f[0] == 'bin' and f[1] in ('Gt', 'Ge', 'Lt', 'Le', 'Eq', 'Ne') and isinstance(v, bool):
            op, a, b = f[1:]
            if b == alpha:
                op, a, b = {'Gt': 'Lt', 'Lt': 'Gt', 'Ge': 'Le', 'Le': 'Ge'}.get(op, op), b, a
            if a != alpha or b[0] != 'c':
                continue
            if not v:
                op = {'Gt': 'Le', 'Le': 'Gt', 'Lt': 'Ge', 'Ge': 'Lt', 'Eq': 'Ne', 'Ne': 'Eq'}[op]
            c = b[1]
            if op == 'Ne' and c == 0:
                lo = max(lo, 1)
            lo, hi = {'Gt': (max(lo, c + 1), hi), 'Ge': (max(lo, c), hi), 'Lt': (lo, min(hi, c - 1)), 'Le': (lo, min(hi, c)), 'Eq': (c, c), 'Ne': (lo, hi)}[op]
    return True if lo > 0 else False if hi == 0 else None


def color_ok(r, l, st, w, e, who):
    c = color_of(l, st, the(l, st, e, lambda v: v[2] == l.rgba))
    want = [('bin', 'Div', ('cast', x, ('prim', 'f32')), ('c', 255.0, 'f32')) for x in who]
    ok = c is not None and all(poly(a) == poly(b) for a, b in zip(c, want))
    r.ob('color', ok, w, 'the colour set is not the one of the style: %s' % ([say(poly(a)) for a in c or ()],), key='color: ' + w)


def anonymous(r, l, names):
    w = 'anonymous fragment with %d children' % len(names)
    st = l.start()
    f = l.mk('AnonymousFragment', rect=l.flow_rect('b'), children=sym('?'), mode=l.ltr)
    st.mem['h', sym('self')] = with_children(l, l.var('layout::fragments::Fragment', 'Anonymous', f), names, False)
    st.mem['h', sym('cb')] = l.rect_at('cb')
    n = 0
    for st in finished(r, w, l.a.entry(l.paint_frag, args=[sym('self'), sym('page'), sym('cb')], st=st)):
        n += 1
        cs = l.done(st)
        r.ob('nothing', all(k == 'child' for k, _ in cs), w, 'it marks the page by itself', key='nothing: ' + w)
        children_ok(r, l, st, w, cs, names, *content('b'))
    return n


def text(r, l):
    w = 'text'
    st = l.start()
    seg = l.struct('ShapedSegment')
    asc = l.method(l.struct('fonts::Font'), 'ascender')
    fonts = []

    def ascender(eng, s, fr, name, args, info):
        fonts.append(eng.snapshot(s, args[0]))
        return [('ret', s, ('agg', 'adt', 'euclid::Length', None, (sym('ascender'),), ()))]
    l.stop(asc, ascender)
    l.style_of(st, sym('style'), extra={'color': rgba(l, 'color'), 'font_size': l.mk('FontSize', l.length('font-size'))})
    fs = [sym('seg.' + n) for n, _ in l.p.structs[seg]['fields']]
    sg = ('agg', 'adt', seg, None, tuple(fs), ())
    f = l.mk('TextFragment', parent_style=sym('style'), content_rect=l.flow_rect('b'), text=sg)
    st.mem['h', sym('self')] = l.var('layout::fragments::Fragment', 'Text', f)
    st.mem['h', sym('cb')] = l.rect_at('cb')
    n = 0
    for st in finished(r, w, l.a.entry(l.paint_frag, args=[sym('self'), sym('page'), sym('cb')], st=st)):
        n += 1
        cs = l.done(st)
        if not r.ob('text', [k for k, _ in cs] == ['set_color', 'show_text'], w, 'it does %s on the page' % [k for k, _ in cs], key='text: ' + w):
            continue
        color_ok(r, l, st, w, cs[0][1], [sym('color.' + c) for c in CHANNELS])
        run = the(l, st, cs[1][1], lambda v: v[2] == l.struct('primitives::TextRun'))
        if not r.ob('run', run is not None, w, 'what is shown is not known', key='run'):
            continue
        T = 'primitives::TextRun.'
        r.ob('segment', l.a.snapshot(st, l.get(st, run, T + 'segment')) == sg, w, 'the text shown is not the one of the fragment', key='segment')
        r.ob('font', all(x == sym('seg.font') or x == ('deref', sym('seg.font')) for x in fonts), w, 'the ascender is not of the font of the text: %s' % (fonts,), key='font')
        sz = l.get(st, run, T + 'font_size')
        sz = sz[4][0] if sz[0] == 'agg' else sz
        r.ob('size', poly(sz) == poly(sym('font-size')), w, 'the font size shown is %s' % say(poly(sz)), key='size')
        o = l.get(st, run, T + 'origin')
        x, y, _, _ = content('b')
        numbers_ok(r, l, st, 'baseline', w, 'the origin of the text', list(o[4][:2]) if o[0] == 'agg' else None, (x, add(y, mul(sym('font-size'), sym('ascender')))))
    r.ob('text', n > 0, w, 'no path paints text', key='no text')
    return n


def document(r, l, names):
    """all fragments of the layout are painted, on one page with the size they were laid out for"""
    w = 'document of %d fragments' % len(names)
    key = l.method(l.doc, 'to_pdf_bytes')
    lay_ = l.method(l.doc, 'layout')
    pdf = l.struct('pdf::Document')
    ks = {l.method(pdf, n): n for n in ('new', 'add_page', 'write_to_pdf_bytes')}
    l.start()
    results = {'new': sym('pdf'), 'add_page': sym('the page'), 'write_to_pdf_bytes': sym('bytes'), 'layout': vec([sym(n) for n in names])}

    def step(eng, s, fr, name, args, info):
        l.note(s, name, args, info)
        return [('ret', s, results[ks.get(info['key'], 'layout')])]
    for k in list(ks) + [lay_]:
        l.stop(k, step)
    ks[lay_] = 'layout'
    for im in l.p.impls:
        if im.for_[0] == 'path' and im.for_[1].startswith('pdf::') and im.trait and tail(im.trait) == 'Drop':
            l.stop(im.methods['drop'], l.noted)
            ks[im.methods['drop']] = 'drop'
    ks[l.paint_frag] = 'child'
    r.fn(disp(l.p, key))
    n = 0
    for kind, st, v in l.a.entry(key, args=[sym('self')], st=engine.State()):
        n += 1
        if kind != 'ret':
            r.violate('panic', w, 'can panic: %s' % (v,), key='panic: ' + w)
            continue
        kind = lambda e: 'drop' if str(e[1]).startswith('drop:pdf::') and 'Page' in e[1] else ks.get(e[3].get('key'))
        cs = [(kind(e), e) for e in st.events() if e[0] == 'call' and kind(e)]
        steps = [k for k, _ in cs]
        if not r.ob('steps', sorted(set(steps)) == sorted(['layout', 'new', 'add_page', 'drop', 'write_to_pdf_bytes'] + ['child'] * bool(names)) and
                    all(steps.count(k) == 1 for k in set(steps) - {'child'}) and steps[-1] == 'write_to_pdf_bytes' and
                    [x for x in steps if x not in ('layout', 'new')] == ['add_page'] + ['child'] * len(names) + ['drop', 'write_to_pdf_bytes'], w, 'the steps are %s' % steps, key='steps: ' + w):
            continue
        d = {k: e for k, e in cs}
        size = {}
        for k in ('layout', 'add_page'):
            vs = [x for x in d[k][3]['vals'] if x[0] == 'agg' and tail(x[2]) == 'TypedSize2D']
            size[k] = tuple(vs[0][4][:2]) if len(vs) == 1 else None
        r.ob('page', size['layout'] is not None and size['layout'] == size['add_page'], w, 'laid out for %s, page of %s' % (size['layout'], size['add_page']), key='page: ' + w)
        if size['layout'] is None:
            continue
        children_ok(r, l, st, w, cs, names, Z, Z, *size['layout'])
        r.ob('page', all(any(refers_to(l, st, a, 'the page') for a in e[2][1:2]) for k, e in cs if k == 'child'), w, 'painted onto something else than the page', key='onto: ' + w)
        r.ob('result', v == sym('bytes'), w, 'the result is not the bytes of the document', key='result: ' + w)
    return n
