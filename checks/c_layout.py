"""Layout of blocks: sizes, positions, margins; absolutely positioned boxes; painting of fragments."""
import itertools

import engine
from common import disp, sh
from front import AnalysisError
from report import check
from layx import (Lay, Numbers, Z, add, sub, mul, half, neg, fmax, fmin, sym, poly, say, padd, one, tail)

SIDES = ('top', 'left', 'bottom', 'right')
OUT = 'LengthOrPercentageOrAuto'


class L(Lay):
    def __init__(self):
        super().__init__()
        p, a = self.p, self.a
        self.block = self.method(self.enum('BlockLevelBox'), 'layout')
        self.container = self.method(self.enum('BlockContainer'), 'layout')
        self.bfc = self.method(self.struct('BlockFormattingContext'), 'layout')
        self.ifc = self.method(self.struct('InlineFormattingContext'), 'layout')
        self.independent = self.method(self.enum('layout::IndependentFormattingContext'), 'layout')
        self.abs_box = self.method(self.struct('AbsolutelyPositionedBox'), 'layout')
        self.abs_frag = self.method(self.struct('AbsolutelyPositionedFragment'), 'layout')
        self.abs_in = self.method(self.struct('AbsolutelyPositionedFragment'), 'in_positioned_containing_block')
        self.adjust = one((k for k in p.bodies if k.endswith('::adjust_static_positions')), 'adjust_static_positions')
        self.ltr = self.mode('HorizontalTb', 'Ltr')
        a.opaque_hook = self.hook
        self.stops = {}

    def mode(self, wm, dir_):
        return ('agg', 'tuple', '', None, (self.var('WritingMode', wm), self.var('Direction', dir_)), ())

    def stop(self, key, f=None):
        """calls of that function are not followed; f gives the result"""
        self.stops[key] = f
        self.a.opaque.add(key)

    def unstop(self):
        for k in self.stops:
            self.a.opaque.discard(k)
        self.stops = {}

    def hook(self, eng, s, fr, name, args, info):
        f = self.stops.get(info.get('key'))
        return f(eng, s, fr, name, args, info) if f else None

    def note(self, s, name, args, info):
        """a call that is not followed, with the values behind its arguments"""
        s.event('call', name, args, dict(info, vals=tuple(self.a.snapshot(s, a) for a in args)))

    def noted(self, eng, s, fr, name, args, info):
        self.note(s, name, args, info)
        return [('ret', s, ('c', (), '()'))]

    # ------------------------------------------------------------------ values
    def auto(self, v):
        return self.var('LengthOrAuto', 'Auto') if v is None else self.var('LengthOrAuto', 'Length', self.length(v))

    def containing(self, cbis='cbis', cbbs=None):
        return self.mk('layout::ContainingBlock', inline_size=self.length(cbis), block_size=self.auto(cbbs), mode=self.ltr)

    def margin_pair(self, pos, neg_):
        return self.mk('CollapsedMargin', max_positive=self.length(pos), min_negative=self.length(neg_))

    def flow_children(self, n='kids', through=None):
        m = self.mk('CollapsedBlockMargins', collapsed_through=sym(n + '.through') if through is None else ('c', through, 'bool'),
                    start=self.margin_pair(n + '.start+', n + '.start-'), end=self.margin_pair(n + '.end+', n + '.end-'))
        self.a.settype(sym(n + '.through'), ('prim', 'bool'))
        return self.mk('FlowChildren', fragments=sym(n), block_size=self.length(n + '.height'), collapsible_margins_in_children=m)

    def flow_children_of(self, fragments, n='kids'):
        v = self.flow_children(n)
        i = self.idx('FlowChildren', 'fragments')
        return v[:4] + (v[4][:i] + (fragments,) + v[4][i + 1:],) + v[5:]

    def viewport(self):
        """the size of a page"""
        return ('agg', 'adt', 'euclid::TypedSize2D', None, (sym('page w'), sym('page h'), ('c', (), '()')), ())

    def style_of(self, st, ptr, width='L', height='A', margins='LLLL', paddings='LLLL', borders='LLLL', offsets='AAAA',
                 position='Static', extra=None, values=None):
        """values: other numbers than the symbols, by name"""
        v = values or {}
        kw = {}
        for i, s in enumerate(SIDES):
            kw['margin_' + s] = self.lp(OUT, margins[i], v.get('margin-' + s, 'margin-' + s))
            kw['padding_' + s] = self.lp('LengthOrPercentage', paddings[i], v.get('padding-' + s, 'padding-' + s))
            kw['border_%s_width' % s] = self.mk('LineWidth', self.lp('LengthOrPercentage', borders[i], v.get('border-' + s, 'border-' + s)))
            kw[s] = self.lp(OUT, offsets[i], s)
        kw['width'] = self.lp(OUT, width, 'width')
        kw['height'] = self.lp(OUT, height, 'height')
        kw['position'] = self.var('Position', position)
        kw.update(extra or {})
        self.style(st, ptr, **kw)

    def argument(self, e, sname):
        """the value of a type among the arguments of a recorded call"""
        vs = [v for v in e[3]['vals'] if v[0] == 'agg' and v[2] == self.struct(sname)]
        return vs[0] if len(vs) == 1 else None

    def lengths(self, st, t, sname, *names):
        return [self.px(st, self.get(st, t, sname + '.' + n)) for n in names]

    def sides(self, st, t):
        return dict(zip(('start', 'end', 'top', 'bottom'), self.lengths(st, t, 'flow_relative::Sides', 'inline_start', 'inline_end', 'block_start', 'block_end')))

    def rect(self, st, t, kind='flow_relative'):
        V, R = kind + '::Vec2', kind + '::Rect'
        a, b = ('inline', 'block') if kind == 'flow_relative' else ('x', 'y')
        c0, c1 = ('start_corner', 'size') if kind == 'flow_relative' else ('top_left', 'size')
        c, s = self.get(st, t, R + '.' + c0), self.get(st, t, R + '.' + c1)
        return self.lengths(st, c, V, a, b) + self.lengths(st, s, V, a, b)

    def collapsed(self, st, t):
        """((max positive, min negative) of start, … of end, collapsed through)"""
        g = lambda n: self.lengths(st, self.get(st, t, 'CollapsedBlockMargins.' + n), 'CollapsedMargin', 'max_positive', 'min_negative')
        return g('start'), g('end'), self.get(st, t, 'CollapsedBlockMargins.collapsed_through')


def lay():
    if not hasattr(lay, 'x'):
        lay.x = L()
    lay.x.unstop()
    return lay.x


def val(kind, name, basis):
    """used value of a length or percentage"""
    if kind == 'L':
        return sym(name)
    if kind == 'P':
        return mul(basis, sym(name))
    return None


class Run:
    """one layout of a block box with given kinds of values"""

    def __init__(self, l, r, kind='same', cbbs=None, through=None, **kw):
        self.l, self.kw, self.cbbs, self.kind = l, dict(dict(width='L', height='A', margins='LLLL', paddings='LLLL', borders='LLLL',
                                                        offsets='AAAA', position='Static', values={}), **kw), cbbs, kind
        l.unstop()
        kids = l.flow_children(through=through)

        def contents(eng, s, fr, name, args, info):
            l.note(s, name, args, info)
            for a in args[2:]:
                if a[0] == 'ref' and l.a.load(s, a[1], a[2]) == ('vec0',):
                    l.a.store(s, a[1], a[2], sym('nested'))
            return [('ret', s, kids)]
        for k in (l.container, l.bfc, l.ifc, l.independent):
            l.stop(k, contents)
        l.stop(l.abs_in, l.noted)
        st = engine.State()
        l.style_of(st, sym('style'), **self.kw)
        if kind == 'same':
            box = l.var('BlockLevelBox', 'SameFormattingContextBlock', style=sym('style'), contents=sym('contents'))
        else:
            box = l.var('BlockLevelBox', 'Independent', style=sym('style'),
                        contents=l.var('layout::IndependentFormattingContext', 'Flow', sym('contents')))
        st.mem['h', sym('box')] = box
        st.mem['h', sym('cb')] = l.containing(cbbs=cbbs)
        l.a.settype(sym('float'), None)
        self.outs = l.a.entry(l.block, args=[sym('box'), sym('cb'), sym('rank'), sym('abspos'), sym('float')], st=st)
        r.fn(disp(l.p, l.block))

    def text(self):
        k = self.kw
        w = {'L': 'a length', 'P': 'a percentage', 'A': 'auto'}
        out = 'width %s, height %s, margins %s' % (w[k['width']], w[k['height']], k['margins'])
        if k['position'] != 'Static':
            out += ', %s with offsets %s' % (k['position'].lower(), k['offsets'])
        if self.kind != 'same':
            out += ', own formatting context'
        if self.cbbs is not None:
            out += ', definite height around'
        return out

    def content_calls(self, st):
        l = self.l
        return [e for e in st.events() if e[0] == 'call' and e[3].get('key') in (l.container, l.bfc, l.ifc, l.independent)]

    def v(self, prop, side):
        i = SIDES.index(side)
        return val(self.kw[prop + 's'][i], self.kw['values'].get('%s-%s' % (prop, side), '%s-%s' % (prop, side)), sym('cbis')) \
            if not isinstance(self.kw['values'].get('%s-%s' % (prop, side)), tuple) else self.kw['values']['%s-%s' % (prop, side)]


def fragment(l, r, w, outs):
    """the box fragments of the outcomes; panics are reported"""
    for kind, st, v in outs:
        if kind != 'ret':
            r.violate('panic', w, 'can panic: %s' % (v,), key='panic: ' + w)
            continue
        if v[0] != 'agg' or v[3] != 'Box':
            r.violate('fragment', w, 'no box fragment comes out', key='fragment: ' + w)
            continue
        yield st, v[4][0]


def horizontal(run):
    """(used width, margin-left, margin-right) of CSS 2.1 10.3.3 for left-to-right"""
    cbis = sym('cbis')
    pb = add(*[run.v(p, s) for p in ('padding', 'border') for s in ('left', 'right')])
    ml, mr = run.v('margin', 'left'), run.v('margin', 'right')
    w = val(run.kw['width'], 'width', cbis)
    if w is None:
        ml, mr = ml or Z, mr or Z
        return sub(cbis, pb, ml, mr), ml, mr
    rest = sub(cbis, w, pb)
    if ml is None and mr is None:
        ml = fmax(half(rest), Z)
    elif ml is None:
        ml = fmax(sub(rest, mr), Z)
    return w, ml, sub(rest, ml)


def offset(run, a, b, basis, definite=True):
    """relative positioning: the start offset wins, a percentage of an unknown height is auto"""
    def one_(side):
        i = SIDES.index(side)
        k = run.kw['offsets'][i]
        if k == 'P' and not definite:
            return None
        return val(k, side, basis)
    s, e = one_(a), one_(b)
    if run.kw['position'] != 'Relative' or s is None and e is None:
        return Z
    return s if s is not None else neg(e)


def agree(r, l, st, rule, where, what, got, want):
    n = Numbers(l, st)
    r.ob(rule, n.equal(got, want), where, '%s is %s where CSS has %s' % (what, say(poly(got)), say(poly(want))), key='%s: %s, %s' % (rule, what, where))


@check('G02', rule='the fragment of a block box, for every combination of kinds of values, has the sizes, margins and position CSS 2.1 '
       'defines as polynomials of the values', trusted=('lengths are compared as rational numbers, not with the rounding of f32',))
def g02(r):
    l = lay()
    n = 0
    jobs = []
    for w, ml, mr in itertools.product('LPA', repeat=3):
        for kind in ('same', 'own'):
            jobs.append(dict(kind=kind, width=w, margins='L%sL%s' % (ml, mr), height='L'))
            jobs.append(dict(kind=kind, width=w, margins='P%sP%s' % (ml, mr), height='L', paddings='PPPP', borders='PPPP',
                             cbbs='cbbs' if kind == 'own' else None))
    for h, cbbs, kind in itertools.product('LPA', (None, 'cbbs'), ('same', 'own')):
        jobs.append(dict(kind=kind, height=h, cbbs=cbbs))
    for o in itertools.product('LPA', repeat=2):
        for cbbs in (None, 'cbbs'):
            jobs.append(dict(height='L', position='Relative', offsets='%sA%sA' % o, cbbs=cbbs))
        jobs.append(dict(height='L', position='Relative', offsets='A%sA%s' % o))
    jobs.append(dict(height='L', position='Static', offsets='LLLL'))
    for j in jobs:
        run = Run(l, r, **j)
        w = run.text()
        any_ = False
        for st, f in fragment(l, r, w, run.outs):
            any_ = True
            n += 1
            box(r, l, run, st, f, w)
        if not any_:
            r.violate('fragment', w, 'no outcome', key='none: ' + w)
    r.floor('layouts of block boxes', n, 100)


def box(r, l, run, st, f, w):
    F = 'BoxFragment.'
    cbis = sym('cbis')
    r.ob('style', l.get(st, f, F + 'style') == sym('style'), w, 'the fragment has the style of the box', key='style: ' + w)
    r.ob('children', l.get(st, f, F + 'children') == sym('kids'), w, 'the fragment holds the fragments of the contents', key='children: ' + w)
    width, ml, mr = horizontal(run)
    got = {p: l.sides(st, l.get(st, f, F + p)) for p in ('padding', 'border', 'margin')}
    phys = {'start': 'left', 'end': 'right', 'top': 'top', 'bottom': 'bottom'}
    for p in ('padding', 'border', 'margin'):
        for k, side in phys.items():
            want = run.v(p, side)
            if p == 'margin' and k == 'start':
                want = ml
            elif p == 'margin' and k == 'end':
                want = mr
            elif want is None:
                want = Z
            agree(r, l, st, 'side', w, '%s-%s' % (p, side), got[p][k], want)
    x, y, iw, ih = l.rect(st, l.get(st, f, F + 'content_rect'))
    dx = offset(run, 'left', 'right', cbis)
    dy = offset(run, 'top', 'bottom', sym('cbbs'), run.cbbs is not None)
    agree(r, l, st, 'position', w, 'the left edge of the content', x, add(ml, run.v('border', 'left'), run.v('padding', 'left'), dx))
    agree(r, l, st, 'position', w, 'the top edge of the content, less the collapsed margins', y, add(run.v('border', 'top'), run.v('padding', 'top'), dy))
    agree(r, l, st, 'size', w, 'the width', iw, width)
    h = val(run.kw['height'], 'height', sym('cbbs'))
    if run.kw['height'] == 'P' and run.cbbs is None:
        h = None
    if h is not None:
        agree(r, l, st, 'size', w, 'the height', ih, h)
    cs = run.content_calls(st)
    if not r.ob('once', len(cs) == 1, w, 'the contents are laid out %d times' % len(cs), key='once: ' + w):
        return
    cb = l.argument(cs[0], 'layout::ContainingBlock')
    if not r.ob('inside', cb is not None, w, 'the containing block for the contents is known', key='inside: ' + w):
        return
    C = 'layout::ContainingBlock.'
    agree(r, l, st, 'inside', w, 'the width for the contents', l.px(st, l.get(st, cb, C + 'inline_size')), width)
    bs = l.get(st, cb, C + 'block_size')
    if h is None:
        r.ob('inside', l.variant_of(st, bs, 'LengthOrAuto') == 'Auto', w, 'the height for the contents is not known before', key='inside height: ' + w)
    elif r.ob('inside', l.variant_of(st, bs, 'LengthOrAuto') == 'Length', w, 'the height for the contents is definite', key='inside definite: ' + w):
        agree(r, l, st, 'inside', w, 'the height for the contents', l.px(st, l.get(st, bs, 'Length.0')), h)
    r.ob('inside', l.get(st, cb, C + 'mode') == l.ltr, w, 'the writing mode for the contents is the style\'s', key='inside mode: ' + w)


# ---------------------------------------------------------------------- margins of blocks
def adjoin(pairs):
    """(largest positive, smallest negative) of adjoining margins"""
    p, n = Z, Z
    for a, b in pairs:
        p, n = fmax(p, a), fmin(n, b)
    return p, n


def solved(pairs):
    p, n = adjoin(pairs)
    return add(p, n)


def own(m):
    return (fmax(m, Z), fmin(m, Z))


def pairs_ok(r, l, st, rule, where, what, got, want, given=()):
    """margins are the same if they solve the same together with any other: same largest, same smallest (beside zero)"""
    n = Numbers(l, st, given)
    p, m = adjoin(want)
    ok = n.equal(fmax(got[0], Z), p) and n.equal(fmin(got[1], Z), m)
    r.ob(rule, ok, where, '%s: %s and %s where CSS has %s and %s' % (what, say(poly(got[0])), say(poly(got[1])), say(poly(p)), say(poly(m))),
         key='%s: %s, %s' % (rule, what, where))


def signs(*names):
    """the positive margins are not negative, the negative ones not positive"""
    out = []
    for n in names:
        for e in ('start', 'end'):
            out.append((poly(sym('%s.%s+' % (n, e))), '>='))
            out.append((poly(sym('%s.%s-' % (n, e))), '<='))
    return out


def outer(n):
    return {e: (sym('%s.%s+' % (n, e)), sym('%s.%s-' % (n, e))) for e in ('start', 'end')}


def vec(xs):
    v = ('vec0',)
    for x in xs:
        v = ('vpush', v, x)
    return v


def unvec(v):
    out = []
    while v[0] == 'vpush':
        out.append(v[2])
        v = v[1]
    return out[::-1] if v == ('vec0',) else None


NO = ('agg', 'adt', 'std::Option', 'None', (), ())


def some(x):
    return ('agg', 'adt', 'std::Option', 'Some', (x,), ())


def box_fragment(l, n, through):
    """Fragment::Box number n of a block, with its margins, at its own position 'n.y' before it is placed"""
    V, R, S = 'flow_relative::Vec2', 'flow_relative::Rect', 'flow_relative::Sides'
    rect = l.mk(R, start_corner=l.mk(V, inline=l.length(n + '.x'), block=l.length(n + '.y')),
                size=l.mk(V, inline=l.length(n + '.w'), block=l.length(n + '.h')))
    side = lambda p: l.mk(S, inline_start=l.length('%s.%s-left' % (n, p)), inline_end=l.length('%s.%s-right' % (n, p)),
                          block_start=l.length('%s.%s-top' % (n, p)), block_end=l.length('%s.%s-bottom' % (n, p)))
    m = l.mk('CollapsedBlockMargins', collapsed_through=('c', through, 'bool'), start=l.margin_pair(n + '.start+', n + '.start-'),
             end=l.margin_pair(n + '.end+', n + '.end-'))
    b = l.mk('BoxFragment', style=sym(n + '.style'), children=sym(n + '.children'), content_rect=rect, padding=side('padding'),
             border=side('border'), margin=side('margin'), block_margins_collapsed_with_children=m)
    return l.var('layout::fragments::Fragment', 'Box', b)


def blank_fragment(l, n):
    """an out-of-flow box leaves an empty anonymous fragment"""
    V, R = 'flow_relative::Vec2', 'flow_relative::Rect'
    rect = l.mk(R, start_corner=l.mk(V, inline=l.length(n + '.x'), block=l.length(n + '.y')), size=l.mk(V, inline=l.length(Z), block=l.length(Z)))
    return l.var('layout::fragments::Fragment', 'Anonymous', l.mk('AnonymousFragment', rect=rect, children=('vec0',), mode=l.ltr))


KINDS = 'bt-'       # a box, a box collapsed through, nothing in the flow


def place(l, kinds, flag, floats, split, abspos=()):
    """lay out block-level boxes of those kinds; the outcomes and the calls"""
    l.unstop()
    a = l.a
    st = engine.State()
    names = [chr(ord('A') + i) for i in range(len(kinds))]

    def one_box(eng, s, fr, name, args, info):
        l.note(s, name, args, info)
        n = one((n for n in names if refers(l, s, args[0], sym('box ' + n))), 'box that is laid out')
        k = kinds[names.index(n)]
        for x in abspos:
            if x == n:
                d = args[3]
                b, pr = a.deref_loc(s, d)
                a.store(s, b, pr, ('vpush', a.load(s, b, pr), sym('abspos of ' + n)))
        return [('ret', s, blank_fragment(l, n) if k == '-' else box_fragment(l, n, k == 't'))]
    l.stop(l.block, one_box)
    l.stop(l.adjust, l.noted)
    st.mem['h', sym('self')] = l.var('BlockContainer', 'BlockLevelBoxes', vec([sym('box ' + n) for n in names]))
    st.mem['h', sym('cb')] = l.containing()
    st.mem['h', sym('abspos')] = ('vpush', ('vec0',), sym('abspos before'))
    st.mem['h', sym('floats')] = l.mk('FloatContext')
    a.par_split = split
    old = a.unroll, a.unroll_any
    a.unroll, a.unroll_any = 100, True
    try:
        outs = a.entry(l.container, args=[sym('self'), sym('cb'), sym('rank'), sym('abspos'), some(sym('floats')) if floats else NO,
                                          l.mk('CollapsibleWithParentStartMargin', ('c', flag, 'bool'))], st=st)
    finally:
        a.unroll, a.unroll_any = old
        a.par_split = False
    return names, outs


def refers(l, st, t, target):
    """a pointer to, or the Arc at, that value"""
    while t != target:
        if t[0] == 'ref':
            t2 = l.a.load(st, t[1], t[2])
            if t2 == t:
                return False
            t = t2
        elif t[0] in ('cref', '&'):
            t = t[1]
        elif t[0] == 'deref':
            t = t[1]
        else:
            return False
    return True


def flow(kinds, names, flag):
    """CSS 2.1 8.3.1: positions of the border boxes' tops, the end of the content, the margins at its start and end"""
    y, adj, start, at_start = Z, [], [], flag
    tops = []
    for k, n in zip(kinds, names):
        if k == '-':
            tops.append(None)
            continue
        m = outer(n)
        size = add(*[sym('%s.%s' % (n, x)) for x in ('padding-top', 'padding-bottom', 'border-top', 'border-bottom', 'h')])
        if at_start:
            start.append(m['start'])
        else:
            adj.append(m['start'])
        tops.append(y if at_start else add(y, solved(adj)))
        if k == 't':
            (start if at_start else adj).append(m['end'])
        else:
            y, adj, at_start = add(tops[-1], size), [m['end']], False
    return tops, y, start, adj, at_start


@check('G04', rule='the places, sizes and margins that come out of laying out a list of block-level boxes, and the margins and height of a '
       'block, are the polynomials CSS 2.1 8.3.1 gives', trusted=('lengths are compared as rational numbers, not with the rounding of f32',))
def g04(r):
    l = lay()
    placing(r, l)
    blocks(r, l)
    roots(r, l)


def placing(r, l):
    n = 0
    most = 4 if r.thorough else 3
    for count in range(most + 1):
        for kinds in itertools.product(KINDS, repeat=count):
            for flag, (floats, split) in itertools.product((False, True), ((False, False), (False, True), (True, False))):
                if (floats or split) and count > 2:
                    continue
                w = 'blocks %s%s%s' % (''.join(kinds) or 'none', ', margins join the parent\'s' if flag else '', ', floats' if floats else ', split' if split else '')
                names, outs = place(l, kinds, flag, floats, split)
                rets = [o for o in outs if o[0] == 'ret']
                for o in outs:
                    if o[0] != 'ret':
                        r.violate('panic', w, 'can panic: %s' % (sh(o[2]),), key='panic: ' + w)
                if not rets:
                    r.violate('none', w, 'nothing comes out', key='none: ' + w)
                for _, st, v in rets:
                    n += 1
                    placed(r, l, st, v, kinds, names, flag, w)
    r.fn(disp(l.p, l.container))
    r.floor('lists of blocks', n, 100)


def children_of(l, st, v):
    return unvec(l.a.load(st, *v[1:3]) if v[0] == 'ref' else v)


def placed(r, l, st, v, kinds, names, flag, w):
    tops, y, start, end, through = flow(kinds, names, flag)
    given = signs(*names)
    fs = children_of(l, st, l.get(st, v, 'FlowChildren.fragments'))
    if not r.ob('all', fs is not None and len(fs) == len(kinds), w, 'one fragment for each box, in order', key='all: ' + w):
        return
    for i, (k, n, f) in enumerate(zip(kinds, names, fs)):
        ww = '%s, number %d' % (w, i + 1)
        if k == '-':
            r.ob('order', f[0] == 'agg' and f[3] == 'Anonymous', ww, 'the fragment of an out-of-flow box stays in its place', key='order: ' + ww)
            x, by, _, _ = l.rect(st, l.get(st, f, 'Anonymous.0', 'AnonymousFragment.rect'))
            num(r, l, st, 'static', ww, 'where an out-of-flow box would start', by, add(sym(n + '.y'), bottom(kinds, names, i, flag)), given)
            continue
        if not r.ob('order', f[0] == 'agg' and f[3] == 'Box' and l.get(st, f, 'Box.0', 'BoxFragment.style') == sym(n + '.style'), ww,
                    'the fragment of the box', key='order: ' + ww):
            continue
        rect = l.rect(st, l.get(st, f, 'Box.0', 'BoxFragment.content_rect'))
        num(r, l, st, 'place', ww, 'the top', rect[1], add(sym(n + '.y'), tops[i]), given)
        for j, x in ((0, 'x'), (2, 'w'), (3, 'h')):
            r.ob('kept', rect[j] == sym('%s.%s' % (n, x)), ww, 'placing does not change %s' % x, key='kept: %s %s' % (x, ww))
    num(r, l, st, 'height', w, 'the height of the contents', l.px(st, l.get(st, v, 'FlowChildren.block_size')), y, given)
    s, e, t = l.collapsed(st, l.get(st, v, 'FlowChildren.collapsible_margins_in_children'))
    pairs_ok(r, l, st, 'margins', w, 'the margin at the start', s, start, given)
    pairs_ok(r, l, st, 'margins', w, 'the margin at the end', e, end, given)
    r.ob('through', truth(l, st, t) == through, w, 'the margins of the parent %s through the contents' % ('meet' if through else 'do not meet'), key='through: ' + w)


def bottom(kinds, names, i, flag):
    """the end of the last box with a height before number i"""
    return flow(kinds[:i], names[:i], flag)[1]


def truth(l, st, t):
    t = l.a.fold(st, t)
    if t[0] == 'c':
        return bool(t[1])
    return st.facts.get(t)


def num(r, l, st, rule, where, what, got, want, given=()):
    n = Numbers(l, st, given)
    r.ob(rule, n.equal(got, want), where, '%s is %s where CSS has %s' % (what, say(poly(got)), say(poly(want))), key='%s: %s, %s' % (rule, what, where))


def blocks(r, l):
    """margins and height of one block with given margins in its contents"""
    n = 0
    c = lambda x: ('c', float(x), 'f32')
    for kind, through in itertools.product(('same', 'own'), (False, True)):
        for pt, bt, pb, bb in ((0, 0, 0, 0), (5, 0, 0, 0), (0, 6, 0, 0), (0, 0, 7, 0), (0, 0, 0, 8), (5, 0, 7, 0), (0, 6, 0, 8)):
            for h, cbbs, mt in (('A', None, 'L'), ('L', None, 'L'), ('P', None, 'L'), ('P', 'cbbs', 'L'), ('A', 'cbbs', 'A')):
                values = {'padding-top': c(pt), 'border-top': c(bt), 'padding-bottom': c(pb), 'border-bottom': c(bb)}
                run = Run(l, r, kind=kind, cbbs=cbbs, through=through, height=h, values=values, margins='%sL%sL' % (mt, mt))
                w = '%s, padding and border %s above, %s below, contents with margins%s' % (
                    run.text(), pt or bt, pb or bb, ' that meet' if through else '')
                for st, f in fragment(l, r, w, run.outs):
                    n += 1
                    block(r, l, run, st, f, through, (pt, bt, pb, bb), w)
    r.floor('blocks with margins', n, 100)


def block(r, l, run, st, f, through, edges, w):
    auto = run.kw['height'] == 'A' or run.kw['height'] == 'P' and run.cbbs is None
    first = run.kind == 'same' and not edges[0] and not edges[1]
    last = run.kind == 'same' and not edges[2] and not edges[3] and auto
    kids = outer('kids')
    mt, mb = (Z, Z) if run.kw['margins'][0] == 'A' else (sym('margin-top'), sym('margin-bottom'))
    start, end = [own(mt)], [own(mb)]
    rest = kids['end']
    if first:
        start.append(kids['start'])
        if through:
            start.append(rest)
            rest = None
    if last and rest:
        end.append(rest)
        rest = None
    given = signs('kids')
    s, e, t = l.collapsed(st, l.get(st, f, 'BoxFragment.block_margins_collapsed_with_children'))
    all_ = first and last and through
    r.ob('through', truth(l, st, t) == all_, w, 'the margins of the block %s' % ('meet' if all_ else 'do not meet'), key='through: ' + w)
    if all_:
        # one set of margins: whichever end each is at, those around see all of them
        both = lambda x, y: (fmax(x[0], y[0]), fmin(x[1], y[1]))
        pairs_ok(r, l, st, 'margins', w, 'the margin of the block', both(s, e), start + end, given)
    else:
        pairs_ok(r, l, st, 'margins', w, 'the margin above', s, start, given)
        pairs_ok(r, l, st, 'margins', w, 'the margin below', e, end, given)
    if auto:
        size = l.rect(st, l.get(st, f, 'BoxFragment.content_rect'))[3]
        want = sym('kids.height')
        num(r, l, st, 'height', w, 'the height', size, add(want, rest[0], rest[1]) if rest else want, given)
    cs = run.content_calls(st)
    if run.kind == 'same' and r.ob('told', len(cs) == 1, w, 'the contents are laid out once', key='told: ' + w):
        flags = [v for v in cs[0][3]['vals'] if v[0] == 'agg' and v[2] == l.struct('CollapsibleWithParentStartMargin')]
        if r.ob('told', len(flags) == 1, w, 'the contents are told whether their margins join', key='told: ' + w):
            r.ob('told', truth(l, st, flags[0][4][0]) == first, w, 'margins in the contents %s the block\'s' % ('join' if first else 'do not join'), key='told which: ' + w)


def roots(r, l):
    """a block formatting context keeps the margins in it, and has its contents' height with the last margin"""
    for floats in (False, True):
        l.unstop()
        kids = l.flow_children()

        def contents(eng, s, fr, name, args, info):
            l.note(s, name, args, info)
            return [('ret', s, kids)]
        l.stop(l.container, contents)
        st = engine.State()
        st.mem['h', sym('self')] = l.mk('BlockFormattingContext', contents=sym('contents'), contains_floats=('c', floats, 'bool'))
        st.mem['h', sym('cb')] = l.containing()
        w = 'a block formatting context%s' % (' with floats' if floats else '')
        r.fn(disp(l.p, l.bfc))
        for k, s, v in l.a.entry(l.bfc, args=[sym('self'), sym('cb'), sym('rank'), sym('abspos')], st=st):
            if not r.ob('panic', k == 'ret', w, 'can panic', key='panic: ' + w):
                continue
            given = signs('kids')
            num(r, l, s, 'height', w, 'the height', l.px(s, l.get(s, v, 'FlowChildren.block_size')),
                add(sym('kids.height'), *outer('kids')['end']), given)
            _, e, t = l.collapsed(s, l.get(s, v, 'FlowChildren.collapsible_margins_in_children'))
            pairs_ok(r, l, s, 'margins', w, 'the margin at the end', e, [], given)
            r.ob('through', truth(l, s, t) is False, w, 'margins do not meet through it', key='through: ' + w)
            cs = [e for e in s.events() if e[0] == 'call' and e[3].get('key') == l.container]
            if r.ob('told', len(cs) == 1, w, 'the contents are laid out once', key='told: ' + w):
                flags = [x for x in cs[0][3]['vals'] if x[0] == 'agg' and x[2] == l.struct('CollapsibleWithParentStartMargin')]
                r.ob('told', len(flags) == 1 and truth(l, s, flags[0][4][0]) is False, w, 'margins in the contents stay in it', key='told which: ' + w)
                r.ob('contents', l.get(s, v, 'FlowChildren.fragments') == sym('kids'), w, 'the fragments are those of the contents', key='contents: ' + w)
