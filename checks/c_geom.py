"""Geometry: writing modes, rectangles and sides, lengths and percentages, and the parts of a style that give them."""
import itertools

import engine
from common import disp
from report import check
from layx import Z, Numbers, add, fmax, fmin, mul, neg, one, poly, say, sub, sym, tail
from c_layout import L, lay, val

MODES = ('HorizontalTb', 'VerticalRl', 'VerticalLr', 'SidewaysRl', 'SidewaysLr')
DIRS = ('Ltr', 'Rtl')
FLOW = ('inline_start', 'inline_end', 'block_start', 'block_end')
PHYS = ('left', 'right', 'top', 'bottom')


def sides_of(mode, dir_):
    """CSS Writing Modes 3, 6.4: the physical sides that are inline-start, inline-end, block-start, block-end"""
    block = {'HorizontalTb': ('top', 'bottom'), 'VerticalRl': ('right', 'left'), 'SidewaysRl': ('right', 'left'),
             'VerticalLr': ('left', 'right'), 'SidewaysLr': ('left', 'right')}[mode]
    line = ('left', 'right') if mode == 'HorizontalTb' else ('bottom', 'top') if mode == 'SidewaysLr' else ('top', 'bottom')
    return (line if dir_ == 'Ltr' else line[::-1]) + block


class G:
    def __init__(self, r, l):
        self.r, self.l, self.n = r, l, 0
        self.len_ = ('path', l.len_ty(), ())

    def impls(self, ty, name, trait=None, arg=None):
        """the bodies of methods of that name for a type; arg: a test of the first generic argument"""
        out = []
        for im in self.l.p.impls:
            f = im.for_
            while f[0] == 'ref':
                f = f[2]
            if f[0] != 'path' or f[1] != ty or name not in im.methods:
                continue
            if bool(trait) != bool(im.trait) or trait and tail(im.trait) != trait:
                continue
            if arg and not arg(f):
                continue
            out.append((im.methods[name], f))
        return out

    def call(self, w, key, args, mem=(), for_=None):
        """the outcomes of a function, generic ones for lengths; only returns"""
        l = self.l
        st = engine.State()
        for k, v in mem:
            st.mem['h', sym(k)] = v
        genv = {'T': self.len_, 'U': self.len_}
        outs = l.a.entry(key, args=args, genv=genv, st=st)
        self.r.fn(disp(l.p, key))
        self.n += 1
        good = []
        for kind, s, v in outs:
            if kind == 'ret':
                good.append((s, v))
            else:
                self.r.violate('panic', w, 'can panic: %s' % (v,), key='panic: ' + w)
        if not good:
            self.r.violate('result', w, 'no outcome', key='none: ' + w)
        return good

    def number(self, w, what, st, got, want):
        ok = Numbers(self.l, st).equal(got, want)
        self.r.ob('number', ok, w, '%s is %s and not %s' % (what, say(poly(got)), say(poly(want))), key='number: %s, %s' % (w, what))

    def length(self, w, outs, want):
        for st, v in outs:
            self.number(w, 'it', st, self.l.px(st, v), want)

    def parts(self, w, st, v, sname, want):
        """the fields of a struct of lengths"""
        for n, x in want.items():
            self.number(w, n, st, self.l.px(st, self.l.get(st, v, '%s.%s' % (sname, n))), x)

    def same(self, w, st, v, sname, want):
        """the fields of a struct of any values"""
        for n, x in want.items():
            got = self.l.get(st, v, '%s.%s' % (sname, n))
            self.r.ob('side', got == x, w, '%s is %s and not %s' % (n, show(got), show(x)), key='side: %s, %s' % (w, n))


def show(t):
    while t[0] == 'agg' and len(t[4]) == 1:
        t = t[4][0]
    return t[1] if t[0] == 's' else str(t)[:60]


@check('G01', rule='conversions between physical and flow-relative coordinates, for every writing mode and direction, and the arithmetic of lengths, '
       'sides and rectangles, give the values CSS defines, as polynomials of their inputs',
       trusted=('lengths are compared as rational numbers, not with the rounding of f32',))
def g01(r):
    l = lay()
    g = G(r, l)
    modes(g)
    sides(g)
    rects(g)
    lengths(g)
    percentages(g)
    styles(g)
    r.floor('functions analysed', g.n, 60)


def modes(g):
    """corresponding sides and axes"""
    l = g.l
    to_flow = l.method(l.struct('physical::Sides'), 'to_flow_relative')
    size = l.method(l.struct('physical::Vec2'), 'size_to_flow_relative')
    back = l.method(l.struct('flow_relative::Vec2'), 'size_to_physical')
    for m, d in itertools.product(MODES, DIRS):
        mode = l.mode(m, d)
        w = '%s %s' % (m, d)
        s = l.mk('physical::Sides', **{n: l.length(n) for n in PHYS})
        for st, v in g.call(w, to_flow, [sym('self'), mode], [('self', s)]):
            g.parts('sides in ' + w, st, v, 'flow_relative::Sides', dict(zip(FLOW, map(sym, sides_of(m, d)))))
        a = ('x', 'y') if m == 'HorizontalTb' else ('y', 'x')
        v2 = l.mk('physical::Vec2', x=l.length('x'), y=l.length('y'))
        for st, v in g.call(w, size, [sym('self'), mode], [('self', v2)]):
            g.parts('size in ' + w, st, v, 'flow_relative::Vec2', dict(zip(('inline', 'block'), map(sym, a))))
        f2 = l.mk('flow_relative::Vec2', inline=l.length('i'), block=l.length('b'))
        a = ('i', 'b') if m == 'HorizontalTb' else ('b', 'i')
        for st, v in g.call(w, back, [sym('self'), mode], [('self', f2)]):
            g.parts('size from ' + w, st, v, 'physical::Vec2', dict(zip(('x', 'y'), map(sym, a))))


def flow_sides(l, n=''):
    return l.mk('flow_relative::Sides', **{s: l.length(n + s) for s in FLOW})


def flow_rect(l, n=''):
    V = 'flow_relative::Vec2'
    return l.mk('flow_relative::Rect', start_corner=l.mk(V, inline=l.length(n + 'i'), block=l.length(n + 'b')),
                size=l.mk(V, inline=l.length(n + 'w'), block=l.length(n + 'h')))


def sides(g):
    l, r = g.l, g.r
    S = l.struct('flow_relative::Sides')
    for name, want in (('inline_sum', ('inline_start', 'inline_end')), ('block_sum', ('block_start', 'block_end'))):
        g.length(name, g.call(name, l.method(S, name), [sym('self')], [('self', flow_sides(l))]), add(*map(sym, want)))
    for st, v in g.call('start_corner', l.method(S, 'start_corner'), [sym('self')], [('self', flow_sides(l))]):
        g.parts('start_corner', st, v, 'flow_relative::Vec2', dict(inline=sym('inline_start'), block=sym('block_start')))
    for key, _ in g.impls(S, 'add', 'Add'):
        for st, v in g.call('Sides + Sides', key, [sym('a'), sym('b')], [('a', flow_sides(l, 'a.')), ('b', flow_sides(l, 'b.'))]):
            g.parts('Sides + Sides', st, v, 'flow_relative::Sides', {s: add(sym('a.' + s), sym('b.' + s)) for s in FLOW})
    for kind, (f2, x, y) in {'flow_relative::Vec2': ('flow', 'inline', 'block'), 'physical::Vec2': ('physical', 'x', 'y')}.items():
        mk = lambda n: l.mk(kind, **{x: l.length(n + x), y: l.length(n + y)})
        want = {c: add(sym('a.' + c), sym('b.' + c)) for c in (x, y)}
        for key, _ in g.impls(l.struct(kind), 'add', 'Add'):
            for st, v in g.call(kind + ' + ', key, [sym('a'), sym('b')], [('a', mk('a.')), ('b', mk('b.'))]):
                g.parts(f2 + ' point + point', st, v, kind, want)
        for key, _ in g.impls(l.struct(kind), 'add_assign', 'AddAssign'):
            for st, v in g.call(kind + ' +=', key, [sym('a'), sym('b')], [('a', mk('a.')), ('b', mk('b.'))]):
                g.parts(f2 + ' point += point', st, st.mem['h', sym('a')], kind, want)
    for sname in ('flow_relative::Sides', 'flow_relative::Vec2', 'flow_relative::Rect'):
        for key, _ in g.impls(l.struct(sname), 'zero'):
            for st, v in g.call(sname + '::zero', key, []):
                leaves = []
                flat(l, v, leaves)
                r.ob('zero', len(leaves) == (2 if sname.endswith('Vec2') else 4) and all(poly(x) == {} for x in leaves), sname + '::zero', 'is not zero: %s' % (leaves,), key='zero: ' + sname)


def flat(l, v, out):
    if v[0] == 'agg':
        for x in v[4]:
            flat(l, x, out)
    else:
        out.append(v)


def rects(g):
    l = g.l
    R = l.struct('flow_relative::Rect')
    for st, v in g.call('inflate', l.method(R, 'inflate'), [sym('self'), sym('s')], [('self', flow_rect(l)), ('s', flow_sides(l))]):
        for got, (what, want) in zip(l.rect(st, v), (
                ('inline start', sub(sym('i'), sym('inline_start'))), ('block start', sub(sym('b'), sym('block_start'))),
                ('inline size', add(sym('w'), sym('inline_start'), sym('inline_end'))), ('block size', add(sym('h'), sym('block_start'), sym('block_end'))))):
            g.number('inflate', what, st, got, want)
    V, PR = 'physical::Vec2', 'physical::Rect'
    prect = l.mk(PR, top_left=l.mk(V, x=l.length('px'), y=l.length('py')), size=l.mk(V, x=l.length('pw'), y=l.length('ph')))
    for st, v in g.call('to_physical', l.method(R, 'to_physical'), [sym('self'), l.ltr, sym('cb')], [('self', flow_rect(l)), ('cb', prect)]):
        for got, (what, want) in zip(l.rect(st, v, 'physical'), (('left', 'i'), ('top', 'b'), ('width', 'w'), ('height', 'h'))):
            g.number('to_physical', what, st, got, sym(want))
    for st, v in g.call('translate', l.method(l.struct(PR), 'translate'), [sym('self'), sym('by')], [('self', prect), ('by', l.mk(V, x=l.length('x'), y=l.length('y')))]):
        for got, (what, want) in zip(l.rect(st, v, 'physical'), (('left', add(sym('px'), sym('x'))), ('top', add(sym('py'), sym('y'))), ('width', sym('pw')), ('height', sym('ph')))):
            g.number('translate', what, st, got, want)
    for im in l.p.impls:
        if im.trait and tail(im.trait) == 'From' and im.for_[0] == 'path' and im.for_[1] in ('euclid::TypedPoint2D', 'euclid::TypedRect', 'primitives::Point', 'primitives::Rect') and 'from' in im.methods \
                and im.methods['from'].startswith('geom::'):
            point = 'Point' in im.for_[1]
            a = l.get(None, prect, PR + '.top_left') if point else prect
            w = 'to %s' % tail(im.for_[1])
            for st, v in g.call(w, im.methods['from'], [a]):
                leaves = []
                flat(l, v, leaves)
                leaves = [x for x in leaves if x != ('c', (), '()')]
                want = ['px', 'py'] + ([] if point else ['pw', 'ph'])
                g.r.ob('coordinates', len(leaves) == len(want) and all(poly(x) == poly(sym(y)) for x, y in zip(leaves, want)), w,
                       'the coordinates become %s' % [say(poly(x)) for x in leaves], key='coordinates: ' + w)


def lengths(g):
    l = g.l
    T = l.len_ty()
    a, b = sym('a'), sym('b')
    f = lambda *xs: [l.length(x) for x in xs]
    g.length('Length::zero', g.call('Length::zero', l.method(T, 'zero'), []), Z)
    g.length('Length::max', g.call('Length::max', l.method(T, 'max'), f('a', 'b')), fmax(a, b))
    g.length('Length::min', g.call('Length::min', l.method(T, 'min'), f('a', 'b')), fmin(a, b))
    for st, v in g.call('Length::max_assign', l.method(T, 'max_assign'), [sym('self')] + f('b'), [('self', l.length('a'))]):
        g.number('Length::max_assign', 'it', st, l.px(st, st.mem['h', sym('self')]), fmax(a, b))
    for name, trait, want in (('neg', 'Neg', neg(a)), ('add', 'Add', add(a, b)), ('sub', 'Sub', sub(a, b))):
        for key, _ in g.impls(T, name, trait):
            g.length('Length %s' % trait, g.call(trait, key, f('a', 'b')[:1 if name == 'neg' else 2]), want)
    for name, trait, want in (('add_assign', 'AddAssign', add(a, b)), ('sub_assign', 'SubAssign', sub(a, b))):
        for key, _ in g.impls(T, name, trait):
            for st, v in g.call(trait, key, [sym('self')] + f('b'), [('self', l.length('a'))]):
                g.number('Length %s' % trait, 'it', st, l.px(st, st.mem['h', sym('self')]), want)
    for im in l.p.impls:
        if im.for_ == g.len_ and im.trait and tail(im.trait) in ('Mul', 'Div'):
            name = tail(im.trait).lower()
            key = im.methods[name]
            pct = 'Percentage' in str(im.traitargs)
            arg = l.pct('p') if pct else l.mk('FontSize', l.length('p')) if 'FontSize' in str(im.traitargs) else sym('p')
            want = mul(a, sym('p')) if name == 'mul' else ('bin', 'Div', a, sym('p'))
            w = 'Length %s %s' % (tail(im.trait), 'percentage' if pct else 'font size' if arg != sym('p') else 'number')
            g.length(w, g.call(w, key, [l.length('a'), arg]), want)
    for im in l.p.impls:
        if im.for_[0] == 'path' and im.for_[1] == l.struct('FontSize') and im.trait and tail(im.trait) == 'Mul':
            em = ('agg', 'adt', 'euclid::Length', None, (sym('p'),), ())
            g.length('font size times em', g.call('font size', im.methods['mul'], [l.mk('FontSize', l.length('a')), em]), mul(a, sym('p')))
    pt = one((im.methods['from'] for im in l.p.impls if im.trait and tail(im.trait) == 'From' and im.for_[0] == 'path' and im.for_[1] in ('euclid::Length',)
              and 'from' in im.methods and im.methods['from'].startswith('style::')), 'conversion of Length')
    for st, v in g.call('Length to px', pt, f('a')):
        leaves = []
        flat(l, v, leaves)
        g.r.ob('coordinates', len(leaves) == 1 and poly(leaves[0]) == poly(a), 'Length to px', 'the number is %s' % (leaves,), key='px')


def percentages(g):
    """lengths and percentages of every kind, alone and as sides"""
    l, r = g.l, g.r
    basis = sym('basis')
    S = l.struct('flow_relative::Sides')
    OUT, LP = 'LengthOrPercentageOrAuto', 'LengthOrPercentage'
    for k in 'LP':
        for st, v in g.call(LP, l.method(l.enum(LP), 'percentage_relative_to'), [sym('self'), l.length('basis')], [('self', l.lp(LP, k, 'x'))]):
            g.number('%s of kind %s' % (LP, k), 'it', st, l.px(st, v), val(k, 'x', basis))
    for k in 'LPA':
        for st, v in g.call(OUT, l.method(l.enum(OUT), 'percentage_relative_to'), [sym('self'), l.length('basis')], [('self', l.lp(OUT, k, 'x'))]):
            or_auto(g, '%s of kind %s' % (OUT, k), 'it', st, v, val(k, 'x', basis))
        for st, v in g.call(OUT, l.method(l.enum(OUT), 'non_auto'), [sym('self')], [('self', l.lp(OUT, k, 'x'))]):
            w = 'non_auto of kind ' + k
            if k == 'A':
                r.ob('kind', v[0] == 'agg' and v[3] == 'None', w, 'auto becomes %s' % show(v), key='kind: ' + w)
            else:
                r.ob('kind', v[0] == 'agg' and v[3] == 'Some' and v[4][0] == l.lp(LP, k, 'x'), w, 'it becomes %s' % str(v)[:80], key='kind: ' + w)
    for im in l.p.impls:
        if im.trait and tail(im.trait) == 'From' and im.for_[0] == 'path' and im.for_[1] == l.enum(OUT) and LP in str(im.traitargs):
            for k in 'LP':
                for st, v in g.call('from', im.methods['from'], [l.lp(LP, k, 'x')]):
                    r.ob('kind', v == l.lp(OUT, k, 'x'), 'LengthOrPercentage as …OrAuto', 'kind %s becomes %s' % (k, str(v)[:80]), key='kind: from ' + k)
    A = 'LengthOrAuto'
    for kinds in itertools.product('LPA', repeat=4):
        w = 'sides of kinds ' + ''.join(kinds)
        mem = lambda e: [('self', l.mk('flow_relative::Sides', **{s: l.lp(e, k, s) for s, k in zip(FLOW, kinds)}))]
        for key, f in g.impls(S, 'percentages_relative_to'):
            e = f[2][0][1]
            if e == l.enum(LP) and 'A' in kinds:
                continue
            for st, v in g.call(w, key, [sym('self'), l.length('basis')], mem(tail(e))):
                for s, k in zip(FLOW, kinds):
                    x = l.get(st, v, 'flow_relative::Sides.' + s)
                    if e == l.enum(LP):
                        g.number(w, s, st, l.px(st, x), val(k, s, basis))
                    else:
                        or_auto(g, w, s, st, x, val(k, s, basis))


def or_auto(g, w, what, st, v, want):
    kind = g.l.variant_of(st, v, 'LengthOrAuto')
    if g.r.ob('kind', kind == ('Auto' if want is None else 'Length'), w, '%s is %s' % (what, kind), key='kind: %s, %s' % (w, what)) and want is not None:
        g.number(w, what, st, g.l.px(st, g.l.get(st, v, 'Length.0')), want)


def styles(g):
    """the parts of a style that are used in layout, by side"""
    l, r = g.l, g.r
    cv = l.cv()
    phys = dict(zip(FLOW, PHYS))
    for name, prop, enum in (('margin', 'margin_%s', 'LengthOrPercentageOrAuto'), ('padding', 'padding_%s', 'LengthOrPercentage'),
                             ('border_width', 'border_%s_width', 'LengthOrPercentage'), ('box_offsets', '%s', 'LengthOrPercentageOrAuto')):
        st0 = engine.State()
        vals = {s: l.lp(enum, 'LP'[i % 2], prop % s) for i, s in enumerate(PHYS)}
        l.style(st0, sym('style'), **{prop % s: l.mk('LineWidth', v) if name == 'border_width' else v for s, v in vals.items()})
        n = 0
        for kind, st, v in l.a.entry(l.method(cv, name), args=[sym('style')], st=st0):
            n += 1
            if kind != 'ret':
                r.violate('panic', name, 'can panic: %s' % (v,), key='panic: ' + name)
                continue
            g.same('%s of a style' % name, st, v, 'flow_relative::Sides', {f: vals[s] for f, s in phys.items()})
        g.n += 1
        r.ob('result', n > 0, name, 'no outcome', key='none: ' + name)
    st0 = engine.State()
    OUT = 'LengthOrPercentageOrAuto'
    l.style(st0, sym('style'), width=l.lp(OUT, 'L', 'width'), height=l.lp(OUT, 'P', 'height'))
    for kind, st, v in l.a.entry(l.method(cv, 'box_size'), args=[sym('style')], st=st0):
        if r.ob('result', kind == 'ret', 'box_size', 'can panic', key='panic: box_size'):
            g.same('box_size of a style', st, v, 'flow_relative::Vec2', dict(inline=l.lp(OUT, 'L', 'width'), block=l.lp(OUT, 'P', 'height')))
    st0 = engine.State()
    l.style(st0, sym('style'))
    for kind, st, v in l.a.entry(l.method(cv, 'writing_mode'), args=[sym('style')], st=st0):
        r.ob('mode', kind == 'ret' and v == l.ltr, 'writing_mode', 'is %s' % str(v)[:80], key='mode')
