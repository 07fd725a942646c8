"""Layout of absolutely positioned boxes."""
import itertools

import engine
from common import disp, sh
from report import check
from layx import Numbers, Z, add, sub, mul, half, neg, fmax, sym, poly, say, one
from c_layout import Run, fragment, lay, val, agree, some, NO, vec, unvec, signs, refers, blank_fragment, box_fragment, bottom, flow, SIDES

WORDS = {'L': 'a length', 'P': 'a percentage', 'A': 'auto'}


def stub_contents(l, r=None):
    """contents of a box: laid out to unknown fragments of an unknown height"""
    kids = l.flow_children()

    def contents(eng, s, fr, name, args, info):
        l.note(s, name, args, info)
        for a in args[2:]:
            if a[0] == 'ref' and l.a.load(s, a[1], a[2]) == ('vec0',):
                l.a.store(s, a[1], a[2], sym('nested'))
        return [('ret', s, kids)]
    for k in (l.container, l.bfc, l.ifc, l.independent):
        l.stop(k, contents)


def abs_box_value(l, style):
    return l.mk('AbsolutelyPositionedBox', style=style, contents=l.var('layout::IndependentFormattingContext', 'Flow', sym('contents')))


def corner(l, x, y):
    return l.mk('flow_relative::Vec2', inline=l.length(x), block=l.length(y))


def definite(l, w, h):
    return l.mk('layout::DefiniteContainingBlock', size=corner(l, w, h), mode=l.ltr)


def before(l, st, kinds, name='', static=(Z, Z), rank=('c', 0, 'usize')):
    """an absolutely positioned box on its way to its containing block; kinds: see Axes"""
    style, box = sym(name + 'style'), sym(name + 'box')
    l.style_of(st, style, width=kinds['width'], height=kinds['height'], margins=kinds['margins'], paddings=kinds['paddings'],
               borders=kinds['paddings'], offsets=kinds['offsets'], position='Absolute', values=kinds.get('values'))
    st.mem['h', box] = abs_box_value(l, style)
    return one([(s, v) for k, s, v in l.a.entry(l.abs_box, args=[box, corner(l, *static), rank], st=st) if k == 'ret'], 'way to start the layout of an absolutely positioned box')


def used(kind, name, basis):
    return val(kind, name, basis)


def axis(k, vertical, static, content):
    """CSS 2.1 10.3.7 and 10.6.4: (position of the content edge, size, margin at the start, margin at the end)"""
    cb = sym('cbbs') if vertical else sym('cbis')
    a, b = ('top', 'bottom') if vertical else ('left', 'right')
    o = dict(zip(SIDES, k['offsets']))
    m = dict(zip(SIDES, k['margins']))
    pd = dict(zip(SIDES, k['paddings']))
    start, end = used(o[a], a, cb), used(o[b], b, cb)
    ms, me = (used(m[x], 'margin-' + x, sym('cbis')) for x in (a, b))
    ps, pe = (add(used(pd[x], 'padding-' + x, sym('cbis')), used(pd[x], 'border-' + x, sym('cbis'))) for x in (a, b))
    dim = 'height' if vertical else 'width'
    size = used(k[dim], dim, cb)
    pb = add(ps, pe)
    if start is not None and end is not None and size is not None:
        rest = sub(cb, start, end, size, pb)
        if ms is None and me is None:
            ms = half(rest) if vertical else ('ifneg', rest)
            me = half(rest) if vertical else ('ifneg', rest)
        elif ms is None:
            ms = sub(rest, me)
        elif me is None:
            me = sub(rest, ms)
    else:
        ms, me = ms or Z, me or Z
    if start is None and end is None:
        start = static
    if size is None:
        if start is not None and end is not None:
            size = sub(cb, start, end, pb, ms, me)
        elif vertical:
            size = content
        else:
            # shrink-to-fit, with content that wants as much as there is
            size = sub(cb, start if start is not None else end, pb, ms, me)
    return start, end, size, ms, me, ps, pe, cb


def auto_margins(l, st, ms, me):
    """margins both auto: equal unless negative"""
    if ms[0] != 'ifneg':
        return ms, me
    rest = ms[1]
    n = Numbers(l, st)
    if n.holds(rest, '>=', Z) is True:
        return half(rest), half(rest)
    if n.holds(rest, '<', Z) is True:
        return Z, rest
    return fmax(half(rest), Z), sub(rest, fmax(half(rest), Z))


def where(ax):
    start, end, size, ms, me, ps, pe, cb = ax
    return add(start, ms, ps) if start is not None else sub(cb, end, me, pe, size)


def text(k):
    return 'width %s, height %s, margins %s, offsets %s%s' % (WORDS[k['width']], WORDS[k['height']], k['margins'], k['offsets'],
                                                             ', padding and border percentages' if k['paddings'][0] == 'P' else '')


def equations(r, l):
    n = 0
    for size, start, end, ms, me in itertools.product('LPA', repeat=5):
        if not r.thorough and (ms == 'P') != (me == 'P'):
            continue
        # both axes at a time, with different kinds: in the vertical one the rôles of start and end are exchanged
        k = dict(width=size, height=size, offsets=end + start + start + end, margins=me + ms + ms + me, paddings='PPPP' if ms == 'P' else 'LLLL')
        w = text(k)
        stub_contents(l)
        l.stop(l.abs_in, l.noted)
        st, v = before(l, engine.State(), k, static=(sym('sx'), sym('sy')))
        st.mem['h', sym('self')] = v
        st.mem['h', sym('cb')] = definite(l, 'cbis', 'cbbs')
        for kind, s, f in l.a.entry(l.abs_frag, args=[sym('self'), sym('cb')], st=st):
            if not r.ob('panic', kind == 'ret', w, 'can panic: %s' % (sh(f) if kind != 'ret' else '',), key='panic: ' + w):
                continue
            n += 1
            out(r, l, s, f, k, w)
        l.unstop()
    r.fn(disp(l.p, l.abs_frag))
    r.fn(disp(l.p, l.abs_box))
    r.floor('layouts of absolutely positioned boxes', n, 100)


def out(r, l, s, f, k, w):
    if not r.ob('fragment', f[0] == 'agg' and f[3] == 'Box', w, 'a box fragment comes out', key='fragment: ' + w):
        return
    f = f[4][0]
    F = 'BoxFragment.'
    r.ob('style', l.get(s, f, F + 'style') == sym('style'), w, 'the fragment has the style of the box', key='style: ' + w)
    r.ob('children', l.get(s, f, F + 'children') == sym('kids'), w, 'the fragment holds the fragments of the contents', key='children: ' + w)
    ix, iy = axis(k, False, sym('sx'), None), axis(k, True, sym('sy'), sym('kids.height'))
    ml, mr = auto_margins(l, s, ix[3], ix[4])
    ix = ix[:3] + (ml, mr) + ix[5:]
    got = {p: l.sides(s, l.get(s, f, F + p)) for p in ('padding', 'border', 'margin')}
    pk = dict(zip(SIDES, k['paddings']))
    for side, q in (('left', 'start'), ('right', 'end'), ('top', 'top'), ('bottom', 'bottom')):
        for p in ('padding', 'border'):
            agree(r, l, s, 'side', w, '%s-%s' % (p, side), got[p][q], used(pk[side], '%s-%s' % (p, side), sym('cbis')))
    for q, want in (('start', ml), ('end', mr), ('top', iy[3]), ('bottom', iy[4])):
        agree(r, l, s, 'margin', w, 'the margin at the ' + q, got['margin'][q], want)
    x, y, iw, ih = l.rect(s, l.get(s, f, F + 'content_rect'))
    agree(r, l, s, 'size', w, 'the width', iw, ix[2])
    agree(r, l, s, 'size', w, 'the height', ih, iy[2])
    agree(r, l, s, 'position', w, 'the left edge of the content', x, where(ix))
    agree(r, l, s, 'position', w, 'the top edge of the content', y, where(iy))
    cs = [e for e in s.events() if e[0] == 'call' and e[3].get('key') in (l.independent, l.bfc, l.container, l.ifc)]
    if not r.ob('once', len(cs) == 1, w, 'the contents are laid out %d times' % len(cs), key='once: ' + w):
        return
    cb = l.argument(cs[0], 'layout::ContainingBlock')
    if r.ob('inside', cb is not None, w, 'the containing block for the contents is known', key='inside: ' + w):
        C = 'layout::ContainingBlock.'
        agree(r, l, s, 'inside', w, 'the width for the contents', l.px(s, l.get(s, cb, C + 'inline_size')), ix[2])
        bs = l.get(s, cb, C + 'block_size')
        if iy[2] == sym('kids.height'):
            r.ob('inside', l.variant_of(s, bs, 'LengthOrAuto') == 'Auto', w, 'the height for the contents is not known before', key='inside height: ' + w)
        elif r.ob('inside', l.variant_of(s, bs, 'LengthOrAuto') == 'Length', w, 'the height for the contents is definite', key='inside definite: ' + w):
            agree(r, l, s, 'inside', w, 'the height for the contents', l.px(s, l.get(s, bs, 'Length.0')), iy[2])
    block_of(r, l, s, f, w)


def block_of(r, l, s, f, w):
    """the box is the containing block of those in it: they are laid out once against its padding box, after its size is known"""
    F = 'BoxFragment.'
    ins = [e for e in s.events() if e[0] == 'call' and e[3].get('key') == l.abs_in]
    if not r.ob('nested', len(ins) == 1, w, 'the boxes positioned in it are laid out %d times' % len(ins), key='nested: ' + w):
        return
    vals = ins[0][3]['vals']
    r.ob('nested', any(refers(l, s, v, sym('nested')) or v == sym('nested') for v in vals), w, 'those are the ones its contents left', key='nested list: ' + w)
    rect = l.get(s, f, F + 'content_rect')
    size = l.get(s, rect, 'flow_relative::Rect.size')
    pad = l.get(s, f, F + 'padding')
    sizes = [v for v in vals if v[0] == 'agg' and v[2] == l.struct('flow_relative::Vec2')]
    pads = [v for v in vals if v[0] == 'agg' and v[2] == l.struct('flow_relative::Sides')]
    if r.ob('nested', len(sizes) == 1 and len(pads) == 1, w, 'they get the size and the padding of the box', key='nested arguments: ' + w):
        for i, n in enumerate(('width', 'height')):
            agree(r, l, s, 'nested', w, 'the %s they get' % n, l.px(s, sizes[0][4][i]), l.px(s, size[4][i]))
        for q, x in l.sides(s, pads[0]).items():
            agree(r, l, s, 'nested', w, 'the padding at the %s they get' % q, x, l.sides(s, pad)[q])


@check('G03', rule='the fragment of an absolutely positioned box, for every combination of kinds of values and every way to its containing '
       'block, has the position, size and margins that the equations of CSS 2.1 give as polynomials of the values',
       trusted=('lengths are compared as rational numbers, not with the rounding of f32',))
def g03(r):
    l = lay()
    equations(r, l)
    containing(r, l)
    ranks(r, l)
    flows(r, l)
    passed(r, l)
    root(r, l)


KINDS = {
    'static': dict(offsets='AAAA'),
    'start': dict(offsets='LLAA'),
    'end': dict(offsets='AALL'),
    'both': dict(offsets='LLLL'),
}


def kinds(n, name):
    """a box of definite size with those offsets; the numbers are named after it"""
    names = ['%s-%s' % (p, x) for p in ('margin', 'padding', 'border') for x in SIDES]
    return dict(dict(width='L', height='L', margins='LLLL', paddings='LLLL', values={x: '%s %s' % (name, x) for x in names}), **KINDS[n])


def expected(k, name, w, h, sx, sy):
    """where such a box's content starts in a containing block of that size"""
    v = lambda n: sym('%s %s' % (name, n))
    o = dict(zip(SIDES, k['offsets']))
    out = []
    for a, b, static, size, cb in (('left', 'right', sx, 'width', w), ('top', 'bottom', sy, 'height', h)):
        if o[a] == 'A' and o[b] == 'A':
            out.append(add(static, v('margin-' + a), v('border-' + a), v('padding-' + a)))
        elif o[a] == 'L':
            out.append(add(sym(a), v('margin-' + a), v('border-' + a), v('padding-' + a)))
        else:
            out.append(sub(cb, sym(b), v('margin-' + b), v('border-' + b), v('padding-' + b), sym(size)))
    return out


def name_of(l, s, f):
    if f[0] == 'agg' and f[3] == 'Box':
        t = l.get(s, f, 'Box.0', 'BoxFragment.style')
        return t[1][:-5] if t[0] == 's' and t[1].endswith('style') else None


def spot(r, l, s, f, n, k, w, h, sx, sy, where_):
    got = l.rect(s, l.get(s, f, 'Box.0', 'BoxFragment.content_rect'))
    want = expected(k, n, w, h, sx, sy)
    agree(r, l, s, 'way', where_, 'the left edge', got[0], want[0])
    agree(r, l, s, 'way', where_, 'the top edge', got[1], want[1])


def containing(r, l):
    """all boxes that a box is the containing block of come out once, placed against its padding box"""
    n = 0
    for count in range(4):
        for ks in itertools.product(KINDS, repeat=count):
            if count == 3 and not r.thorough and len(set(ks)) < 3:
                continue
            w = 'positioned in a box: %s' % (', '.join(ks) or 'none')
            names = [chr(ord('A') + i) for i in range(count)]
            l.unstop()
            stub_contents(l)
            l.stop(l.abs_in, l.noted)       # those positioned in the boxes themselves
            st = engine.State()
            pending = ('vec0',)
            allk = {}
            for nm, kn in zip(names, ks):
                allk[nm] = kinds(kn, nm)
                st, v = before(l, st, allk[nm], nm, (sym(nm + '.x'), sym(nm + '.y')))
                pending = ('vpush', pending, v)
            st.mem['h', sym('pending')] = pending
            st.mem['h', sym('fragments')] = ('vpush', ('vec0',), sym('earlier'))
            st.mem['h', sym('size')] = corner(l, 'w', 'h')
            st.mem['h', sym('padding')] = l.mk('flow_relative::Sides', **{x: l.length('p ' + x) for x in ('inline_start', 'inline_end', 'block_start', 'block_end')})
            whole = ('subp', sym('pending'), ('c', 0, 'usize'), ('c', count, 'usize'))
            a = l.a
            old = a.unroll, a.unroll_any
            a.unroll, a.unroll_any = 100, True
            try:
                outs = a.entry(l.abs_in, args=[whole, sym('fragments'), sym('size'), sym('padding'), l.ltr], st=st)
            finally:
                a.unroll, a.unroll_any = old
            pl, pt = sym('p inline_start'), sym('p block_start')
            W, H = add(sym('w'), pl, sym('p inline_end')), add(sym('h'), pt, sym('p block_end'))
            for kind, s, f in outs:
                if not r.ob('panic', kind == 'ret', w, 'can panic', key='panic: ' + w):
                    continue
                n += 1
                fs = unvec(a.load(s, *a.deref_loc(s, sym('fragments'))))
                if not r.ob('all', fs is not None and len(fs) == (2 if count else 1) and fs[0] == sym('earlier'), w,
                            'one fragment with all of them after the others, none where there is nothing', key='all: ' + w) or not count:
                    continue
                g = fs[1]
                if not r.ob('all', g[0] == 'agg' and g[3] == 'Anonymous', w, 'they are in an anonymous fragment', key='anonymous: ' + w):
                    continue
                rect = l.rect(s, l.get(s, g, 'Anonymous.0', 'AnonymousFragment.rect'))
                for q, got, want in zip(('left', 'top', 'width', 'height'), rect, (neg(pl), neg(pt), W, H)):
                    agree(r, l, s, 'padding box', w, 'the %s of the padding box' % q, got, want)
                kids = unvec(l.get(s, g, 'Anonymous.0', 'AnonymousFragment.children'))
                if not r.ob('all', kids is not None and [name_of(l, s, x) for x in kids] == names, w, 'each comes out once, in order', key='each: ' + w):
                    continue
                for nm, x in zip(names, kids):
                    spot(r, l, s, x, nm, allk[nm], W, H, add(sym(nm + '.x'), pl), add(sym(nm + '.y'), pt), '%s, number %s' % (w, nm))
    r.fn(disp(l.p, l.abs_in))
    r.floor('lists of positioned boxes', n, 20)


def anonymous(l, n):
    V, R = 'flow_relative::Vec2', 'flow_relative::Rect'
    rect = l.mk(R, start_corner=l.mk(V, inline=l.length(n + '.x'), block=l.length(n + '.y')), size=l.mk(V, inline=l.length(n + '.w'), block=l.length(n + '.h')))
    return l.var('layout::fragments::Fragment', 'Anonymous', l.mk('AnonymousFragment', rect=rect, children=('vec0',), mode=l.ltr))


def land(l, st, v):
    """lay an absolutely positioned box out, wherever it came from: outcomes"""
    st.mem['h', sym('landing')] = v
    st.mem['h', sym('landing cb')] = definite(l, 'W', 'H')
    return l.a.entry(l.abs_frag, args=[sym('landing'), sym('landing cb')], st=st)


def raised(l, st, pending, fragments, rank):
    """the list after static positions are taken from one block to the block around"""
    a = l.a
    st.mem['h', sym('raised')] = pending
    st.mem['h', sym('siblings')] = fragments
    n = one([len(x) for x in [unvec(pending)] if x is not None], 'list of known length')
    m = len(unvec(fragments))
    whole = lambda p, k: ('subp', sym(p), ('c', 0, 'usize'), ('c', k, 'usize'))
    old = a.unroll, a.unroll_any
    a.unroll, a.unroll_any = 100, True
    try:
        outs = a.entry(l.adjust, args=[whole('raised', n), whole('siblings', m), ('c', rank, 'usize')], st=st)
    finally:
        a.unroll, a.unroll_any = old
    return [(k, s, a.load(s, *a.deref_loc(s, sym('raised'))) if k == 'ret' else v) for k, s, v in outs]


def ranks(r, l):
    """on the way up static positions move by the corner of the box each came from, others stay"""
    n = 0
    for kn, i, j in itertools.product(KINDS, range(3), range(2)):
        w = 'from child %d of child %d, %s' % (i, j, kn)
        l.unstop()
        stub_contents(l)
        l.stop(l.abs_in, l.noted)
        k = kinds(kn, 'B')
        st, v = before(l, engine.State(), k, 'B', (sym('sx'), sym('sy')), ('c', i, 'usize'))
        inner = vec([anonymous(l, 'in%d' % x) if x % 2 else box_fragment(l, 'in%d' % x, False) for x in range(3)])
        outer_ = vec([box_fragment(l, 'out%d' % x, False) for x in range(2)])
        for kind, s, p in raised(l, st, ('vpush', ('vec0',), v), inner, j):
            if not r.ob('panic', kind == 'ret', w, 'can panic', key='panic: ' + w):
                continue
            for kind, s, p in raised(l, s, p, outer_, 0):
                if not r.ob('panic', kind == 'ret', w, 'can panic', key='panic: ' + w):
                    continue
                vs = unvec(p)
                if not r.ob('all', vs is not None and len(vs) == 1, w, 'the list stays', key='list: ' + w):
                    continue
                for kind, s, f in land(l, s, vs[0]):
                    if r.ob('way', kind == 'ret' and name_of(l, s, f) == 'B', w, 'the box comes out', key='box: ' + w):
                        n += 1
                        spot(r, l, s, f, 'B', k, sym('W'), sym('H'), add(sym('sx'), sym('in%d.x' % i), sym('out%d.x' % j)),
                             add(sym('sy'), sym('in%d.y' % i), sym('out%d.y' % j)), w)
    r.fn(disp(l.p, l.adjust))
    r.floor('ways up', n, 20)


def flows(r, l):
    """boxes of a list that are absolutely positioned, or have some in them"""
    n = 0
    a = l.a
    for count in range(1, 4):
        for ks in itertools.product('b-n', repeat=count):
            if not set(ks) & set('-n') or count == 3 and not r.thorough and len(set(ks)) < 3:
                continue
            for flag, (floats, split) in itertools.product((False, True), ((False, False), (False, True), (True, False))):
                w = 'blocks %s%s%s' % (''.join(ks), ', margins join the parent\'s' if flag else '', ', floats' if floats else ', split' if split else '')
                names, outs = listed(l, ks, flag, floats, split)
                for kind, s, v in outs:
                    if not r.ob('panic', kind == 'ret', w, 'can panic: %s' % (sh(v) if kind != 'ret' else '',), key='panic: ' + w):
                        continue
                    n += 1
                    up(r, l, s, v, ks, names, flag, w)
    r.floor('lists of blocks with positioned boxes', n, 50)


def listed(l, ks, flag, floats, split):
    """lay out a list of blocks (b), absolutely positioned boxes (-) and blocks with such boxes in them (n)"""
    l.unstop()
    a = l.a
    st = engine.State()
    names = [chr(ord('A') + i) for i in range(len(ks))]
    ready = {}
    for k, nm in zip(ks, names):
        if k == 'n':
            s2, ready[nm] = before(l, st, kinds('static', nm), nm, (sym(nm + '.nx'), sym(nm + '.ny')), sym('rank of ' + nm))
            st = s2
        elif k == '-':
            kk = kinds('static', nm)
            l.style_of(st, sym(nm + 'style'), width='L', height='L', margins='LLLL', paddings='LLLL', borders='LLLL', offsets=kk['offsets'],
                       position='Absolute', values=kk['values'])
            st.mem['h', sym('box ' + nm)] = l.var('BlockLevelBox', 'OutOfFlowAbsolutelyPositionedBox', abs_box_value(l, sym(nm + 'style')))

    def one_box(eng, s, fr, name, args, info):
        nm = one((x for x in names if refers(l, s, args[0], sym('box ' + x))), 'box that is laid out')
        k = ks[names.index(nm)]
        if k == '-':
            a.opaque.discard(l.block)
            try:
                return a.entry(l.block, args=list(args), st=s)
            finally:
                a.opaque.add(l.block)
        if k == 'n':
            # what its own list leaves: a box with the rank it was told
            v = ready[nm]
            i = l.idx('AbsolutelyPositionedFragment', 'tree_rank')
            v = v[:4] + (v[4][:i] + (args[2],) + v[4][i + 1:],) + v[5:]
            b, pr = a.deref_loc(s, args[3])
            a.store(s, b, pr, ('vpush', a.load(s, b, pr), v))
        return [('ret', s, box_fragment(l, nm, False))]
    l.stop(l.block, one_box)
    st.mem['h', sym('self')] = l.var('BlockContainer', 'BlockLevelBoxes', vec([sym('box ' + x) for x in names]))
    st.mem['h', sym('cb')] = l.containing()
    st.mem['h', sym('abspos')] = vec(EARLIER)
    st.mem['h', sym('floats')] = l.mk('FloatContext')
    a.par_split = split
    old = a.unroll, a.unroll_any
    a.unroll, a.unroll_any = 100, True
    try:
        outs = a.entry(l.container, args=[sym('self'), sym('cb'), ('c', 1, 'usize'), sym('abspos'), some(sym('floats')) if floats else NO,
                                          l.mk('CollapsibleWithParentStartMargin', ('c', flag, 'bool'))], st=st)
    finally:
        a.unroll, a.unroll_any = old
        a.par_split = False
    return names, outs


EARLIER = [sym('earlier'), sym('early'), sym('just before')]


def up(r, l, s, v, ks, names, flag, w):
    a = l.a
    tops = flow(['b' if k == 'n' else k for k in ks], names, flag)[0]
    vs = unvec(a.load(s, *a.deref_loc(s, sym('abspos'))))
    want = [nm for k, nm in zip(ks, names) if k in '-n']
    if not r.ob('all', vs is not None and len(vs) == len(want) + len(EARLIER) and vs[:len(EARLIER)] == EARLIER, w,
                'each positioned box is passed on once, after those before', key='passed on: ' + w):
        return
    given = signs(*names)
    stub_contents(l)
    l.stop(l.abs_in, l.noted)
    around = vec([box_fragment(l, 'out%d' % x, False) for x in range(2)])
    p = ('vec0',)
    for x in vs[len(EARLIER):]:
        p = ('vpush', p, x)
    for kind, s2, p in raised(l, s, p, around, 0):
        if not r.ob('panic', kind == 'ret', w, 'can panic on the way up', key='panic up: ' + w):
            continue
        got = []
        for x in unvec(p):
            for kind, s3, f in land(l, s2.fork(), x):
                nm = name_of(l, s3, f) if kind == 'ret' else None
                got.append(nm)
                if nm not in want:
                    continue
                i = names.index(nm)
                y = add(sym(nm + '.y'), tops[i], sym(nm + '.ny')) if ks[i] == 'n' else bottom(['b' if k == 'n' else k for k in ks], names, i, flag)
                sx = add(sym(nm + '.x'), sym(nm + '.nx')) if ks[i] == 'n' else Z
                num = Numbers(l, s3, given)
                rect = l.rect(s3, l.get(s3, f, 'Box.0', 'BoxFragment.content_rect'))
                want_ = expected(kinds('static', nm), nm, sym('W'), sym('H'), add(sx, sym('out1.x')), add(y, sym('out1.y')))
                for q in (0, 1):
                    r.ob('static', num.equal(rect[q], want_[q]), w, 'the %s of number %d is %s where CSS has %s' % (
                        ('left edge', 'top edge')[q], i + 1, say(poly(rect[q])), say(poly(want_[q]))), key='static %d %d: %s' % (q, i, w))
        r.ob('order', got == want, w, 'they are passed on in order', key='order: ' + w)


def passed(r, l):
    """a box that is not positioned passes the list and its place on to its contents, a positioned one has its own list"""
    for kind in ('same', 'own'):
        for position in ('Static', 'Relative'):
            run = Run(l, r, kind=kind, height='L', position=position)
            w = run.text()
            for st, f in fragment(l, r, w, run.outs):
                cs = run.content_calls(st)
                if not r.ob('once', len(cs) == 1, w, 'the contents are laid out once', key='once: ' + w):
                    continue
                args, vals = cs[0][2], cs[0][3]['vals']
                r.ob('rank', sym('rank') in args, w, 'the contents are told the place of the box', key='rank: ' + w)
                if position == 'Static':
                    r.ob('list', any(refers(l, st, x, sym('abspos')) for x in args), w, 'the list goes on to the contents', key='list: ' + w)
                    r.ob('nested', not [e for e in st.events() if e[0] == 'call' and e[3].get('key') == l.abs_in], w,
                         'the boxes in it are not placed here', key='not here: ' + w)
                else:
                    r.ob('list', not any(refers(l, st, x, sym('abspos')) for x in args), w, 'the contents have a list of their own', key='list: ' + w)
                    block_of(r, l, st, f, w)
    for what, key, me in (('a block formatting context', l.bfc, l.mk('BlockFormattingContext', contents=sym('contents'), contains_floats=('c', False, 'bool'))),
                          ('a formatting context', l.independent, l.var('layout::IndependentFormattingContext', 'Flow', sym('contents')))):
        l.unstop()
        stub_contents(l)
        a = l.a
        a.opaque.discard(key)
        l.stops.pop(key, None)
        st = engine.State()
        st.mem['h', sym('self')] = me
        st.mem['h', sym('cb')] = l.containing()
        for k, s, v in a.entry(key, args=[sym('self'), sym('cb'), sym('rank'), sym('abspos')], st=st):
            if not r.ob('panic', k == 'ret', what, 'can panic', key='panic: ' + what):
                continue
            cs = [e for e in s.events() if e[0] == 'call' and e[3].get('key') in (l.container, l.bfc)]
            if r.ob('once', len(cs) == 1, what, 'the contents are laid out once', key='once: ' + what):
                r.ob('rank', sym('rank') in cs[0][2], what, 'the contents are told the place of the box', key='rank: ' + what)
                r.ob('list', any(refers(l, s, x, sym('abspos')) for x in cs[0][2]), what, 'the list goes on to the contents', key='list: ' + what)


def root(r, l):
    """what is left is placed against the page"""
    a = l.a
    key = l.method(l.struct('BoxTreeRoot'), 'layout')
    for ks in itertools.product(KINDS, repeat=2):
        w = 'positioned in the page: ' + ', '.join(ks)
        l.unstop()
        stub_contents(l)
        l.stop(l.abs_in, l.noted)
        st = engine.State()
        ready = []
        for nm, kn in zip('AB', ks):
            st, v = before(l, st, kinds(kn, nm), nm, (sym(nm + '.x'), sym(nm + '.y')))
            ready.append(v)

        def flow_root(eng, s, fr, name, args, info):
            l.note(s, name, args, info)
            d = one((x for x in args if x[0] == 'ref' and a.load(s, x[1], x[2]) == ('vec0',)), 'list for positioned boxes')
            a.store(s, d[1], d[2], vec(ready))
            return [('ret', s, l.flow_children_of(('vpush', ('vec0',), sym('flow'))))]
        l.stop(l.bfc, flow_root)
        st.mem['h', sym('self')] = l.mk('BoxTreeRoot', sym('contents'))
        old = a.unroll, a.unroll_any
        a.unroll, a.unroll_any = 100, True
        view = l.viewport()
        try:
            outs = a.entry(key, args=[sym('self'), view], st=st)
        finally:
            a.unroll, a.unroll_any = old
        for kind, s, v in outs:
            if not r.ob('panic', kind == 'ret', w, 'can panic', key='panic: ' + w):
                continue
            fs = unvec(v)
            if not r.ob('all', fs is not None and len(fs) == 3 and fs[0] == sym('flow') and [name_of(l, s, f) for f in fs[1:]] == ['A', 'B'], w,
                        'all of them come after the flow, in order', key='all: ' + w):
                continue
            for nm, kn, f in zip('AB', ks, fs[1:]):
                spot(r, l, s, f, nm, kinds(kn, nm), sym('page w'), sym('page h'), sym(nm + '.x'), sym(nm + '.y'), '%s, number %s' % (w, nm))
            cs = [e for e in s.events() if e[0] == 'call' and e[3].get('key') == l.bfc]
            if r.ob('once', len(cs) == 1, w, 'the flow is laid out once', key='once: ' + w):
                cb = l.argument(cs[0], 'layout::ContainingBlock')
                if r.ob('page', cb is not None, w, 'it is in a block', key='page: ' + w):
                    C = 'layout::ContainingBlock.'
                    agree(r, l, s, 'page', w, 'the width of the page', l.px(s, l.get(s, cb, C + 'inline_size')), sym('page w'))
                    bs = l.get(s, cb, C + 'block_size')
                    if r.ob('page', l.variant_of(s, bs, 'LengthOrAuto') == 'Length', w, 'it has a height', key='page height: ' + w):
                        agree(r, l, s, 'page', w, 'the height of the page', l.px(s, l.get(s, bs, 'Length.0')), sym('page h'))
    r.fn(disp(l.p, key))
