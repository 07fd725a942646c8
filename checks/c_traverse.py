"""From the document to box construction: which nodes are handed over, and what is kept for them."""
import itertools

import engine
from common import disp
from domx import Dom
from front import AnalysisError
from report import check
from layx import one, sym, tail
from c_boxes import B
from c_layout import NO, some, unvec
from c_dom import Shape, forests, spread

CELL = 'atomic_refcell::AtomicRefCell'


class W(B):
    def __init__(self):
        super().__init__()
        self.D = Dom(self.p, self.a)
        self.a.opaque |= self.D.index
        self.data = self.struct('LayoutDataForElement')
        self.kept = {n: i for i, (n, _) in enumerate(self.p.structs[self.data]['fields'])}
        self.style_of_element = one((k for k in self.p.bodies if k.endswith('::style_for_element')), 'style_for_element')
        self.a.models[CELL + '::borrow_mut'] = self.a.models[CELL + '::borrow'] = self.borrow
        self.a.models['atomic_refcell::AtomicRefMut::map'] = self.mapped

    def hook(self, eng, s, fr, name, args, info):
        r = self.D.hook(eng, s, fr, name, args, info)
        return super().hook(eng, s, fr, name, args, info) if r is None else r

    def borrow(self, eng, st, fr, name, args, info):
        b, pr = eng.deref_loc(st, args[0])
        return [('ret', st, ('ref', b, tuple(pr) + (('field', 0),)))]

    def mapped(self, eng, st, fr, name, args, info):
        return eng.call_value(st, fr, args[1], [args[0]], info['span'])

    # ------------------------------------------------------------------ documents
    def shape(self, lists, kinds, boxed):
        """a document whose elements have boxes or not"""
        w = self

        class S(Shape):
            def element(self, n):
                D = self.D
                f = [sym('%s.%s' % (n, x)) for x in sorted(D.efield, key=D.efield.get)]
                kept = [sym('%s.kept %s' % (n, x)) for x in sorted(w.kept, key=w.kept.get)]
                kept[w.kept['self_box']] = some(sym('old box ' + n)) if boxed.get(n) else NO
                kept[w.kept['pseudo_elements']] = some(sym('old pseudos ' + n)) if boxed.get(n) else NO
                f[D.efield['layout_data']] = ('agg', 'adt', CELL, None, (('agg', 'adt', w.data, None, tuple(kept), ()),), ())
                return ('agg', 'adt', D.ElementData, None, tuple(f), ())
        return S(self.D, lists, [], kinds)

    def kept_of(self, st, s, n):
        """(box, pseudo-elements' boxes) kept for an element"""
        d = self.a.load(st, ('h', ('node', s.id(n))), (('field', self.D.field['data']),))
        e = d[4][0][4][self.D.efield['layout_data']][4][0]
        return e[4][self.kept['self_box']], e[4][self.kept['pseudo_elements']]

    def where_kept(self, s, n):
        """the place of the box kept for an element"""
        d = self.D
        return ('ref', ('h', ('node', s.id(n))), (('field', d.field['data']), ('downcast', 'Element'), ('field', 0),
                                                  ('field', d.efield['layout_data']), ('field', 0), ('field', self.kept['self_box'])))


def walk():
    if not hasattr(walk, 'x'):
        walk.x = W()
    return walk.x


# displays of elements; None: 'none'
GENERATING = {'block': ('Block', 'Flow'), 'root': ('Block', 'FlowRoot'), 'inline': ('Inline', 'Flow')}


def style_name(w, s, v):
    """which style a pointer leads to"""
    for _ in range(6):
        if v[0] == 's' and v[1].startswith('style '):
            return v[1][6:]
        if v[0] not in ('ref', 'cref', 'deref'):
            break
        v = v[1] if v[0] == 'deref' else w.a.read_ref(s, v)
    return '?'


def display_of(w, d):
    if d in GENERATING:
        return w.var('box_::Display', 'GeneratingBox', w.display(*GENERATING[d]))
    return w.var('box_::Display', d)


class Case:
    """a document, each of its nodes a text, comment... or an element with some display"""
    def __init__(self, w, lists, what, boxed):
        self.w, self.lists, self.what = w, lists, what
        kinds = {n: k if k in ('Text', 'Comment', 'ProcessingInstruction') else 'Element' for n, k in what.items()}
        self.shape = w.shape(lists, kinds, boxed)
        self.kinds, self.boxed = kinds, boxed
        self.names = {self.shape.id(n): n for n in what}

    def start(self):
        w = self.w
        w.unstop()
        st = self.shape.state()
        for n, k in self.what.items():
            if self.kinds[n] == 'Element':
                w.style(st, sym('style ' + n), display=display_of(w, k))
        w.stop(w.style_of_element, self.on_style)
        w.stop(w.h['handle_text'], w.on_text)
        w.stop(w.h['handle_element'], w.on_element)
        return st

    def on_style(self, eng, s, fr, name, args, info):
        w = self.w
        n = [self.names[v] for v in args if v in self.names]
        if len(n) != 1:
            raise AnalysisError('the style of an element that is not known')
        parent = [style_name(w, s, v[4][0]) for v in args if v[0] == 'agg' and v[3] == 'Some']
        s.event('style', n[0], tuple(parent), {})
        return [('ret', s, sym('style ' + n[0]))]

    # -------------------------------------------------------------- what should be
    def below(self, n):
        return [n] + [x for k in self.lists.get(n, ()) for x in self.below(k)]

    def wanted(self, n, style):
        """(what is handed over, elements whose styles are computed with their parents, boxes kept)"""
        out, styles, kept = [], [], {}
        for k in self.lists.get(n, ()):
            d = self.what[k]
            if self.kinds[k] == 'Text':
                out.append(('text', k, style))
            elif self.kinds[k] == 'Element':
                styles.append((k, (style,)))
                if d == 'None':
                    for x in self.below(k):
                        if self.kinds[x] == 'Element':
                            kept[x] = 'none'
                elif d == 'Contents':
                    kept[k] = 'contents'
                    o, s, b = self.wanted(k, k)
                    out += o
                    styles += s
                    kept.update(b)
                else:
                    out.append(('element', k, k, GENERATING[d], k))
                    kept[k] = 'to be set'
        return out, styles, kept


def text_handed(self, eng, s, fr, name, args, info):
    t = self.a.snapshot(s, args[1])
    s.event('handed', 'text', (t[1].replace('.contents', '') if t[0] == 's' else str(t)[:40], style_name(self, s, args[2])), {})
    return [('ret', s, ('c', (), '()'))]


def element_handed(self, eng, s, fr, name, args, info):
    """style, display, contents, slot"""
    d = self.a.snapshot(s, args[2])
    c = self.a.snapshot(s, args[3])
    slot = self.get(s, args[4], 'BoxSlot.slot')
    s.event('handed', 'element', (style_name(self, s, args[1]), d, c, slot), {})
    return [('ret', s, ('c', (), '()'))]


W.on_text, W.on_element = text_handed, element_handed


def check_case(w, case, base='n0'):
    """(paths, complaint) of handing over the content of an element"""
    st = case.start()
    w.style(st, sym('style ' + base))
    ctx = w.mk('dom_traversal::Context', document=sym('document'), author_styles=sym('author styles'))
    st.nframe += 1
    b = ('l', st.nframe, 'context')
    st.mem[b] = ctx
    c = w.var('NonReplacedContents', 'OfElement', case.shape.id(base))
    outs = w.a.entry(w.build, args=[('ref', b, ()), w.arc(st, sym('style ' + base)), c], st=st)
    out, styles, kept = case.wanted(base, base)
    n = 0
    for k, s, v in outs:
        n += 1
        if k != 'ret':
            return n, 'panics: %s' % str(v[1] if len(v) > 1 else v)[:120]
        why = compare(w, case, s, out, styles, kept)
        if why:
            return n, why
    return n, None if n else 'has no result'


def compare(w, case, s, out, styles, kept):
    got, sty = [], []
    for e in s.events():
        if e[0] == 'style':
            sty.append((e[1], e[2]))
        elif e[0] == 'handed' and e[1] == 'text':
            got.append(('text',) + e[2])
        elif e[0] == 'handed':
            style, d, c, slot = e[2]
            el = case.names.get(c[4][0]) if c[0] == 'agg' and c[3] == 'OfElement' else '?'
            at = slot[4][0] if slot[0] == 'agg' and slot[3] == 'Some' else None
            at = [n for n in case.what if case.kinds[n] == 'Element' and at is not None and place(w, at) == place(w, w.where_kept(case.shape, n))]
            dd = [g for g in GENERATING.values() if d == w.display(*g)]
            got.append(('element', el, style, dd[0] if dd else str(d)[:60], at[0] if at else 'nowhere'))
    if got != out:
        return 'handed over: %s instead of %s' % (got, out)
    if sty != styles:
        return 'styles computed, with those of the parents: %s instead of %s' % (sty, styles)
    return kept_as(w, case, s, kept)


def place(w, r):
    return r[1], tuple(p[:2] for p in r[2])


def kept_as(w, case, s, kept):
    for n, k in case.kinds.items():
        if k != 'Element':
            continue
        box, pseudos = w.kept_of(s, case.shape, n)
        want = kept.get(n, 'as before')
        old = some(sym('old box ' + n)) if case.boxed.get(n) else NO
        oldp = some(sym('old pseudos ' + n)) if case.boxed.get(n) else NO
        if want == 'contents':
            ok = box[0] == 'agg' and box[3] == 'Some' and box[4][0][0] == 'agg' and box[4][0][3] == 'DisplayContents' and pseudos == oldp
        elif want == 'as before':
            ok = box == old and pseudos == oldp
        elif want == 'none':
            ok = box == NO and pseudos == NO
        else:
            ok = box == NO and pseudos == oldp
        if not ok:
            return 'the boxes kept for %s are not %s' % (n, want)
    return None


def say_case(case, n='n0'):
    return ' '.join(case.what[k].lower() + ('(%s)' % say_case(case, k) if case.lists.get(k) else '') for k in case.lists.get(n, ()))


def downward(lists, kinds, n, boxed):
    """ways in which elements below may have boxes: none below one that has none"""
    if not boxed:
        return [{}]
    rest = [x for x in lists.get(n, ())]
    ways = [{n: True}]
    for k in rest:
        opts = [{}] if kinds[k] != 'Element' else [{}] + downward(lists, kinds, k, True)
        ways = [dict(a, **b) for a in ways for b in opts]
    return ways


@check('B02', 'what is handed to box construction is, in tree order, every text and every element with a box, as the displays say', level='other')
def b02(R):
    w = walk()
    R.fn(w.build)
    where = disp(w.p, w.traverse)
    R.fn(w.traverse)
    kinds = ('Text', 'Comment', 'None', 'Contents', 'block', 'inline')
    n = 0
    bad = {}
    for m in range(0, 4 + (1 if R.thorough else 0)):
        for ks in itertools.product(kinds + (('ProcessingInstruction', 'root') if m < 3 else ()), repeat=m):
            below = [()]
            if m <= 2:
                below = [(), ('Text',), ('Contents',), ('None', 'block'), ('Text', 'inline', 'Text')]
            for sub in below:
                lists, what = {'doc': ['n0'], 'n0': []}, {'n0': 'block'}
                for i, k in enumerate(ks):
                    x = 'k%d' % i
                    lists['n0'].append(x)
                    lists[x] = []
                    what[x] = k
                    if k in ('Contents', 'None', 'block', 'inline'):
                        for j, k2 in enumerate(sub):
                            y = '%sk%d' % (x, j)
                            lists[x].append(y)
                            lists[y] = []
                            what[y] = k2
                            if k2 == 'Contents':
                                lists[y] = [y + 't']
                                lists[y + 't'] = []
                                what[y + 't'] = 'Text'
                boxed = {x: True for x, k in what.items() if k not in ('Text', 'Comment', 'ProcessingInstruction')}
                case = Case(w, lists, what, boxed)
                try:
                    c, why = check_case(w, case)
                except AnalysisError as e:
                    c, why = 0, 'cannot be told: %s' % e
                n += 1
                if why:
                    bad.setdefault('content', []).append((say_case(case), why))
    R.floor('contents', n, 300)
    R.ob('%d contents' % n, not bad, where, '' if not bad else 'content "%s": %s (and %d others)' % (bad['content'][0] + (len(bad['content']) - 1,)),
         'content', '' if not bad else bad['content'][0][0])
    unset(R, w)
    slots(R, w)
    roots(R, w)


def unset(R, w):
    """an element that is not shown: nothing is kept for what is in it, and for nothing else"""
    where = disp(w.p, w.traverse)
    n, bad = 0, []
    for size in range(0, 4 + (1 if R.thorough else 0)):
        for f in forests(size):
            for texts in itertools.product((False, True), repeat=min(size, 2)):
                names, below = spread(f, 'x')
                lists = {'doc': ['n0'], 'n0': ['x', 'y'], 'y': ['z'], 'z': []}
                lists.update(below)
                what = dict({x: 'block' for x in names}, n0='block', x='None', y='inline', z='block')
                for i, t in enumerate(texts):
                    x = names[-1 - i]
                    if t and not lists[x]:
                        what[x] = 'Text'
                    elif t:
                        break
                else:
                    kinds = {x: 'Text' if k == 'Text' else 'Element' for x, k in what.items()}
                    for boxed in [{}] + downward(lists, kinds, 'x', True):
                        case = Case(w, lists, what, dict(boxed, n0=True, y=True, z=True))
                        try:
                            c, why = check_case(w, case)
                        except AnalysisError as e:
                            c, why = 0, 'cannot be told: %s' % e
                        n += 1
                        if why:
                            bad.append('%s, of which have boxes: %s: %s' % (say_case(case), sorted(boxed), why))
    R.floor('elements not shown', n, 60)
    R.ob('%d elements not shown' % n, not bad, where, '' if not bad else '%s (and %d others)' % (bad[0], len(bad) - 1), 'not shown', bad[0] if bad else '')


def slots(R, w):
    """what is kept for an element is what is set, and setting it does not fail"""
    drop = w.slot_drop
    R.fn(w.slot_set, drop)
    for what, old in (('nothing kept before', NO), ('something kept before', some(sym('old box')))):
        w.unstop()
        st = engine.State()
        b = ('l', 900, 'kept')
        st.mem[b] = old
        slot = w.mk('BoxSlot', slot=some(('ref', b, ())))
        box = w.var('LayoutBox', 'BlockLevel', sym('new box'))
        outs = w.a.entry(w.slot_set, args=[slot, box], st=st)
        good = len(outs) == 1 and outs[0][0] == 'ret' and outs[0][1].mem.get(b) == some(box)
        R.ob('slot set', good, disp(w.p, w.slot_set), 'with %s: what is kept afterwards is not what was set' % what, 'set ' + what)
        if old != NO:
            st = engine.State()
            st.mem[b] = old
            st.mem['l', 901, 'slot'] = slot
            outs = w.a.entry(drop, args=[('ref', ('l', 901, 'slot'), ())], st=st)
            R.ob('slot dropped', len(outs) == 1 and outs[0][0] == 'ret', disp(w.p, drop), 'dropping a slot that was set can panic', 'drop')
    st = engine.State()
    outs = w.a.entry(w.slot_set, args=[w.mk('BoxSlot', slot=NO), w.var('LayoutBox', 'BlockLevel', sym('new box'))], st=st)
    R.ob('slot set', len(outs) == 1 and outs[0][0] == 'ret', disp(w.p, w.slot_set), 'setting a box that is not kept can panic', 'set dummy')


def roots(R, w):
    """the box of the root element, and the boxes of a formatting context of its own"""
    key = w.method(w.struct('BoxTreeRoot'), 'construct')
    R.fn(key, w.own)
    where = disp(w.p, key)
    el = sym('element r')
    for d, position, float_ in itertools.product(('None', 'Contents', 'block', 'root', 'inline'), [v[0] for v in w.p.enums[w.enum('Position')]['variants']],
                                                 [v[0] for v in w.p.enums[w.enum('Float')]['variants']]):
        w.unstop()
        st = engine.State()
        w.style(st, sym('style r'), display=display_of(w, d), position=w.var('Position', position), float=w.var('Float', float_))
        for name, v in (('parse_stylesheets', sym('author styles')), ('root_element', el)):
            w.stop(one((k for k in w.p.bodies if k.endswith('::' + name)), name), lambda eng, s, fr, name, args, info, v=v: [('ret', s, v)])

        def style(eng, s, fr, name, args, info):
            return [('ret', s, sym('style r') if el in args and NO in args else sym('style of another'))]
        w.stop(w.style_of_element, style)
        w.stop(w.own, w.on_own)
        what = 'a root element with display %s, position %s and float %s' % (d.lower(), position.lower(), float_.lower())
        kind = 'abs' if position in ('Absolute', 'Fixed') else 'float' if float_ != 'None' else 'root'
        want = ('blocks', [] if d == 'None' else [(kind, 'style r', ('own boxes of', el, sym('style r')))]), kind == 'float' and d != 'None'
        bad, n = None, 0
        try:
            for k, s, v in w.a.entry(key, args=[sym('document')], st=st):
                n += 1
                if k != 'ret':
                    bad = 'panics: %s' % str(v)[:100]
                    break
                bfc = v[4][0]
                got = w.contained(s, w.get(s, bfc, 'BlockFormattingContext.contents')), w.get(s, bfc, 'BlockFormattingContext.contains_floats')
                got = got[0], got[1][1] if got[1][0] == 'c' else got[1]
                if got != want:
                    bad = 'the boxes are %s instead of %s' % (got, want)
        except AnalysisError as e:
            bad = 'cannot be told: %s' % e
        R.ob('root element', n and not bad, where, '%s: %s' % (what, bad or 'no result'), what)
    for inside in ('Flow', 'FlowRoot'):
        w.unstop()
        st = engine.State()
        w.style(st, sym('style e'))

        def nested(eng, s, fr, name, args, info):
            c = w.a.snapshot(s, args[2])
            good = c == w.var('NonReplacedContents', 'OfElement', el) and style_name(w, s, args[1]) == 'e'
            out = []
            for has in ('No', 'Yes'):
                s2 = s.fork()
                s2.facts[sym('has floats')] = has == 'Yes'
                out.append(('ret', s2, ('agg', 'tuple', '', None, (sym('boxes of e' if good else 'other boxes'), w.var('ContainsFloats', has)), ())))
            return out
        w.stop(w.build, nested)
        outs = w.a.entry(w.own, args=[sym('context'), w.arc(st, sym('style e')), w.var('DisplayInside', inside),
                                      w.var('layout::dom_traversal::Contents', 'OfElement', el)], st=st)
        good = len(outs) == 2
        for k, s, v in outs:
            if k != 'ret' or v[3] != 'Flow':
                good = False
                continue
            fl = w.get(s, v[4][0], 'BlockFormattingContext.contains_floats')
            good &= w.get(s, v[4][0], 'BlockFormattingContext.contents') == sym('boxes of e') and fl[0] == 'c' and fl[1] == s.facts[sym('has floats')]
        R.ob('own formatting context', good, disp(w.p, w.own), 'the formatting context of %s is not made of the boxes of the content' % inside, 'own ' + inside)
