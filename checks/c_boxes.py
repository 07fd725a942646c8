"""Construction of the box tree: which boxes elements and texts become, and where."""
import itertools

import engine
from common import disp
from front import AnalysisError
from report import check
from layx import one, sym, tail
from c_layout import L, vec, unvec, NO, some

# how the boxes of an element lay out their content
INSIDE = {'inline': 'Flow', 'block': 'Flow', 'root': 'FlowRoot', 'abs': 'Flow', 'float': 'FlowRoot'}


class B(L):
    def __init__(self):
        super().__init__()
        p, a = self.p, self.a
        a.unroll, a.unroll_any = 200, True
        a.max_depth = 60
        a.chars = {}
        a.distinct = set()
        a.loop_limit = 200
        a.rec_limit = 12
        self.traverse = self.method(self.enum('NonReplacedContents'), 'traverse')
        self.build = self.method(self.enum('flow::BlockContainer'), 'construct')
        self.own = self.method(self.enum('layout::IndependentFormattingContext'), 'construct')
        self.builder = self.struct('BlockContainerBuilder')
        self.h = {n: self.method(self.builder, n, 'TraversalHandler') for n in ('handle_text', 'handle_element')}
        slot = self.struct('BoxSlot')
        self.slot_set = self.method(slot, 'set')
        self.anonymous = self.method(self.cv(), 'anonymous_inheriting_from')
        self.inside = self.enum('DisplayInside')
        self.scripts = {}
        self.texts = {}
        for im in p.impls:
            if im.for_[0] == 'path' and im.for_[1] == slot and im.trait and tail(im.trait) == 'Drop':
                self.slot_drop = im.methods['drop']

    # ------------------------------------------------------------------ inputs
    def text(self, st, shape, name):
        """a pointer to a text with letters (a) and white space (_) in that order"""
        p = sym('text ' + name)
        st.mem['h', p] = vec([self.letter(name, i, k) for i, k in enumerate(shape)])
        self.texts[name] = shape
        return p

    def letter(self, name, i, k):
        c = sym('%s%d%s' % (name, i, '' if k == 'a' else k))
        self.a.chars[c] = {'a': 'letter', '_': 'space', 'w': 'wide'}[k]
        self.a.settype(c, ('prim', 'char'))
        return c

    def arc(self, st, v):
        """a reference to an Arc"""
        st.nframe += 1
        b = ('l', st.nframe, 'arc')
        st.mem[b] = v
        return ('ref', b, ())

    def style_named(self, st, n, position='Static', float_='None'):
        p = sym('style ' + n)
        self.a.distinct.add(p)
        self.style(st, p, position=self.var('Position', position), float_=self.var('Float', float_)) if self.has('float_') else \
            self.style(st, p, position=self.var('Position', position), float=self.var('Float', float_))
        return p

    def has(self, f):
        return any(f == m for n in self.p.structs for m, _ in self.p.structs[n]['fields'] if tail(n) == 'Box')

    def display(self, outside, inside):
        return self.var('DisplayGeneratingBox', 'OutsideInside', outside=self.var('DisplayOutside', outside), inside=self.var('DisplayInside', inside))

    def play(self, eng, s, fr, items, handler, style, info):
        """the calls of a handler that items lead to"""
        todo = [(s, 0)]
        out = []
        while todo:
            s, i = todo.pop(0)
            if i == len(items):
                out.append(('ret', s, ('c', (), '()')))
                continue
            for k, s2, v in self.item(eng, s, fr, items[i], handler, style, info):
                if k == 'ret':
                    todo.append((s2, i + 1))
                else:
                    out.append((k, s2, v))
        return out

    def item(self, eng, s, fr, it, handler, style, info):
        run = lambda n, args: eng.run_fn(self.h[n], self.p.bodies[self.h[n]], args, s, {}, fr.depth + 1, ())
        if it[0] == 'text':
            return run('handle_text', [handler, sym('text ' + it[1]), style])
        if it[0] == 'contents':
            return self.play(eng, s, fr, it[2], handler, self.arc(s, sym('style ' + it[1])), info)
        kind, name, kids = it[:3]
        self.scripts[sym('element ' + name)] = kids
        c = self.var('layout::dom_traversal::Contents', 'OfElement', sym('element ' + name))
        slot = self.mk('BoxSlot', slot=some(sym('slot ' + name)))
        d = self.display('Inline' if kind == 'inline' else 'Block', INSIDE[kind])
        return run('handle_element', [handler, self.arc(s, sym('style ' + name)), d, c, slot])

    def start(self, items):
        """build the boxes of a block container with that content"""
        self.unstop()
        self.scripts.clear()
        st = engine.State()
        self.stop(self.traverse, self.on_traverse)
        self.stop(self.build, self.on_nested)
        self.stop(self.own, self.on_own)
        self.stop(self.slot_set, self.noted)
        self.stop(self.anonymous, self.on_anonymous)
        self.declare(st, items)
        self.a.distinct |= {sym('style self'), sym('anonymous')}
        self.style_named(st, 'self')
        c = self.var('NonReplacedContents', 'OfElement', sym('element self'))
        self.scripts[sym('element self')] = items
        return self.a.entry(self.build, args=[sym('context'), self.arc(st, sym('style self')), c], st=st)

    def declare(self, st, items):
        for it in items:
            if it[0] == 'text':
                self.text(st, it[2], it[1])
                continue
            self.style_named(st, it[1], 'Absolute' if it[0] == 'abs' else 'Static', 'Left' if it[0] == 'float' else 'None')
            self.declare(st, it[2])

    # ------------------------------------------------------------------ calls that are not followed
    def on_traverse(self, eng, s, fr, name, args, info):
        c = self.a.snapshot(s, args[0])
        el = c[4][0] if c[0] == 'agg' and c[3] == 'OfElement' else None
        if el not in self.scripts:
            raise AnalysisError('contents that are not known are traversed')
        self.note(s, name, args, info)
        return self.play(eng, s, fr, self.scripts[el], args[3], args[1], info)

    def element_in(self, s, args):
        """the element whose contents are among the arguments"""
        for a in args:
            v = self.a.snapshot(s, a)
            if v[0] == 'agg' and v[3] == 'OfElement' and v[4][0][0] == 's':
                return v[4][0]
        raise AnalysisError('boxes are built from contents that are not known')

    def on_nested(self, eng, s, fr, name, args, info):
        """a block container in the same formatting context: with its floats"""
        self.note(s, name, args, info)
        el = self.element_in(s, args)
        out = []
        for has in ('No', 'Yes'):
            s2 = s.fork()
            s2.facts[sym('floats in ' + el[1])] = has == 'Yes'
            out.append(('ret', s2, ('agg', 'tuple', '', None, (('boxes of', el, self.style_arg(s2, args)), self.var('ContainsFloats', has)), ())))
        return out

    def style_arg(self, s, args):
        for a in args:
            v = self.a.snapshot(s, a)
            if v[0] == 's' and v[1].startswith('style ') or v == sym('anonymous'):
                return v
        return sym('no style')

    def on_own(self, eng, s, fr, name, args, info):
        self.note(s, name, args, info)
        return [('ret', s, ('own boxes of', self.element_in(s, args), self.style_arg(s, args)))]

    def on_anonymous(self, eng, s, fr, name, args, info):
        self.note(s, name, args, info)
        v = args[0]
        ok = v[0] == 'agg' and v[3] == 'Some' and self.resolve(s, v[4][0]) == self.resolve(s, sym('style self'))
        return [('ret', s, sym('anonymous') if ok else sym('anonymous of another'))]

    def resolve(self, s, v):
        while v[0] in ('ref', 'cref'):
            v = self.a.read_ref(s, v)
        if v[0] == 's' and ('h', v) in s.mem:
            v = s.mem['h', v]
        return v

    # ------------------------------------------------------------------ boxes, decoded
    def arc_of(self, st, v):
        if v[0] == 'agg' and tail(v[2]) == 'Arc' and v[4][0][0] == 'ref':
            return self.a.read_ref(st, v[4][0]), v[4][0]
        return v, v

    def inlines(self, st, v):
        xs = unvec(v)
        if xs is None:
            raise AnalysisError('a list of inline boxes is not known: %s' % str(v)[:80])
        return [self.inline(st, x) for x in xs]

    def inline(self, st, v):
        v, _ = self.arc_of(st, v)
        k = v[3]
        if k == 'InlineBox':
            b = v[4][0]
            g = lambda n: self.get(st, b, 'InlineBox.' + n)
            return ('inline', g('style')[1], g('first_fragment')[1], g('last_fragment')[1], self.inlines(st, g('children')))
        if k == 'TextRun':
            b = v[4][0]
            return ('run', self.get(st, b, 'flow::inline::TextRun.parent_style')[1], self.string(self.get(st, b, 'flow::inline::TextRun.text')))
        return self.placed(st, v)

    def placed(self, st, v):
        kind = {'OutOfFlowAbsolutelyPositionedBox': 'AbsolutelyPositionedBox', 'OutOfFlowFloatBox': 'FloatBox'}.get(v[3])
        if kind is None:
            raise AnalysisError('a box of kind %s' % v[3])
        b = v[4][0]
        return ('abs' if kind[0] == 'A' else 'float', self.get(st, b, kind + '.style')[1], self.get(st, b, kind + '.contents'))

    def string(self, v):
        xs = unvec(v)
        if xs is None:
            raise AnalysisError('the text of a run is not known: %s' % str(v)[:80])
        return [(chr(x[1]) if isinstance(x[1], int) else x[1]) if x[0] == 'c' else x[1] for x in xs]

    def contained(self, st, v):
        if v[0] != 'agg':
            return v
        if v[3] == 'InlineFormattingContext':
            return ('lines', self.inlines(st, self.get(st, v[4][0], 'InlineFormattingContext.inline_level_boxes')))
        xs = unvec(v[4][0])
        if xs is None:
            raise AnalysisError('the list of blocks is not known: %s' % str(v[4][0])[:80])
        return ('blocks', [self.block_box(st, x) for x in xs])

    def block_box(self, st, v):
        v, _ = self.arc_of(st, v)
        if v[3] in ('SameFormattingContextBlock', 'Independent'):
            fs = [n for n, _ in one((x for x in self.p.enums[v[2]]['variants'] if x[0] == v[3]), 'variant')[1]]
            d = dict(zip(fs, v[4]))
            c = d['contents']
            return ('block' if v[3][0] == 'S' else 'root', d['style'][1], self.contained(st, c) if v[3][0] == 'S' else c)
        return self.placed(st, v)


def boxes():
    if not hasattr(boxes, 'x'):
        boxes.x = B()
    return boxes.x


# ---------------------------------------------------------------------- what CSS 2.1, 9.2 asks for
class Wanted:
    """the boxes of a container with some content"""
    def __init__(self, items, floats):
        self.blocks = []        # block-level boxes so far
        self.line = []          # inline-level boxes since the last block
        self.open = []          # inline boxes around the current place: [style, is this its first part?, children]
        self.last = None        # the last character since the last block: 'letter', 'space', or nothing
        self.floats = False
        self.nested = floats    # which blocks have floats in them
        self.slots = {}
        self.some_in_flow = False
        self.go(items, 'style self')
        if self.line and not self.blocks:
            self.result = ('lines', self.line)
        else:
            self.end_line()
            self.result = ('blocks', self.blocks)

    def here(self):
        return self.open[-1][2] if self.open else self.line

    def end_line(self):
        if self.line:
            self.blocks.append(('block', 'anonymous', ('lines', self.line)))
        self.line, self.last = [], None

    def go(self, items, parent):
        for it in items:
            if it[0] == 'text':
                self.text(it, parent)
            elif it[0] == 'contents':
                self.go(it[2], 'style ' + it[1])
            elif it[0] == 'inline':
                self.open.append(['style ' + it[1], True, []])
                self.go(it[2], 'style ' + it[1])
                style, first, kids = self.open.pop()
                b = ('inline', style, first, True, kids)
                self.here().append(b)
                self.slots[it[1]] = ('InlineLevel', b)
            else:
                self.box(*it[:2])

    def box(self, kind, name):
        el, style = sym('element ' + name), sym('style ' + name)
        own = ('own boxes of', el, style)
        if kind in ('abs', 'float'):
            self.floats |= kind == 'float'
            b = (kind, style[1], own)
            inline = bool(self.line or self.open)
            (self.here() if inline else self.blocks).append(b)
            self.slots[name] = ('InlineLevel' if inline else 'BlockLevel', b)
            return
        # a block: what is around it is split
        inner = None
        for o in reversed(self.open):
            part = ('inline', o[0], o[1], False, o[2] + ([inner] if inner else []))
            o[1], o[2] = False, []
            inner = part
        if inner:
            self.line.append(inner)
        self.end_line()
        if kind == 'block':
            self.floats |= self.nested.get(name, False)
            b = ('block', style[1], ('boxes of', el, style))
        else:
            b = ('root', style[1], own)
        self.blocks.append(b)
        self.slots[name] = ('BlockLevel', b)

    def text(self, it, parent):
        out = []
        for i, k in enumerate(it[2]):
            if k == '_':
                if (out and out[-1] == ' ') or (not out and self.last != 'letter'):
                    continue
                out.append(' ')
            else:
                out.append('%s%d%s' % (it[1], i, '' if k == 'a' else k))
        if not out:
            return
        self.last = 'space' if out[-1] == ' ' else 'letter'
        h = self.here()
        if h and h[-1][0] == 'run' and h[-1][1] == parent:
            h[-1][2].extend(out)
        else:
            h.append(('run', parent, out))


def as_html(items):
    out = ''
    for it in items:
        if it[0] == 'text':
            out += it[2].replace('_', ' ').replace('w', '\u00a0') if it[2] else ''
        else:
            out += '<%s>%s</>' % (it[0], as_html(it[2]))
    return out


def names_in(items):
    return [n for it in items if it[0] not in ('text',) for n in ([it[1]] if it[0] != 'contents' else []) + names_in(it[2])]


def blocks_in(items):
    """blocks whose content is laid out with that of the container"""
    return [n for it in items for n in ([it[1]] if it[0] == 'block' else blocks_in(it[2]) if it[0] in ('inline', 'contents') else [])]


def tree(t, count=None):
    """a case: items with names for its texts and elements"""
    count = count if count is not None else itertools.count(1)
    out = []
    for x in t:
        n = '%d' % next(count)
        if isinstance(x, str):
            out.append(('text', 't' + n, x[1:]) if x[0] == '"' else (x, 'E' + n, []))
        else:
            out.append((x[0], 'E' + n, tree(x[1:], count)))
    return out


def boxes_located(l, st, v, out):
    """every box of a container: (where it is, decoded)"""
    if v[0] != 'agg':
        return
    if v[3] == 'InlineFormattingContext' and tail(v[2]) == 'BlockContainer':
        for x in unvec(l.get(st, v[4][0], 'InlineFormattingContext.inline_level_boxes')):
            inline_located(l, st, x, out)
        return
    for x in unvec(v[4][0]):
        b, at = l.arc_of(st, x)
        out.append((at, 'BlockLevel', l.block_box(st, x)))
        if b[3] == 'SameFormattingContextBlock':
            fs = [n for n, _ in one((y for y in l.p.enums[b[2]]['variants'] if y[0] == b[3]), 'variant')[1]]
            boxes_located(l, st, dict(zip(fs, b[4]))['contents'], out)


def inline_located(l, st, x, out):
    b, at = l.arc_of(st, x)
    out.append((at, 'InlineLevel', l.inline(st, x)))
    if b[3] == 'InlineBox':
        for y in unvec(l.get(st, b[4][0], 'InlineBox.children')):
            inline_located(l, st, y, out)


def built(l, items):
    """(paths analysed, complaint or None) of the boxes of a container with that content"""
    n = 0
    try:
        for k, s, v in l.start(items):
            n += 1
            if k != 'ret':
                return n, 'panics: %s' % str(v[1] if len(v) > 1 else v)[:120]
            why = compare(l, s, v, items)
            if why:
                return n, why
    except AnalysisError as e:
        return n, 'cannot be told: %s' % e
    return n, None if n else 'has no result'


def compare(l, s, v, items):
    floats = {}
    for b in blocks_in(items):
        f = s.facts.get(sym('floats in element ' + b))
        if f is None:
            return 'the boxes in a block (%s) are never built' % b
        floats[b] = f
    w = Wanted(items, floats)
    got = l.contained(s, v[4][0])
    if got != w.result:
        return 'the boxes are %s instead of %s' % (short(got), short(w.result))
    if v[4][1][0] != 'agg' or v[4][1][3] != ('Yes' if w.floats else 'No'):
        return 'whether there are floats is %s' % (v[4][1][3] if v[4][1][0] == 'agg' else '?')
    where = []
    boxes_located(l, s, v[4][0], where)
    sets = {}
    for e in s.events():
        if e[0] == 'call' and e[3].get('key') == l.slot_set:
            slot, box = e[3]['vals'][:2]
            o = l.get(s, slot, 'BoxSlot.slot')
            if o[0] == 'agg' and o[3] == 'Some':
                sets.setdefault(o[4][0][1].replace('slot ', ''), []).append(box)
    for n in names_in(items):
        if len(sets.get(n, ())) != 1:
            return 'the box of an element (%s) is recorded %d times' % (n, len(sets.get(n, ())))
        kind, box = w.slots[n]
        b = sets[n][0]
        at = l.arc_of(s, b[4][0])[1]
        if b[3] != kind or not any(a == at and k == kind and d == box for a, k, d in where):
            return 'the box recorded for an element (%s) is not its box in the tree' % n
    return None


def short(x):
    """boxes, readably"""
    if isinstance(x, list):
        return '[%s]' % ' '.join(short(y) for y in x)
    if not isinstance(x, tuple):
        return str(x)
    if x[0] == 'run':
        return '"%s"%s' % ('.'.join(x[2]), x[1].replace('style', ''))
    if x[0] == 'inline':
        return '<%s%s%s>%s' % (x[1].replace('style ', ''), ' first' if x[2] else '', ' last' if x[3] else '', short(x[4]))
    if x[0] in ('lines', 'blocks'):
        return x[0] + short(x[1])
    return '{%s}' % ' '.join(short(y) for y in x if y != ())


def seqs(xs, least, most):
    for n in range(least, most + 1):
        yield from itertools.product(xs, repeat=n)


def shapes(least, most, of='a_'):
    return ['"' + ''.join(x) for x in seqs(of, least, most)]


LEAVES = ('"a', '"_', 'block', 'abs', 'float')


IN_PARALLEL = 'blocks on several threads'


def cases(thorough):
    more = 1 if thorough else 0
    kinds = LEAVES + ('root', ('inline',), ('inline', 'block'), ('inline', '"a'), ('inline', '"_'), ('contents', '"a'))
    yield 'content in a row', list(seqs(kinds, 0, 3 + more))
    opt = (None, '"a', '"_', 'block', 'float') + (('abs',) if thorough else ())
    nest = []
    for x, y, z, w in itertools.product(opt, repeat=4):
        for q in (None, '"_a') + (('block', 'abs') if thorough else ()):
            inner = tuple(i for i in ('inline', y, z) if i)
            outer = tuple(i for i in ('inline', x, inner, w) if i)
            nest.append(tuple(i for i in (outer, q) if i))
    yield 'nested inline boxes', nest
    yield IN_PARALLEL, list(seqs(('block', '"a', 'float', 'root', 'inline'), 2, 3 + more))
    one_ = shapes(0, 5 + more) + shapes(0, 3 + more, 'a_w')
    deep = []

    def chain(n, xs):
        for _ in range(n):
            xs = [('inline',) + tuple(xs)]
        return xs
    for c, i, j in itertools.product(range(3 + more), range(3 + more), range(3 + more)):
        for x, y in itertools.product(('"a', '"a_', 'block', 'abs', 'float'), ('"_a', '"a', 'abs', 'float', 'block')):
            deep.append(tuple(chain(c, chain(i, [x]) + chain(j, [y]))))
            if i and j and c:
                deep.append(tuple(chain(c, chain(i, [x, 'abs']) + ['abs'] + chain(j, ['abs', y]))))
    yield 'deep inline boxes', deep
    yield 'one text', [(t,) for t in one_]
    two = []
    for a in shapes(0, 3 + more):
        for b in shapes(0, 3):
            two += [(a, b), (a, ('contents', b)), (('contents', a), b), (a, ('inline', b)), (('inline', a), b), (('inline', a), ('inline', b)),
                    (a, 'block', b), (a, 'abs', b), (('inline', a, ('inline',)), b), (a, ('inline', 'block', b)), (a, ('inline', ('contents', b)))]
    yield 'two texts', two


def worker(split, job):
    l = boxes()
    l.a.par_split = split
    out = []
    for t in job:
        out.append((t,) + built(l, tree(t)))
        if sum(1 for x in out if x[2]) == 3:
            break       # what is wrong is wrong
    return out


@check('B01', 'the boxes made of scripted content are those of CSS 2.1, 9.2: anonymous blocks, split inline boxes, merged and collapsed texts', level='other')
def b01(R):
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing
    l = boxes()
    where = l.p.bodies[l.build]
    R.fn(l.build)
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork')) as ex:
        for group, ts in cases(R.thorough):
            ts = list(dict.fromkeys(ts))
            jobs = [ts[i::64] for i in range(64) if ts[i::64]]
            bad, paths = [], 0
            for res in ex.map(worker, [group == IN_PARALLEL] * len(jobs), jobs):
                for t, n, why in res:
                    paths += n
                    if why:
                        bad.append((len(str(t)), as_html(tree(t)), why))
            bad.sort()
            R.floor('contents: ' + group, len(ts), 20)
            R.ob('%s: %d contents, %d paths' % (group, len(ts), paths), not bad, where_of(l), '' if not bad else
                 'boxes of "%s": %s (and %d others)' % (bad[0][1], bad[0][2], len(bad) - 1), group, bad[0][1] if bad else '')


def where_of(l):
    return disp(l.p, l.build)
