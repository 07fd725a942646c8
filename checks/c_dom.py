"""The document tree: links, traversals, construction by the parsers."""
import itertools
import atoms
import c_style as C
import engine
import models
from absint import State
from common import disp, program, sh
from domx import Dom, LINKS, one
from front import AnalysisError
from report import check

NONE = models.NONE
some = models.some
NODE = 'dom::Node'


def nid(n):
    return ('agg', 'adt', 'dom::NodeId', None, (('c', n, 'usize'),), ())


class Shape:
    """Part of a document: named nodes, some child lists given as sequences of names and '..' (nodes that are there
    but not looked at; never first or last), every other link an unknown of its own"""
    ids = {}

    def __init__(self, D, lists, loose=(), kinds=None, elements=None):
        self.D = D
        self.kinds = kinds or {}
        self.elements = elements or {}
        self.link = {}
        for parent, seq in lists.items():
            self.family(parent, seq)
        for n in loose:
            for l in ('parent', 'previous_sibling', 'next_sibling'):
                self.link[n, l] = NONE
        for n in {n for n, l in self.link}:
            for l in LINKS:
                if n == 'new' or n == 'doc' and l not in ('first_child', 'last_child'):
                    self.link.setdefault((n, l), NONE)
                self.link.setdefault((n, l), ('s', '%s.%s' % (n, l)))

    def id(self, name):
        if name == 'doc':
            return nid(1)
        return nid(self.ids.setdefault(name, 1000 + len(self.ids)))

    def ref(self, name):
        return some(self.id(name))

    def family(self, parent, seq):
        if parent is not None:
            self.link[parent, 'first_child'] = self.ref(seq[0]) if seq else NONE
            self.link[parent, 'last_child'] = self.ref(seq[-1]) if seq else NONE
        for i, n in enumerate(seq):
            if n == '..':
                continue
            for l, j in (('previous_sibling', i - 1), ('next_sibling', i + 1)):
                if not 0 <= j < len(seq):
                    v = NONE
                elif seq[j] == '..':
                    v = self.ref('%s beyond %s' % (l, n))
                else:
                    v = self.ref(seq[j])
                self.link[n, l] = v
            self.link[n, 'parent'] = self.ref(parent) if parent is not None else NONE

    def names(self):
        return sorted({n for n, l in self.link})

    def data(self, n):
        k = 'Document' if n == 'doc' else self.kinds.get(n)
        if k is None:
            return ('s', n + '.data')
        el = self.element(n)
        fs = {'Text': (('s', n + '.contents'),), 'Element': (el,),
              'Comment': (('s', n + '.comment'),), 'Document': (),
              'Doctype': tuple(('s', n + '.' + x) for x in ('name', 'public', 'system')),
              'ProcessingInstruction': tuple(('s', n + '.' + x) for x in ('target', 'contents'))}[k]
        return ('agg', 'adt', self.D.NodeData, k, fs, ())

    def element(self, n):
        if n not in self.elements:
            return ('s', n + '.element')
        D = self.D
        ns, local, attrs = self.elements[n]
        av = ('vec0',)
        for a_ns, a_local, value in attrs:
            f = [None] * len(D.afield)
            f[D.afield['name']], f[D.afield['value']] = qname(a_ns, a_local), value
            av = ('vpush', av, ('agg', 'adt', D.Attribute, None, tuple(f), ()))
        f = [('s', '%s.%s' % (n, x)) for x in sorted(D.efield, key=D.efield.get)]
        f[D.efield['name']], f[D.efield['attrs']] = qname(ns, local), av
        return ('agg', 'adt', D.ElementData, None, tuple(f), ())

    def state(self):
        st = State()
        D = self.D
        for n in self.names():
            fs = [None] * len(D.field)
            for l in LINKS:
                fs[D.field[l]] = self.link[n, l]
            fs[D.field['data']] = self.data(n)
            if None in fs:
                raise AnalysisError('dom::Node has a field that is not known here')
            st.mem[('h', ('node', self.id(n)))] = ('agg', 'adt', D.Node, None, tuple(fs), ())
        return st

    def diff(self, st, new=None):
        """links that are not as they are here (after a run), as text; new: the id given to node 'new'"""
        sub = {self.id('new'): new} if new is not None else {}
        out = []
        for (n, l), want in sorted(self.link.items()):
            i = self.id(n)
            got = self.D.now(st, sub.get(i, i), l)
            want = replace(want, sub)
            if norm(got) != norm(want):
                out.append('%s.%s is %s, not %s' % (n, l, self.say(got), self.say(want)))
        return out

    def say(self, v):
        v = norm(v)
        for n, i in self.ids.items():
            if v == norm(some(nid(i))):
                return n
        if v == norm(NONE):
            return 'none'
        return sh(v)[:60]


def atom(name, kind):
    return ('agg', 'adt', 'string_cache::Atom', None,
            (('c', atoms.encode(name, kind), 'u64'), ('agg', 'adt', 'std::PhantomData', None, (), ())), ())


def qname(ns, local):
    """QualName with a prefix that is not known"""
    return ('agg', 'adt', 'html5ever::QualName', None,
            (('s', 'prefix'), atom(atoms.NS[ns], 'Namespace'), atom(local, 'LocalName')), ())


def replace(t, sub):
    if not sub:
        return t
    if t in sub:
        return sub[t]
    if isinstance(t, tuple):
        return tuple(replace(x, sub) for x in t)
    return t


def norm(t):
    """Some(x.Some.0) is x"""
    if t[0] == 'agg' and t[2] == 'std::Option' and t[3] == 'Some' and t[4][0][0] == 'vfld' and t[4][0][2] == 'Some':
        return t[4][0][1]
    return t


class Tree:
    def __init__(self):
        self.p = p = program('victor')
        self.a = a = engine.Analyzer(p)
        a.merge = False
        a.unroll, a.unroll_any, a.unroll_width = 100, True, 1000
        self.D = Dom(p, a)
        self.sinks = [im for im in p.impls if im.trait and im.trait.rsplit('::', 1)[-1] == 'TreeSink']
        im = one(self.sinks, 'TreeSink implementation')
        self.sink = im.for_[1]
        self.m = im.methods
        self.a.opaque_hook = self.hook
        self.fresh = {}

    def hook(self, eng, s, fr, name, args, info):
        return self.D.hook(eng, s, fr, name, args, info)


def T():
    if not hasattr(T, 'x'):
        T.x = Tree()
    return T.x


# ------------------------------------------------------------------ runs of the sink's methods
def nodes_vec(doc_ptr_loc, D, st, a):
    return a.load(st, doc_ptr_loc, (('field', D.dfield['nodes']),))


OLD = ('vpush', ('vpush', ('s', 'older'), ('s', 'node a')), ('s', 'node b'))


def sink_state(t, shape):
    """the sink behind the pointer arg1, its document holding at least the two first nodes"""
    st = shape.state()
    D = t.D
    nodes = OLD
    doc = [None] * len(D.dfield)
    doc[D.dfield['nodes']] = nodes
    for n, i in D.dfield.items():
        if doc[i] is None:
            doc[i] = ('s', 'doc.' + n)
    fs = []
    for n, ty in t.p.structs[t.sink]['fields']:
        if ty == ('path', D.Document, ()):
            fs.append(('agg', 'adt', D.Document, None, tuple(doc), ()))
        else:
            fs.append(('s', 'sink.' + n))
    st.mem['h', ('s', 'arg1')] = ('agg', 'adt', t.sink, None, tuple(fs), ())
    return st


def call(t, r, method, shape, args, where):
    """the one way the method can go; None (reported) if there is more than one or it can panic"""
    key = t.m.get(method)
    if key is None or key not in t.p.bodies:
        r.violate('method', where, 'the tree builder interface has no %s of its own' % method, key=method)
        return None
    r.fn(disp(t.p, key))
    outs = t.D.run(key, args=[('s', 'arg1')] + list(args), st=sink_state(t, shape))
    bad = [o for o in outs if o[0] != 'ret']
    if bad:
        r.violate('panic', where, 'can panic: %s' % (bad[0][2],), key='panic:' + where)
        return None
    if len(outs) != 1:
        r.violate('decided', where, '%d outcomes where the links decide what has to happen' % len(outs), key='paths:' + where)
        return None
    return outs[0]


def same_links(r, where, o, after, new=None, key=None):
    d = after.diff(o[1], new)
    r.ob('links', not d, where, '; '.join(d[:3]) or 'every link as required', key=key or where)


def append_node(t, child):
    return node_or_text(t, 'AppendNode', child)


def node_or_text(t, variant, x):
    return ('agg', 'adt', 'html5ever::NodeOrText', variant, (x,), ())


SIDES = ([], ['{}1'], ['{}1', '..', '{}2'])


def around(pre, x, post, a='A', b='B'):
    return [n.format(a) for n in pre] + x + [n.format(b) for n in post]


@check('D01', rule='after every operation of the tree builder on the document, run on every shape the surroundings of the '
       'nodes involved can have, the links are those of the changed tree',
       trusted=('html5ever hands out node ids it got from this document and no cycles (a node is not put below itself)',))
def d01(r):
    t = T()
    D = t.D
    n = 0
    places = []                 # where a node N may be: (lists, loose, lists without N)
    places.append(({}, ['N'], {}))
    for pre, post in itertools.product(SIDES, SIDES):
        places.append(({'Q': around(pre, ['N'], post)}, [], {'Q': around(pre, [], post)}))
    r.floor('positions of a node in a child list', len(places), 10)

    def ref(x):
        return ('cref', x)
    # taken out
    for lists, loose, rest in places:
        sh_, after = Shape(D, lists, loose), Shape(D, rest, ['N'])
        o = call(t, r, 'remove_from_parent', sh_, [ref(sh_.id('N'))], 'taking a node out of %s' % say(lists))
        n += 1
        if o:
            same_links(r, 'taking a node out of %s' % say(lists), o, after)
    # put last
    targets = [[], ['C'], ['C', '..', 'D']]
    jobs = []
    for (lists, loose, rest), kids in itertools.product(places, targets):
        jobs.append((dict(lists, P=kids), loose, dict(rest, P=kids + ['N'])))
    for seq in targets[1:]:         # already a child of P
        for i in range(len(seq) + 1):
            full = seq[:i] + ['N'] + seq[i:]
            if '..' in full and abs(full.index('N') - full.index('..')) == 1:
                continue
            jobs.append(({'P': full}, [], {'P': [x for x in full if x != 'N'] + ['N']}))
    jobs.append(({'P': ['N']}, [], {'P': ['N']}))
    for seq in (['P', 'N'], ['N', 'P'], ['A', 'P', 'N', 'B'], ['A', 'N', 'P', 'B'], ['N', 'A', 'P'], ['P', 'A', 'N'],
                ['A', '..', 'B', 'N', 'P'], ['P', 'N', 'B', '..', 'E']):
        for kids in targets:        # below a sibling
            jobs.append(({'Q': seq, 'P': kids}, [], {'Q': [x for x in seq if x != 'N'], 'P': kids + ['N']}))
    for kids in targets:            # from a child of P's child list to P's parent
        jobs.append(({'P': ['A', 'Q'], 'Q': ['N'] + kids}, [], {'P': ['A', 'Q', 'N'], 'Q': kids}))
    for before, loose, after in jobs:
        s = Shape(D, before, loose)
        w = 'putting a node last: %s becomes %s' % (say(before), say(after))
        o = call(t, r, 'append', s, [ref(s.id('P')), append_node(t, s.id('N'))], w)
        n += 1
        if o:
            same_links(r, w, o, Shape(D, after, [] ))
    # put before
    jobs = []
    for pre, post in itertools.product(SIDES, SIDES):
        dst = around(pre, ['S'], post, 'C', 'D')
        done = around(pre, ['N', 'S'], post, 'C', 'D')
        for lists, loose, rest in places:
            jobs.append((dict(lists, P=dst), loose, dict(rest, P=done)))
        for seq in ([] if '..' in dst[1:2] else [['N'] + dst], around(pre, ['N', 'S'], post), around(pre, ['S', 'N'], post),
                    dst + ['N'] if '..' not in dst else [], around(pre, ['N', 'M', 'S'], post), around(pre, ['S', 'M', 'N'], post)):
            if seq and isinstance(seq[0], list):
                seq = seq[0]
            if seq:
                out = [x for x in seq if x != 'N']
                i = out.index('S')
                jobs.append(({'P': seq}, [], {'P': out[:i] + ['N'] + out[i:]}))
    for before, loose, after in jobs:
        s = Shape(D, before, loose)
        w = 'putting a node before another: %s becomes %s' % (say(before), say(after))
        o = call(t, r, 'append_before_sibling', s, [ref(s.id('S')), append_node(t, s.id('N'))], w)
        n += 1
        if o:
            same_links(r, w, o, Shape(D, after, []))
    # to whichever of the two places
    for loose in (True, False):
        for kids in targets:
            before = {'Q': kids} if loose else {'P': ['A', 'E', 'B'], 'Q': kids}
            after = {'Q': kids + ['N']} if loose else {'P': ['A', 'N', 'E', 'B'], 'Q': kids}
            s = Shape(D, before, ['N', 'E'] if loose else ['N'])
            w = 'a node for a table %s parent' % ('without a' if loose else 'with a')
            o = call(t, r, 'append_based_on_parent_node', s, [ref(s.id('E')), ref(s.id('Q')), append_node(t, s.id('N'))], w)
            n += 1
            if o:
                same_links(r, w, o, Shape(D, after, ['E'] if loose else []), key='%s, %s' % (w, say(after)))
    # a doctype
    for kids in targets:
        s = Shape(D, {'doc': kids})
        w = 'a doctype below %s' % say({'doc': kids})
        o = call(t, r, 'append_doctype_to_document', s, [('s', 'name'), ('s', 'public'), ('s', 'system')], w)
        n += 1
        if o:
            same_links(r, w, o, Shape(D, {'doc': kids + ['new']}), pushed(t, o[1]))
    # all children of one node to another
    for m in range(5):
        kids = ['K%d' % i for i in range(m)]
        for dst in targets:
            s = Shape(D, {'Q': kids, 'P': dst})
            w = '%d children moved below %s' % (m, say({'P': dst}))
            o = call(t, r, 'reparent_children', s, [ref(s.id('Q')), ref(s.id('P'))], w)
            n += 1
            if o:
                same_links(r, w, o, Shape(D, {'Q': [], 'P': dst + kids}))
    r.floor('shapes', n, 220)


def pushed(t, st):
    """id of the only node the path added"""
    D = t.D
    for f, (nm, ty) in enumerate(t.p.structs[t.sink]['fields']):
        if ty == ('path', D.Document, ()):
            v = t.a.load(st, ('h', ('s', 'arg1')), (('field', f), ('field', D.dfield['nodes'])))
            if v[0] == 'vpush' and v[1] == OLD:
                return ('agg', 'adt', 'dom::NodeId', None, (t.a.length_of(v[1]),), ())
    return None


def say(lists):
    return ', '.join('%s[%s]' % (p, ' '.join(s)) for p, s in sorted(lists.items())) or 'nowhere'


# ------------------------------------------------------------------ walks
def forests(n):
    """all ordered forests of n nodes, as tuples of trees (tuples)"""
    if n == 0:
        return [()]
    return [((a,) + b) for k in range(1, n + 1) for a in forests(k - 1) for b in forests(n - k)]


def spread(forest, parent='doc', names=None, lists=None):
    """(nodes in tree order, child lists)"""
    names = [] if names is None else names
    lists = {} if lists is None else lists
    kids = []
    lists[parent] = kids
    for t in forest:
        n = 'n%d' % len(names)
        names.append(n)
        kids.append(n)
        spread(t, n, names, lists)
    return names, lists


def drain(t, st, it):
    """(state, values) the iterator hands out, if that is decided"""
    a = t.a
    a.opaque |= t.D.index
    a.merge = False
    outs = a.entry('vsa::prelude::collect_vec', args=[it], st=st)
    if len(outs) != 1 or outs[0][0] != 'ret':
        return None
    v = outs[0][2]
    got = []
    while v[0] == 'vpush':
        got.append(v[2])
        v = v[1]
    return (outs[0][1], got[::-1]) if v == ('vec0',) else None


def pieces(v):
    """what a string is made of"""
    if v == ('vec0',) or v[0] == 'c' and v[1] in ('', b''):
        return []
    if v[0] == 'vext':
        return pieces(v[1]) + [v[2]]
    if v[0] == 'conv':
        return pieces(v[1])
    return [v]


def own(t, name, what):
    """the function of that name, wherever it is"""
    return one((k for k in t.p.bodies if k.rsplit('::', 1)[-1] == name and not k.startswith(('vsa::', 'promoted['))), what)


def loc_of(t, st, ptr):
    """(node id, projections) a reference points at, after reading through copies of it"""
    while ptr[0] == 'cref':
        ptr = ptr[1]
    if ptr[0] == 'ref' and ptr[1][0] == 'h' and ptr[1][1][0] == 'node':
        return ptr[1][1][1], tuple(x for x in ptr[2])
    return None


class quiet:
    """functions whose calls are only recorded"""

    def __init__(self, t, *names):
        self.t, self.names = t, names

    def __enter__(self):
        self.saved = set(self.t.a.opaque)
        for n in self.names:
            ks = [k for k in self.t.p.bodies if k.rsplit('::', 1)[-1] == n or k == n]
            if not ks:
                raise AnalysisError('no function ' + n)
            self.t.a.opaque |= set(ks)

    def __exit__(self, *x):
        self.t.a.opaque = self.saved


LINK = ('html', 'link')


def shaped(f):
    s = str(f)
    return s if len(s) < 40 else '%s… (%d characters)' % (s[:30], len(s))


def tall():
    """a few much larger forests: deep, wide, and combs"""
    deep, left, right = (), (), ()
    for _ in range(12):
        deep = (deep,)
        left = (left, ())
        right = ((), right)
    return [deep + ((),), ((),) * 12, left, right, (deep, left) + ((),)]


@check('D02', rule='run on every document tree up to a size, each walk visits exactly the nodes it is for, once each, in tree order; '
       'per node, the condition under which it counts is the required one',
       trusted=('the links are those of a tree (D01)', 'html5ever and string_cache compare names as their types say'))
def d02(r):
    t = T()
    D, a = t.D, t.a
    links(r, t)
    sheets(r, t)
    root(r, t)
    children(r, t)


def links(r, t):
    D = t.D
    key = own(t, 'html_link_elements', 'html_link_elements')
    r.fn(disp(t.p, key))
    n = 0

    def got(shape, where):
        outs = t.D.run(key, st=shape.state())
        res = drain(t, outs[0][1], outs[0][2]) if len(outs) == 1 and outs[0][0] == 'ret' else None
        if res is None:
            r.violate('decided', where, 'the links handed out are not decided by the tree', key='links ' + where)
            return None
        return [tuple(sh(t.a.read_ref(res[0], x)) for x in v[4]) if v[0] == 'agg' and len(v[4]) == 2 else sh(v) for v in res[1]]
    size = 6 if r.thorough else 5
    for k in range(size + 2):
        for f in forests(k) if k <= size else tall():
            names, lists = spread(f)
            el = {m: LINK + ([('', 'rel', ('s', m + '.rel')), ('', 'href', ('s', m + '.href'))],) for m in names}
            w = 'link elements of a document shaped %s' % shaped(f)
            g = got(Shape(D, lists, [], {m: 'Element' for m in names}, el), w)
            n += 1
            if g is not None:
                r.ob('order', g == [(m + '.rel', m + '.href') for m in names], w, 'handed out: %s' % g, key='link order %s' % shaped(f))
    rel, href = ('', 'rel', ('s', 'REL')), ('', 'href', ('s', 'HREF'))
    for name, attrs, want in (
            (LINK, [rel, href], True), (LINK, [href, rel], True), (LINK, [rel], False), (LINK, [href], False), (LINK, [], False),
            (LINK, [('', 'class', ('s', 'C')), href, ('', 'title', ('s', 'T')), rel], True),
            (LINK, [('svg', 'rel', ('s', 'X')), href], False), (LINK, [rel, ('svg', 'href', ('s', 'X'))], False),
            (LINK, [('svg', 'href', ('s', 'X')), rel, href], True), (LINK, [rel, ('html', 'rel', ('s', 'X')), href], True),
            (('svg', 'link'), [rel, href], False), (('html', 'a'), [rel, href], False), (('html', 'style'), [rel, href], False)):
        w = '%s:%s with attributes %s' % (name + (' '.join('%s:%s' % x[:2] for x in attrs) or 'none',))
        g = got(Shape(D, {'doc': ['E'], 'E': []}, [], {'E': 'Element'}, {'E': name + (attrs,)}), w)
        n += 1
        if g is not None:
            r.ob('which', g == ([('REL', 'HREF')] if want else []), w, 'handed out: %s' % g, key='link ' + w)
    for k in ('Text', 'Comment', 'ProcessingInstruction', 'Doctype'):
        w = 'a %s before a link' % k
        g = got(Shape(D, {'doc': ['X', 'E'], 'X': [], 'E': []}, [], {'X': k, 'E': 'Element'}, {'E': LINK + ([rel, href],)}), w)
        n += 1
        if g is not None:
            r.ob('which', g == [('REL', 'HREF')], w, 'handed out: %s' % g, key='link ' + w)
    r.floor('documents for links', n, 50)


def sheets(r, t):
    D = t.D
    key = own(t, 'parse_stylesheets', 'parse_stylesheets')
    r.fn(disp(t.p, key))
    STYLE = ('html', 'style')
    n = 0

    def got(shape, where):
        """[(facts, texts added)] of every way it can go"""
        with quiet(t, 'add_stylesheet'):
            outs = t.D.run(key, st=shape.state())
        if any(o[0] != 'ret' for o in outs):
            r.violate('panic', where, 'can panic: %s' % ([o[2] for o in outs if o[0] != 'ret'][0],), key='sheets ' + where)
            return []
        res = []
        for _, st, v in outs:
            evs = st.events()
            if any(e[0] == 'loop' for e in evs):
                r.violate('decided', where, 'the style sheets are not decided by the tree', key='sheets ' + where)
                return []
            ts = [[sh(x) for x in pieces(t.a.read_ref(st, e[3]['vals'][1]) if e[3]['vals'][1][0] == 'ref' else e[3]['vals'][1])]
                  for e in evs if e[0] == 'call' and e[1].rsplit('::', 1)[-1] == 'add_stylesheet']
            res.append((st, ts))
        return res
    size = 4 if r.thorough else 3
    for k in range(size + 2):
        for f in forests(k) if k <= size else tall():
            names, lists = spread(f)
            kinds, el = {}, {}
            for m in names:
                kinds[m], el[m] = 'Element', STYLE + ([],)
                lists[m] = [m + '.text'] + lists[m]
                lists[m + '.text'] = []
                kinds[m + '.text'] = 'Text'
            w = 'style elements of a document shaped %s' % shaped(f)
            g = got(Shape(D, lists, [], kinds, el), w)
            n += 1
            for st, ts in g:
                r.ob('order', ts == [[m + '.text.contents'] for m in names], w, 'style sheets in order: %s' % ts, key='sheet order %s' % shaped(f))
    for seq in itertools.chain.from_iterable(itertools.product(('Text', 'Comment', 'Element'), repeat=k) for k in range(5 if r.thorough else 4)):
        names = ['k%d' % i for i in range(len(seq))]
        lists = {'doc': ['R'], 'R': names}
        kinds, el = {'R': 'Element'}, {'R': STYLE + ([],)}
        for m, k in zip(names, seq):
            kinds[m] = k
            lists[m] = [m + '.inner'] if k == 'Element' else []
            if k == 'Element':
                el[m] = ('html', 'b', [])
                kinds[m + '.inner'] = 'Text'
                lists[m + '.inner'] = []
        w = 'text of a style element with children %s' % (', '.join(seq) or 'none')
        g = got(Shape(D, lists, [], kinds, el), w)
        n += 1
        for st, ts in g:
            want = [m + '.contents' for m, k in zip(names, seq) if k == 'Text']
            r.ob('text', ts == [want], w, 'text of the style sheet: %s' % ts, key=w)
    for name, attrs, want in ((STYLE, [], True), (STYLE, [('', 'type', ('c', 'text/css', '&str'))], True), (STYLE, [('', 'type', ('c', '', '&str'))], True),
                              (STYLE, [('', 'type', ('c', 'Text/CSS', '&str'))], True), (STYLE, [('', 'type', ('c', 'text/less', '&str'))], False),
                              (STYLE, [('', 'type', ('c', 'text/css2', '&str'))], False), (STYLE, [('', 'type', ('c', 'css', '&str'))], False),
                              (STYLE, [('svg', 'type', ('c', 'text/less', '&str'))], True), (STYLE, [('', 'class', ('c', 'x', '&str'))], True),
                              (('svg', 'style'), [], False), (('html', 'title'), [], False)):
        w = '%s:%s with attributes %s' % (name + (' '.join('%s:%s=%r' % (x[0], x[1], x[2][1]) for x in attrs) or 'none',))
        g = got(Shape(D, {'doc': ['R'], 'R': ['x'], 'x': []}, [], {'R': 'Element', 'x': 'Text'}, {'R': name + (attrs,)}), w)
        n += 1
        for st, ts in g:
            r.ob('which', ts == ([['x.contents']] if want else []), w, 'style sheets: %s' % ts, key='sheet ' + w)
    r.floor('documents for style sheets', n, 50)


def root(r, t):
    D = t.D
    key = own(t, 'root_element', 'root_element')
    r.fn(disp(t.p, key))
    n = 0
    for seq in itertools.chain.from_iterable(itertools.product(('Comment', 'Doctype', 'ProcessingInstruction'), repeat=k) for k in range(3)):
        for i in range(len(seq) + 1):
            kinds = {'k%d' % j: k for j, k in enumerate(seq)}
            kids = list(kinds)
            kids.insert(i, 'E')
            kinds['E'] = 'Element'
            w = 'root element of a document with %s' % ', '.join(kinds[x] for x in kids)
            s = Shape(D, dict({x: [] for x in kids}, doc=kids), [], kinds)
            outs = D.run(key, st=s.state())
            n += 1
            r.ob('root', len(outs) == 1 and outs[0][0] == 'ret' and outs[0][2] == s.id('E'), w,
                 'result: %s' % [sh(o[2])[:60] if o[0] == 'ret' else o[2] for o in outs], key=w)
    r.floor('documents for the root element', n, 20)


def children(r, t):
    """the box tree is made from every child of an element"""
    p, D, a = t.p, t.D, t.a
    enum = one((e for e in p.enums if e.rsplit('::', 1)[-1] == 'NonReplacedContents'), 'NonReplacedContents')
    key = one((k for im in p.impls if im.for_[:2] == ('path', enum) for n, k in im.methods.items() if n == 'traverse'), 'NonReplacedContents::traverse')
    disp_enum = one((e for e in p.enums if e.rsplit('::', 1)[-1] == 'Display'), 'Display')
    dv = [v[0] for v in p.enums[disp_enum]['variants']]
    n = 0
    kindsets = [c for k in range(3) for c in itertools.product(('Text', 'Element', 'Comment', 'Doctype', 'ProcessingInstruction'), repeat=k)]
    kindsets += list(itertools.product(('Text', 'Element', 'Comment'), repeat=3))
    with quiet(t, 'style_for_element', 'for_element', 'unset_boxes_in_subtree', 'element_box_slot'):
        for seq in kindsets:
            names = ['k%d' % i for i in range(len(seq))]
            kinds = dict(zip(names, seq), R='Element')
            s = Shape(D, {'R': names}, [], kinds)
            outs = D.run(key, args=[('agg', 'adt', enum, 'OfElement', (s.id('R'),), ()), ('s', 'style'), ('s', 'context'), ('s', 'handler')], st=s.state())
            where = 'children %s' % (', '.join(seq) or 'none')
            bad = [o for o in outs if o[0] == 'panic' and not str(o[2][0]).endswith('AtomicRefCell::borrow_mut')]
            if bad:
                r.violate('panic', where, 'can panic: %s' % (bad[0][2],), key='children panic ' + where)
            for kind, st, v in outs:
                if kind != 'ret':
                    continue
                n += 1
                child(r, t, s, names, seq, st, where, dv)
    for k in a.analysed:
        if 'dom_traversal' in k:
            r.fn(disp(p, k))
    r.floor('ways to go through children', n, 300)


def child(r, t, s, names, seq, st, where, dv):
    evs = [e for e in st.events() if e[0] in ('call', 'loop')]
    if any(e[0] == 'loop' for e in evs):
        r.violate('decided', where, 'the children visited are not decided by the tree', key='children ' + where)
        return
    last = lambda e: e[1].rsplit('::', 1)[-1]
    style = {}          # child -> result of the cascade for it
    repl = {}
    acts = []
    for e in evs:
        if last(e) == 'style_for_element':
            for m in names:
                if s.id(m) in e[2]:
                    style[m] = e[3].get('res')
                    par = e[2][-1]
                    if par not in (some(('s', 'style')), some(('deref', ('s', 'style'))), some(('deref', ('deref', ('s', 'style'))))) \
                            and not C.contains(par, ('s', 'style')):
                        r.violate('parent style', where, 'the style of a child inherits from %s' % sh(par)[:60], key='parent style ' + where)
        elif last(e) == 'for_element':
            for m in names:
                if s.id(m) in e[2]:
                    repl[m] = e[3].get('res')
        elif last(e) in ('handle_text', 'handle_element', 'unset_boxes_in_subtree') or any(
                isinstance(x, tuple) and x == ('s', 'handler') for x in e[2]):
            acts.append(e)
    want = []
    for m, k in zip(names, seq):
        if k == 'Text':
            want.append(('text', m))
        elif k == 'Element':
            d = None
            if m in style:
                for f, v in st.facts.items():
                    if f[0] == 'dis' and isinstance(v, int) and C.contains(f[1], style[m]) and not C.contains(f[1], ('none',)) and is_display(f[1], style[m]):
                        d = dv[v]
            rp = None
            if m in repl:
                rp = C.truth(st, ('dis', repl[m]))
                rp = st.facts.get(('dis', repl[m]))
            want.append((d, m, rp))
    got = []
    for e in acts:
        nm = last(e)
        vals = e[3].get('vals') or e[2]
        if nm == 'handle_text':
            l = loc_of(t, st, e[2][1])
            m = [x for x in names if l and l[0] == s.id(x)]
            ok = m and vals[1] in (('s', m[0] + '.contents'), ('ref', ('h', ('node', s.id(m[0]))), (('field', t.D.field['data']), ('downcast', 'Text'), ('field', 0)), 'shr'))
            got.append(('text', m[0] if m and ok else '?', strip(t, st, e[2][2]) == ('s', 'style')))
        elif nm == 'handle_element':
            c = e[2][3]
            m = [x for x in names if C.contains(c, s.id(x)) or x in repl and C.contains(c, repl[x])]
            m = m[0] if len(m) == 1 else '?'
            sty = m in style and C.contains(vals[1], style[m])
            inner = m in style and C.contains(e[2][2], style[m])
            slot = C.contains(e[2][4], s.id(m)) if m != '?' else False
            got.append(('element', m, c[3] if c[0] == 'agg' else '?', bool(sty and inner and slot)))
        elif nm == 'unset_boxes_in_subtree':
            m = [x for x in names if s.id(x) in e[2]]
            got.append(('unset', m[0] if m else '?'))
        else:
            m = [x for x in names if any(C.contains(y, s.id(x)) for y in e[2])]
            m = m[0] if len(m) == 1 else '?'
            sty = m in style and any(C.contains(y, style[m]) for y in vals)
            got.append(('inner', m, e[3].get('key') in t.a.analysed, bool(sty)))
    exp = []
    for w in want:
        if w[0] == 'text':
            exp.append(('text', w[1], True))
        elif w[0] == 'None' or w[0] == 'Contents' and w[2] == 1:
            exp.append(('unset', w[1]))
        elif w[0] == 'Contents' and w[2] == 0:
            exp.append(('inner', w[1], True, True))
        elif w[0] == 'GeneratingBox' and w[2] in (0, 1):
            exp.append(('element', w[1], 'Replaced' if w[2] else 'OfElement', True))
        else:
            exp.append(('?',) + w)
    w = '%s, shown as %s' % (where, ', '.join('%s%s' % (x[0], '' if x[0] == 'text' else ' replaced' if x[2] else '') for x in want) or 'nothing')
    r.ob('children', got == exp, w, 'handled: %s; required: %s' % (got, exp) if got != exp else 'each child once, in order', key=w)


def is_display(term, style):
    """a field of the box properties of a style: the only thing tested is its display"""
    return term != style


def strip(t, st, x):
    for _ in range(4):
        if x[0] == 'cref':
            x = x[1]
        elif x[0] == 'ref' and x[1][0] == 'l':
            x = t.a.read_ref(st, x)
        else:
            return x
    return x


# ------------------------------------------------------------------ construction
def vec(xs):
    v = ('vec0',)
    for x in xs:
        v = ('vpush', v, x)
    return v


def unvec(v):
    out = []
    while v[0] == 'vpush':
        out.append(v[2])
        v = v[1]
    return out[::-1] if v == ('vec0',) else None


def plain(v):
    """a string, whatever conversions it went through"""
    while v[0] == 'conv' or v[0] == 'call' and v[1].rsplit('::', 1)[-1] in ('to_string', 'to_owned', 'into', 'from') and len(v[2]) == 1:
        v = v[1] if v[0] == 'conv' else v[2][0]
    if v[0] == 'derefof' or v[0] == 'deref' and v[1][0] == 'derefof':
        return plain(v[1] if v[0] == 'derefof' else v[1][1])
    if v[0] == 'vext':
        ps = [plain(x) for x in pieces(v)]
        return ps[0] if len(ps) == 1 else v
    return v


def node_of(t, st, id_, docs=None):
    """the node as it is at the end: {field: value}"""
    D = t.D
    p = ('h', ('node', id_))
    return {n: t.a.load(st, p, (('field', i),)) for n, i in D.field.items()}


def read_data(t, d):
    """(kind, {field: value})"""
    if d[0] != 'agg' or d[2] != t.D.NodeData:
        return None
    v = [x for x in t.p.enums[t.D.NodeData]['variants'] if x[0] == d[3]][0]
    return d[3], {f[0].lstrip('_'): x for f, x in zip(v[1], d[4])}


def element_of(t, d):
    e = d[1].get('0')
    if e is None or e[0] != 'agg':
        return None
    return {n: e[4][i] for n, i in t.D.efield.items()}


def attrs_of(t, v):
    xs = unvec(v)
    if xs is None:
        return None
    return [(x[4][t.D.afield['name']], plain(x[4][t.D.afield['value']])) if x[0] == 'agg' else x for x in xs]


def hattr(ns, local, v):
    return ('agg', 'adt', 'html5ever::Attribute', None, (qname(ns, local), v), ())


def new_node(t, o):
    """(id, node) of the node the path added to the sink's document"""
    i = pushed(t, o[1])
    if i is None:
        return None
    D = t.D
    p = ('node', i)
    if ('h', p) not in o[1].mem:
        f = [k for k, (n, ty) in enumerate(t.p.structs[t.sink]['fields']) if ty == ('path', D.Document, ())][0]
        x = D.pushed(o[1], ('ref', ('h', ('s', 'arg1')), (('field', f),)), i)
        o[1].mem['h', p] = x
    return i, node_of(t, o[1], i)


@check('D03', rule='each operation of the tree builder, run on every relevant shape of its surroundings, stores what it was given: '
       'new nodes with their data, text joined to a text node that is just before it, attributes that were missing',
       trusted=('html5ever calls the operations as its documentation says',))
def d03(r):
    t = T()
    D, p, a = t.D, t.p, t.a
    n = 0

    def fresh(method, args, where, kind, want, links=True):
        """a method that makes a node"""
        o = call(t, r, method, Shape(D, {}), args, where)
        if not o:
            return
        got = new_node(t, o)
        ok = False
        msg = 'no node was added'
        if got:
            i, nd = got
            d = read_data(t, nd['data'])
            lk = all(nd[l] == NONE for l in LINKS)
            bad = [f for f, w in want.items() if d is None or plain(d[1].get(f, NONE)) != w]
            ok = d is not None and d[0] == kind and lk and not bad and o[2] == i
            msg = 'made %s%s%s%s' % (d and d[0], '' if lk else ', already linked', ', other %s' % ', '.join(bad) if bad else '',
                                     '' if o[2] == i else ', another id returned')
        r.ob('make', ok, where, msg, key=where)
    fresh('create_comment', [('s', 'text')], 'a new comment', 'Comment', {'contents': ('s', 'text')})
    fresh('create_pi', [('s', 'target'), ('s', 'data')], 'a new processing instruction', 'ProcessingInstruction',
          {'target': ('s', 'target'), 'contents': ('s', 'data')})
    o = call(t, r, 'append_doctype_to_document', Shape(D, {'doc': []}), [('s', 'a'), ('s', 'b'), ('s', 'c')], 'a doctype')
    got = o and new_node(t, o)
    d = got and read_data(t, got[1]['data'])
    r.ob('make', bool(d) and d[0] == 'Doctype' and {k: plain(v) for k, v in d[1].items()} == {'name': ('s', 'a'), 'public_id': ('s', 'b'), 'system_id': ('s', 'c')},
         'a doctype', 'made %s' % (d,), key='a doctype')
    names = [('', 'class'), ('', 'title'), ('svg', 'class'), ('', 'rel')]
    for k in range(4):
        for combo in itertools.permutations(names, k):
            attrs = [hattr(x, y, ('s', 'value %d' % i)) for i, (x, y) in enumerate(combo)]
            w = 'a new element with attributes %s' % (' '.join('%s:%s' % c for c in combo) or 'none')
            o = call(t, r, 'create_element', Shape(D, {}), [qname('html', 'p'), vec(attrs), ('s', 'flags')], w)
            n += 1
            got = o and new_node(t, o)
            d = got and read_data(t, got[1]['data'])
            e = d and d[0] == 'Element' and element_of(t, d)
            want = [(qname(x, y), ('s', 'value %d' % i)) for i, (x, y) in enumerate(combo)]
            if o:
                ok = e and e['name'] == qname('html', 'p') and attrs_of(t, e['attrs']) == want and o[2] == got[0] \
                    and all(got[1][l] == NONE for l in LINKS) \
                    and e.get('mathml_annotation_xml_integration_point', ('fld', ('s', 'flags'), 1)) == ('fld', ('s', 'flags'), 1)
                r.ob('make', bool(ok), w, 'stored: %s' % (e and [sh(x[1]) for x in attrs_of(t, e['attrs']) or ()],), key=w)
    # attributes given again
    for old in itertools.chain.from_iterable(itertools.permutations(names[:3], k) for k in range(3)):
        for new in itertools.chain.from_iterable(itertools.permutations(names, k) for k in range(4 if r.thorough else 3)):
            w = 'attributes %s given to an element that has %s' % tuple(' '.join('%s:%s' % c for c in x) or 'none' for x in (new, old))
            s = Shape(D, {}, ['E'], {'E': 'Element'}, {'E': ('html', 'body', [(x, y, ('s', 'old %d' % i)) for i, (x, y) in enumerate(old)])})
            o = call(t, r, 'add_attrs_if_missing', s, [('cref', s.id('E')), vec([hattr(x, y, ('s', 'new %d' % i)) for i, (x, y) in enumerate(new)])], w)
            n += 1
            if o:
                d = read_data(t, node_of(t, o[1], s.id('E'))['data'])
                e = d and element_of(t, d)
                want = [(qname(x, y), ('s', 'old %d' % i)) for i, (x, y) in enumerate(old)] + \
                       [(qname(*c), ('s', 'new %d' % i)) for i, c in enumerate(new) if c not in old]
                g = e and attrs_of(t, e['attrs'])
                r.ob('attributes', g == want, w, 'the element has %s' % (g and [sh(x[1]) for x in g],), key=w)
    # text
    for kind in ('Text', 'Comment', 'Element', 'ProcessingInstruction', None):
        for longer in (False, True):
            pre = (['A', '..', 'B'] if longer else ['B']) if kind else []
            if kind is None and longer:
                continue
            kinds = {'B': kind or 'Text', 'S': 'Element'}
            prev = 'after a %s' % kind if kind else 'at the start'
            for where, method, lists, done, args in (
                    ('at the end', 'append', {'P': pre}, {'P': pre + ['new']}, ['P']),
                    ('before a sibling', 'append_before_sibling', {'P': pre + ['S']}, {'P': pre + ['new', 'S']}, ['S']),
                    ('in a table', 'append_based_on_parent_node', {'P': pre + ['S'], 'Q': ['C']}, {'P': pre + ['new', 'S'], 'Q': ['C']}, ['S', 'Q']),
                    ('in a table without a parent', 'append_based_on_parent_node', {'Q': pre, 'S': []}, {'Q': pre + ['new'], 'S': []}, ['S', 'Q'])):
                loose = ['S'] if 'without' in where else []
                w = 'text %s %s%s' % (where, prev, ' and others' if longer else '')
                s = Shape(D, lists, loose, kinds)
                o = call(t, r, method, s, [('cref', s.id(x)) for x in args] + [node_or_text(t, 'AppendText', ('s', 'TEXT'))], w)
                n += 1
                if not o:
                    continue
                if kind == 'Text':
                    d = read_data(t, node_of(t, o[1], s.id('B'))['data'])
                    ok = d and [plain(x) for x in pieces(d[1]['contents'])] == [('s', 'B.contents'), ('s', 'TEXT')] and not has_new(t, o[1])
                    r.ob('text', bool(ok), w, 'joined text: %s' % (d and [sh(x) for x in pieces(d[1]['contents'])],), key=w)
                    same_links(r, w, o, s, key=w + ' links')
                else:
                    got = new_node(t, o)
                    d = got and read_data(t, got[1]['data'])
                    r.ob('text', bool(d) and d[0] == 'Text' and plain(d[1]['contents']) == ('s', 'TEXT'), w, 'made %s' % (d,), key=w)
                    if got:
                        same_links(r, w, o, Shape(D, done, loose, kinds), got[0], key=w + ' links')
    # questions
    s = Shape(D, {}, ['E', 'F'], {'E': 'Element'}, {'E': ('svg', 'title', [])})
    w = 'the name of an element'
    o = call(t, r, 'elem_name', s, [('cref', s.id('E'))], w)
    if o:
        v = o[2]
        ok = v[0] == 'agg' and len(v[4]) == 2 and [a.read_ref(o[1], x) for x in v[4]] == list(qname('svg', 'title')[4][1:])
        r.ob('question', ok, w, 'result %s' % sh(v)[:80], key=w)
    w = 'the mathml flag of an element'
    o = call(t, r, 'is_mathml_annotation_xml_integration_point', s, [('cref', s.id('E'))], w)
    if o:
        r.ob('question', o[2] == ('s', 'E.mathml_annotation_xml_integration_point'), w, 'result %s' % sh(o[2])[:80], key=w)
    for x, y in (('E', 'E'), ('E', 'F'), ('F', 'E')):
        w = 'whether %s' % ('a node is itself' if x == y else 'two nodes are the same (%s)' % x)
        o = call(t, r, 'same_node', s, [('cref', s.id(x)), ('cref', s.id(y))], w)
        if o:
            r.ob('question', o[2] == (models.TRUE if x == y else models.FALSE), w, 'result %s' % sh(o[2]), key=w)
    w = 'the document node'
    o = call(t, r, 'get_document', s, [], w)
    if o:
        r.ob('question', o[2] == nid(1), w, 'result %s' % sh(o[2]), key=w)
    w = 'the finished document'
    key = t.m.get('finish')
    outs = D.run(key, args=[('s', 'sink')]) if key in p.bodies else []
    f = [k for k, (nm, ty) in enumerate(p.structs[t.sink]['fields']) if ty == ('path', D.Document, ())][0]
    r.ob('question', len(outs) == 1 and outs[0][2] == ('fld', ('s', 'sink'), f), w, 'result %s' % [sh(o[2])[:60] for o in outs], key=w)
    # the start
    w = 'an empty document'
    key = one((k for im in p.impls if im.for_ == ('path', D.Document, ()) and not im.trait for nm, k in im.methods.items() if nm == 'new'), 'Document::new')
    r.fn(disp(p, key))
    outs = D.run(key)
    nodes = outs[0][2][4][D.dfield['nodes']] if len(outs) == 1 and outs[0][0] == 'ret' and outs[0][2][0] == 'agg' else None
    xs = nodes and unvec(nodes)
    ok = xs and len(xs) == 2 and all(x[0] == 'agg' and read_data(t, x[4][D.field['data']]) == ('Document', {})
                                     and all(x[4][D.field[l]] == NONE for l in LINKS) for x in xs)
    r.ob('start', bool(ok), w, '%s nodes' % (xs and len(xs)), key=w)
    r.floor('shapes', n, 150)


def has_new(t, st):
    D = t.D
    for f, (nm, ty) in enumerate(t.p.structs[t.sink]['fields']):
        if ty == ('path', D.Document, ()):
            return t.a.load(st, ('h', ('s', 'arg1')), (('field', f), ('field', D.dfield['nodes']))) != OLD
    return True


# ------------------------------------------------------------------ XML
def xml_event(kind, *fs):
    return ('agg', 'adt', 'std::Result', 'Ok', (('agg', 'adt', 'xml::XmlEvent', kind, tuple(fs), ()),), ())


def xml_name(i, prefix=True, ns=True):
    opt = lambda on, x: some(('s', x)) if on else NONE
    return ('agg', 'adt', 'xml::OwnedName', None, (('s', 'local %s' % i), opt(ns, 'ns %s' % i), opt(prefix, 'prefix %s' % i)), ())


def nested(n, depth=0):
    """all sequences of n events that can be the start of a document: S element, E end, T text, P instruction, C ignored"""
    if n == 0:
        yield ''
        return
    for k in 'STPC' + ('E' if depth else ''):
        for rest in nested(n - 1, depth + (k == 'S') - (k == 'E')):
            yield k + rest


@check('D04', rule='parse_xml run on every sequence of parser events up to a length builds the tree the events describe; a parser error is returned',
       trusted=('the XML parser reports well-nested events',))
def d04(r):
    t = T()
    D, p, a = t.D, t.p, t.a
    key = own(t, 'parse_xml', 'parse_xml')
    r.fn(disp(p, key))
    script = []

    def hook(eng, s, fr, name, args, info):
        if name == 'xml::EventReader::new':
            s.nframe += 1
            b = ('l', s.nframe, 'events')
            s.mem[b] = vec(script)
            return [('ret', s, models.seqit(('ref', b, ()), models.cint(0), models.cint(len(script)), 'val'))]
        return D.hook(eng, s, fr, name, args, info)

    def parse(events):
        script[:] = events
        saved = a.opaque_hook
        real, D.hook2 = D.hook, None
        try:
            D.hook_now = hook
            a.opaque_hook = hook
            so, sm = set(a.opaque), a.merge
            a.opaque |= D.index
            a.merge = False
            return a.entry(key, args=[('s', 'bytes')])
        finally:
            a.opaque, a.merge, a.opaque_hook = so, sm, saved

    def compare(seq, outs, where):
        if len(outs) != 1 or outs[0][0] != 'ret' or outs[0][2][0] != 'agg' or outs[0][2][3] != 'Ok':
            r.violate('tree', where, '%d outcomes: %s' % (len(outs), [str(o[2])[:60] for o in outs[:2]]), key=where)
            return
        st, doc = outs[0][1], outs[0][2][4][0]
        xs = unvec(doc[4][D.dfield['nodes']]) if doc[0] == 'agg' else None
        if xs is None:
            r.violate('tree', where, 'the nodes of the document are not decided', key=where)
            return
        # what it should be
        kids = {1: []}
        data = {}
        cur, up, nxt = 1, [], 2
        for i, k in enumerate(seq):
            if k == 'S':
                data[nxt] = ('Element', i)
                kids[cur].append(nxt)
                kids[nxt] = []
                up.append(cur)
                cur = nxt
                nxt += 1
            elif k == 'E':
                cur = up.pop()
            elif k in 'TDW':
                last = kids[cur][-1] if kids[cur] else None
                if last and data[last][0] == 'Text':
                    data[last][1].append(i)
                else:
                    data[nxt] = ('Text', [i])
                    kids[nxt] = []
                    kids[cur].append(nxt)
                    nxt += 1
            elif k in 'Pp':
                data[nxt] = ('ProcessingInstruction', i)
                kids[nxt] = []
                kids[cur].append(nxt)
                nxt += 1
        bad = []
        if len(xs) != nxt:
            bad.append('%d nodes, not %d' % (len(xs), nxt))
        else:
            parent = {c: q for q, cs in kids.items() for c in cs}
            for i in range(1, nxt):
                cs = kids[i]
                sib = kids[parent[i]] if i in parent else [i]
                j = sib.index(i)
                opt = lambda x: some(nid(x)) if x else NONE
                want = dict(parent=opt(parent.get(i)), previous_sibling=opt(sib[j - 1] if j else None),
                            next_sibling=opt(sib[j + 1] if j + 1 < len(sib) else None),
                            first_child=opt(cs[0] if cs else None), last_child=opt(cs[-1] if cs else None))
                p_ = ('h', ('node', nid(i)))
                base = st.mem.get(p_, xs[i])
                g = {f: a.proj_value(st, base, ('field', q)) for f, q in D.field.items()}
                bad += ['%s of node %d' % (l, i) for l in LINKS if norm(g[l]) != norm(want[l])]
                d = read_data(t, g['data'])
                if i > 1:
                    bad += ['node %d: %s' % (i, m) for m in self_data(d, data[i])]
        r.ob('tree', not bad, where, '; '.join(bad[:3]) or 'as the events say', key=where)

    def self_data(d, want):
        if d is None or d[0] != want[0]:
            return ['kind %s' % (d and d[0])]
        if want[0] == 'Text':
            got = [plain(x) for x in pieces(d[1]['contents'])]
            return [] if got == [('s', 'text %d' % i) for i in want[1]] else ['text %s' % [sh(x) for x in got]]
        if want[0] == 'ProcessingInstruction':
            i = want[1]
            c = plain(d[1]['contents'])
            okc = c == ('s', 'data %d' % i) or i in nodata and (c == ('vec0',) or pieces(c) == [])
            return [] if plain(d[1]['target']) == ('s', 'target %d' % i) and okc else ['instruction %s %s' % (sh(d[1]['target']), sh(c))]
        e = element_of(t, d)
        if e is None:
            return ['element']
        i = want[1]
        out = [] if qn(e['name'], i) else ['name %s' % sh(e['name'])[:80]]
        g = attrs_of(t, e['attrs'])
        if g is None or len(g) != nattrs.get(i, 0) or any(not qn(x[0], '%d.%d' % (i, j)) or x[1] != ('s', 'value %d.%d' % (i, j)) for j, x in enumerate(g)):
            out.append('attributes %s' % (g and [(sh(x[0])[:60], sh(x[1])[:40]) for x in g],))
        return out

    def qn(v, i):
        if v[0] != 'agg' or len(v[4]) != 3:
            return False
        pre, ns, local = v[4]
        fp, fn = flags.get(str(i), (True, True))
        okp = norm2(pre) == ('s', 'prefix %s' % i) if fp else pre == NONE
        okn = plain(ns) == ('s', 'ns %s' % i) if fn else ns == atom('', 'Namespace')
        return okp and okn and plain(local) == ('s', 'local %s' % i)

    def norm2(v):
        return plain(v[4][0]) if v[0] == 'agg' and v[3] == 'Some' else None
    nodata, nattrs, flags = set(), {}, {}

    def event(k, i):
        if k == 'S':
            fl = flags.get(str(i), (True, True))
            attrs = [('agg', 'adt', 'xml::OwnedAttribute', None, (xml_name('%d.%d' % (i, j), *flags.get('%d.%d' % (i, j), (True, True))),
                                                                 ('s', 'value %d.%d' % (i, j))), ()) for j in range(nattrs.get(i, 0))]
            return xml_event('StartElement', xml_name(i, *fl), vec(attrs), ('s', 'namespaces'))
        if k == 'E':
            return xml_event('EndElement', xml_name(i))
        if k in 'TDW':
            return xml_event({'T': 'Characters', 'D': 'CData', 'W': 'Whitespace'}[k], ('s', 'text %d' % i))
        if k == 'P':
            return xml_event('ProcessingInstruction', ('s', 'target %d' % i), NONE if i in nodata else some(('s', 'data %d' % i)))
        return xml_event({'C': 'Comment', 'B': 'StartDocument', 'Z': 'EndDocument'}[k], *[('s', 'x')] * {'C': 1, 'B': 3, 'Z': 0}[k])
    n = 0
    for k in range(6 if r.thorough else 5):
        for seq in nested(k):
            compare(seq, parse([event(x, i) for i, x in enumerate(seq)]), 'XML events %s' % (seq or 'none'))
            n += 1
    for seq in ('BSEZ', 'SDTWE', 'SWTE', 'STCTE', 'SDE', 'SWWE', 'BCSSTESTETEZ', 'SSSTEETSTEE', 'SPTPTE'):
        compare(seq, parse([event(x, i) for i, x in enumerate(seq)]), 'XML events %s' % seq)
        n += 1
    nodata |= {0, 2}
    for seq in ('PSPE',):
        compare(seq, parse([event(x, i) for i, x in enumerate(seq)]), 'XML events %s, instructions without data' % seq)
    nodata.clear()
    for k in range(4):
        nattrs[0] = k
        for i in range(4):
            flags['0'] = (bool(i & 1), bool(i & 2))
            for j in range(k):
                flags['0.%d' % j] = (bool(j & 1), bool(j & 2))
            compare('SE', parse([event(x, q) for q, x in enumerate('SE')]), 'an XML element with %d attributes, name %s' % (k, flags['0']))
            n += 1
    nattrs.clear()
    flags.clear()
    for seq in ('', 'S', 'ST', 'STE'):
        w = 'a parser error after %s' % (seq or 'nothing')
        err = ('agg', 'adt', 'std::Result', 'Err', (('s', 'ERROR'),), ())
        outs = parse([event(x, i) for i, x in enumerate(seq)] + [err] + [event('C', 9)])
        ok = len(outs) == 1 and outs[0][0] == 'ret' and outs[0][2][0] == 'agg' and outs[0][2][3] == 'Err' and C.contains(outs[0][2], ('s', 'ERROR'))
        r.ob('error', ok, w, 'result: %s' % [sh(o[2])[:60] for o in outs], key=w)
        n += 1
    r.floor('event sequences', n, 300)
