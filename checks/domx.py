"""The document: nodes addressed by identifier."""
from common import disp
from front import AnalysisError

LINKS = ('parent', 'next_sibling', 'previous_sibling', 'first_child', 'last_child')


def one(xs, what):
    xs = list(xs)
    if len(xs) != 1:
        raise AnalysisError('expected exactly one %s, found %d' % (what, len(xs)))
    return xs[0]


class Dom:
    """types and fields of the document, and document[id] as one step: the node ('node', id)"""

    def __init__(self, p, a):
        self.p, self.a = p, a
        self.Node = one((k for k in p.structs if k == 'dom::Node'), 'Node')
        self.Document = one((k for k in p.structs if k == 'dom::Document'), 'Document')
        self.ElementData = one((k for k in p.structs if k == 'dom::ElementData'), 'ElementData')
        self.NodeData = one((k for k in p.enums if k == 'dom::NodeData'), 'NodeData')
        self.Attribute = one((k for k in p.structs if k == 'dom::Attribute'), 'Attribute')
        self.field = {n: i for i, (n, t) in enumerate(p.structs[self.Node]['fields'])}
        self.efield = {n: i for i, (n, t) in enumerate(p.structs[self.ElementData]['fields'])}
        self.afield = {n: i for i, (n, t) in enumerate(p.structs[self.Attribute]['fields'])}
        self.dfield = {n: i for i, (n, t) in enumerate(p.structs[self.Document]['fields'])}
        self.index = set()
        for im in p.impls:
            if im.for_[0] == 'path' and im.for_[1] == self.Document and im.trait and im.trait.rsplit('::', 1)[-1] in ('Index', 'IndexMut'):
                self.index |= set(im.methods.values())
        if len(self.index) != 2:
            raise AnalysisError('indexing of the document not found')
        self.variants = [v[0] for v in p.enums[self.NodeData]['variants']]
        self.docs = {}

    def hook(self, eng, s, fr, name, args, info):
        if info.get('key') not in self.index:
            return None
        ptr = ('node', args[1])
        self.a.settype(('deref', ptr), ('path', self.Node, ()))
        if ('h', ptr) not in s.mem:
            x = self.pushed(s, args[0], args[1])
            if x is not None:
                s.mem['h', ptr] = x
        self.docs.setdefault(args[1], set()).add(docref(args[0]))
        return [('ret', s, ('ref', ('h', ptr), (), 'mut' if 'mut' in name else 'shr'))]

    def pushed(self, s, doc, id_):
        """the node pushed on the document's vector under that index on this path, if so"""
        b, pr = self.a.deref_loc(s, doc)
        v = self.a.load(s, b, tuple(pr) + (('field', self.dfield['nodes']),))
        i = id_
        while i[0] == 'agg' and len(i[4]) == 1:
            i = i[4][0]
        while v[0] == 'vpush':
            if self.a.length_of(v[1]) == i:
                return v[2]
            v = v[1]
        return None

    def link(self, id_, name):
        """the link of a node as it was at first"""
        return ('fld', ('deref', ('node', id_)), self.field[name])

    def now(self, st, id_, name):
        return self.a.load(st, ('h', ('node', id_)), (('field', self.field[name]),))

    def data(self, id_):
        return ('fld', ('deref', ('node', id_)), self.field['data'])

    def kind(self, st, id_, t=None):
        """name of the node's kind if known on the path, else the kinds it is not (as a frozenset)"""
        t = t or self.data(id_)
        d = st.facts.get(('dis', t))
        if d is not None:
            return self.variants[d]
        no = st.facts.get(('not', ('dis', t)), frozenset())
        return frozenset(self.variants[i] for i in no if isinstance(i, int) and i < len(self.variants))

    def is_element(self, st, id_, t=None):
        k = self.kind(st, id_, t)
        if k == 'Element':
            return True
        if isinstance(k, str) or 'Element' in k:
            return False
        return None

    def run(self, key, **kw):
        a = self.a
        saved = set(a.opaque), a.opaque_hook, a.merge
        a.opaque |= self.index
        a.opaque_hook = self.hook
        a.merge = False
        try:
            return a.entry(key, **kw)
        finally:
            a.opaque, a.opaque_hook, a.merge = saved


def docref(t):
    while t[0] in ('cref', '&'):
        t = t[1]
    if t[0] == 'ref' and not t[2]:
        t = t[1][1] if t[1][0] == 'h' else t
    return t
