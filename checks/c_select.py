"""CSS selectors: how the document presents elements to the selectors crate."""
import atoms
import c_style as C
from c_style import S_dis, calls, contains, locterm, loops, peel, result_of, step, tail, truth, whole
from common import disp, sh
from domx import Dom, one
from report import check

NS_FIELD, LOCAL_FIELD = 1, 2        # fields of markup5ever's QualName: prefix, ns, local


def atom_of(c, kind):
    c = peel(c)
    while c[0] == 'agg' and c[4]:
        c = peel(c[4][0])
    if c[0] == 'c' and isinstance(c[1], int) and not isinstance(c[1], bool):
        return atoms.decode(c[1], kind)
    return None


def same(st, x, y):
    """True/False if two values (or the atoms they hold) are known to be equal or different on the path"""
    if x == y:
        return True
    for f, v in st.facts.items():
        if f[0] == 'bin' and f[1] in ('Eq', 'Ne') and isinstance(v, bool):
            a, b = f[2], f[3]
            if strip(a) == strip(x) and strip(b) == strip(y) or strip(a) == strip(y) and strip(b) == strip(x):
                return v == (f[1] == 'Eq')
    return None


def strip(t):
    """without references and without the single field of an atom"""
    t = peel(t)
    while t[0] == 'fld' and t[2] == 0 and t[1][0] == 'fld':
        t = t[1]
    return t


def is_atom(st, x, kind, name):
    """True/False if the atom x is known to be (not) the given name"""
    out = None
    for f, v in st.facts.items():
        if f[0] == 'bin' and f[1] in ('Eq', 'Ne') and isinstance(v, bool):
            for q, c in ((f[2], f[3]), (f[3], f[2])):
                if q == x or q == ('fld', x, 0):
                    got = atom_of(c, kind)
                    if got is None:
                        continue
                    eq = v == (f[1] == 'Eq')
                    if got == name:
                        return eq
                    if eq:
                        out = False
    return out


def qname(owner, field):
    """(namespace, local name) of the QualName in a field"""
    q = ('fld', owner, field)
    return ('fld', q, NS_FIELD), ('fld', q, LOCAL_FIELD)


def attr_search(dom, st, elem, cond):
    """('found', attribute) / ('none', None) / (None, None): a search of the attributes of an element from the first on.
    cond(state, attribute) -> truth of the condition"""
    a = dom.a
    for li in loops(st):
        seq, phi = whole(a, li)
        if seq != ('fld', elem, dom.efield['attrs']):
            continue
        at = ('elem', seq, phi)
        if not all(cond(s, at) is False for s in li.iters):
            return None, None
        more = truth(st, ('bin', 'Lt', phi, ('len', seq)))
        if more is False:
            return 'none', None
        if more is True and cond(st, at) is True:
            return 'found', at
        return None, None
    return None, None


def plain_attr(dom, name):
    """condition: the attribute has no namespace and the given local name"""
    def cond(s, at):
        ns, local = qname(at, dom.afield['name'])
        n, l = is_atom(s, ns, 'Namespace', ''), is_atom(s, local, 'LocalName', name)
        if n is True and l is True:
            return True
        if n is False or l is False:
            return False
        return None
    return cond


class Walk:
    """a loop that goes from node to node along one link"""

    def __init__(self, dom, li, var, entry, link, optional):
        self.dom, self.li, self.link, self.optional = dom, li, link, optional
        self.node = ('vfld', var, 'Some', 0) if optional else var
        self.var, self.entry = var, entry

    def begins(self, st, first):
        """from the node that the optional link `first` leads to"""
        return self.entry == (first if self.optional else ('vfld', first, 'Some', 0))

    def ended(self, st):
        """the path has reached the end of the list"""
        return S_dis(st, self.var if self.optional else self.dom.link(self.var, self.link)) == 0

    def all(self, st, skip):
        """every node of the list satisfied the condition of a node that is skipped"""
        return self.ended(st) and (self.optional or skip(st, self.node)) and self.skipped(skip)

    def skipped(self, skip):
        return all(skip(s, self.node) for s in self.li.iters)


def walk(dom, st, link):
    """the loop on the path that goes from node to node along one link"""
    a = dom.a
    lp = loops(st)
    if len(lp) != 1 or not lp[0].iters:
        return None
    li = lp[0]
    for loc, e in li.entry.items():
        phi = li.phis.get(loc)
        if phi is None:
            continue
        n = [a.load(s, loc[0], loc[1]) for s in li.iters]
        if all(x == ('vfld', dom.link(phi, link), 'Some', 0) and S_dis(s, dom.link(phi, link)) == 1 for x, s in zip(n, li.iters)):
            return Walk(dom, li, phi, e, link, False)
        some = ('vfld', phi, 'Some', 0)
        if all(x == dom.link(some, link) and S_dis(s, phi) == 1 for x, s in zip(n, li.iters)):
            return Walk(dom, li, phi, e, link, True)
    return None


@check('S06', 'Every path of the methods through which selectors look at the document: siblings, parent, names, attributes, '
       'classes, identifiers, emptiness')
def s06(r):
    S = C.Style()
    p, a = S.p, S.a
    dom = Dom(p, a)
    im = one((i for i in p.impls if i.trait and tail(i.trait) == 'Element' and 'has_class' in i.methods), 'implementation of selectors::Element')
    ref = im.for_[1]
    fs = [f[0] for f in p.structs[ref]['fields']]
    di = one((i for i, (n, t) in enumerate(p.structs[ref]['fields']) if 'Document' in str(t)), 'document of a node reference')
    ni = one((i for i, (n, t) in enumerate(p.structs[ref]['fields']) if 'NodeId' in str(t)), 'node of a node reference')
    me = ('deref', ('s', 'arg1'))
    doc, node = ('fld', me, di), ('fld', me, ni)
    elem = ('vfld', dom.data(node), 'Element', 0)
    n = {'paths': 0}

    def outcomes(m):
        """returning paths; a panic must be because the node is not an element"""
        k = im.methods[m]
        for kind, st, v in dom.run(k):
            n['paths'] += 1
            if kind != 'ret':
                r.ob('panic', dom.is_element(st, node) is False, disp(p, k), 'a selector cannot make the matching of an element panic',
                     key='%s:panic' % m, detail=sh(v)[:200])
                continue
            if dom.is_element(st, node) is False:
                continue
            yield disp(p, k), st, v

    def noderef(v, id_):
        return v[0] == 'agg' and v[3] == 'Some' and v[4][0][0] == 'agg' and v[4][0][4][di] == doc and v[4][0][4][ni] == id_

    def none(v):
        return v[0] == 'agg' and v[3] == 'None'

    # ---- parent and siblings
    for where, st, v in outcomes('parent_element'):
        l = dom.link(node, 'parent')
        d = S_dis(st, l)
        up = ('vfld', l, 'Some', 0)
        if noderef(v, up):
            r.ob('parent', d == 1 and dom.is_element(st, up) is True, where, 'the parent element is the parent, which is an element')
        else:
            r.ob('parent', none(v) and (d == 0 or d == 1 and dom.is_element(st, up) is False), where,
                 'there is no parent element only if there is no parent or it is not an element', detail=sh(v)[:150])
    for m, link in (('next_sibling_element', 'next_sibling'), ('prev_sibling_element', 'previous_sibling')):
        what = {'next_sibling': 'next', 'previous_sibling': 'previous'}[link]
        for where, st, v in outcomes(m):
            l = dom.link(node, link)
            w = walk(dom, st, link)
            if S_dis(st, l) == 0 and not loops(st):
                r.ob('sibling', none(v), where, 'no %s sibling element without %s sibling' % (what, what), detail=sh(v)[:150])
                continue
            if not r.ob('sibling', w is not None and w.begins(st, l), where, 'siblings are looked at one after the other from the %s one' % what,
                        key='%s:walk' % m):
                continue
            other = lambda s, x: dom.is_element(s, x) is False
            r.ob('sibling', w.skipped(other), where, 'only siblings that are not elements are skipped', key='%s:skip' % m)
            if none(v):
                r.ob('sibling', w.all(st, other), where, 'there is no %s sibling element only if all %s siblings are something else' % (what, what),
                     key='%s:none' % m)
            else:
                r.ob('sibling', noderef(v, w.node) and dom.is_element(st, w.node) is True, where, 'the sibling element found is an element',
                     key='%s:found' % m, detail=sh(v)[:150])
    for where, st, v in outcomes('is_root'):
        l = dom.link(node, 'parent')
        d = S_dis(st, l)
        up = d == 1 and dom.is_element(st, ('vfld', l, 'Some', 0)) is True
        known = d == 0 or d == 1 and dom.is_element(st, ('vfld', l, 'Some', 0)) is not None
        r.ob('parent', known and v == ('c', not up, 'bool'), where, 'the root is the element without parent element', detail=sh(v)[:100])
    for where, st, v in outcomes('is_empty'):
        l = dom.link(node, 'first_child')
        w = walk(dom, st, 'next_sibling')
        if S_dis(st, l) == 0 and not loops(st):
            r.ob('empty', v == ('c', True, 'bool'), where, 'an element without children is empty')
            continue
        if not r.ob('empty', w is not None and w.begins(st, l), where, 'children are looked at one after the other from the first', key='is_empty:walk'):
            continue
        blank = lambda s, x: content(dom, s, x) is False
        r.ob('empty', w.skipped(blank), where, 'children that do not matter are skipped', key='is_empty:skip')
        if v == ('c', False, 'bool'):
            r.ob('empty', content(dom, st, w.node) is True, where, 'an element is not empty only if it has an element or text', key='is_empty:false')
        else:
            r.ob('empty', v == ('c', True, 'bool') and w.all(st, blank), where,
                 'an element is empty only if all children are neither elements nor text', key='is_empty:true', detail=sh(v)[:100])
    # ---- names
    ns, local = qname(elem, dom.efield['name'])
    for m, want in (('namespace', ns), ('local_name', local)):
        for where, st, v in outcomes(m):
            r.ob('name', locterm2(dom, v) == want, where, 'the %s is the one of the element' % m.replace('_', ' '), detail=sh(v)[:200])
    for where, st, v in outcomes('is_html_element_in_html_document'):
        h = is_atom(st, ns, 'Namespace', atoms.NS['html'])
        r.ob('name', v == ('c', h, 'bool') and h is not None, where, 'an element is HTML if its namespace is', detail=sh(v)[:100])
    # ---- attributes
    for where, st, v in outcomes('attr_matches'):
        def cond(s, at):
            an, al = qname(at, dom.afield['name'])
            same_l = same(s, al, ('deref', ('s', 'arg3')))
            anyns = S_dis(s, ('deref', ('s', 'arg2')))
            same_n = True if anyns == 0 else same(s, an, ('deref', ('vfld', ('deref', ('s', 'arg2')), 'Specific', 0))) if anyns == 1 else None
            ev = None
            for e in calls(s, 'eval_str'):
                if e[2][0] == ('s', 'arg4') and locterm2(dom, e[2][1]) == ('fld', at, dom.afield['value']):
                    ev = truth(s, result_of(e))
            if same_l is False or same_n is False or ev is False:
                return False
            return True if same_l and same_n and ev else None
        got, at = attr_search(dom, st, elem, cond)
        r.ob('attribute', got is not None and v == ('c', got == 'found', 'bool'), where,
             'an attribute selector matches if some attribute has the name, namespace and value asked for', detail='%s %s' % (got, sh(v)[:100]))
    value = lambda at: ('fld', at, dom.afield['value'])
    for where, st, v in outcomes('has_id'):
        got, at = attr_search(dom, st, elem, plain_attr(dom, 'id'))
        if got == 'none':
            r.ob('id', v == ('c', False, 'bool'), where, 'an element without id matches none')
        else:
            es = calls(st, 'eq')
            ok = got == 'found' and len(es) == 1 and v in (result_of(es[0]), ('c', truth(st, result_of(es[0])), 'bool')) and es[0][2][0] == ('s', 'arg3') and \
                {sh(locterm2(dom, es[0][2][1])), sh(locterm2(dom, es[0][2][2]))} == {sh(('deref', ('s', 'arg2'))), sh(value(at))}
            r.ob('id', ok, where, 'an id selector compares the whole id', detail=sh(v)[:200])
    for where, st, v in outcomes('has_class'):
        got, at = attr_search(dom, st, elem, plain_attr(dom, 'class'))
        if got == 'none':
            r.ob('class', v == ('c', False, 'bool'), where, 'an element without class matches none')
            continue
        sp = calls(st, 'split_ascii_whitespace')
        ok = got == 'found' and len(sp) == 1 and locterm2(dom, sp[0][2][0]) == value(at)
        if not r.ob('class', ok, where, 'the class attribute is a list separated by ASCII white space', key='class:split'):
            continue
        nx = calls(st, 'next')
        lp = [li for li in loops(st) if any(e == result_of(sp[0]) for e in li.entry.values())]
        if not r.ob('class', len(nx) == 1 and len(lp) == 1, where, 'all classes of the list are looked at', key='class:all'):
            continue

        def match(s):
            x, c = calls(s, 'next'), calls(s, 'eq')
            if len(x) != 1:
                return None
            if S_dis(s, result_of(x[0])) == 0:
                return 'end'
            if len(c) != 1 or c[0][2][0] != ('s', 'arg3'):
                return None
            item = ('vfld', result_of(x[0]), 'Some', 0)
            if {sh(peel(c[0][2][1])), sh(peel(c[0][2][2]))} != {sh(('s', 'arg2')), sh(item)}:
                return None
            return truth(s, result_of(c[0]))
        ok = all(match(s) is False for s in lp[0].iters)
        r.ob('class', ok, where, 'the search goes on after a class that is different', key='class:skip')
        m = match(st)
        r.ob('class', m is True and v == ('c', True, 'bool') or m == 'end' and v == ('c', False, 'bool'), where,
             'a class selector matches if one of the classes is the one asked for', key='class:result', detail='%s %s' % (m, sh(v)[:100]))
    for where, st, v in outcomes('is_link'):
        h = is_atom(st, ns, 'Namespace', atoms.NS['html'])
        nm = [x for x in ('a', 'area', 'link') if is_atom(st, local, 'LocalName', x) is True]
        no = all(is_atom(st, local, 'LocalName', x) is False for x in ('a', 'area', 'link'))
        got, at = attr_search(dom, st, elem, plain_attr(dom, 'href'))
        yes = h is True and bool(nm) and got == 'found'
        fail = h is False or no or got == 'none'
        r.ob('link', yes and v == ('c', True, 'bool') or fail and v == ('c', False, 'bool'), where,
             'links are the HTML elements a, area and link with href', detail='%s %s %s %s' % (h, nm, got, sh(v)[:60]))
    for m, w in (('is_html_slot_element', False), ('parent_node_is_shadow_root', False)):
        for where, st, v in outcomes(m):
            r.ob('shadow', v == ('c', w, 'bool'), where, 'there are no shadow trees')
    for where, st, v in outcomes('containing_shadow_host'):
        r.ob('shadow', none(v), where, 'there are no shadow trees')
    # ---- identity
    for where, st, v in outcomes('opaque'):
        e = [x for x in st.events() if x[0] == 'call' and tail(str(x[1]).split('::<')[0]) == 'new']
        ok = len(e) == 1 and v == result_of(e[0]) and locterm2(dom, e[0][2][0]) == ('deref', ('node', node))
        r.ob('identity', ok, where, 'elements are the same if their nodes are', detail=sh(v)[:200])
    # ---- the call of the matcher
    mk = one((b for b in p.bodies if disp(p, b) == 'style::selectors::matches'), 'selectors::matches')
    for kind, st, v in dom.run(mk):
        n['paths'] += 1
        c = calls(st, 'matches_selector')
        ok = kind == 'ret' and len(c) == 1 and v == result_of(c[0])
        if not r.ob('matches', ok, disp(p, mk), 'a selector matches if the selectors crate says so', detail=sh(v)[:200]):
            continue
        args = c[0][2]
        nr = [x for x in args if x[0] == 'ref']
        vals = c[0][3].get('vals') or ()
        got = [x for x in vals if isinstance(x, tuple) and x[0] == 'agg' and x[2] == ref]
        ok = peel(args[0]) == ('s', 'arg1') and args[1][0] == 'c' and args[1][1] == 0 and len(got) == 1 and \
            got[0][4][di] == ('s', 'arg2') and got[0][4][ni] == ('s', 'arg3')
        r.ob('matches', ok, disp(p, mk), 'the whole selector is matched against the element given', detail=str([sh(x)[:60] for x in args]))
    r.floor('paths', n['paths'], 40)
    r.fn(*[disp(p, k) for k in a.analysed])


def content(dom, st, id_):
    """whether a child makes its parent not :empty"""
    k = dom.kind(st, id_)
    if k == 'Element':
        return True
    if k == 'Text':
        t = ('vfld', dom.data(id_), 'Text', 0)
        z = truth(st, ('bin', 'Eq', ('len', t), ('c', 0, 'usize')))
        return None if z is None else not z
    if isinstance(k, str) or {'Element', 'Text'} <= k:
        return False
    return None


def locterm2(dom, t):
    """the place a reference denotes, nodes being pointers; strings and vectors are the same as what they hold"""
    t = peel(t)
    if t[0] == 'ref' and t[1][0] == 'h':
        v = ('deref', t[1][1])
        pend = None
        for pr in t[2]:
            if pr[0] == 'field':
                v = ('vfld', v, pend, pr[1]) if pend else ('fld', v, pr[1])
                pend = None
            elif pr[0] == 'downcast':
                pend = pr[1]
            elif pr[0] == 'elem':
                v = ('elem', v, pr[1])
            elif pr[0] == 'deref':
                v = ('deref', v)
            else:
                return t
        return v
    return ('deref', t)
