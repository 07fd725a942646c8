"""CSS: property table, cascade, specified to computed values, parsing of declarations and values, selectors."""
import engine
import lin
import rtypes as T
from absint import State
from common import program, method, methods, disp, sh
from front import AnalysisError
from report import check

KEYWORDS = ('Initial', 'Inherit', 'Unset')

# CSS 2.1 / css-color / css-backgrounds: (struct-independent) initial values and inheritance of each longhand
AUTO = ('Auto',)
ZERO = ('Length', 0.0)
INITIAL = {
    'font-size': 16.0,
    'color': ('RGBA', 0, 0, 0, 255),
    'position': ('Static',), 'float': ('None',),
    'display': ('GeneratingBox', ('OutsideInside', ('Inline',), ('Flow',))),
    'background-color': ('RGBA', ('RGBA', 0, 0, 0, 0)),
}
for _s in ('top', 'left', 'bottom', 'right'):
    INITIAL[_s] = AUTO
    INITIAL['margin-' + _s] = ZERO
    INITIAL['padding-' + _s] = ZERO
    INITIAL['border-%s-color' % _s] = ('CurrentColor',)
    INITIAL['border-%s-style' % _s] = ('None',)
    INITIAL['border-%s-width' % _s] = ('Length', 3.0)
INITIAL['width'] = INITIAL['height'] = AUTO
INHERITED = {'font-size', 'color'}
SIDES = ('top', 'right', 'bottom', 'left')
SHORTHANDS = {
    'margin': {s: 'margin-' + s for s in SIDES},
    'padding': {s: 'padding-' + s for s in SIDES},
    'border-style': {s: 'border-%s-style' % s for s in SIDES},
    'border-color': {s: 'border-%s-color' % s for s in SIDES},
    'border-width': {s: 'border-%s-width' % s for s in SIDES},
    'border-top': {s: 'border-top-' + s for s in ('style', 'color', 'width')},
    'background': {'color': 'background-color'},
}


def one(xs, what):
    xs = list(xs)
    if len(xs) != 1:
        raise AnalysisError('expected exactly one %s, found %d' % (what, len(xs)))
    return xs[0]


def tail(n):
    return n.rsplit('::', 1)[-1]


def peel(t):
    while t[0] in ('cref', '&'):
        t = t[1]
    return t


class Style:
    """the style module's types, found by name, and one analyzer over it"""

    def __init__(self):
        self.p = p = program('victor')
        self.a = engine.Analyzer(p)
        inst = lambda d, n: one((k for k in d if tail(k) == n and k.startswith('style::')), n)
        self.D = inst(p.enums, 'LonghandDeclaration')
        self.ID = inst(p.enums, 'LonghandId')
        self.CV = inst(p.structs, 'ComputedValues')
        self.KW = inst(p.enums, 'CssWideKeyword')
        self.PP = inst(p.structs, 'PerPhase')
        self.fields = {}        # property name -> (struct index, field index, type)
        self.struct_of = {}     # struct index -> name of its type
        self.scalars = {}       # other fields of computed values: name -> (index, type)
        for i, (n, ty) in enumerate(p.structs[self.CV]['fields']):
            t = ty
            while t[0] == 'path' and t[1] not in p.structs and len(t[2]) == 1:
                t = t[2][0]
            if t[0] == 'path' and t != ty and t[1] in p.structs:
                self.struct_of[i] = t[1]
                for j, (m, fty) in enumerate(p.structs[t[1]]['fields']):
                    self.fields[m.replace('_', '-')] = (i, j, fty)
            else:
                self.scalars[n] = (i, ty)

    # ------------------------------------------------------------------ computed values in memory
    def read(self, st, P, i, j):
        """field j of style struct i of the computed values at pointer P"""
        x = self.a.load(st, ('h', P) if P[0] != 'ref' else P[1], (tuple(P[2]) if P[0] == 'ref' else ()) + (('field', i),))
        return self.inside(st, x, j)

    def inside(self, st, x, j):
        if x[0] == 'agg' and len(x[4]) == 1:
            x = x[4][0]
        if x[0] == 'ref':
            return self.a.load(st, x[1], tuple(x[2]) + (('field', j),))
        if x[0] == 'cref':
            return self.a.load(st, ('h', x), (('field', j),))
        return self.a.load(st, ('h', x), (('field', j),))

    def snapshot(self, st, P):
        return {n: self.read(st, P, i, j) for n, (i, j, _) in self.fields.items()}

    def changed(self, st, P, base):
        s = self.snapshot(st, P)
        out = {n: v for n, v in s.items() if v != base[n]}
        for n, (i, ty) in self.scalars.items():
            v = self.a.load(st, ('h', P), (('field', i),))
            if v != self.a.load(State0(), ('h', P), (('field', i),)):
                out['.' + n] = v
        return out

    # ------------------------------------------------------------------ values by type
    def canon(self, st, t, ty, depth=0):
        """a value as nested tuples: newtypes dropped, enums as (variant, payload…), symbols as they are"""
        p = self.p
        t = peel(t)
        if depth > 12:
            return t
        if ty is None or ty[0] != 'path':
            return num(t)
        s = p.structs.get(ty[1])
        if s is not None:
            env = dict(zip(s['params'], ty[2]))
            parts = []
            for i, (n, fty) in enumerate(s['fields']):
                fty = T.subst(fty, env)
                x = self.a.project(st, t, i) if hasattr(self.a, 'project') else None
                if x is None:
                    x = t[4][i] if t[0] == 'agg' else fieldof(t, i)
                parts.append(self.canon(st, x, fty, depth + 1))
            if len(parts) == 1:
                return parts[0]
            return tuple(parts)
        e = p.enums.get(ty[1])
        if e is not None:
            env = dict(zip(e['params'], ty[2]))
            v = self.variant(st, t, ty)
            if v is None:
                return t
            fs = [f for n, f, _ in e['variants'] if n == v][0]
            pay = []
            for i, (_, fty) in enumerate(fs):
                x = t[4][i] if t[0] == 'agg' else ('vfld', t, v, i)
                pay.append(self.canon(st, x, T.subst(fty, env), depth + 1))
            return (v,) + tuple(pay)
        return foreign(t)

    def variant(self, st, t, ty):
        """the variant a value of a local enum is known to have on the path"""
        t = peel(t)
        if t[0] == 'agg':
            return t[3]
        vs = self.p.enums[ty[1]]['variants']
        d = st.facts.get(('dis', t))
        if d is None:
            no = st.facts.get(('not', ('dis', t)), ())
            left = [i for i in range(len(vs)) if vs[i][2] not in no]
            return vs[left[0]][0] if len(left) == 1 else None
        for n, _, disc in vs:
            if disc == d:
                return n
        return None

    def leaf(self, t, ty):
        """the one number inside nested newtypes"""
        while ty[0] == 'path' and ty[1] in self.p.structs and len(self.p.structs[ty[1]]['fields']) == 1:
            s = self.p.structs[ty[1]]
            t, ty = (t[4][0] if t[0] == 'agg' else fieldof(t, 0)), T.subst(s['fields'][0][1], dict(zip(s['params'], ty[2])))
        return t

    def specified(self, ty):
        """the type a declaration carries for a computed type"""
        for im in self.p.impls:
            if im.trait and tail(im.trait) == 'SpecifiedValue' and im.for_ == ty and 'SpecifiedValue' in im.items:
                t = self.p.ty(im.items['SpecifiedValue']['inner']['default'])
                return ty if t == ('param', 'Self') or t[0] == 'path' and t[1] == 'Self' else t
        return None


def State0():
    return engine.State() if hasattr(engine, 'State') else State()


def fieldof(t, i):
    if t[0] == 'upd':
        for j, v in t[2]:
            if j == i:
                return v
        return fieldof(t[1], i)
    return ('fld', t, i)


def num(t):
    """products with their factors in a fixed order, sums likewise"""
    if t[0] == 'c' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return t[1]
    if t[0] == 'bin' and t[1] in ('Mul', 'Add'):
        return (t[1],) + tuple(sorted((num(t[2]), num(t[3])), key=repr))
    if t[0] == 'bin':
        return (t[1], num(t[2]), num(t[3]))
    if t[0] == 'un':
        return (t[1], num(t[2]))
    return t


def foreign(t):
    """values of cssparser's types"""
    t = peel(t)
    if t[0] == 'agg':
        n = t[3] or tail(t[2] or '')
        return (n,) + tuple(foreign(x) for x in t[4])
    if t[0] == 'c':
        return t[1]
    if t[0] == 'call' and tail(t[1]) == 'transparent' and not t[2]:
        return ('RGBA', 0, 0, 0, 0)
    return t


def table(S):
    """entries of the property map: {name: (longhand ids, closure)}, with names as written, in order"""
    a, p = S.a, S.p
    k = one((k for k in p.bodies if k.startswith('style::') and tail(k) == 'property_data_by_name'), 'property_data_by_name')
    ent = []
    maps = 0
    bad = []
    for kind, st, v in a.entry(k):
        if v[0] == 'agg' and v[3] == 'None':
            continue
        if v[0] == 'call' and tail(v[1]) == 'get':
            m = peel(v[2][0])
            low = v[2][1]
            if not ('lowercase' in sh(low) and "arg1" in sh(low)):
                bad.append('the name looked up is not the lower-cased property name: %s' % sh(low)[:100])
            maps += 1
            rec_entries(m, ent)
        else:
            bad.append('unexpected result %s' % sh(v)[:100])
    if maps != 1:
        raise AnalysisError('property lookup not recognised: %d map lookups' % maps)
    return k, ent, bad


def rec_entries(t, out):
    if not isinstance(t, tuple) or not t:
        return
    if t[0] == 'agg' and t[1] == 'tuple' and len(t[4]) == 2 and t[4][0][0] == 'c' and isinstance(t[4][0][1], str):
        d = peel(t[4][1])
        if d[0] == 'agg':
            out.append((t[4][0][1], d))
            return
    for x in t:
        if isinstance(x, tuple):
            rec_entries(x, out)


def data_parts(S, d):
    """(longhand ids, parse function) of a PropertyData value"""
    fs = S.p.structs[d[2]]['fields']
    lh = fn = None
    for (n, _), x in zip(fs, d[4]):
        q = peel(x)
        if q[0] == 'agg' and q[1] == 'array':
            lh = [peel(y) for y in q[4]]
        else:
            fn = q
    return lh, fn


def closure_key(S, fn):
    while fn[0] in ('cast',):
        fn = fn[1]
    if fn[0] == 'agg' and fn[1] == 'closure':
        return fn[2]
    if fn[0] == 'fn':
        for k in S.p.bodies:
            if k == fn[1] or k.endswith('::' + fn[1]):
                return k
    raise AnalysisError('parse function of a property not recognised: %s' % sh(fn)[:100])


def parse_impls(S):
    """{type: body key} of the local Parse trait"""
    out = {}
    for im in S.p.impls:
        if im.trait and tail(im.trait) == 'Parse' and im.trait.startswith('style::') and 'parse' in im.methods:
            out[im.methods['parse']] = im
    return out


def pushed(v):
    """elements pushed on top of a vector, oldest first, and the vector before"""
    out = []
    while v[0] == 'vpush':
        out.append(v[2])
        v = v[1]
    return v, out[::-1]


def run_parse(S, key):
    """outcomes of a property's parse function with value parsing opaque: [(state, value, pushed, base, parse calls)]"""
    a = S.a
    saved = set(a.opaque)
    a.opaque |= set(parse_impls(S))
    try:
        outs = a.entry(key)
    finally:
        a.opaque = saved
    fn = S.p.bodies[key]
    names = [('s', 'arg%d' % (i + 1)) for i in range(len(fn.args))]
    decl = names[-1]
    res = []
    for kind, st, v in outs:
        base, ps = pushed(a.load(st, ('h', decl), ()))
        calls = [e for e in st.events() if e[0] == 'call' and e[3].get('key') in parse_impls(S) or
                 e[0] == 'call' and tail(str(e[1])) == 'parse']
        res.append((kind, st, v, ps, base, calls, decl))
    return res


def decl_effect(S, var, payload, phase, ids=None):
    """[(state, kind, changes, base)] of cascading one declaration in a phase"""
    a = S.a
    k = method(S.p, S.D, 'if_%s_cascade_into' % phase)
    arg = ('cref', ('agg', 'adt', S.D, var, tuple(payload), ()))
    out = []
    for kind, st, v in a.entry(k, args=[arg, ('s', 'arg2')]):
        P = ctx_this(S, st, ('s', 'arg2'), phase)
        base = S.snapshot(State0(), P)
        out.append((kind, st, S.changed(st, P, base), base))
    return out


def ctx_type(S, phase):
    n = 'EarlyCascadeContext' if phase == 'early' else 'CascadeContext'
    return one((k for k in S.p.structs if tail(k) == n), n)


def ctx_field(S, phase, name):
    fs = S.p.structs[ctx_type(S, phase)]['fields']
    return one((i for i, f in enumerate(fs) if f[0] == name), name), fs


def ctx_this(S, st, ctx, phase):
    i, fs = ctx_field(S, phase, 'this')
    return S.a.load(st, ('h', ctx), (('field', i), ('field', 0)))


def ctx_inherited(S, st, ctx, phase):
    i, fs = ctx_field(S, phase, 'inherited')
    return S.a.load(st, ('h', ctx), (('field', i),))


def phases(S):
    """{declaration variant: (phase, property)}: which computed value each declaration sets, and when"""
    out = {}
    prob = []
    for var, fs, _ in S.p.enums[S.D]['variants']:
        if len(fs) != 1:
            continue
        ty = fs[0][1]
        if ty[0] == 'proj':
            ty = S.specified(ty[1]) or ty
        S.a.settype(('s', 'v0'), ty)
        for ph in ('early', 'late'):
            hit = set()
            n = 0
            for kind, st, ch, base in decl_effect(S, var, [('s', 'v0')], ph):
                if kind != 'ret':
                    prob.append((var, 'cascading %s may panic' % var))
                    continue
                n += 1
                hit.add(frozenset(ch))
            hit.discard(frozenset())
            if len(hit) > 1 or any(len(h) != 1 for h in hit):
                prob.append((var, '%s sets %s' % (var, sorted(map(sorted, hit)))))
            elif hit:
                prop = list(list(hit)[0])[0]
                if var in out:
                    prob.append((var, '%s is cascaded in both phases' % var))
                out[var] = (ph, prop)
        if var not in out:
            prob.append((var, '%s sets no computed value' % var))
    return out, prob


def initial_values(S):
    """(state, ComputedValues term) of the initial values"""
    a, p = S.a, S.p
    ks = [k for k in p.bodies if k.startswith('style::') and disp(p, k).endswith('__static_ref_initialize') and
          S.CV in str(p.mty(p.bodies[k].ret) if hasattr(p.bodies[k], 'ret') else '')]
    if not ks:
        ks = [k for k in p.bodies if k.startswith('style::') and k.endswith('__static_ref_initialize')]
    res = []
    for k in ks:
        for kind, st, v in a.entry(k):
            if v[0] == 'agg' and v[2] == S.CV:
                res.append((k, st, v))
    return one(res, 'initialiser of the initial computed values')


@check('S03', 'CSS property table: from a property name to the computed value it sets, for every property and CSS-wide keyword',
       level='other')
def s03(r):
    S = Style()
    p = S.p
    k, ent, bad = table(S)
    r.fn(disp(p, k))
    for b in bad:
        r.violate('lookup', disp(p, k), b)
    names = [n for n, _ in ent]
    r.floor('properties', len(names), 39)
    for n in names:
        r.ob('name', names.count(n) == 1 and n == n.lower() and (n in INITIAL or n in SHORTHANDS), disp(p, k),
             '%s is a CSS property, registered once under its lower-case name' % n)
    for n in sorted(set(INITIAL) | set(SHORTHANDS)):
        r.ob('registered', n in names, disp(p, k), 'property %s is known' % n)
    for n in S.fields:
        r.ob('storage', n in INITIAL, 'ComputedValues', 'computed value %s belongs to a CSS property' % n)
    ph, prob = phases(S)
    for var, msg in prob:
        r.violate('declaration', S.D, msg)
    # initial values
    ik, ist, iv = initial_values(S)
    r.fn(disp(p, ik))
    initial = {}
    for n, (i, j, ty) in S.fields.items():
        initial[n] = S.inside(ist, iv[4][i], j)
        if n in INITIAL:
            got = S.canon(ist, initial[n], ty)
            r.ob('initial', got == INITIAL[n], disp(p, ik), 'initial value of %s is %s' % (n, INITIAL[n]), detail=sh(initial[n]))
    # longhand identifiers: css-wide keywords
    idmap = {}
    ck = method(p, S.ID, 'cascade_css_wide_keyword_into')
    r.fn(disp(p, ck))
    kws = [v[0] for v in p.enums[S.KW]['variants']]
    r.ob('keywords', sorted(kws) == sorted(KEYWORDS), S.KW, 'the CSS-wide keywords are initial, inherit, unset')
    P, I = ('s', 'arg3'), ('s', 'arg4')
    base = S.snapshot(State0(), P)
    inh = S.snapshot(State0(), I)
    nk = 0
    for var, _, _ in p.enums[S.ID]['variants']:
        idv = ('agg', 'adt', S.ID, var, (), ())
        for kw in sorted(kws, key=lambda k: k != 'Initial'):
            outs = S.a.entry(ck, args=[('cref', idv), ('agg', 'adt', S.KW, kw, (), ()), P, I])
            for kind, st, v in outs:
                nk += 1
                ch = S.changed(st, P, base)
                if not r.ob('keyword', kind == 'ret' and len(ch) <= 1, disp(p, ck),
                            '%s on %s changes one computed value and does not panic' % (kw, var)):
                    continue
                if kw == 'Initial' and len(ch) == 1:
                    idmap.setdefault(var, list(ch)[0])
                prop = idmap.get(var)
                if not r.ob('keyword', ch and list(ch)[0] == prop, disp(p, ck),
                            '%s on %s changes the same computed value as the other keywords' % (kw, var), detail=str(list(ch))):
                    continue
                i, j, ty = S.fields[prop]
                if kw == 'Initial' or kw == 'Unset' and prop not in INHERITED:
                    good = S.canon(st, ch[prop], ty) == INITIAL.get(prop)
                    what = 'the initial value'
                else:
                    good = ch[prop] == inh[prop] or S.canon(st, ch[prop], ty) == S.canon(st, inh[prop], ty)
                    what = 'the inherited value'
                r.ob('keyword', good, disp(p, ck), '%s: %s gives %s' % (prop, kw.lower(), what), detail=sh(ch[prop]))
    r.floor('keyword_runs', nk, 90)
    early_ids = {}
    ek = method(p, S.ID, 'is_early')
    r.fn(disp(p, ek))
    for var, _, _ in p.enums[S.ID]['variants']:
        outs = S.a.entry(ek, args=[('agg', 'adt', S.ID, var, (), ())])
        vals = {v[1] if v[0] == 'c' else None for kind, st, v in outs}
        if r.ob('phase', len(vals) == 1 and None not in vals, disp(p, ek), 'phase of %s is determined' % var):
            early_ids[var] = bool(vals.pop())
    # CssWide declarations: applied once, in the phase of the property
    wide = [v for v in p.enums[S.D]['variants'] if len(v[1]) == 2]
    for var, fs, _ in wide:
        for idn, _, _ in p.enums[S.ID]['variants']:
            for phs in ('early', 'late'):
                pay = [('agg', 'adt', S.ID, idn, (), ()), ('agg', 'adt', S.KW, 'Initial', (), ())]
                hits = [sorted(ch) for kind, st, ch, b in decl_effect(S, var, pay, phs) if kind == 'ret']
                own = [q for q in ph.values() if q[1] == idmap.get(idn)]
                want = [[idmap.get(idn)]] if own and own[0][0] == phs else [[]]
                r.ob('wide', hits == want, S.D, '%s of %s is applied in the phase of the property (%s)' % (var, idn, phs),
                     detail=str(hits))
    # entries
    impls = parse_impls(S)
    for n, d in ent:
        lh, fn = data_parts(S, d)
        key = closure_key(S, fn)
        r.fn(disp(p, key))
        want = [n] if n in INITIAL else sorted(SHORTHANDS.get(n, {}).values())
        got = sorted(idmap.get(x[3], '?') for x in lh)
        r.ob('longhands', got == sorted(want), n, 'CSS-wide keywords on %s reach %s' % (n, ', '.join(sorted(want))), detail=str(got))
        oks = 0
        for kind, st, v, ps, b, calls, decl in run_parse(S, key):
            if v[0] == 'agg' and v[3] == 'Err':
                r.ob('push', not ps and b == ('deref', decl), n, 'a rejected value of %s adds no declaration' % n)
                continue
            if kind != 'ret' or v[0] != 'agg' or v[3] != 'Ok':
                r.violate('push', n, 'parsing %s has an unexpected outcome: %s' % (n, sh(v)[:100]))
                continue
            oks += 1
            eff = []
            flags = {'early': False, 'late': False}
            for x in ps:
                x = peel(x)
                if x[0] != 'agg' or x[2] != S.D:
                    eff.append(('?', sh(x)[:60]))
                    continue
                if len(x[4]) == 2:
                    prop = idmap.get(peel(x[4][0])[3]) if peel(x[4][0])[0] == 'agg' else None
                    isini = peel(x[4][1])[0] == 'agg' and peel(x[4][1])[3] == 'Initial'
                    eff.append((prop, 'initial' if isini else 'keyword'))
                    own = [q for q in ph.values() if q[1] == prop]
                    if own:
                        flags[own[0][0]] = True
                else:
                    q = ph.get(x[3])
                    eff.append((q[1] if q else None, x[4][0]))
                    if q:
                        flags[q[0]] = True
            props = sorted(str(e[0]) for e in eff)
            r.ob('push', props == sorted(want) and b == ('deref', decl), n, '%s declares %s' % (n, ', '.join(sorted(want))),
                 detail=str(props))
            pp = peel(v[4][0])
            if pp[0] == 'agg':
                for (fname, _), x in zip(p.structs[S.PP]['fields'], pp[4]):
                    r.ob('flags', x[0] == 'c' and bool(x[1]) == flags.get(fname), n,
                         '%s reports that it has%s declarations of the %s phase' % (n, '' if flags.get(fname) else ' no', fname))
            else:
                r.violate('flags', n, 'phases reported by %s not recognised' % n)
            # values come from the parsed value, each from its own part
            res = [e for e in calls]
            if n in INITIAL:
                r.ob('value', len(res) == 1 and len(eff) == 1 and is_part(eff[0][1], res[0], None), n,
                     'the declared value of %s is the parsed one' % n, detail=sh(eff[0][1])[:200] if eff else None)
            elif len(res) == 1:
                im = impls.get(res[0][3].get('key'))
                fs = p.structs[im.for_[1]]['fields'] if im is not None and im.for_[1] in p.structs else []
                part = {x[0]: i for i, x in enumerate(fs)}
                for prop, val in eff:
                    f = [f for f, q in SHORTHANDS[n].items() if q == prop] if n in SHORTHANDS else []
                    if not f or f[0] not in part:
                        r.violate('value', n, 'no part of the value of %s is for %s' % (n, prop))
                        continue
                    if val == 'initial':
                        o = optional_none(st, res[0], part[f[0]])
                        r.ob('value', o, n, '%s is reset to its initial value only where %s leaves it out' % (prop, n))
                    else:
                        r.ob('value', is_part(val, res[0], part[f[0]]), n, '%s is set from the %s part of %s' % (prop, f[0], n),
                             detail=sh(val)[:200])
            else:
                r.violate('value', n, '%s parses %d values' % (n, len(res)))
        r.ob('accepts', oks > 0, n, '%s accepts some value' % n)


def result_of(e):
    return e[3].get('result') or e[3].get('res')


def is_part(t, e, i):
    """t is the Ok payload of the parse call (or its field i, possibly the payload of an option)"""
    t = peel(t)
    if i is not None:
        if t[0] == 'vfld' and t[2] == 'Some':
            t = t[1]
        if not (t[0] == 'fld' and t[2] == i):
            return False
        t = t[1]
    res = result_of(e)
    return t[0] == 'vfld' and t[2] == 'Ok' and t[1] == res


def optional_none(st, e, i):
    f = ('fld', ('vfld', result_of(e), 'Ok', 0), i)
    return st.facts.get(('dis', f)) == 0 or 1 in st.facts.get(('not', ('dis', f)), ())


# ---------------------------------------------------------------------------------------------------- computed values
def kind_of(prop):
    if prop == 'font-size':
        return 'length'
    if prop == 'color':
        return 'color'
    if prop.endswith('-color') or prop.endswith('-style') or prop in ('position', 'float', 'display'):
        return 'same'
    return 'lengths'


def expected(S, st, prop, v, ty, fs):
    """the computed value the specified value v stands for; None if the path does not determine which it is"""
    k = kind_of(prop)
    if k == 'same':
        return S.canon(st, v, ty)
    while ty[0] == 'path' and ty[1] in S.p.structs and len(S.p.structs[ty[1]]['fields']) == 1:
        v, ty = fieldof(v, 0), S.p.structs[ty[1]]['fields'][0][1]
    var = S.variant(st, v, ty)
    if var is None:
        return None
    if k == 'length':
        return length(S, st, v, ty, fs)
    vt = [f for n, f, _ in S.p.enums[ty[1]]['variants'] if n == var][0]
    if not vt:
        return (var,)
    pv, pt = ('vfld', v, var, 0), vt[0][1]
    if pt[1] in S.p.enums:
        x = length(S, st, pv, pt, fs)
        return None if x is None else (var, x)
    return (var, S.leaf(pv, pt))


def length(S, st, v, ty, fs):
    """a specified length in pixels: itself if absolute, a multiple of the font size if in em"""
    var = S.variant(st, v, ty)
    if var is None:
        return None
    pt = [f for n, f, _ in S.p.enums[ty[1]]['variants'] if n == var][0][0][1]
    x = S.leaf(('vfld', v, var, 0), pt)
    if var == 'Em':
        return ('Mul',) + tuple(sorted((x, fs), key=repr))
    return x


@check('S05', 'For every declaration and every path of its conversion the computed value is the one CSS defines; fixups after the '
       'cascade change only what CSS says')
def s05(r):
    S = Style()
    p, a = S.p, S.a
    fi, fj, fty = S.fields['font-size']
    npaths = 0
    for var, fs, _ in p.enums[S.D]['variants']:
        if len(fs) != 1:
            continue
        cty = fs[0][1]
        ty = S.specified(cty[1]) if cty[0] == 'proj' else cty
        if ty is None:
            r.violate('conversion', var, 'type of the specified value of %s not found' % var)
            continue
        a.settype(('s', 'v0'), ty)
        done = False
        for ph in ('early', 'late'):
            for kind, st, ch, base in decl_effect(S, var, [('s', 'v0')], ph):
                if not ch:
                    continue
                done = True
                npaths += 1
                if len(ch) != 1 or list(ch)[0].startswith('.'):
                    r.violate('conversion', S.D, '%s changes %s' % (var, sorted(ch)))
                    continue
                prop = list(ch)[0]
                own = ctx_this(S, st, ('s', 'arg2'), ph)
                inh = ctx_inherited(S, st, ('s', 'arg2'), ph)
                src = inh if prop == 'font-size' else own
                fsz = S.leaf(S.read(State0(), src, fi, fj), fty)
                pty = S.fields[prop][2]
                got = S.canon(st, ch[prop], pty)
                if kind_of(prop) == 'color':
                    v0 = ('s', 'v0')
                    ci, cj, _ = S.fields['color']
                    d = st.facts.get(('dis', v0))
                    no = st.facts.get(('not', ('dis', v0)), ())
                    cur = d == 0 or 1 in no
                    rgba = d == 1 or 0 in no
                    if cur:
                        want = S.canon(st, S.read(State0(), inh, ci, cj), pty)
                    elif rgba:
                        want = S.canon(st, ('vfld', v0, 'RGBA', 0), pty)
                    else:
                        want = None
                else:
                    want = expected(S, st, prop, ('s', 'v0'), ty, fsz)
                facts = ', '.join('%s=%s' % (sh(f), x) for f, x in st.facts.items())
                r.ob('conversion', want is not None and got == want, S.D, 'computed value of %s on the path %s' % (
                    prop, shape(S, st, ('s', 'v0'), ty) or '-'), detail='got %s, want %s [%s]' % (got, want, facts[:300]))
        r.ob('conversion', done, S.D, '%s sets a computed value' % var)
    r.floor('conversion_paths', npaths, 80)
    used_color(r, S)
    fixups(r, S)
    r.fn(*[disp(p, k) for k in a.analysed])


def shape(S, st, v, ty, depth=0):
    """which variants a value has on a path, for messages"""
    if ty is None or ty[0] != 'path' or depth > 4:
        return ''
    s = S.p.structs.get(ty[1])
    if s is not None and len(s['fields']) == 1:
        return shape(S, st, fieldof(v, 0), s['fields'][0][1], depth + 1)
    if ty[1] not in S.p.enums:
        return ''
    var = S.variant(st, v, ty)
    if var is None:
        return ''
    fs = [f for n, f, _ in S.p.enums[ty[1]]['variants'] if n == var][0]
    sub = shape(S, st, ('vfld', v, var, 0), fs[0][1], depth + 1) if fs else ''
    return var + ('(%s)' % sub if sub else '')


def used_color(r, S):
    """currentColor is the computed color of the same element"""
    p, a = S.p, S.a
    k = method(p, S.CV, 'to_rgba')
    given, own = set(), set()
    i, j, _ = S.fields['color']
    arg = ('s', 'arg2')
    for kind, st, v in a.entry(k):
        d = S_dis(st, arg)
        mine = S.read(st, ('s', 'arg1'), i, j)
        if kind == 'ret' and v == ('vfld', arg, 'RGBA', 0):
            given.add(d)
        elif kind == 'ret' and v in (mine, fieldof(mine, 0)):
            own.add(d)
        else:
            r.violate('color', disp(p, k), 'a used color is neither the one given nor the color of the element', detail=sh(v)[:200])
    r.ob('color', len(given) == 1 and len(own) == 1 and not given & own and None not in given | own, disp(p, k),
         'a used color is the one given, and for currentColor the color of the element', detail='%s / %s' % (given, own))


def S_variant(S, st, t):
    """name of the variant a value is known to have"""
    ty = S.a.typeof(t)
    d = st.facts.get(('dis', t))
    if ty and ty[0] == 'path' and ty[1] in S.p.enums:
        vs = [v[0] for v in S.p.enums[ty[1]]['variants']]
        if d is not None:
            return vs[d] if isinstance(d, int) and d < len(vs) else None
        left = [n for i, n in enumerate(vs) if i not in st.facts.get(('not', ('dis', t)), ())]
        return left[0] if len(left) == 1 else None
    return None


def fixups(r, S):
    p, a = S.p, S.a
    k = method(p, S.CV, 'post_cascade_fixups')
    P = ('s', 'arg1')
    base = S.snapshot(State0(), P)
    a.merge = False
    bd, bty = base['display'], S.fields['display'][2]
    n = 0
    saved, a.unroll = a.unroll, 8
    outs = a.entry(k)
    a.unroll = saved
    for kind, st, v in outs:
        n += 1
        if kind != 'ret':
            r.violate('fixup', disp(p, k), 'the fixups may panic')
            continue
        now = S.snapshot(st, P)
        for prop in now:
            i, j, ty = S.fields[prop]
            got, was = now[prop], base[prop]
            if prop.startswith('border-') and prop.endswith('-width'):
                sp = prop.replace('-width', '-style')
                sv = S.variant(st, base[sp], S.fields[sp][2])
                if sv is None:
                    r.violate('fixup', disp(p, k), '%s is decided without looking at %s' % (prop, sp))
                elif sv == 'None':
                    r.ob('fixup', S.canon(st, got, ty) == ('Length', 0.0), disp(p, k), '%s is 0 where %s is none' % (prop, sp),
                         detail=sh(got))
                else:
                    r.ob('fixup', got == was, disp(p, k), '%s is kept where %s is not none' % (prop, sp), detail=sh(got))
            elif prop == 'display':
                oof = out_of_flow(S, st, base)
                c0, c1 = S.canon(st, was, ty), S.canon(st, got, ty)
                blk = blockified(S, st, was, ty)
                if oof is None:
                    good = blk is not None and c0 == blk and c1 == c0 or got == was and inert(S, st, was, ty)
                    what = 'is not changed'
                elif oof:
                    good = blk is not None and (c1 == blk or same_by_facts(S, st, c1, blk, was, ty))
                    what = 'is blockified for floats and absolutely positioned boxes'
                else:
                    good = got == was
                    what = 'is kept for boxes in flow'
                r.ob('fixup', good, disp(p, k), 'display %s' % what, detail='%s -> %s (out of flow: %s)' % (c0, c1, oof))
            else:
                r.ob('fixup', got == was, disp(p, k), '%s is not touched by the fixups' % prop, detail=sh(got))
        for nm, (i, ty) in S.scalars.items():
            v2 = a.load(st, ('h', P), (('field', i),))
            if ty == bty:
                r.ob('fixup', v2 == bd, disp(p, k), '%s remembers display as it was before' % nm, detail=sh(v2))
    r.floor('fixup_paths', n, 8)


def out_of_flow(S, st, base):
    pos = S.variant(st, base['position'], S.fields['position'][2])
    fl = S.variant(st, base['float'], S.fields['float'][2])
    pn = excluded(S, st, base['position'], S.fields['position'][2])
    fn = excluded(S, st, base['float'], S.fields['float'][2])
    if pos == 'Absolute' or fl in ('Left', 'Right') or 'None' in fn:
        return True
    if (pos is not None or 'Absolute' in pn) and fl == 'None':
        return False
    return None


def excluded(S, st, t, ty):
    no = st.facts.get(('not', ('dis', t)), ())
    return {n for n, _, d in S.p.enums[ty[1]]['variants'] if d in no}


def blockified(S, st, t, ty):
    """canonical blockification of a display value"""
    c = S.canon(st, t, ty)
    if isinstance(c, tuple) and c and c[0] in ('None', 'Contents'):
        return c
    if isinstance(c, tuple) and c[0] == 'GeneratingBox' and len(c) == 2 and isinstance(c[1], tuple) and c[1][0] == 'OutsideInside':
        return ('GeneratingBox', ('OutsideInside', ('Block',), c[1][2]))
    g = ('vfld', t, 'GeneratingBox', 0)
    if isinstance(c, tuple) and c[0] == 'GeneratingBox':
        return ('GeneratingBox', ('OutsideInside', ('Block',), ('vfld', g, 'OutsideInside', 1)))
    return None


def inert(S, st, t, ty):
    v = S.variant(st, t, ty)
    return v in ('None', 'Contents') or 'GeneratingBox' in excluded(S, st, t, ty)


def same_by_facts(S, st, c1, blk, t, ty):
    """the value left alone already equals its blockification: a display generating no box, or known to be block outside"""
    return c1 == S.canon(st, t, ty) and inert(S, st, t, ty)


# ---------------------------------------------------------------------------------------------------- cascade order
def whole(a, li, prefer=None):
    """(sequence, index) if the loop visits the elements of one sequence from the first to the last"""
    for loc, e in li.entry.items():
        if e[0] != 'c' or e[1] != 0 or isinstance(e[1], bool):
            continue
        phi = li.phis.get(loc)
        seqs = set()
        for s in li.iters:
            v = a.load(s, loc[0], loc[1])
            if not step(v, phi):
                seqs = None
                break
            here = {f[3][1] for f, t in s.facts.items() if t is True and f[0] == 'bin' and f[1] == 'Lt' and f[2] == phi and
                    f[3][0] == 'len'}
            seqs = here if not seqs else seqs & here
        if seqs:
            return prefer if prefer in seqs else sorted(seqs, key=repr)[0], phi
    return None, None


def step(v, phi):
    return v[0] in ('bin', 'sat', 'wrap') and v[1] == 'Add' and v[2] == phi and v[3][0] == 'c' and v[3][1] == 1 or \
        v[0] == 'lin' and v[1] == (((phi, 1),), 1)


def loops(st):
    return [e[3]['loop'] for e in st.events() if e[0] == 'loop']


def calls(st, *names):
    return [e for e in st.events() if e[0] == 'call' and tail(str(e[1]).split('::<')[0]) in names]


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t)


def refers(t, target):
    """t is (a reference to) the value target"""
    t = peel(t)
    if t == target:
        return True
    return False


def locterm(t):
    """the value a reference to memory reached through a pointer denotes, as a term"""
    t = peel(t)
    if t[0] == 'ref' and t[1][0] == 'h':
        v = ('deref', t[1][1])
        for pr in t[2]:
            if pr[0] == 'field':
                v = ('fld', v, pr[1])
            elif pr[0] == 'elem':
                v = ('elem', v, pr[1])
            elif pr[0] == 'deref':
                v = ('deref', v)
            else:
                return None
        return v
    return ('deref', t)


def truth(st, t):
    """value of a boolean term on the path"""
    v = st.facts.get(t)
    if isinstance(v, bool):
        return v
    for f, x in st.facts.items():
        if f[0] == 'bin' and f[1] in ('Eq', 'Ne') and isinstance(x, bool):
            for q, c in ((f[2], f[3]), (f[3], f[2])):
                if q == t and c[0] == 'c' and isinstance(c[1], bool):
                    return (c[1] if x else not c[1]) if f[1] == 'Eq' else (not c[1] if x else c[1])
    return None


def block_type(S):
    return one((k for k in S.p.structs if tail(k) == 'DeclarationBlock' and k.startswith('style::')), 'DeclarationBlock')


def block_fields(S):
    """indices of the declarations, of the importance bits and of the two per-phase summaries"""
    fs = S.p.structs[block_type(S)]['fields']
    decl = one((i for i, (n, t) in enumerate(fs) if S.D in str(t)), 'list of declarations')
    pp = [i for i, (n, t) in enumerate(fs) if t[0] == 'path' and t[1] == S.PP]
    imp = one((i for i in range(len(fs)) if i != decl and i not in pp), 'list of importance flags')
    return decl, imp, pp


def bit_of(st, block, imp, phi):
    """the importance flag the iteration reads"""
    at = ('elem', ('fld', block, imp), phi)
    if truth(st, at) is not None:
        return at
    for e in calls(st, 'next'):
        return ('vfld', result_of(e), 'Some', 0)
    return None


def flag_missing(S, st):
    """the path ends where a declaration has no importance flag: each has one (S01)"""
    decl, imp, pp = block_fields(S)
    last = [e for e in st.events()][-1:]
    if not last or last[0][0] != 'panic' or last[0][1] != 'index' or len(last[0][2]) != 2:
        return False
    seq, ix = locterm(last[0][2][0]), last[0][2][1]
    return seq is not None and seq[0] == 'fld' and seq[2] == imp and \
        st.facts.get(('bin', 'Lt', ix, ('len', ('fld', seq[1], decl)))) is True


def inner(r, S, name, st, li, block, what):
    """polarity of the declarations of one block that are passed on in an inner loop; None if not all are, in order"""
    a = S.a
    decl, imp, pp = block_fields(S)
    seq, phi = whole(a, li, ('fld', block, decl))
    good = seq is not None and seq == ('fld', block, decl)
    r.ob('order', good, name, '%s: all declarations of a block are visited, in source order' % what, detail=sh(seq)[:200] if seq else None)
    if not good:
        return None
    pol = {}
    for s in li.iters:
        bit = bit_of(s, block, imp, phi)
        tv = truth(s, bit) if bit is not None else None
        cs = calls(s, 'cascade', 'if_early_cascade_into', 'if_late_cascade_into')
        if len(cs) > 1 or cs and locterm(cs[0][2][-1]) != ('elem', seq, phi):
            r.violate('order', name, '%s: a declaration is cascaded more than once, or another one in its place' % what)
            return None
        pol.setdefault(tv, set()).add(bool(cs))
    if pol == {True: {True}, False: {False}}:
        return True
    if pol == {False: {True}, True: {False}}:
        return False
    r.violate('order', name, '%s: which declarations are cascaded is not decided by their importance' % what, detail=str(pol))
    return None


@check('S04', 'Order in which declarations reach the computed values, on every path from style_for_element; origin, importance, '
       'specificity and source order')
def s04(r):
    S = Style()
    p, a = S.p, S.a
    a.merge = False
    M = one((k for k in p.structs if tail(k) == 'MatchingDeclarations'), 'MatchingDeclarations')
    SS = one((k for k in p.structs if tail(k) == 'StyleSet'), 'StyleSet')
    decl, imp, pp = block_fields(S)
    # ---- which list is which: style_for_element
    k = one((k for k in p.bodies if disp(p, k) == 'style::cascade::style_for_element'), 'style_for_element')
    name = disp(p, k)
    match = one((b for b in p.bodies if disp(p, b) == 'style::selectors::matches'), 'selectors::matches')
    new = method(p, S.CV, 'new')
    parse = method(p, block_type(S), 'parse')
    a.opaque |= {match, new, parse}
    origin = {}
    nsites = 0
    used = set()
    for kind, st, v in a.entry(k):
        if kind != 'ret':
            continue            # indexing with a node identifier, not part of this property
        seen = []
        nc = [e for e in st.events() if e[0] == 'call' and e[3].get('key') == new]
        if not r.ob('result', len(nc) == 1 and v == result_of(nc[0]), name, 'the style is computed once, and returned'):
            continue
        arg = peel(nc[0][2][1])
        r.ob('result', nc[0][2][0] == ('s', 'arg4'), name, 'the parent style is the one given')
        mref = peel(arg[4][0]) if arg[0] == 'agg' and arg[3] == 'Some' else None
        if not r.ob('result', mref is not None and mref[0] == 'ref', name, 'the matching declarations are the ones collected'):
            continue
        home = (mref[1], tuple(mref[2]))
        style_pushes = 0
        for e in st.events():
            if e[0] == 'loop':
                li = e[3]['loop']
                ps = [(s, calls(s, 'push')) for s in li.iters]
                if not any(c for _, c in ps):
                    continue
                seq, phi = whole(a, li)
                src = source_of(seq)
                r.ob('collect', src is not None, name, 'all rules of a style set are visited, in order', detail=sh(seq)[:150] if seq else None)
                if src is None:
                    continue
                for s, c in ps:
                    ms = [x for x in s.events() if x[0] == 'call' and x[3].get('key') == match]
                    ok = len(ms) == 1 and locterm(ms[0][2][0]) == ('fld', ('elem', seq, phi), 0) and \
                        ms[0][2][1] == ('s', 'arg2') and ms[0][2][2] == ('s', 'arg3')
                    r.ob('collect', ok, name, 'each rule is matched by its own selector against this element')
                    if not ok:
                        continue
                    hit = truth(s, result_of(ms[0]))
                    if hit is None or len(c) != (1 if hit else 0):
                        r.violate('collect', name, 'a block is collected %s' % ('although its selector does not match' if hit is False else
                                                   'depending on something else than its selector' if hit is None else
                                                   '%d times when its selector matches' % len(c)))
                        continue
                    for x in c:
                        nsites += 1
                        dst = target_field(x[2][0], home)
                        val = peel(x[2][1])
                        ok = contains(val, ('elem', seq, phi)) or contains(locterm(val), ('elem', seq, phi))
                        r.ob('collect', ok and dst is not None, name, 'the block collected is the one of the matching rule',
                             detail=sh(val)[:200])
                        if dst is not None:
                            r.ob('collect', origin.setdefault(src, dst) == dst, name, 'each style set has its own list')
                seen.append(src)
            elif e[0] == 'call' and tail(str(e[1])) == 'push':
                dst = target_field(e[2][0], home)
                if dst is None:
                    continue
                style_pushes += 1
                nsites += 1
                pc = [x for x in st.events() if x[0] == 'call' and x[3].get('key') == parse]
                ref = peel(e[2][1])
                val = a.load(st, ref[1], tuple(ref[2])) if ref[0] == 'ref' else None
                r.ob('style-attribute', len(pc) == 1 and val == result_of(pc[0]), name,
                     'the block of the style attribute is the parsed attribute')
                r.ob('style-attribute', dst == origin.get('author'), name, 'the style attribute is of the author origin')
                r.ob('style-attribute', 'author' in seen, name, 'the style attribute comes after all author rules')
                ns = namespaces(a, st)
                r.ob('style-attribute', ns is not None and ns <= {'html', 'svg', 'mathml'}, name,
                     'style attributes are only for HTML, SVG and MathML elements', detail=str(ns))
        r.ob('collect', sorted(seen) == ['author', 'ua'], name, 'both style sets are matched, each once', detail=str(seen))
        ns = namespaces(a, st)
        if style_pushes:
            used |= ns or set()
        if ns is not None and has_style_attr(S, st):
            r.ob('style-attribute', style_pushes == 1, name, 'a style attribute of an HTML, SVG or MathML element is used')
    r.floor('collect_sites', nsites, 4)
    r.ob('style-attribute', used == {'html', 'svg', 'mathml'}, name, 'the style attribute of HTML, SVG and MathML elements is used',
         detail=str(sorted(used)))
    r.ob('collect', set(origin) == {'ua', 'author'} and len(set(origin.values())) == 2, name, 'the two origins are kept apart')
    a.opaque -= {match, new, parse}
    # ---- the cascade over the lists
    cks = [key for key in methods(p, M).values()]
    ck = one((key for key in cks if any(e for kind, st, v in a.entry(key) for e in loops(st))), 'cascade over the matching declarations')
    cn = disp(p, ck)
    want = [('ua', False), ('author', False), ('author', True), ('ua', True)]
    back = {v: q for q, v in origin.items()}
    anyf = {}
    for kind, st, v in a.entry(ck):
        if kind != 'ret':
            r.ob('origin', flag_missing(S, st), cn, 'the cascade cannot panic', detail=sh(v)[:200])
            continue
        seq_ = []
        for li in loops(st):
            seq, phi = whole(a, li)
            fld = [i for i in range(len(p.structs[M]['fields'])) if contains(seq, ('fld', ('deref', ('s', 'arg1')), i))]
            if not r.ob('origin', len(fld) == 1, cn, 'each loop of the cascade visits all blocks of one origin in order'):
                continue
            block = ('deref', ('elem', seq, phi))
            pols = set()
            for s in li.iters:
                sel = calls(s, 'select')
                il = loops(s)
                for l2 in il:
                    pol = inner(r, S, cn, s, l2, block, back.get(fld[0], '?'))
                    pols.add(pol)
                if il:
                    r.ob('origin', len(il) == 1, cn, 'declarations of a block are visited once')
                if not il:
                    ok = len(sel) == 1 and truth(s, result_of(sel[0])) is False and sel[0][2][1][0] == 'fld' and \
                        sel[0][2][1][1] == block and sel[0][2][1][2] in pp
                    r.ob('origin', ok, cn, 'a block is only left out when its summary says that it has nothing for the phase')
                    if ok:
                        anyf.setdefault(sel[0][2][1][2], set()).add((id(li), back.get(fld[0])))
                        li.any_ = sel[0][2][1][2]
            if len(pols) == 1:
                pol = pols.pop()
                seq_.append((back.get(fld[0]), pol))
                if getattr(li, 'any_', None) is not None:
                    anyf.setdefault('pol', {}).setdefault(li.any_, set()).add(pol)
        r.ob('origin', seq_ == want, cn, 'order of the cascade: user agent, author, important author, important user agent', detail=str(seq_))
    pol = anyf.get('pol', {})
    r.ob('summary', all(len(x) == 1 for x in pol.values()) and len({frozenset(x) for x in pol.values()}) == len(pol), cn,
         'each summary is used for declarations of one importance', detail=str(pol))
    # ---- the summaries are those kept by the parser of declarations
    sums = summaries(S)
    r.ob('summary', all(sums.get(f) == x for f, x in pol.items()), cn,
         'the summary consulted for important (normal) declarations is the one of important (normal) declarations',
         detail='%s / %s' % (sums, pol))
    # ---- phases
    for ph in ('early', 'late'):
        ct = ctx_type(S, ph)
        ms = {}
        for im in p.impls:
            if im.for_[0] == 'path' and im.for_[1] == ct and im.trait and tail(im.trait) == 'Phase':
                ms = im.methods
        fi = one((i for i, f in enumerate(p.structs[S.PP]['fields']) if f[0] == ph), ph)
        for kind, st, v in a.entry(ms['select']):
            r.ob('phase', kind == 'ret' and v == ('fld', ('s', 'arg2'), fi), disp(p, ms['select']),
                 'the %s phase is selected where there are %s declarations' % (ph, ph), detail=sh(v))
        tgt = method(p, S.D, 'if_%s_cascade_into' % ph)
        a.opaque.add(tgt)
        for kind, st, v in a.entry(ms['cascade']):
            cs = [e for e in st.events() if e[0] == 'call']
            r.ob('phase', kind == 'ret' and len(cs) == 1 and cs[0][3].get('key') == tgt and peel(cs[0][2][0]) == ('s', 'arg2') and
                 same_place(cs[0][2][1], ('s', 'arg1')), disp(p, ms['cascade']), 'the %s phase applies %s declarations' % (ph, ph))
        a.opaque.discard(tgt)
    # ---- ComputedValues::new
    fx = method(p, S.CV, 'post_cascade_fixups')
    a.opaque |= {ck, fx}
    nn = disp(p, new)
    npath = 0
    for kind, st, v in a.entry(new):
        npath += 1
        if kind != 'ret':
            r.violate('phases', nn, 'computing a style may panic')
            continue
        cs = [e for e in st.events() if e[0] == 'call' and e[3].get('key') in (ck, fx)]
        some = S_opt(st, ('s', 'arg2'))
        par = S_opt(st, ('s', 'arg1'))
        seq_ = []
        first = None
        for e in cs:
            if e[3]['key'] == fx:
                seq_.append('fixups')
                tgt = peel(e[2][0])
            else:
                ref = peel(e[2][1])
                vals = e[3].get('vals') or ()
                c = ctx_of(S, a, st, e)
                seq_.append(c[0] if c else '?')
                r.ob('phases', peel(e[2][0]) == ('vfld', ('s', 'arg2'), 'Some', 0), nn, 'the cascade is over the matching declarations')
        want_ = (['early', 'late'] if some else []) + ['fixups']
        r.ob('phases', some is not None and seq_ == want_, nn, 'early declarations are applied before late ones, and both before the fixups',
             detail=str(seq_))
    r.floor('new_paths', npath, 4)
    a.opaque -= {ck, fx}
    start_values(r, S, new, ck, fx)
    # ---- order of rules within a style set
    style_sets(r, S)
    r.fn(*[disp(p, k) for k in a.analysed])


def S_opt(st, t):
    """True/False: the option is known to be Some/None"""
    d = st.facts.get(('dis', t))
    no = st.facts.get(('not', ('dis', t)), ())
    if d is not None:
        return d == 1
    if 0 in no:
        return True
    if 1 in no:
        return False
    return None


def same_place(t, x):
    t = peel(t)
    return t == x or t[0] == 'ref' and t[1] == ('h', x) and not t[2]


def ctx_of(S, a, st, e):
    """('early'|'late', context value) a cascade call was given"""
    vals = e[3].get('vals') or ()
    for v in vals:
        v = peel(v) if isinstance(v, tuple) else None
        if v is not None and v[0] == 'agg' and v[2]:
            for ph in ('early', 'late'):
                if v[2] == ctx_type(S, ph):
                    return ph, v
    ref = peel(e[2][1])
    return None


def start_values(r, S, new, ck, fx):
    """what the cascade starts from: inherited structs from the parent, others initial"""
    p, a = S.p, S.a
    nn = disp(p, new)
    a.opaque |= {ck, fx}
    fr = State0()
    ik, ist, iv = initial_values(S)
    n = 0
    for kind, st, v in a.entry(new):
        if kind != 'ret' or S_opt(st, ('s', 'arg2')) is not False:
            continue
        fc = [e for e in st.events() if e[0] == 'call' and e[3].get('key') == fx]
        if len(fc) != 1:
            continue
        vals = fc[0][3].get('vals') or ()
        cv = [x for x in vals if isinstance(x, tuple) and x[0] == 'agg' and x[2] == S.CV]
        if not r.ob('start', len(cv) == 1, nn, 'the fixups are applied to the values computed'):
            continue
        n += 1
        par = S_opt(st, ('s', 'arg1'))
        for prop, (i, j, ty) in S.fields.items():
            x = cv[0][4][i]
            frompar = contains(x, ('vfld', ('s', 'arg1'), 'Some', 0))
            fromini = 'INITIAL' in sh(x) or contains(x, 'lazy')
            if prop in INHERITED and par:
                r.ob('start', frompar and field_ok(x, i), nn, '%s starts from the value of the parent' % prop, detail=sh(x)[:200])
            else:
                r.ob('start', not frompar and fromini and field_ok(x, i), nn, '%s starts from its initial value%s' % (
                    prop, '' if prop not in INHERITED else ' for the root'), detail=sh(x)[:200])
    r.floor('start_paths', n, 2)
    a.opaque -= {ck, fx}


def field_ok(x, i):
    """the Arc cloned is the i-th field of computed values"""
    while x[0] in ('&', 'cref') or x[0] == 'call' and tail(x[1]) == 'clone':
        x = x[2][0] if x[0] == 'call' else x[1]
    return x[0] == 'fld' and x[2] == i or x[0] == 'deref' and field_ok(x[1], i)


def source_of(seq):
    if seq is None:
        return None
    if contains(seq, ('deref', ('s', 'arg1'))):
        return 'author'
    return 'ua' if 'USER_AGENT' in sh(seq) else None


def target_field(t, home):
    t = peel(t)
    if t[0] != 'ref' or t[1] != home[0]:
        return None
    pr = tuple(t[2])
    n = len(home[1])
    if pr[:n] != home[1] or len(pr) <= n or pr[n][0] != 'field':
        return None
    return pr[n][1]


def namespaces(a, st):
    """names of the namespaces the element is known to be in, None if not known to be in any"""
    import atoms
    out = None
    for f, v in st.facts.items():
        if f[0] == 'bin' and f[1] in ('Eq', 'Ne') and v == (f[1] == 'Eq'):
            for x, c in ((f[2], f[3]), (f[3], f[2])):
                c = peel(c)
                if c[0] == 'agg' and len(c[4]) >= 1:
                    c = c[4][0]
                if c[0] == 'c' and isinstance(c[1], int) and 'Element' in sh(x):
                    s = atoms.decode(c[1], 'Namespace')
                    names = {n for n, u in atoms.NS.items() if u == s and s}
                    if names and 'elem phi' not in sh(x)[-60:]:
                        out = (out or set()) | names
    return out


def has_style_attr(S, st):
    """an attribute named style was found on the path"""
    import atoms
    for f, v in st.facts.items():
        if f[0] == 'bin' and f[1] == 'Eq' and v is True:
            for c in (f[2], f[3]):
                c = peel(c)
                if c[0] == 'agg' and c[4]:
                    c = c[4][0]
                if c[0] == 'c' and isinstance(c[1], int) and not isinstance(c[1], bool) and atoms.decode(c[1], 'LocalName') == 'style':
                    return True
    return False


def summaries(S):
    """{summary field: {importance of the declarations it summarises}} according to the parser of declarations"""
    p, a = S.p, S.a
    B = block_type(S)
    decl, imp, pp = block_fields(S)
    out = {}
    for kind, st, v, info in parse_values(S):
        if kind != 'ret' or v[3] != 'Ok':
            continue
        for f in pp:
            now, was = info['now'](f), info['was'](f)
            if now != was:
                out.setdefault(f, set()).add(info['important'])
    return out


# ---------------------------------------------------------------------------------------------------- declaration blocks
NPUSHED = ('s', 'pushed')
ONRESULT = ('s', 'parsed')


def exp_parser(S):
    """(body key of parse_value, field path of the block within self)"""
    p = S.p
    B = block_type(S)
    keys = []
    for im in p.impls:
        if im.trait and tail(im.trait) == 'DeclarationParser' and 'parse_value' in im.methods and im.for_[0] == 'path':
            fs = p.structs[im.for_[1]]['fields']
            at = [i for i, (n, t) in enumerate(fs) if t[0] == 'path' and t[1] == B]
            if len(at) == 1:
                keys.append((im.methods['parse_value'], at[0]))
    return one(keys, 'parser of declarations')


def parse_values(S):
    """outcomes of parsing one declaration: [(kind, state, value, info)], where the property's own parse function is taken to leave
    the declarations alone when it fails and to append at least one when it succeeds"""
    p, a = S.p, S.a
    key, at = exp_parser(S)
    decl, imp, pp = block_fields(S)
    base = (('field', at),)
    me = ('s', 'arg1')

    def hook(eng, s, fr, name, args, info):
        if name != 'callback':
            return None
        ref = args[-1]
        if ref[0] != 'ref' or ref[1] != ('h', me) or tuple(ref[2]) != base + (('field', decl),):
            return None
        i2 = dict(info)
        i2['vals'] = tuple(eng.snapshot(s, x) for x in args)
        i2['stack'] = fr.stack
        i2['res'] = ONRESULT
        s.event('call', name, args, i2)
        bad, good = s.fork(), s.fork()
        bad.facts[('dis', ONRESULT)] = 1
        good.facts[('dis', ONRESULT)] = 0
        old = a.load(good, ref[1], tuple(ref[2]))
        eng.settype(NPUSHED, ('prim', 'usize'))
        good.lin = good.lin + (lin.add(lin.atom(NPUSHED), lin.const(-1)), lin.add(lin.const(1 << 40), lin.scale(lin.atom(NPUSHED), -1)))
        eng.write_ref(good, ref, ('vext', old, ('s', 'pushed-declarations'), NPUSHED))
        return [('ret', bad, ONRESULT), ('ret', good, ONRESULT)]
    saved = set(a.opaque), a.opaque_hook, a.merge
    a.opaque |= set(parse_impls(S)) | {method(p, S.ID, 'is_early')}
    a.opaque_hook = hook
    a.merge = False
    try:
        outs = a.entry(key)
    finally:
        a.opaque, a.opaque_hook, a.merge = saved
    res = []
    for kind, st, v in outs:
        info = {'now': lambda f, st=st: a.load(st, ('h', me), base + (('field', f),)),
                'was': lambda f: a.load(State0(), ('h', me), base + (('field', f),)),
                'important': None}
        tries = [e for e in calls(st, 'r#try') if 'parse_important' in sh(e[2][1])]
        if len(tries) == 1:
            d = S_dis(st, result_of(tries[0]))
            info['important'] = None if d is None else d == 0
        info['imp'] = tries
        res.append((kind, st, v, info))
    return res


def S_dis(st, t):
    d = st.facts.get(('dis', t))
    if d is None:
        no = st.facts.get(('not', ('dis', t)), ())
        if 0 in no:
            return 1
        if 1 in no:
            return 0
    return d


def orred(st, now, was, x):
    """now is was | x on the path"""
    if now[0] == 'bin' and now[1] == 'BitOr' and {now[2], now[3]} == {was, x} or now == was == x:
        return True
    n, w, v = value_of(st, now), value_of(st, was), value_of(st, x)
    if now == was and v is False or now == x and w is False:
        return True
    return n is True and (w is True or v is True) or n is False and w is False and v is False


def parts(S, a, v, st=None):
    """(early, late) of a summary value"""
    fs = [f[0] for f in S.p.structs[S.PP]['fields']]
    out = []
    for n in ('early', 'late'):
        i = fs.index(n)
        out.append(v[4][i] if v[0] == 'agg' else fieldof(v, i))
    return out


@check('S01', 'Every path of the declaration parser: what has been appended to the block when it fails and when it succeeds; the '
       'assertions of the block parser follow')
def s01(r):
    S = Style()
    p, a = S.p, S.a
    key, at = exp_parser(S)
    name = disp(p, key)
    decl, imp, pp = block_fields(S)
    me = ('s', 'arg1')
    n = {'Ok': 0, 'Err': 0, 'wide': 0}
    longhands = None
    for kind, st, v, info in parse_values(S):
        now, was = info['now'], info['was']
        wide = [e for e in calls(st, 'r#try') if 'CssWideKeyword' in sh(e[2][1])]
        iswide = bool(wide) and S_dis(st, result_of(wide[0])) == 0
        cb = [e for e in st.events() if e[0] == 'call' and e[1] == 'callback']
        grown = True
        if iswide:
            grown = False
            for li in loops(st):
                seq, phi = whole(a, li)
                if seq is None:
                    continue
                ok = True
                for s in li.iters:
                    ok = wide_push(r, S, name, st, s, li, seq, phi, base_=(at, decl), kw=('vfld', result_of(wide[0]), 'Ok', 0)) and ok
                grown = grown or ok and lists_longhands(S, seq, st)
            r.ob('wide', grown, name, 'a CSS-wide keyword declares every longhand of the property, each once and in order')
            n['wide'] += 1
        if kind != 'ret':
            # only the length accounting of the CSS-wide keywords is beyond the engine: one declaration per longhand
            about = grown and iswide and any(contains(f, ('len', now(decl))) or 'len' in sh(f) and
                                             contains(f, now(decl)) for f in list(st.facts)[-2:])
            r.ob('panic', about, name, 'parsing a declaration cannot panic', detail=sh(v)[:200])
            continue
        if v[0] != 'agg' or v[3] not in ('Ok', 'Err'):
            # the error of the value parser, passed on as it is
            r.ob('atomic', False, name, 'the outcome is known to be success or failure', detail=sh(v)[:200])
            continue
        if v[3] == 'Err':
            n['Err'] += 1
            d0, d1 = was(decl), now(decl)
            if d1 != d0:
                tr = [e for e in calls(st, 'truncate')]
                ok = len(tr) == 1 and (peel(tr[0][2][1]) == ('len', d0)) and tr[0][2][0][0] == 'ref' and tr[0][2][0][1] == ('h', me) and \
                    tuple(tr[0][2][0][2]) == (('field', at), ('field', decl))
                last = [e for e in st.events() if e[0] in ('call', 'write')]
                r.ob('atomic', ok, name, 'a declaration that fails to parse leaves nothing in the block',
                     detail='; '.join(str(e[1])[-40:] for e in last))
            else:
                r.ob('atomic', True, name, 'a declaration that fails to parse leaves nothing in the block')
            for f in [imp] + pp:
                r.ob('atomic', now(f) == was(f), name, 'a declaration that fails to parse changes no flag of the block',
                     key='%s:flags' % name, detail=sh(now(f))[:150])
            continue
        n['Ok'] += 1
        # success: everything consumed
        ex = [e for e in calls(st, 'expect_exhausted')]
        ok = len(ex) >= 1 and S_dis(st, result_of(ex[-1])) == 0
        after = [e for e in st.events() if e[0] == 'call' and ('Parser' in str(e[1]) or e[1] == 'callback')]
        r.ob('exhausted', ok and after and after[-1] is ex[-1], name, 'a declaration is only accepted once all of its value is consumed')
        r.ob('exhausted', len(info['imp']) == 1 and info['important'] is not None, name, '!important is looked for once, after the value')
        if info['important'] is None:
            continue
        order = [e for e in st.events() if e[0] == 'call' and e in cb + info['imp'] + ex + wide]
        r.ob('exhausted', order == wide + cb + info['imp'] + ex, name, 'keyword, value, !important, end: in this order')
        r.ob('order', iswide == (not cb), name, 'the value is parsed by the property, or is one CSS-wide keyword')
        # flags
        d0, d1 = was(decl), now(decl)
        exts = [e for e in calls(st, 'extend')]
        one_each = flag_loop(S, st, at, imp) if not exts else None
        if one_each:
            exts = [one_each]
        ok = len(exts) == 1 and exts[0][2][0][0] == 'ref' and exts[0][2][0][1] == ('h', me) and \
            tuple(exts[0][2][0][2]) == (('field', at), ('field', imp))
        r.ob('flags', ok, name, 'one importance flag is added per declaration')
        if ok:
            rep, cnt = repeat_of(exts[0], a, st)
            tv = rep is not None and value_of(st, rep) == info['important']
            r.ob('flags', tv, name, 'the importance flags added say whether !important was there', detail=sh(rep)[:120] if rep else None)
            LF = lambda t: a.lf(st, t, {})
            good = False
            if cnt is not None:
                if d1[0] == 'vext' and d1[1] == d0:
                    good = LF(cnt) == lin.atom(NPUSHED)
                else:
                    good = cnt == ('bin', 'Sub', ('len', d1), ('len', d0)) or \
                        LF(cnt) == lin.add(LF(('len', d1)), LF(('len', d0)), 1, -1)
            r.ob('flags', good, name, 'as many importance flags are added as declarations', detail=sh(cnt)[:150] if cnt else None)
        ch = [f for f in pp if now(f) != was(f)]
        others = [f for f in pp if f not in ch]
        if not r.ob('flags', len(ch) <= 1, name, 'one summary is updated, and the other left as it was', detail=str(ch)):
            continue
        c = ch[0] if ch else pp[0]
        nw, ws = parts(S, a, now(c)), parts(S, a, was(c))
        if cb:
            pr = parts(S, a, ('vfld', ONRESULT, 'Ok', 0))
            r.ob('flags', all(orred(st, x, y, z) for x, y, z in zip(nw, ws, pr)), name,
                 'the summary gets the phases of the declarations added', detail=[sh(x)[:150] for x in nw].__str__())
        else:
            r.ob('flags', wide_phase(S, st, nw, ws), name, 'the summary gets the phases of the longhands declared',
                 detail=[sh(x)[:150] for x in nw].__str__())
    sums = summaries(S)
    r.ob('flags', set(sums) == set(pp) and all(len(x) == 1 for x in sums.values()) and
         {frozenset(x) for x in sums.values()} == {frozenset([True]), frozenset([False])}, name,
         'each summary is of declarations of one importance', detail=str(sums))
    for q in n:
        r.floor('outcomes_' + q, n[q], 1)
    # ---- what is assumed of the value parsers
    kk, ent, bad = table(S)
    seen = set()
    for nm, d in ent:
        lh, fn = data_parts(S, d)
        r.ob('wide', bool(lh), disp(p, kk), '%s: there is a longhand to declare' % nm)
        ck = closure_key(S, fn)
        if ck in seen:
            continue
        seen.add(ck)
        for kind, st, v, ps, base, cs, dref in run_parse(S, ck):
            if kind != 'ret':
                r.violate('contract', disp(p, ck), 'parsing the value of %s may panic' % nm)
                continue
            ok = v[0] == 'agg' and v[3] == 'Ok' or S_dis(st, v) == 0
            if ok:
                good = bool(ps) and base == a.load(State0(), ('h', dref), ())
                pr = parts(S, a, v[4][0] if v[0] == 'agg' else ('vfld', v, 'Ok', 0))
                some = any(x == ('c', True, x[2]) for x in pr if x[0] == 'c')
                r.ob('contract', good and some, disp(p, ck), 'a value of %s that is accepted adds declarations, and says of which phase' % nm)
            else:
                r.ob('contract', not ps and base == a.load(State0(), ('h', dref), ()), disp(p, ck),
                     'a value of %s that is refused adds no declaration' % nm)
    r.floor('value_parsers', len(seen), 20)
    # ---- the block parser
    B = block_type(S)
    bk = method(p, B, 'parse')
    bn = disp(p, bk)
    saved = a.merge
    a.merge = False
    outs = a.entry(bk)
    a.merge = saved
    nret = 0
    for kind, st, v in outs:
        lp = loops(st)
        nx = [e for e in calls(st, 'next')]
        if kind == 'ret':
            nret += 1
            ctor = [e for e in st.events() if e[0] == 'call' and 'DeclarationListParser' in str(e[1]) and tail(str(e[1])) == 'new']
            ok = len(ctor) == 1 and len(lp) >= 1 and ctor[0][2][0] == ('s', 'arg1')
            r.ob('block', ok, bn, 'all of the input is parsed as a list of declarations')
            if ok:
                pv = ctor[0][2][1]
                blk = pv[4][at] if pv[0] == 'agg' else None
                dv = blk[4][decl] if blk and blk[0] == 'agg' else None
                r.ob('block', dv is not None and (dv == ('vec0',) or dv[0] == 'call' and tail(dv[1]) in ('default', 'new')), bn,
                     'a block starts without declarations', detail=sh(dv)[:100] if dv else None)
                end = [e for e in st.events() if e[0] == 'call' and tail(str(e[1])) == 'next']
                r.ob('block', bool(end) and S_dis(st, result_of(end[-1])) == 0 and contains(v, ('hv', end[-1][1] + '.0', None)) or
                     bool(end) and S_dis(st, result_of(end[-1])) == 0 and 'hv' in sh(v), bn,
                     'the block is complete when the list of declarations is at its end, and is what the parser collected', detail=sh(v)[:200])
            continue
        r.ob('assert', excused(S, st, at, decl, imp, pp), bn, 'the assertions of the block parser follow from what parsing a declaration does',
             detail=[(sh(f)[:160], x) for f, x in list(st.facts.items())[-2:]].__str__())
    r.floor('block_outcomes', nret, 1)
    r.fn(*[disp(p, k) for k in a.analysed])


def excused(S, st, at, decl, imp, pp):
    """the panic of the block parser contradicts what is proved of the declaration parser"""
    last = [(f, x) for f, x in st.facts.items()]
    if not last:
        return False
    f, x = last[-1]
    s = sh(f)
    # after a failure the number of declarations is the same
    if f[0] == 'bin' and f[1] in ('Eq', 'Ne') and x == (f[1] == 'Ne'):
        ls = [q for q in (f[2], f[3]) if q[0] == 'len']
        if len(ls) == 2 and fieldpath(ls[0][1])[1] == fieldpath(ls[1][1])[1] and fieldpath(ls[0][1])[1][-1] == decl:
            failed = [v for g, v in st.facts.items() if g[0] == 'dis' and g[1][0] == 'vfld' and v == 1]
            return bool(failed)
        if len(ls) == 1 and fieldpath(ls[0][1])[1][-1:] == [decl]:
            for q in (f[2], f[3]):
                if remembered(S, st, q, decl):
                    return any(g[0] == 'dis' and g[1][0] == 'vfld' and v == 1 for g, v in st.facts.items())
        # as many importance flags as declarations
        lens = [q for q in (f[2], f[3]) if q[0] == 'call' and 'SmallBitVec' in q[1] and tail(q[1]) == 'len']
        if len(ls) == 1 and len(lens) == 1 and fieldpath(ls[0][1])[1][-1] == decl and tuple(lens[0][2][0][2])[-1] == ('field', imp):
            return True
    # the summaries are those of the declarations: some normal (important) one, or none
    return 'SmallBitVec::all_true' in s or 'SmallBitVec::all_false' in s


def remembered(S, st, phi, decl):
    """a variable that holds the number of declarations whenever the next declaration is to be parsed"""
    a = S.a
    if phi not in a.phi_info:
        return False
    li, loc = a.phi_info[phi]
    if li.entry.get(loc) != ('c', 0, 'usize'):
        return False
    for s in li.iters:
        v = a.load(s, loc[0], loc[1])
        nx = [e for e in s.events() if e[0] == 'call' and tail(str(e[1])) == 'next']
        # the length after the only step of the parser
        if v[0] != 'len' or fieldpath(v[1])[1][-1:] != [decl] or len(nx) != 1 or \
                fieldpath(v[1])[0] != ('hv', nx[0][1] + '.0', fieldpath(v[1])[0][2] if fieldpath(v[1])[0][0] == 'hv' else None):
            return False
    return True


def fieldpath(v):
    out = []
    while v[0] == 'fld':
        out.append(v[2])
        v = v[1]
    return v, out[::-1]


def value_of(st, t):
    if t[0] == 'c' and isinstance(t[1], bool):
        return t[1]
    return truth(st, t)


def repeat_of(e, a, st):
    """(flag, count) of extend(repeat(flag).take(count))"""
    t = e[2][1]
    if t[0] == 'call' and tail(t[1].split('::<')[0]) == 'take':
        q = t[2][0]
        if q[0] == 'call' and tail(q[1].split('::<')[0]) == 'repeat':
            return q[2][0], t[2][1]
    return None, None


def flag_loop(S, st, at, imp):
    """the loop that pushes a flag a number of times, seen as extend(repeat(flag).take(count))"""
    a = S.a
    dst = ('h', ('s', 'arg1')), (('field', at), ('field', imp))
    found = []
    for li in loops(st):
        count, var = counted(a, li)
        es = [[e for e in s.events() if e[0] == 'call' and e[2] and e[2][0][0] == 'ref' and (e[2][0][1], tuple(e[2][0][2])) == dst]
              for s in li.iters]
        if not any(es):
            continue
        if count is None or any(len(x) != 1 or tail(str(x[0][1])) != 'push' for x in es) or len({x[0][2] for x in es}) != 1 or \
                contains(es[0][0][2][1], var):
            return None
        found.append((es[0][0], count))
    if len(found) != 1:
        return None
    e, count = found[0]
    return ('call', 'extend', (e[2][0], ('call', 'take', (('call', 'repeat', (e[2][1],)), count))), e[3])


def counted(a, li):
    """(count, index) if the loop runs for the numbers from 0 up to a bound that does not change"""
    for loc, e in li.entry.items():
        if e[0] != 'c' or e[1] != 0 or isinstance(e[1], bool):
            continue
        phi = li.phis.get(loc)
        his = None
        for s in li.iters:
            if not step(a.load(s, loc[0], loc[1]), phi):
                his = None
                break
            here = {f[3] for f, t in s.facts.items() if t is True and f[0] == 'bin' and f[1] == 'Lt' and f[2] == phi}
            his = here if his is None else his & here
        for h in sorted(his or (), key=repr):
            if not any(contains(h, x) for x in li.phis.values()):
                return h, phi
    return None, None


def lists_longhands(S, seq, st):
    """the sequence is the list of longhands of the property looked up"""
    return 'Map::get' in sh(seq) and contains(seq, 'vfld')


def wide_push(r, S, name, st, s, li, seq, phi, base_, kw):
    """one step of the loop over the longhands: one declaration pushed"""
    a = S.a
    at, decl = base_
    loc = None
    for l, ph in li.phis.items():
        if l[0] == ('h', ('s', 'arg1')) and tuple(l[1]) == (('field', at), ('field', decl)):
            loc = (l, ph)
    v = a.load(s, ('h', ('s', 'arg1')), (('field', at), ('field', decl)))
    if loc is None:
        return False
    base, ps = pushed(v)
    ok = base == loc[1] and len(ps) == 1 and ps[0][0] == 'agg' and ps[0][3] == 'CssWide' and \
        peel(ps[0][4][0]) in (('elem', seq, phi), ('deref', ('elem', seq, phi))) and ps[0][4][1] == kw
    return ok


def wide_phase(S, st, nw, ws):
    """the two flags or-ed into the summary start out false, and become true for a longhand of the phase"""
    for li in loops(st):
        ls = list(li.phis.items())
        for early, e in ls:
            if not orred(st, nw[0], ws[0], e):
                continue
            for late, l in ls:
                if late != early and orred(st, nw[1], ws[1], l) and phase_loop(S, li, early, late):
                    return True
    return False


def phase_loop(S, li, early, late):
    a = S.a
    ek = method(S.p, S.ID, 'is_early')
    for l in (early, late):
        v = li.entry.get(l)
        if v is None or not (v[0] == 'c' and v[1] is False or v[0] == 'call' and tail(v[1]) == 'default'):
            return False
    seq, phi = whole(a, li)
    seen = set()
    for s in li.iters:
        cs = [e for e in s.events() if e[0] == 'call' and e[3].get('key') == ek]
        if len(cs) != 1 or peel(cs[0][2][0]) not in (('elem', seq, phi), ('deref', ('elem', seq, phi))):
            return False
        tv = truth(s, result_of(cs[0]))
        if tv is None:
            return False
        seen.add(tv)
        for l, on in ((early, tv), (late, not tv)):
            if not orred(s, a.load(s, l[0], l[1]), li.phis[l], ('c', on, 'bool')):
                return False
    return seen == {True, False}


def style_sets(r, S):
    """rules of a style set: added in the order of the sheet, one per selector, then ordered by specificity by a stable sort"""
    p, a = S.p, S.a
    B = one((k for k in p.structs if tail(k) == 'StyleSetBuilder'), 'StyleSetBuilder')
    SS = one((k for k in p.structs if tail(k) == 'StyleSet'), 'StyleSet')
    fin, add = method(p, B, 'finish'), method(p, B, 'add_stylesheet')
    fn, an = disp(p, fin), disp(p, add)
    a.merge = False
    n = 0
    for kind, st, v in a.entry(fin):
        if kind != 'ret':
            r.violate('specificity', fn, 'ordering the rules may panic')
            continue
        n += 1
        sorts = [e for e in st.events() if e[0] == 'call' and 'sort' in str(e[1])]
        ok = len(sorts) == 1 and sorts[0][1] in ('slice::sort_by_key', 'slice::sort_by_cached_key', 'slice::sort_by')
        r.ob('specificity', ok, fn, 'the rules are ordered once, by a sort that keeps the order of equals', detail=str([e[1] for e in sorts]))
        if not ok:
            continue
        ref = peel(sorts[0][2][0])
        r.ob('specificity', ref[0] == 'ref' and ref[1][0] == 'l' and len(ref[2]) >= 1, fn, 'it is the rules of the set that are ordered')
        r.ob('specificity', contains(v, ('hv', sorts[0][1] + '.0', 1)) or 'hv' in sh(v), fn, 'the ordered rules are the result', detail=sh(v)[:200])
        ck = closure_key(S, peel(sorts[0][2][1]))
        for k2, s2, v2 in a.entry(ck):
            good = compares(s2, v2) if sorts[0][1] == 'slice::sort_by' else specificity_key(v2)
            r.ob('specificity', k2 == 'ret' and good, disp(p, ck), 'rules are ordered by the specificity of their selector',
                 detail=sh(v2)[:200])
    r.floor('sorts', n, 1)
    n = 0
    for kind, st, v in a.entry(add):
        if kind != 'ret':
            r.violate('source-order', an, 'adding a style sheet may panic')
            continue
        ctor = [e for e in st.events() if e[0] == 'call' and 'RuleListParser' in str(e[1]) and tail(str(e[1])) == 'new_for_stylesheet']
        inp = [e for e in st.events() if e[0] == 'call' and tail(str(e[1])) == 'new' and 'ParserInput' in str(e[1])]
        r.ob('source-order', len(ctor) == 1 and len(inp) == 1 and peel(inp[0][2][0]) == ('s', 'arg2'), an,
             'the style sheet given is parsed as a list of rules')
        lp = loops(st)
        if not r.ob('source-order', len(lp) == 1, an, 'the rules are added in one pass'):
            continue
        # the list of rules is at its end
        end = [e for e in calls(st, 'next')]
        r.ob('source-order', bool(end) and S_dis(st, result_of(end[-1])) == 0, an, 'every rule of the sheet is considered')
        li = lp[0]
        here = ('h', ('s', 'arg1'))
        for s in li.iters:
            nx = calls(s, 'next')
            if not r.ob('source-order', len(nx) == 1, an, 'each step considers one rule'):
                continue
            res = ('vfld', result_of(nx[0]), 'Some', 0)
            d = S_dis(s, res)
            phi = [(l, ph) for l, ph in li.phis.items() if l[0] == here]
            if len(phi) != 1:
                r.violate('source-order', an, 'what happens to the rules is not recognised')
                continue
            now = a.load(s, phi[0][0][0], phi[0][0][1])
            if d == 1:
                r.ob('source-order', now == phi[0][1], an, 'an invalid rule adds nothing')
                continue
            inn = loops(s)
            ok = d == 0 and len(inn) == 1
            if not r.ob('source-order', ok, an, 'the selectors of a valid rule are visited in one pass'):
                continue
            l2 = inn[0]
            seq, ix = whole(a, l2)
            rule = ('vfld', res, 'Ok', 0)
            ok = seq is not None and contains(seq, rule)
            r.ob('source-order', ok, an, 'all selectors of the rule are visited, in order', detail=sh(seq)[:150] if seq else None)
            if not ok:
                continue
            for s2 in l2.iters:
                n += 1
                got = []
                for l, ph in l2.phis.items():
                    if l[0] != here:
                        continue
                    base, ps = pushed(a.load(s2, l[0], l[1]))
                    got.append((base == ph, ps))
                ok = len(got) == 1 and got[0][0] and len(got[0][1]) == 1
                r.ob('source-order', ok, an, 'each selector of a rule adds one entry, after those before')
                if not ok:
                    continue
                t = got[0][1][0]
                ok = t[0] == 'agg' and len(t[4]) == 2 and peel(t[4][0]) in (('elem', seq, ix), ('deref', ('elem', seq, ix))) and \
                    contains(t[4][1], rule) and not contains(t[4][1], ix)
                r.ob('source-order', ok, an, 'the entry is the selector with the block of its rule', detail=sh(t)[:200])
    r.floor('entries', n, 1)
    # a rule is its selectors with the block parsed after them
    pb = one((im.methods['parse_block'] for im in p.impls if im.trait and tail(im.trait) == 'QualifiedRuleParser' and
              'parse_block' in im.methods), 'parser of style rules')
    parse = method(p, block_type(S), 'parse')
    a.opaque.add(parse)
    n = 0
    for kind, st, v in a.entry(pb):
        n += 1
        pc = [e for e in st.events() if e[0] == 'call' and e[3].get('key') == parse]
        ok = kind == 'ret' and v[0] == 'agg' and v[3] == 'Ok' and len(pc) == 1 and pc[0][2][0] == ('s', 'arg4') and \
            contains(v, ('s', 'arg2')) and result_of(pc[0]) in held(a, st, v)
        r.ob('source-order', ok, disp(p, pb), 'a style rule has the selectors and the declarations written', detail=sh(v)[:200])
    a.opaque.discard(parse)
    r.floor('rule_paths', n, 1)
    a.merge = False


def held(a, st, v, depth=0):
    """values reachable from an aggregate, through boxes"""
    out = [v]
    if depth < 6 and isinstance(v, tuple) and v:
        if v[0] == 'agg':
            for x in v[4]:
                out += held(a, st, x, depth + 1)
        elif v[0] == 'ref':
            out += held(a, st, a.load(st, v[1], tuple(v[2])), depth + 1)
    return out


def specificity_key(v):
    v = peel(v)
    return v[0] == 'call' and 'selectors' in v[1] and tail(v[1].split('::<')[0]) == 'specificity'


def compares(st, v):
    """the ordering returned is the one of the specificities of the first and the second argument"""
    def which(t):
        return [n for n in ('arg2', 'arg3') if specificity_key(t) and contains(t, ('s', n))]
    ops = {('Lt', True): 'Less', ('Gt', True): 'Greater', ('Eq', True): 'Equal'}
    flip = {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}
    for f, x in st.facts.items():
        if f[0] == 'bin' and (f[1], x) in ops:
            a, b = which(f[2]), which(f[3])
            how = ops[f[1], x]
            if (a, b) == (['arg3'], ['arg2']):
                how = flip[how]
            elif (a, b) != (['arg2'], ['arg3']):
                continue
            return v[0] == 'agg' and v[3] == how
    return False


# ---------------------------------------------------------------------------------------------------- values
PX = lambda S, n: ('agg', 'adt', 'Length', None, (('c', float(n), 'f32'),), ())
OI = lambda o, i: ('GeneratingBox', ('OutsideInside', (o,), (i,)))
# type name -> ({keyword: value}, {type parsed instead: wrapping of its value})
VALUES = {
    'CssWideKeyword': ({'inherit': ('Inherit',), 'initial': ('Initial',), 'unset': ('Unset',)}, []),
    'LineStyle': ({'none': ('None',), 'solid': ('Solid',)}, []),
    'Float': ({'none': ('None',), 'left': ('Left',), 'right': ('Right',)}, []),
    'Position': ({'static': ('Static',), 'relative': ('Relative',), 'absolute': ('Absolute',)}, []),
    'Display': ({'none': ('None',), 'contents': ('Contents',), 'block': OI('Block', 'Flow'), 'flow-root': OI('Block', 'FlowRoot'),
                 'inline': OI('Inline', 'Flow')}, []),
    'SpecifiedLengthOrPercentage': ({}, ['SpecifiedLength', 'Percentage']),
    'SpecifiedLengthOrPercentageOrAuto': ({'auto': ('Auto',)}, ['SpecifiedLength', 'Percentage']),
    'SpecifiedLineWidth': ({'thin': 1.0, 'medium': 3.0, 'thick': 5.0}, ['SpecifiedLengthOrPercentage']),
}
WRAPPED = {('SpecifiedLengthOrPercentage', 'SpecifiedLength'): 'Length', ('SpecifiedLengthOrPercentage', 'Percentage'): 'Percentage',
           ('SpecifiedLengthOrPercentageOrAuto', 'SpecifiedLength'): 'Length',
           ('SpecifiedLengthOrPercentageOrAuto', 'Percentage'): 'Percentage', ('SpecifiedLineWidth', 'SpecifiedLengthOrPercentage'): None}
SPECIAL = {'SpecifiedLength', 'Percentage', 'Color', 'FourSides', 'Background', 'BorderSide'}
CONSUME = {'next', 'next_including_whitespace', 'expect_ident', 'expect_ident_cloned', 'expect_percentage', 'expect_number', 'expect_integer',
           'expect_comma', 'expect_ident_matching', 'expect_string', 'expect_url', 'expect_function'}


def try_hook(S):
    """cssparser's `try`: the function given runs once; if it fails, the parser is back where it was"""
    def hook(eng, s, fr, name, args, info):
        if not (name.startswith('cssparser::Parser::') and tail(name) in ('r#try', 'try_parse')):
            return None
        s.event('call', 'try-begin', (), {})
        out = []
        for kind, s2, v in eng.call_value(s, fr, args[1], [args[0]], info.get('span')):
            if kind != 'ret':
                out.append((kind, s2, v))
                continue
            for s3, ok in split_result(S, s2, v):
                s3.event('call', 'try-end', (('c', ok, 'bool'),), {})
                out.append(('ret', s3, v))
        return out
    return hook


def split_result(S, st, v):
    if v[0] == 'agg':
        return [(st, v[3] == 'Ok')]
    d = S_dis(st, v)
    if d is not None:
        return [(st, d == 0)]
    x, y = st.fork(), st.fork()
    x.facts[('dis', v)] = 0
    y.facts[('dis', v)] = 1
    return [(x, True), (y, False)]


def parse_paths(S, key, opaque, args=None, genv=None):
    a = S.a
    saved = set(a.opaque), a.opaque_hook, a.merge
    a.opaque |= opaque
    a.opaque_hook = try_hook(S)
    a.merge = False
    try:
        return a.entry(key, args=args, genv=genv) if genv else a.entry(key)
    finally:
        a.opaque, a.opaque_hook, a.merge = saved


def consumption(S, st, subs):
    """[(what, result term, kept)] of the parser calls of a path, in order; kept: not undone by a failing `try`"""
    out = []
    stack = []
    for e in st.events():
        if e[0] != 'call':
            continue
        if e[1] == 'try-begin':
            stack.append(len(out))
        elif e[1] == 'try-end':
            i = stack.pop()
            if not e[2][0][1]:
                out[i:] = [(w, t, False) for w, t, k in out[i:]]
        elif e[3].get('key') in subs:
            out.append((subs[e[3]['key']], result_of(e), True))
        elif 'Parser' in str(e[1]) and tail(str(e[1])) in CONSUME:
            out.append((tail(str(e[1])), result_of(e), True))
        elif tail(str(e[1])) == 'parse':
            out.append(('parse:' + str(e[1]), result_of(e), True))
    return out


def words(st):
    """[(word, matched, case-insensitive, condition)] of the comparisons of a path with constant strings"""
    out = {}
    for f, x in st.facts.items():
        if not isinstance(x, bool):
            continue
        if f[0] == 'bin' and f[1] in ('Eq', 'Ne'):
            for q, c in ((f[2], f[3]), (f[3], f[2])):
                c = peel(c)
                while c[0] == 'deref':
                    c = peel(c[1])
                if c[0] == 'c' and isinstance(c[1], str) and not (q[0] == 'deref' and q[1][0] == 'c'):
                    m = x == (f[1] == 'Eq')
                    out[(c[1], m)] = (c[1], m, 'to_lowercase' in sh(q) or 'to_ascii_lowercase' in sh(q), q)
        elif f[0] == 'call' and tail(f[1]) == 'eq_ignore_ascii_case':
            for q, c in ((f[2][0], f[2][1]), (f[2][1], f[2][0])):
                c = peel(c)
                while c[0] == 'deref':
                    c = peel(c[1])
                if c[0] == 'c' and isinstance(c[1], str):
                    out[(c[1], x)] = (c[1].lower(), x, True, q)
    return list(out.values())


def too_long(st):
    """the comparison buffer was too short for the identifier: it is none of the words"""
    return any(f[0] == 'dis' and f[1][0] == 'call' and 'to_lowercase' in f[1][1] and x == 0 for f, x in st.facts.items())


def is_err(st, v):
    return v[0] == 'agg' and v[3] == 'Err' or v[0] != 'agg' and S_dis(st, v) == 1


def ok_value(st, v):
    if v[0] == 'agg':
        return v[4][0] if v[3] == 'Ok' else None
    return ('vfld', v, 'Ok', 0) if S_dis(st, v) == 0 else None


@check('S02', 'Every path of each parser of values: what is accepted, with which value, and that everything else is refused')
def s02(r):
    S = Style()
    p, a = S.p, S.a
    impls = parse_impls(S)
    types = {}
    for k, im in impls.items():
        if im.for_[0] == 'path':
            types[tail(im.for_[1])] = (k, im)
    known = {k for t, (k, im) in types.items() if t in VALUES or t in SPECIAL}
    n = 0
    for t in sorted(list(VALUES) + list(SPECIAL)):
        r.ob('registered', t in types, 'style::values', 'there is a parser of %s' % t)
    for t, (k, im) in sorted(types.items()):
        name = disp(p, k)
        subs = {types[x][0]: x for x in types if x in VALUES or x in SPECIAL}
        if t in VALUES:
            n += keyword_type(r, S, t, k, name, subs, known - {k}, im)
        elif t == 'SpecifiedLength':
            n += length_type(r, S, k, name, subs, known - {k})
        elif t == 'Percentage':
            n += percent_type(r, S, k, name, subs, known - {k})
        elif t in ('Color', 'Background'):
            n += color_type(r, S, k, name, subs, known - {k}, im)
        elif t == 'FourSides':
            n += sides_type(r, S, k, name, subs, known - {k}, im)
        elif t == 'BorderSide':
            n += border_type(r, S, k, name, subs, known - {k}, im)
        else:
            r.notes.append('%s is analysed as part of the types that use it' % t) if hasattr(r.notes, 'append') else None
    r.floor('paths', n, 60)
    r.fn(*[disp(p, k) for k in a.analysed])


def keyword_type(r, S, t, k, name, subs, opaque, im):
    a = S.a
    kws, alts = VALUES[t]
    found = set()
    n = 0
    for kind, st, v in parse_paths(S, k, opaque):
        n += 1
        if kind != 'ret':
            r.violate('panic', name, 'parsing a %s may panic' % t, detail=sh(v)[:200])
            continue
        con = consumption(S, st, subs)
        ws = words(st)
        hit = sorted({w for w, m, ci, q in ws if m})
        miss = {w for w, m, ci, q in ws if not m}
        r.ob('case', all(ci for w, m, ci, q in ws), name, 'keywords are matched without regard to case', key='%s:case' % name,
             detail=str([w for w, m, ci, q in ws if not ci]))
        kept = [c for c in con if c[2]]
        sub_ok = [c for c in con if c[0] in alts and S_dis(st, c[1]) == 0]
        sub_bad = {c[0] for c in con if c[0] in alts and S_dis(st, c[1]) == 1}
        if is_err(st, v):
            idents = [c for c in con if c[0] in ('expect_ident', 'expect_ident_cloned', 'next')]
            failed = [c for c in idents if S_dis(st, c[1]) == 1]
            tok = [c for c in idents if c[0] == 'next' and S_dis(st, c[1]) == 0 and not ws]
            r.ob('refuse', (not kws or bool(failed) or bool(tok) or set(kws) <= miss or too_long(st)) and not hit, name,
                 'a word is refused only if it is none of the keywords', key='%s:refuse' % name, detail='%s / %s' % (sorted(miss), hit))
            r.ob('refuse', set(alts) <= sub_bad and not sub_ok, name, 'a value is refused only if it is of none of the types',
                 key='%s:refuse-types' % name, detail=str(sorted(sub_bad)))
            ok = all(not c[2] or c is con[-1] for c in con)
            r.ob('rewind', ok, name, 'each alternative starts at the beginning of the value', key='%s:rewind' % name)
            continue
        val = ok_value(st, v)
        r.ob('rewind', len(kept) == 1, name, 'an accepted value is one keyword or one value of the types', key='%s:rewind' % name,
             detail=str([c[0] for c in kept]))
        if val is None or len(kept) != 1:
            if val is None:
                r.violate('accept', name, 'the outcome is not known to be success or failure')
            continue
        if kept[0][0] in alts:
            want = ('vfld', kept[0][1], 'Ok', 0)
            wrap = WRAPPED[(t, kept[0][0])]
            inner_ = peel_conv(val)
            if wrap is not None:
                good = inner_[0] == 'agg' and inner_[3] == wrap and peel_conv(inner_[4][0]) == want
            else:
                good = inner_[0] == 'agg' and peel_conv(inner_[4][0]) == want
            found.add(kept[0][0])
            r.ob('accept', good and not hit, name, 'a %s is taken as it is' % kept[0][0], detail=sh(val)[:200])
        else:
            ok = len(hit) == 1 and hit[0] in kws
            r.ob('accept', ok, name, 'only the keywords of CSS are accepted', detail=str(hit))
            if not ok:
                continue
            about = [q for w, m, ci, q in ws if w == hit[0] and m]
            r.ob('accept', all(contains(q, kept[0][1]) for q in about), name, 'the keyword is the identifier that was read')
            found.add(hit[0])
            want = kws[hit[0]]
            if t == 'SpecifiedLineWidth':
                got = pixels(val)
            else:
                got = shape_of(val)
            r.ob('accept', got == want, name, '%s is %s' % (hit[0], want), detail=sh(val)[:200])
    for w in list(kws) + alts:
        r.ob('complete', w in found, name, '%s is accepted as a %s' % (w, t))
    return n


def peel_conv(v):
    while v[0] in ('conv',):
        v = v[1]
    return v


def shape_of(v):
    if v[0] == 'agg' and v[3]:
        return (v[3],) + tuple(shape_of(x) for x in v[4])
    return sh(v)


def pixels(v):
    """number of px of an absolute length wrapped in single-field values"""
    names = []
    while v[0] in ('agg', 'conv'):
        if v[0] == 'conv':
            v = v[1]
            continue
        names.append(v[3])
        if len(v[4]) != 1:
            return None
        v = v[4][0]
    if 'Percentage' in names or 'Em' in names:
        return None
    return v[1] if v[0] == 'c' and isinstance(v[1], float) else None


def length_type(r, S, k, name, subs, opaque):
    n = 0
    found = set()
    for kind, st, v in parse_paths(S, k, opaque):
        n += 1
        if kind != 'ret':
            r.violate('panic', name, 'parsing a length may panic', detail=sh(v)[:200])
            continue
        con = consumption(S, st, subs)
        if len(con) != 1 or con[0][0] != 'next':
            r.violate('accept', name, 'a length is one token', detail=str([c[0] for c in con]))
            continue
        tok = ('deref', ('vfld', con[0][1], 'Ok', 0))
        ws = words(st)
        hit = sorted({w for w, m, ci, q in ws if m})
        miss = {w for w, m, ci, q in ws if not m}
        r.ob('case', all(ci for w, m, ci, q in ws), name, 'units are matched without regard to case', key='%s:case' % name)
        dim = any(contains(q, ('vfld', tok, 'Dimension', 3)) for w, m, ci, q in ws)
        num = ('vfld', tok, 'Number', 1)
        zero = truth_num(st, num)
        if is_err(st, v):
            good = S_dis(st, con[0][1]) == 1 or not hit and (dim and {'px', 'em'} <= miss or zero is False or
                                                             not dim and zero is None and not_tokens(st, tok) or too_long(st))
            r.ob('refuse', good, name, 'only lengths with another unit, other numbers than 0, or other tokens are refused',
                 key='%s:refuse' % name, detail='%s %s' % (sorted(miss), zero))
            continue
        val = ok_value(st, v)
        value = ('vfld', tok, 'Dimension', 1)
        if hit:
            ok = dim and len(hit) == 1 and (hit[0] == 'px' and shape1(val) == ('Absolute', value) or hit[0] == 'em' and shape1(val) == ('Em', value))
            found.add(hit[0])
            r.ob('accept', ok, name, '%s is the number of its unit' % '/'.join(hit), detail=sh(val)[:200])
        else:
            ok = zero is True and shape1(val) in (('Absolute', ('c', 0.0, 'f32')), ('Absolute', num))
            found.add('0')
            r.ob('accept', ok, name, 'a number without unit is only accepted for 0', detail=sh(val)[:200])
    r.ob('complete', found == {'px', 'em', '0'}, name, 'px, em and 0 are accepted', detail=str(sorted(found)))
    return n


def not_tokens(st, tok):
    return len(st.facts.get(('not', ('dis', tok)), ())) == 2 or st.facts.get(('dis', tok)) is not None


def shape1(v):
    """(variant, innermost value)"""
    var = None
    while v is not None and v[0] == 'agg' and len(v[4]) == 1:
        var = var or v[3]
        v = v[4][0]
    return var, v


def truth_num(st, num):
    for f, x in st.facts.items():
        if f[0] == 'bin' and f[1] in ('Eq', 'Ne') and isinstance(x, bool) and f[2] == num and f[3][0] == 'c' and f[3][1] == 0.0:
            return x == (f[1] == 'Eq')
    return None


def percent_type(r, S, k, name, subs, opaque):
    n = 0
    for kind, st, v in parse_paths(S, k, opaque):
        n += 1
        con = consumption(S, st, subs)
        ok = kind == 'ret' and [c[0] for c in con] == ['expect_percentage'] and con[0][2]
        if ok and is_err(st, v):
            ok = S_dis(st, con[0][1]) == 1
        elif ok:
            ok = S_dis(st, con[0][1]) == 0 and shape1(ok_value(st, v))[1] == ('vfld', con[0][1], 'Ok', 0)
        r.ob('accept', ok, name, 'a percentage is the percentage token read', detail=sh(v)[:200])
    return n


def color_type(r, S, k, name, subs, opaque, im):
    n = 0
    okc = 0
    for kind, st, v in parse_paths(S, k, opaque):
        n += 1
        con = consumption(S, st, subs)
        ok = kind == 'ret' and len(con) == 1 and con[0][2] and (con[0][0] == 'Color' or 'Color' in con[0][0])
        if ok and is_err(st, v):
            ok = S_dis(st, con[0][1]) == 1
        elif ok:
            okc += 1
            x = ok_value(st, v)
            want = ('vfld', con[0][1], 'Ok', 0)
            if x[0] == 'agg':
                fs = [f[0] for f in S.p.structs[x[2]]['fields']] if x[2] in S.p.structs else []
                ok = [(f, y[3], y[4][0]) for f, y in zip(fs, x[4]) if y[0] == 'agg' and y[3] == 'Some'] == [('color', 'Some', want)] and \
                    all(y[3] == 'None' for f, y in zip(fs, x[4]) if f != 'color')
            else:
                ok = x == want
        r.ob('accept', ok, name, 'a color is the color read', detail=sh(v)[:200])
    r.ob('complete', okc > 0, name, 'colors are accepted')
    return n


def sides_type(r, S, k, name, subs, opaque, im):
    """1 to 4 values for top, right, bottom, left; left is right, bottom is top, right is top where left out"""
    fs = [f[0] for f in S.p.structs[im.for_[1]]['fields']]
    n = 0
    lens = set()
    for kind, st, v in parse_paths(S, k, opaque):
        n += 1
        if kind != 'ret':
            r.violate('panic', name, 'parsing four sides may panic')
            continue
        con = consumption(S, st, subs)
        good = all(c[0].startswith('parse:') or c[0] in subs.values() for c in con) and len({c[0] for c in con}) == 1
        r.ob('sides', good, name, 'the values of the sides are of one type')
        okc = [c for c in con if S_dis(st, c[1]) == 0]
        if is_err(st, v):
            r.ob('sides', len(con) == 1 and not okc, name, 'the shorthand is refused only where its first value is')
            continue
        bad = [c for c in con if c not in okc]
        rest = len(bad) == (0 if len(okc) == 4 else 1) and all(not c[2] for c in bad) and con[:len(okc)] == okc and all(c[2] for c in okc)
        r.ob('sides', rest and 1 <= len(okc) <= 4, name, 'up to four values are read, as long as there are more',
             detail=str([(c[0], S_dis(st, c[1]), c[2]) for c in con]))
        if not rest:
            continue
        lens.add(len(okc))
        val = ok_value(st, v)
        got = {}
        for f, x in zip(fs, val[4]):
            while x[0] == 'call' and tail(x[1]) == 'clone':
                x = x[2][0]
                x = a_load(S, st, x)
            got[f] = next((i for i, c in enumerate(okc) if x == ('vfld', c[1], 'Ok', 0)), None)
        m = len(okc)
        want = {'top': 0, 'right': [0, 1, 1, 1][m - 1], 'bottom': [0, 0, 2, 2][m - 1], 'left': [0, 1, 1, 3][m - 1]}
        r.ob('sides', got == want, name, '%d values are for top, right, bottom, left as CSS says' % m,
             key='%s:%d:%s' % (tail(im.for_[1]), m, ','.join('%s=%s' % (s_, got.get(s_)) for s_ in SIDES)), detail=str(got))
    r.ob('complete', lens == {1, 2, 3, 4}, name, 'one to four values are accepted', detail=str(lens))
    return n


def a_load(S, st, x):
    if x[0] == 'ref':
        return S.a.load(st, x[1], tuple(x[2]))
    return peel(x)


def border_type(r, S, k, name, subs, opaque, im):
    """parts in any order, each at most once, at least one"""
    a = S.a
    fs = [f[0] for f in S.p.structs[im.for_[1]]['fields']]
    kinds = {'LineStyle': 'style', 'Color': 'color', 'SpecifiedLineWidth': 'width'}
    n = 0
    done = set()
    for kind, st, v in parse_paths(S, k, opaque):
        n += 1
        if kind != 'ret':
            r.violate('panic', name, 'parsing a border may panic')
            continue
        lp = loops(st)
        if not r.ob('parts', len(lp) == 1, name, 'the parts are read in one loop'):
            continue
        li = lp[0]
        # the part each variable of the loop is for
        var = {}
        flag = None
        for loc, e in li.entry.items():
            if e[0] == 'c' and e[1] is False:
                flag = loc
            elif len(loc[1]) >= 1 and (e[0] == 'call' and tail(e[1]) == 'default' or e[0] == 'agg' and e[3] == 'None'):
                var[loc] = fs[loc[1][-1][1]]
        r.ob('parts', sorted(var.values()) == sorted(fs) and flag is not None, name, 'all parts are missing at first',
             detail=str([(l, sh(e)) for l, e in li.entry.items()]))
        if sorted(var.values()) != sorted(fs) or flag is None:
            continue
        at = {f: loc for loc, f in var.items()}
        for s in li.iters:
            n += 1
            con = consumption(S, s, subs)
            kept = [c for c in con if c[2]]
            ok = len(kept) == 1 and kept[0][0] in kinds and S_dis(s, kept[0][1]) == 0
            r.ob('parts', ok, name, 'each step reads one part', detail=str([(c[0], c[2]) for c in con]))
            if not ok:
                continue
            f = kinds[kept[0][0]]
            done.add(f)
            r.ob('parts', S_dis(s, li.phis[at[f]]) == 0, name, 'a part is only read if it was missing')
            x = a.load(s, at[f][0], at[f][1])
            r.ob('parts', x[0] == 'agg' and x[3] == 'Some' and peel_conv(x[4][0]) == ('vfld', kept[0][1], 'Ok', 0), name,
                 'the part read is stored in its place', detail=sh(x)[:150])
            r.ob('parts', all(a.load(s, l[0], l[1]) == li.phis[l] for g, l in at.items() if g != f), name, 'the other parts are kept')
            y = a.load(s, flag[0], flag[1])
            r.ob('parts', y[0] == 'c' and y[1] is True, name, 'it is remembered that there was a part')
        con = consumption(S, st, subs)
        r.ob('parts', not [c for c in con if c[2]], name, 'nothing is consumed where no further part is found', key='%s:end' % name)
        for f in fs:
            t = [q for q, g in kinds.items() if g == f]
            end = S_dis(st, li.phis[at[f]]) == 1 or any(c[0] in t and S_dis(st, c[1]) == 1 for c in con)
            r.ob('parts', end, name, 'the end is where each part was read or is not there', key='%s:end-%s' % (name, f))
        some = truth(st, li.phis[flag])
        if is_err(st, v):
            r.ob('parts', some is False, name, 'a border is refused only if it has no part', key='%s:none' % name)
        else:
            x = ok_value(st, v)
            r.ob('parts', some is True, name, 'a border without any part is refused', key='%s:some' % name)
            got = {f: y for f, y in zip(fs, x[4])} if x[0] == 'agg' else {}
            r.ob('parts', all(got.get(f) == li.phis[at[f]] for f in fs), name, 'the parts read are the value', key='%s:value' % name,
                 detail=sh(x)[:200])
    r.ob('complete', done == {'style', 'color', 'width'}, name, 'style, color and width are accepted')
    return n
