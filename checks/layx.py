"""Layout: styles with values of known kinds and unknown amounts, boxes, fragments and linear expressions over them."""
import itertools
from fractions import Fraction

import engine
from common import program, disp
from front import AnalysisError

Z = ('c', 0.0, 'f32')


def one(xs, what):
    xs = list(xs)
    if len(xs) != 1:
        raise AnalysisError('expected exactly one %s, found %d' % (what, len(xs)))
    return xs[0]


def tail(n):
    return n.rsplit('::', 1)[-1]


def sym(n):
    return ('s', n)


class Lay:
    """the types of the layout module and one analyzer; values are built by field name"""

    def __init__(self):
        self.p = p = program('victor')
        self.a = a = engine.Analyzer(p)
        a.merge = False
        self.S = {}
        self.E = {}
        self.n = 0
        self.calls = {}

    # ------------------------------------------------------------------ types
    def struct(self, name):
        """full name of a struct given by the end of its path"""
        if name not in self.S:
            self.S[name] = one((k for k in self.p.structs if k == name or k.endswith('::' + name)), 'struct ' + name)
        return self.S[name]

    def enum(self, name):
        if name not in self.E:
            self.E[name] = one((k for k in self.p.enums if k == name or k.endswith('::' + name)), 'enum ' + name)
        return self.E[name]

    def fields(self, name):
        return [n for n, _ in self.p.structs[self.struct(name)]['fields']]

    def idx(self, name, field):
        try:
            return self.fields(name).index(field)
        except ValueError:
            raise AnalysisError('%s has no field %s' % (name, field))

    def mk(self, name, *pos, **fs):
        names = self.fields(name)
        vs = list(pos) + [None] * (len(names) - len(pos))
        for k, v in fs.items():
            vs[self.idx(name, k)] = v
        for i, v in enumerate(vs):
            if v is None:
                raise AnalysisError('field %s of %s is new: not known what to give it' % (names[i], name))
        return ('agg', 'adt', self.struct(name), None, tuple(vs), ())

    def var(self, name, variant, *pos, **fs):
        v = one((v for v in self.p.enums[self.enum(name)]['variants'] if v[0] == variant), '%s::%s' % (name, variant))
        vs = list(pos) + [None] * (len(v[1]) - len(pos))
        for k, x in fs.items():
            vs[one((i for i, (n, _) in enumerate(v[1]) if n == k), 'field %s of %s' % (k, variant))] = x
        if any(x is None for x in vs):
            raise AnalysisError('%s::%s has new fields' % (name, variant))
        return ('agg', 'adt', self.enum(name), variant, tuple(vs), ())

    def variant_of(self, st, t, name):
        """the variant a value of an enum is known to have"""
        while t[0] in ('cref', '&'):
            t = t[1]
        if t[0] == 'agg':
            return t[3]
        vs = self.p.enums[self.enum(name)]['variants']
        d = st.facts.get(('dis', t))
        for n, _, disc in vs:
            if d is not None and disc == d:
                return n
        no = st.facts.get(('not', ('dis', t)), ())
        left = [v[0] for v in vs if v[2] not in no]
        return left[0] if len(left) == 1 else None

    def get(self, st, t, *path):
        """a part of a value, by field names ('Variant.0' and positions for enum variants)"""
        for q in path:
            t = self.step(st, t, q)
        return t

    def step(self, st, t, q):
        if t[0] == 'upd':
            t = self.a.canon(t) if False else t
        sname, f = q.split('.')
        if f.isdigit():
            i = int(f)
            return t[4][i] if t[0] == 'agg' else ('vfld', t, sname, i)
        i = self.idx(sname, f)
        if t[0] == 'upd':
            d = dict(t[2])
            if i in d:
                return d[i]
            t = t[1]
            return self.step(st, t, q)
        return t[4][i] if t[0] == 'agg' else ('fld', t, i)

    # ------------------------------------------------------------------ numbers
    def length(self, x):
        """a style::values::Length of that many px"""
        return ('agg', 'adt', self.len_ty(), None, (x if isinstance(x, tuple) else sym(x),), ())

    def len_ty(self):
        return 'style::values::length::Length' if 'style::values::length::Length' in self.p.structs else \
            one((k for k in self.p.structs if tail(k) == 'Length' and [f for f, _ in self.p.structs[k]['fields']] == ['px']), 'Length')

    def pct(self, x):
        return self.mk('Percentage', x if isinstance(x, tuple) else sym(x))

    def px(self, st, t):
        """the number inside a length"""
        if t[0] == 'upd' and len(t[2]) == 1 and t[2][0][0] == 0:
            return t[2][0][1]
        return t[4][0] if t[0] == 'agg' else ('fld', t, 0)

    def lp(self, enum, kind, name):
        """LengthOrPercentage… of a kind: 'L'ength, 'P'ercentage or 'A'uto"""
        if kind == 'L':
            return self.var(enum, 'Length', self.length(name))
        if kind == 'P':
            return self.var(enum, 'Percentage', self.pct(name))
        return self.var(enum, 'Auto')

    # ------------------------------------------------------------------ styles
    def cv(self):
        return one((k for k in self.p.structs if tail(k) == 'ComputedValues' and k.startswith('style::')), 'ComputedValues')

    def style(self, st, ptr, **props):
        """computed values at a pointer, with some of the properties given; every other one unknown"""
        p = self.p
        cv = self.cv()
        groups = {}
        vals = []
        left = dict(props)
        for n, ty in p.structs[cv]['fields']:
            t = ty
            while t[0] == 'path' and t[1] not in p.structs and len(t[2]) == 1:
                t = t[2][0]
            if t[0] == 'path' and t != ty and t[1] in p.structs:
                g = ('s', '%s.%s' % (ptr[1], n))
                fs = []
                for m, fty in p.structs[t[1]]['fields']:
                    v = left.pop(m, None)
                    if v is None:
                        v = sym('%s.%s' % (ptr[1], m))
                        self.a.settype(v, fty)
                    fs.append(v)
                st.mem['h', g] = ('agg', 'adt', t[1], None, tuple(fs), ())
                vals.append(g)
            else:
                v = left.pop(n, None)
                if v is None:
                    v = sym('%s.%s' % (ptr[1], n))
                    self.a.settype(v, ty)
                vals.append(v)
        if left:
            raise AnalysisError('no such properties: ' + ', '.join(left))
        st.mem['h', ptr] = ('agg', 'adt', cv, None, tuple(vals), ())

    # ------------------------------------------------------------------ methods
    def method(self, ty, name, trait=None):
        if trait:
            ks = [im.methods[name] for im in self.p.impls if im.for_[0] == 'path' and im.for_[1] == ty and im.trait and tail(im.trait) == trait and name in im.methods]
        else:
            ks = [im.methods[name] for im in self.p.impls if im.for_[0] == 'path' and im.for_[1] == ty and not im.trait and name in im.methods]
        return one(ks, '%s::%s' % (tail(ty), name))


# ---------------------------------------------------------------------- polynomials of numbers
def poly(t, names=None):
    """a number as a polynomial: {sorted tuple of atoms: coefficient}; max and min are atoms of polynomials"""
    k = t[0]
    if k == 'c' and isinstance(t[1], (int, float)):
        return {(): Fraction(t[1])} if t[1] else {}
    if k == 'bin' and t[1] in ('Add', 'Sub'):
        return padd(poly(t[2]), poly(t[3]), 1 if t[1] == 'Add' else -1)
    if k == 'un' and t[1] == 'Neg':
        return padd({}, poly(t[2]), -1)
    if k == 'bin' and t[1] == 'Mul':
        return pmul(poly(t[2]), poly(t[3]))
    if k == 'bin' and t[1] == 'Div':
        d = poly(t[3])
        if list(d) == [()]:
            return {m: c / d[()] for m, c in poly(t[2]).items()}
        return {(('/', key(poly(t[2])), key(d)),): Fraction(1)}
    if k in ('f32max', 'f32min'):
        xs = set()
        for u in t[1:3]:
            p = poly(u)
            (m, c), = p.items() if len(p) == 1 else (((), 0),)
            # the largest of the largest is the largest of all
            xs |= set(m[0][1:]) if c == 1 and len(m) == 1 and m[0][0] == k else {key(p)}
        if len(xs) == 1:
            return dict(*xs)
        return {((k,) + tuple(sorted(xs, key=repr)),): Fraction(1)}
    return {(t,): Fraction(1)}


def padd(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
        if not out[m]:
            del out[m]
    return out


def pmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            out[k] = out.get(k, 0) + c * d
            if not out[k]:
                del out[k]
    return out


def key(p):
    return tuple(sorted(p.items(), key=repr))


def same(x, y):
    return poly(x) == poly(y)


def add(*xs):
    t = xs[0]
    for x in xs[1:]:
        t = ('bin', 'Add', t, x)
    return t


def sub(x, *ys):
    for y in ys:
        x = ('bin', 'Sub', x, y)
    return x


def mul(x, y):
    return ('bin', 'Mul', x, y)


def half(x):
    return ('bin', 'Div', x, ('c', 2.0, 'f32'))


def neg(x):
    return ('un', 'Neg', x)


def fmax(x, y):
    return ('f32max', x, y)


def fmin(x, y):
    return ('f32min', x, y)


def say(p):
    """a polynomial for people"""
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=repr):
        n = '·'.join(atom(x) for x in m)
        s = ('-' if c < 0 else '+') + (str(abs(c)) + ('·' if n else '') if abs(c) != 1 or not n else '') + n
        out.append(s)
    return ' '.join(out).lstrip('+')


def atom(t):
    if t[0] == 's':
        return t[1]
    if t[0] in ('f32max', 'f32min'):
        return '%s(%s)' % (t[0][3:], ', '.join(say(dict(x)) for x in t[1:]))
    if t[0] == 'fld':
        return atom(t[1]) + '.%d' % t[2]
    if t[0] == 'vfld':
        return atom(t[1]) + '.%s.%d' % (t[2], t[3])
    if t[0] == 'deref':
        return '*' + atom(t[1])
    return str(t)[:60]


# ---------------------------------------------------------------------- comparing numbers on a path
def flat(p, choice, cons):
    """a polynomial with its max and min atoms replaced as chosen; what the choice says is added to cons"""
    out = {}
    for m, c in p.items():
        t = {(): c}
        for x in m:
            if isinstance(x, tuple) and x[0] in ('f32max', 'f32min'):
                xs = [flat(dict(y), choice, cons) for y in x[1:]]
                a = xs[choice[x]]
                for b in xs:
                    if b is not a:
                        cons.append((padd(a, b, -1), '>=' if x[0] == 'f32max' else '<='))
                t = pmul(t, a)
            else:
                t = pmul(t, {(x,): Fraction(1)})
        out = padd(out, t)
    return out


def extremes(p, out):
    for m in p:
        for x in m:
            if isinstance(x, tuple) and x[0] in ('f32max', 'f32min') and x not in out:
                for y in x[1:]:
                    extremes(dict(y), out)
                out.append(x)
    return out


RELS = {'Lt': ('<', '>='), 'Le': ('<=', '>'), 'Gt': ('>', '<='), 'Ge': ('>=', '<'), 'Eq': ('==', '!='), 'Ne': ('!=', '==')}


def path_facts(st, isfloat):
    """what the path knows about numbers: [(polynomial, relation to 0)]"""
    out = []
    for f, v in st.facts.items():
        if f[0] == 'bin' and f[1] in RELS and isinstance(v, bool) and (isfloat(f[2]) or isfloat(f[3])):
            out.append((padd(poly(f[2]), poly(f[3]), -1), RELS[f[1]][0 if v else 1]))
    return out


def infeasible(cons):
    """no rational values of the monomials satisfy all [(polynomial, '>' | '>=' | '==' …)] (Fourier-Motzkin)"""
    ge = []
    for p, r in cons:
        if r in ('<', '<='):
            p, r = padd({}, p, -1), r.replace('<', '>')
        if r == '!=':
            continue
        ge.append((p, r == '>'))
        if r == '==':
            ge.append((padd({}, p, -1), False))
    seen = set()
    while True:
        rest, vs = [], {}
        for p, strict in ge:
            ms = [m for m in p if m != ()]
            if not ms:
                c = p.get((), 0)
                if c < 0 or strict and c == 0:
                    return True
                continue
            k = (key(p), strict)
            if k in seen and False:
                continue
            rest.append((p, strict))
            for m in ms:
                vs[m] = vs.get(m, 0) + 1
        if not vs:
            return False
        v = min(vs, key=lambda m: (vs[m], repr(m)))
        pos = [(p, s) for p, s in rest if p.get(v, 0) > 0]
        neg_ = [(p, s) for p, s in rest if p.get(v, 0) < 0]
        ge = [(p, s) for p, s in rest if not p.get(v, 0)]
        for (p, s), (q, t) in itertools.product(pos, neg_):
            a, b = p[v], -q[v]
            ge.append((padd({m: c * b for m, c in p.items()}, {m: c * a for m, c in q.items()}), s or t))
        if len(ge) > 4000:
            return False
        uniq = {}
        for p, s in ge:
            uniq[key(p), s] = (p, s)
        ge = list(uniq.values())


class Numbers:
    """comparisons of numbers with what one path knows"""

    def __init__(self, lay, st, given=()):
        a = lay.a
        self.facts = path_facts(st, lambda t: t[0] == 'c' and isinstance(t[1], float) or a.typeof(t) == ('prim', 'f32') or t[0] in ('f32max', 'f32min'))
        self.facts += list(given)

    def resolve(self, p):
        """the ways the max and min in a number and in the facts can go: [(number without them, constraints)]"""
        ex = extremes(p, [])
        for f, _ in self.facts:
            extremes(f, ex)
        for ways in itertools.product(*[range(len(x) - 1) for x in ex]):
            choice = dict(zip(ex, ways))
            cons = []
            q = flat(p, choice, cons)
            for f, r in self.facts:
                cons.append((flat(f, choice, cons), r))
            yield q, cons

    def always(self, p, rel):
        """p rel 0 in every case the path leaves open"""
        no = {'==': ('>', '<'), '>=': ('<',), '>': ('<=',), '<=': ('>',), '<': ('>=',), '!=': ('==',)}[rel]
        for q, cons in self.resolve(p):
            if rel == '==' and not q:
                continue
            if rel == '!=' and any(r == '!=' and key(f) in (key(q), key(padd({}, q, -1))) for f, r in cons):
                continue
            if not all(infeasible(cons + [(q, n)]) for n in no):
                return False
        return True

    def equal(self, x, y):
        d = padd(poly(x), poly(y), -1)
        return not d or self.always(d, '==')

    def holds(self, x, rel, y):
        """True, False, or None where the path does not know"""
        d = padd(poly(x), poly(y), -1)
        if self.always(d, rel):
            return True
        if self.always(d, {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[rel]):
            return False
        return None
