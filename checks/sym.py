"""Symbolic descriptions of values read from a font file.

A byte position is normalised to a linear form over atoms; saturation and widening casts are
dropped (a saturated position is past the end of any file, where reading is an error)."""
import lin


class Sym:
    def __init__(self, a, st):
        self.a = a
        self.st = st
        self.tags = {}      # position form of a 4-byte read -> constant it was found equal to
        self.memo = {}
        self.facts = st.facts
        for f, v in list(st.facts.items()):
            if f[0] == 'bin' and (f[1] == 'Eq' and v is True or f[1] == 'Ne' and v is False):
                self._tag(f[2], f[3])
            elif f[0] == 'dis' and f[1][0] == 'cmp' and v == 0:
                self._tag(f[1][1], f[1][2])

    def _tag(self, x, y):
        for p, q in ((x, y), (y, x)):
            r = self.rawread(p)
            if r is None or r[0] != 4:
                continue
            c = self.const_bytes(q)
            if c is not None:
                self.tags[r[1]] = c

    def const_bytes(self, t):
        while t[0] in ('deref', 'from_be', 'cast', '&') or t[0] == 'agg' and len(t[4]) == 1:
            t = t[4][0] if t[0] == 'agg' else t[1]
        if t[0] == 'c' and isinstance(t[1], bytes):
            return t[1]
        if t[0] == 'c' and isinstance(t[1], int) and t[1] > 0xffffff:
            return t[1].to_bytes(4, 'big')
        if t[0] == 'agg' and t[1] == 'array' and all(x[0] == 'c' for x in t[4]):
            return bytes(x[1] for x in t[4])
        return None

    def rawread(self, t):
        """(width, position form) of a term that is a read of file bytes"""
        while t[0] in ('from_be', 'cast', '&') or t[0] == 'agg' and len(t[4]) == 1:
            if t[0] == 'cast' and t[1][0] not in ('deref', 'cast', 'from_be'):
                return None
            t = t[4][0] if t[0] == 'agg' else t[1]
        if t[0] == 'deref' and t[1][0] == 'rawp' and t[1][3][0] == 'c':
            return t[1][3][1], self.form(t[1][2])
        return None

    def read(self, t):
        """('r', type, position form) for a big-endian read"""
        if t[0] == 'cast' and t[1][0] == 'from_be':
            return self.read(t[1])
        if t[0] == 'from_be' and t[1][0] == 'cast':
            r = self.rawread(t)
            if r is not None and t[1][2][1:] == str(8 * r[0]):
                return ('r', t[1][2], r[1])
        return None

    def form(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._form(t)
        return r

    def _form(self, t):
        k = t[0]
        if k == 'c' and isinstance(t[1], int):
            return lin.const(int(t[1]))
        if k in ('sat', 'bin') and t[1] in ('Add', 'Sub', 'Mul'):
            x, y = self.form(t[2]), self.form(t[3])
            if t[1] == 'Add':
                return lin.add(x, y)
            if t[1] == 'Sub':
                return lin.add(x, y, 1, -1)
            if not x[0]:
                return lin.scale(y, x[1])
            if not y[0]:
                return lin.scale(x, y[1])
            return lin.atom(('mul', x, y))
        if k == 'lin':
            out = lin.const(t[1][1])
            for a, c in t[1][0]:
                out = lin.add(out, self.form(a), 1, c)
            return out
        if k == 'cast':
            r = self.read(t)
            if r is not None:
                return lin.atom(self.named(r))
            s, d = self.width(self.a.typeof(t[1])), self.width(('prim', t[2]))
            if t[1][0] == 'c' or s and d and d >= s:
                return self.form(t[1])
            acc = {}
            if self.a.isint(t[1]) and self.a.lf(self.st, t, acc) == self.a.lf(self.st, t[1], acc):
                return self.form(t[1])      # the path shows that the value fits
            return lin.atom(('trunc', t[2], self.form(t[1])))
        if k == 'phi':
            info = self.a.phi_info.get(t)
            if info is not None:
                li, d = info
                e = li.entry.get(d)
                steps = set()
                for s2 in li.iters:
                    v = self.a.load(s2, d[0], d[1])
                    f = self.delta(t, v)
                    steps.add(f)
                if e is not None and len(steps) == 1 and None not in steps:
                    return lin.add(self.form(e), lin.scale(lin.atom(('it', li.key, t[1][2])), steps.pop()))
            return lin.atom(t)
        if k == 'wrap' or k == 'wadd':
            return lin.atom((k,) + tuple(self.form(x) if isinstance(x, tuple) else x for x in t[1:]))
        r = self.read(t)
        if r is not None:
            return lin.atom(self.named(r))
        if k == 'bin' and t[3][0] == 'c' and t[1] in ('Div', 'Shr', 'Mul', 'Shl'):
            n = t[3][1]
            if t[1] == 'Mul' or t[1] == 'Shl':
                return lin.scale(self.form(t[2]), n if t[1] == 'Mul' else 2 ** n)
            return lin.atom(('div', self.form(t[2]), n if t[1] == 'Div' else 2 ** n))
        if k == 'bin':
            return lin.atom((t[1], self.form(t[2]), self.form(t[3])))
        return lin.atom(t)

    def named(self, r):
        """an offset read from a table directory entry found under a tag is that table's position"""
        if r[1] == 'u32':
            tag = self.tags.get(lin.add(r[2], lin.const(-8)))
            if tag is not None and len(tag) == 4:
                d = r[2]
                if d[1] % 16 == (12 + 8) % 16 and all(c % 16 == 0 for _, c in d[0]):
                    return ('table', tag.decode('latin-1'))
        return r

    def delta(self, phi, v):
        """constant c with v = phi + c (modulo saturation)"""
        while v[0] == 'cast':
            v = v[1]
        if v == phi:
            return 0
        if v[0] in ('sat', 'bin') and v[1] in ('Add', 'Sub'):
            if v[3][0] == 'c':
                d = self.delta(phi, v[2])
                return None if d is None else d + (v[3][1] if v[1] == 'Add' else -v[3][1])
            if v[1] == 'Add' and v[2][0] == 'c':
                d = self.delta(phi, v[3])
                return None if d is None else d + v[2][1]
        if v[0] == 'lin' and v[1][0] == ((phi, 1),):
            return v[1][1]
        return None

    def width(self, ty):
        if ty and ty[0] == 'prim':
            return {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'char': 32}.get(ty[1])
        return None

    # ------------------------------------------------------------ reasoning on forms
    def constraints(self, st=None):
        st = st or self.st
        out = []
        neq = []
        for f in st.lin:
            g = lin.const(f[1])
            for a, c in f[0]:
                g = lin.add(g, self.form(a), 1, c)
            out.append(g)
        for f, v in st.facts.items():
            if f[0] == 'ovf' and f[1] == 'Add' and v is True:
                w = self.width(self.a.typeof(f[2]) or self.a.typeof(f[3]))
                ty = self.a.typeof(f[2]) or self.a.typeof(f[3])
                if w and ty[1][0] == 'u':
                    out.append(lin.add(lin.add(self.form(f[2]), self.form(f[3])), lin.const(-2 ** w)))
            if f[0] == 'bin' and len(f) == 4 and v in (True, False):
                op = f[1]
                if op in ('Eq', 'Ne') and (op == 'Eq') == v or op in ('Lt', 'Le', 'Gt', 'Ge'):
                    if not (self.a.isint(f[2]) or self.a.isint(f[3])):
                        if op not in ('Eq', 'Ne'):
                            continue
                    d = lin.add(self.form(f[2]), self.form(f[3]), 1, -1)
                    if op in ('Eq', 'Ne'):
                        out += [d, lin.scale(d, -1)]
                    else:
                        if not v:
                            op = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt'}[op]
                        out.append({'Ge': d, 'Gt': lin.add(d, lin.const(-1)), 'Le': lin.scale(d, -1),
                                    'Lt': lin.add(lin.scale(d, -1), lin.const(-1))}[op])
                elif op in ('Eq', 'Ne'):
                    neq.append(lin.add(self.form(f[2]), self.form(f[3]), 1, -1))
        return out, neq

    def ranges(self, forms):
        out = []
        seen = set()
        for f in forms:
            for a, _ in f[0]:
                if a in seen:
                    continue
                seen.add(a)
                hi = None
                if a[0] == 'r' and a[1][0] == 'u':
                    hi = 2 ** int(a[1][1:]) - 1
                elif a[0] == 'trunc' and a[1][0] == 'u' and a[1][1:].isdigit():
                    hi = 2 ** int(a[1][1:]) - 1
                elif a[0] == 'it':
                    hi = None
                elif a[0] == 'div':
                    me = lin.atom(a)
                    out += [lin.add(a[1], me, 1, -a[2]), lin.add(lin.add(me, a[1], a[2], -1), lin.const(a[2] - 1)), me]
                    out += self.ranges([a[1]])
                    continue
                elif a[0] in ('s', 'fld', 'phi'):
                    w = self.width(self.a.typeof(a))
                    if not w:
                        continue
                    hi = 2 ** w - 1
                else:
                    continue
                out.append(lin.atom(a))
                if hi is not None:
                    out.append(lin.add(lin.const(hi), lin.atom(a), 1, -1))
        return out

    def possible(self, extra=(), st=None):
        """False if the path facts contradict the extra constraints (f >= 0)"""
        cons, neq = self.constraints(st)
        cons = cons + list(extra)
        cons += self.ranges(cons)
        if lin.infeasible(cons):
            return False
        for d in neq:
            r = cons + self.ranges([d])
            if lin.infeasible(r + [lin.add(d, lin.const(-1))]) and \
               lin.infeasible(r + [lin.add(lin.scale(d, -1), lin.const(-1))]):
                return False
        return True

    def proves(self, f, st=None):
        return not self.possible([lin.add(lin.const(-1), f, 1, -1)], st)

    def proves_eq(self, f, g, st=None):
        d = lin.add(f, g, 1, -1)
        return d == ((), 0) or self.proves(d, st) and self.proves(lin.scale(d, -1), st)

    def proves_ne(self, f, g, st=None):
        d = lin.add(f, g, 1, -1)
        return not self.possible([d, lin.scale(d, -1)], st)

    # ------------------------------------------------------------ printing
    def show(self, f):
        if f is None:
            return '?'
        parts = []
        for a, c in f[0]:
            s = self.atom(a)
            parts.append(s if c == 1 else '%d*%s' % (c, s))
        if f[1] or not parts:
            parts.append(str(f[1]))
        return '+'.join(parts)

    def atom(self, a):
        if a[0] == 'table':
            return a[1]
        if a[0] == 'r':
            return '%s[%s]' % (a[1], self.show(a[2]))
        if a[0] == 'it':
            return 'k(%s)' % a[1][0].rsplit('::', 1)[-1]
        if a[0] == 'phi':
            return 'phi(%s)' % str(a[1][0]).rsplit('::', 1)[-1]
        if a[0] == 'trunc':
            return '(%s as %s)' % (self.show(a[2]), a[1])
        if a[0] == 'div':
            return '(%s)/%d' % (self.show(a[1]), a[2])
        if a[0] == 's':
            return a[1]
        if a[0] == 'wrap':
            return '(%s %s %s mod 2^n)' % (self.show(a[2]), a[1], self.show(a[3]))
        if len(a) == 3 and isinstance(a[1], tuple) and len(a[1]) == 2 and isinstance(a[1][0], tuple):
            return '(%s %s %s)' % (self.show(a[1]), a[0], self.show(a[2]))
        return str(a)
