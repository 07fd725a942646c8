"""Path-sensitive value-flow analysis over MIR.

Every control-flow path of an entry function is followed through the MIR control
flow graph, with crate-local callees (and closures) inlined, loops replaced by a
fixpoint over-approximation (all locations the body may modify become unknown,
subject to inductively checked linear invariants), and values kept as
hash-consed terms (global value numbering).  Nothing is executed; no solver is
used: the only arithmetic reasoning is a linear-inequality domain
(Fourier-Motzkin elimination, lin.py).

Values (terms; immutable tuples)
  ('c', v, ty)                  constant
  ('s', name)                   unknown input
  ('bin', op, a, b)  ('un', op, a)  ('cast', a, ty)
  ('fld', t, idx)               field of an unknown value
  ('vfld', t, variant, idx)     field of an unknown enum value known to be `variant`
  ('dis', t)                    discriminant of an unknown value
  ('agg', kind, name, variant, fields, extra)
  ('ref', base, projs)          pointer to a memory location
  ('fn', callee, genv)          function item
  ('call', name, args, n)       result of an opaque call
  ('deref', t)                  initial contents behind an unknown pointer
  ('elem', t, i)                indexing of an unknown sequence
  ('phi', key)                  loop-varying value
  ('upd', t, ((i, v), ...))     unknown struct with some fields replaced
Memory: base -> value;  bases: ('l', frame, local) | ('h', pointerterm) | ('k', constname)
"""
import re
import lin
import rtypes as T
from front import AnalysisError
from mir import split_top, match_close

INT_RANGE = {}
for _b in (8, 16, 32, 64, 128):
    INT_RANGE['u%d' % _b] = (0, 2 ** _b - 1)
    INT_RANGE['i%d' % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
INT_RANGE['usize'] = INT_RANGE['u64']
INT_RANGE['isize'] = INT_RANGE['i64']
INT_RANGE['char'] = (0, 0x10FFFF)
INT_RANGE['bool'] = (0, 1)

UNIT = ('agg', 'tuple', '', None, (), ())
TRUE = ('c', True, 'bool')
FALSE = ('c', False, 'bool')


def cint(v, ty='usize'):
    return ('c', v, ty)


def adt(name, variant, *fields):
    return ('agg', 'adt', name, variant, tuple(fields), ())


def tup(*fields):
    return ('agg', 'tuple', '', None, tuple(fields), ())


def some(v):
    return adt('std::Option', 'Some', v)


NONE = adt('std::Option', 'None')


def ok(v):
    return adt('std::Result', 'Ok', v)


def err(v):
    return adt('std::Result', 'Err', v)


class Event(tuple):
    """(kind, name, args, info) ; kind: call, write, loop, star, panic, drop"""
    __slots__ = ()
    kind = property(lambda s: s[0])
    name = property(lambda s: s[1])
    args = property(lambda s: s[2])
    info = property(lambda s: s[3])


class LoopInfo:
    def __init__(self, key, fn):
        self.key = key
        self.fn = fn
        self.iters = []     # list of State at the back edge; .ev is the body segment
        self.phis = {}      # location -> phi term
        self.entry = {}     # location -> value at loop entry

    def __repr__(self):
        return '<loop %s>' % (self.key,)


class State:
    __slots__ = ('mem', 'facts', 'lin', 'ev', 'nframe', 'ncall', 'dead')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.lin = ()
        self.ev = None
        self.nframe = 0
        self.ncall = 0
        self.dead = False

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.lin = self.lin
        s.ev = self.ev
        s.nframe = self.nframe
        s.ncall = self.ncall
        return s

    def event(self, kind, name, args=(), info=None):
        self.ev = (self.ev, Event((kind, name, tuple(args), info or {})))

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            if len(e) == 2:
                out.append(e[1])
                e = e[0]
            else:
                break
        out.reverse()
        return out


class Frame:
    __slots__ = ('fn', 'key', 'id', 'genv', 'depth', 'stack', 'span')


class Limit(AnalysisError):
    pass


class Engine:
    def __init__(self, prog, inline=None, max_depth=40, max_paths=20000, opaque=()):
        self.p = prog
        self.types = {}
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.npaths = 0
        self.inline_filter = inline
        self.opaque = set(opaque)
        self.casting = set()
        self.models = {}
        self.cache_callee = {}
        self.analysed = {}      # body key -> times inlined
        self.opaque_calls = {}  # name -> count
        self.nonloop = set()
        self._loops = {}
        self.record_writes = False
        self.lin_on = True
        self.merge = True
        self.on_assert = None
        self.on_rawderef = None
        self.unwind = False
        self.nsteps = 0
        self.max_steps = 3000000
        self.inline_models = True
        self.shared_refs = set()
        import models
        models.install(self)

    # ------------------------------------------------------------ typing
    def settype(self, term, ty):
        """ty: type term; remembered for atoms (ranges)."""
        if ty is not None and term[0] not in ('c', 'agg', 'ref') and term not in self.types:
            self.types[term] = ty
        return term

    def typeof(self, term):
        k = term[0]
        if k == 'c':
            return ('prim', term[2]) if term[2] in T.PRIMS else ('?', term[2])
        return self.types.get(term)

    # ------------------------------------------------------------ callee resolution
    def parse_callee(self, text):
        r = self.cache_callee.get(text)
        if r is None:
            r = self.cache_callee[text] = self._parse_callee(text)
        return r

    def _parse_callee(self, text):
        text = re.sub(r"for<[^>]*> ", '', text)
        if text.startswith('<'):
            e = match_close(text, 0)
            inner = text[1:e]
            k = T.find_as(inner)
            rest = text[e + 1:]
            if k is not None and rest.startswith('::'):
                m = re.match(r'::([A-Za-z_0-9#]+)(.*)$', rest, re.S)
                margs = []
                r2 = m.group(2)
                if r2.startswith('::<'):
                    margs = [self.p.mty(x) for x in split_top(r2[3:match_close(r2, 2)]) if not x.startswith("'")]
                    r2 = r2[match_close(r2, 2) + 1:]
                tr = self.p.mty(inner[k + 4:])
                if tr[0] == 'param':
                    tr = ('path', tr[1], ())
                if r2 == '':
                    return ('trait', self.p.mty(inner[:k]), tr, m.group(1), tuple(margs))
                m2 = re.match(r'::([A-Za-z_0-9#]+)(::<.*>)?$', r2, re.S)
                key = m2 and self.nested_fn(self.p.mty(inner[:k]), tr, m.group(1), m2.group(1))
                return ('fn', key) if key else ('opaque', text)
            if rest.startswith('::'):
                # <[T]>::len style
                m = re.match(r'::([A-Za-z_0-9]+)(::<.*>)?$', rest, re.S)
                if m:
                    return ('inherent', self.p.mty(inner), m.group(1), ())
        segs, args = T.split_path(text)
        if segs is None:
            return ('opaque', text)
        # find which args belong to the last segment: re-scan
        name = segs[-1]
        margs = ()
        body = text
        if text.endswith('>'):
            # trailing turbofish
            depth = 0
            i = len(text) - 1
            d = 0
            while i >= 0:
                c = text[i]
                if c == '>' and text[i - 1] not in '-=':
                    d += 1
                elif c == '<':
                    d -= 1
                    if d == 0:
                        break
                i -= 1
            if text[:i].endswith('::'):
                margs = tuple(self.p.mty(x) for x in split_top(text[i + 1:-1]) if not x.startswith("'"))
                body = text[:i - 2]
        prefix = body.rsplit('::' + name, 1)[0] if '::' in body else ''
        return ('path', prefix, name, margs)

    def prefix_type(self, prefix):
        """type term for 'a::b::Type::<T>' or 'a::<impl X>'"""
        m = re.search(r'<impl (.*)>$', prefix, re.S)
        if m and match_close(prefix, m.start()) == len(prefix) - 1:
            inner = m.group(1)
            k = T.find_as(inner)
            return self.p.mty(inner)
        t = prefix.replace('::<', '<')
        return self.p.mty(t)

    def nested_fn(self, ty, trait, meth, inner):
        """the function defined inside of a method"""
        ks = []
        for im in self.p.by_method.get(meth, ()):
            if meth in im.methods and (im.trait is None) == (trait is None) and (trait is None or im.trait == trait[1]) \
                    and T.unify(im.for_, ty, {}):
                k = re.sub(r'#\d+$', '', im.methods[meth]) + '::' + inner
                if k in self.p.bodies:
                    ks.append(k)
        return ks[0] if len(ks) == 1 else None

    def resolve(self, callee, genv):
        """-> (name, bodykey|None, genv2, info). callee is parsed."""
        kind = callee[0]
        if kind == 'fn':
            return callee[1], callee[1], {}, {'margs': ()}
        if kind == 'trait':
            selfT = T.subst(callee[1], genv)
            tr = T.subst(callee[2], genv)
            meth = callee[3]
            margs = tuple(T.subst(x, genv) for x in callee[4])
            name = (tr[1] if tr[0] == 'path' else T.show(tr)) + '::' + meth
            best = None
            for im in self.p.by_method.get(meth, ()):
                if im.trait != tr[1] or meth not in im.methods:
                    continue
                env = {}
                if T.unify(im.for_, selfT, env) and all(T.unify(a, b, env) for a, b in zip(im.traitargs, tr[2])):
                    if selfT[0] in ('param', 'impl', 'proj', '?') and im.for_[0] != 'param':
                        continue
                    if best is None or len(env) < best[0]:      # the most specific one
                        best = (len(env), im, env)
            if best is not None:
                _, im, env = best
                self._fn_generics(im.items[meth], margs, env)
                env.setdefault('Self', im.for_ if im.for_[0] != 'param' else selfT)
                return name, im.methods[meth], env, {'self': selfT, 'trait': tr, 'margs': margs}
            # default method
            for cand in (tr[1] + '::' + meth,):
                if cand in self.p.plain and selfT[0] not in ('param', 'impl', 'proj'):
                    env = {'Self': selfT}
                    return name, cand, env, {'self': selfT, 'trait': tr, 'margs': margs}
            return name, None, {}, {'self': selfT, 'trait': tr, 'margs': margs}
        if kind == 'path':
            prefix, meth, margs = callee[1], callee[2], callee[3]
            margs = tuple(T.subst(x, genv) for x in margs)
            full = prefix + '::' + meth if prefix else meth
            plainname = full
            if plainname in self.p.plain and self.p.plain[plainname].kind == 'fn':
                env = {}
                self._plain_generics(plainname, margs, env)
                for k, v in genv.items():
                    env.setdefault(k, v)
                return plainname, plainname, env, {'margs': margs}
            if prefix:
                pt = T.subst(self.prefix_type(prefix), genv)
                r = self._inherent(pt, meth, margs)
                if r:
                    return r
                outer, _, m = prefix.rpartition('::')
                if outer and re.match(r'[a-z_0-9]+$', m):
                    key = self.nested_fn(T.subst(self.prefix_type(outer), genv), None, m, meth)
                    if key:
                        return key, key, {}, {'margs': margs}
                nm = self.extname(prefix, pt, meth)
                return nm, None, {}, {'self': pt, 'margs': margs}
            return meth, None, {}, {'margs': margs}
        if kind == 'inherent':
            pt = T.subst(callee[1], genv)
            r = self._inherent(pt, callee[2], ())
            if r:
                return r
            return T.show(pt) + '::' + callee[2], None, {}, {'self': pt, 'margs': ()}
        return callee[1], None, {}, {}

    def extname(self, prefix, pt, meth):
        if pt[0] == 'path':
            return pt[1] + '::' + meth
        if pt[0] == 'slice':
            return 'slice::' + meth
        if pt[0] == 'prim':
            return pt[1] + '::' + meth
        if pt[0] in ('ptr',):
            return 'ptr::' + meth
        if pt[0] == 'param':
            return T.canon_path(prefix + '::' + meth)
        return T.canon_path(prefix + '::' + meth)

    def _inherent(self, pt, meth, margs):
        best = None
        for im in self.p.by_method.get(meth, ()):
            if im.trait is not None or meth not in im.methods:
                continue
            env = {}
            if pt[0] in ('param', 'param_or_path') and im.for_[0] not in ('param', 'param_or_path'):
                continue        # a crate or module name, not a type
            if T.unify(im.for_, pt, env):
                self._fn_generics(im.items[meth], margs, env)
                env['Self'] = pt
                nm = (im.for_[1] if im.for_[0] == 'path' else T.show(im.for_)) + '::' + meth
                return nm, im.methods[meth], env, {'self': pt, 'margs': margs}
        return None

    def _fn_generics(self, item, margs, env):
        if item.get('kind') != 'function':
            return
        names = [p['name'] for p in item['inner']['generics']['params'] if 'type' in p['kind']]
        for n, a in zip(names, margs):
            env[n] = a
            if n.startswith('impl '):
                env[re.sub(r'\s+', ' ', n)] = a

    def _plain_generics(self, name, margs, env):
        if not margs:
            return
        idx = getattr(self.p, '_plain_items', None)
        if idx is None:
            idx = self.p._plain_items = {}
            for id_, it in self.p.ix.items():
                if it['kind'] == 'function' and it['crate_id'] == 0:
                    nm = self.p.path.get(id_)
                    if nm:
                        idx[nm] = it
        it = idx.get(name)
        if it:
            self._fn_generics(it, margs, env)

    # ------------------------------------------------------------ memory
    def load_base(self, st, base):
        v = st.mem.get(base)
        if v is None:
            if base[0] == 'h':
                v = base[1][1] if base[1][0] == 'cref' else ('deref', base[1])
            elif base[0] == 'k':
                v = self.const_value(base[1], st)
            else:
                v = ('undef', base)
            if base[0] != 'l':
                st.mem[base] = v
        return v

    def proj_value(self, st, v, pr, ty=None):
        k = pr[0]
        if k == 'field':
            i = pr[1]
            if v[0] == 'agg':
                if i < len(v[4]):
                    return v[4][i]
                return ('fld', v, i)
            if v[0] == 'upd':
                for j, x in v[2]:
                    if j == i:
                        return x
                return self.proj_value(st, v[1], pr, ty)
            if v[0] == 'as':
                # downcast of unknown
                r = ('vfld', v[1], v[2], i)
                return self.settype(r, ty)
            if v[0] == 'ref' and i == 0:
                return v        # the pointer in a Box
            r = ('fld', v, i)
            return self.settype(r, ty)
        if k == 'downcast':
            if v[0] == 'agg':
                return v
            if v[0] == 'upd':
                return v
            return ('as', v, pr[1])
        if k == 'elem':
            if v[0] == 'agg' and v[1] == 'array' and pr[1][0] == 'c' and isinstance(pr[1][1], int) and pr[1][1] < len(v[4]):
                return v[4][pr[1][1]]
            if v[0] == 'c' and isinstance(v[1], bytes) and pr[1][0] == 'c' and pr[1][1] < len(v[1]):
                return cint(v[1][pr[1][1]], 'u8')
            if v[0] == 'updelem':
                if v[2] == pr[1]:
                    return v[3]
                if v[2][0] == 'c' and pr[1][0] == 'c':
                    return self.proj_value(st, v[1], pr, ty)
            if v[0] == 'vpush':
                n = self.length_of(v[1])
                if n[0] == 'c' and pr[1][0] == 'c' and isinstance(pr[1][1], int):
                    if pr[1][1] == n[1]:
                        return v[2]
                    if pr[1][1] < n[1]:
                        return self.proj_value(st, v[1], pr, ty)
            return self.settype(('elem', v, pr[1]), ty)
        if k == 'sub':
            return ('subslice', v, pr[1:])
        if k == 'tag':
            d = self.discr(st, v, self.typeof(v))
            return ('c', d[1], pr[1][1]) if d[0] == 'c' else ('cast', d, pr[1])
        raise AnalysisError('projection %r' % (pr,))

    def store_value(self, st, v, projs, new):
        """value v with the sub-location projs replaced by new"""
        if not projs:
            return new
        pr = projs[0]
        k = pr[0]
        if k == 'field':
            i = pr[1]
            if v[0] == 'agg' and i < len(v[4]):
                f = list(v[4])
                f[i] = self.store_value(st, f[i], projs[1:], new)
                return v[:4] + (tuple(f),) + v[5:]
            if v[0] == 'as':
                base = v[1]
                sub = self.store_value(st, self.proj_value(st, v, pr), projs[1:], new)
                return ('upd', v, ((i, sub),))
            old = self.proj_value(st, v, pr)
            sub = self.store_value(st, old, projs[1:], new)
            if v[0] == 'upd':
                ups = tuple((j, x) for j, x in v[2] if j != i) + ((i, sub),)
                return ('upd', v[1], tuple(sorted(ups, key=lambda z: z[0])))
            return ('upd', v, ((i, sub),))
        if k == 'downcast':
            if v[0] == 'agg':
                return self.store_value(st, v, projs[1:], new)
            return self.store_value(st, ('as', v, pr[1]), projs[1:], new)
        if k == 'elem':
            old = self.proj_value(st, v, pr)
            sub = self.store_value(st, old, projs[1:], new)
            if v[0] == 'agg' and v[1] == 'array' and pr[1][0] == 'c':
                f = list(v[4])
                f[pr[1][1]] = sub
                return v[:4] + (tuple(f),) + v[5:]
            if v[0] == 'vpush' and pr[1][0] == 'c' and isinstance(pr[1][1], int):
                # a list of pushes: replace the pushed element
                later, w = [], v
                while w[0] == 'vpush':
                    n = self.length_of(w[1])
                    if n[0] != 'c' or n[1] < pr[1][1]:
                        break
                    if n[1] == pr[1][1]:
                        out = ('vpush', w[1], sub)
                        for x in reversed(later):
                            out = ('vpush', out, x)
                        return out
                    later.append(w[2])
                    w = w[1]
            return ('updelem', v, pr[1], sub)
        raise AnalysisError('store projection %r' % (pr,))

    def place_loc(self, st, fr, place):
        """MIR place -> (base, projs)"""
        base = ('l', fr.id, place[1])
        projs = ()
        ty = self.lty(fr, place[1])
        for pr in place[2]:
            k = pr[0]
            if k == 'deref':
                v = self.load(st, base, projs)
                if ty is not None and ty[0] == 'ptr' and self.on_rawderef:
                    self.on_rawderef(st, fr, v, ty)
                base, projs = self.deref_loc(st, v)
                ty = self.pointee(ty)
            elif k == 'field':
                fty = T.subst(self.p.mty(pr[2]), fr.genv)
                if ty is not None and ty[0] == 'path' and ty[1] not in self.p.structs and not (
                        place[2] and place[2][0][0] == 'downcast') and self.overlay(st, base, projs, ty):
                    projs = projs + self.overlay_proj(st, base, projs, pr[1], fty)
                else:
                    projs = projs + (('field', pr[1], fty),)
                ty = fty
            elif k == 'downcast':
                projs = projs + (pr,)
            elif k == 'index':
                iv = self.load(st, ('l', fr.id, pr[1]), ())
                ty = self.elemty(ty)
                base, projs, iv = self.through_slice(st, base, projs, iv)
                projs = projs + (('elem', iv),)
            elif k == 'cindex':
                if pr[3]:
                    projs = projs + (('elem', ('fromend', pr[1])),)
                else:
                    base, projs, iv = self.through_slice(st, base, projs, cint(pr[1]))
                    projs = projs + (('elem', iv),)
                ty = self.elemty(ty)
            elif k == 'subslice':
                projs = projs + (('sub', pr[1], pr[2], pr[3]),)
        return base, projs, ty

    def overlay(self, st, base, projs, ty):
        """is an enum accessed through a pointer to a struct that is local to a function?"""
        if ty[1] in self.p.enums or '::' not in ty[1]:
            return False
        v = self.load(st, base, projs)
        if v[0] == 'agg':
            return v[1] == 'adt' and v[3] is not None and v[2] in self.p.enums
        vt = self.typeof(v)
        return vt is not None and vt[0] == 'path' and vt[1] in self.p.enums

    def overlay_proj(self, st, base, projs, i, fty):
        if i == 0:
            return (('tag', fty),)
        v = self.load(st, base, projs)
        if v[0] == 'agg':
            for name, fields, _ in self.p.enums[v[2]]['variants']:
                if name == v[3]:
                    if i - 1 < len(fields):
                        return (('field', i - 1, fty),)
        return (('field', 1000 + i, fty),)

    def through_slice(self, st, base, projs, i):
        """an element of a part of a local sequence is an element of that sequence"""
        while base[0] == 'h' and base[1][0] == 'subp' and not projs and base[1][1][0] == 'ref' and \
                base[1][1][1][0] == 'l':
            _, r, off, _ = base[1]
            base, projs = r[1], r[2]
            if off[:2] != ('c', 0):
                i = self.canon(st, self.binop(st, 'Add', off, i, ('prim', 'usize')))
        return base, projs, i

    def elemty(self, ty):
        if ty and ty[0] in ('slice', 'array'):
            return ty[1]
        return None

    def pointee(self, ty):
        if ty and ty[0] in ('ref', 'ptr'):
            return ty[2]
        if ty and ty[0] == 'path' and ty[1] in ('std::Box',) and ty[2]:
            return ty[2][0]
        return None

    def deref_loc(self, st, v):
        if v[0] == 'ref':
            return v[1], v[2]
        if v[0] == 'agg' and v[1] == 'box':
            return v[4][0][1], v[4][0][2]
        if v[0] == 'upd' and v[1][0] == 'ref':
            return v[1][1], v[1][2]
        return ('h', v), ()

    def through(self, st, base, projs):
        """an item of a part of a vector that is known is an item of the vector"""
        while base[0] == 'h' and base[1][0] == 'subp' and projs and projs[0][0] == 'elem' \
                and st.mem.get(base, ('deref', base[1])) == ('deref', base[1]):
            off, i = base[1][2], projs[0][1]
            if off[0] != 'c' or i[0] != 'c' or not isinstance(i[1], int):
                break
            b, pr = self.deref_loc(st, base[1][1])
            if b[0] == 'h' and b not in st.mem:
                break
            v = self.load(st, b, pr)
            n = self.length_of(v) if v[0] == 'vpush' else ('s', '')
            if n[0] != 'c' or n[1] <= off[1] + i[1]:
                break
            base, projs = b, tuple(pr) + (('elem', ('c', off[1] + i[1], 'usize')),) + tuple(projs[1:])
        return base, projs

    def load(self, st, base, projs, ty=None):
        if projs and base[0] == 'h':
            base, projs = self.through(st, base, projs)
        v = self.load_base(st, base)
        n = len(projs)
        for i, pr in enumerate(projs):
            v = self.proj_value(st, v, pr[:2] if pr[0] == 'field' else pr,
                                pr[2] if pr[0] == 'field' and len(pr) > 2 else (ty if i == n - 1 else None))
        if not projs and ty is not None:
            self.settype(v, ty)
        return v

    def store(self, st, base, projs, val, fr=None, span=None):
        if projs:
            base, projs = self.through(st, base, projs)
            old = self.load_base(st, base)
            val2 = self.store_value(st, old, tuple(p[:2] if p[0] == 'field' else p for p in projs), val)
        else:
            val2 = val
        st.mem[base] = val2
        if self.record_writes and base[0] == 'h':
            st.event('write', 'write', (('loc', base, tuple(p[:2] if p[0] == 'field' else p for p in projs)), val),
                     {'fn': fr.key if fr else None, 'span': span})

    def read_ref(self, st, r, ty=None):
        """value behind a pointer value"""
        b, pr = self.deref_loc(st, r)
        return self.load(st, b, pr, ty)

    def write_ref(self, st, r, val, fr=None, span=None):
        b, pr = self.deref_loc(st, r)
        self.store(st, b, pr, val, fr, span)

    # ------------------------------------------------------------ operands
    def lty(self, fr, n):
        t = fr.fn.locals.get(n)
        if t is None:
            return None
        return T.subst(self.p.mty(t), fr.genv)

    def operand(self, st, fr, op):
        if op[0] in ('move', 'copy'):
            b, pr, ty = self.place_loc(st, fr, op[1])
            return self.load(st, b, pr, ty)
        if op[0] == 'fn':
            return ('fn', op[1], self.freeze(fr.genv))
        if len(op) > 2 and op[2]:
            return self.uneval(op, st, fr)
        return self.constant(op[1], st, fr)

    def uneval(self, op, st, fr):
        if op[2][0] == 'key':
            return self.const_value((op[2][1], ()), st)
        path, args, prom = op[2:5]
        if prom is not None:
            return self.constant('_::promoted[%s]' % prom, st, fr)
        pre, _, nm = path.rpartition('::')
        pre = re.sub(r'::<.*>$', '', pre)
        if args and any(im.trait == pre or im.trait == T.canon_path(pre) for im in self.p.impls):
            r = self._const_lookup(('trait', self.p.mty(args[0]), ('path', T.canon_path(pre), ()), nm), fr.genv)
            if r is not None:
                return self.const_value(r, st)
            return ('s', 'const %s as %s::%s' % (T.show(T.subst(self.p.mty(args[0]), fr.genv)), pre, nm))
        return self.constant(path, st, fr)

    def freeze(self, genv):
        return tuple(sorted(genv.items()))

    def optype(self, st, fr, op):
        if op[0] in ('move', 'copy'):
            pl = op[1]
            if not pl[2]:
                return self.lty(fr, pl[1])
            return self.place_loc(st, fr, pl)[2]
        if op[0] == 'const':
            c = self.operand(st, fr, op)
            return self.typeof(c)
        return None

    def constant(self, text, st, fr=None):
        m = re.match(r'^(-?\d+)_([ui](?:8|16|32|64|128|size))$', text)
        if m:
            return ('c', int(m.group(1)), m.group(2))
        if text in ('true', 'false'):
            return ('c', text == 'true', 'bool')
        if text == '()':
            return UNIT
        m = re.match(r'^(?:core::num::<impl )?([ui])(8|16|32|64|128|size)>?::(MAX|MIN)$', text)
        if m:
            w = 64 if m.group(2) == 'size' else int(m.group(2))
            lo, hi = (0, 2 ** w - 1) if m.group(1) == 'u' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            return ('c', hi if m.group(3) == 'MAX' else lo, m.group(1) + m.group(2))
        m = re.match(r'^(-?[0-9.eE+\-]+|-?inf|NaN)(f32|f64)$', text)
        if m:
            return ('c', float(m.group(1)), m.group(2))
        if text.startswith('"'):
            return ('c', unescape(text[1:-1]), '&str')
        if text.startswith('b"'):
            return ('c', unescape(text[2:-1]).encode('latin-1'), '&bytes')
        if text.startswith("'"):
            return ('c', ord(unescape(text[1:-1])), 'char')
        m = re.match(r'^(.*?)::promoted\[(\d+)\]$', text, re.S)
        if m and fr is not None:
            keys = ['promoted[%s] in %s' % (m.group(2), re.sub(r'#\d+$', '', fr.key))]
            for k in keys:
                lst = [b for b in self.p.bodies if re.sub(r'#\d+$', '', b) == k]
                if lst:
                    idx = 0
                    mm = re.search(r'#(\d+)$', fr.key)
                    if len(lst) > 1 and mm:
                        idx = min(int(mm.group(1)), len(lst) - 1)
                    return self.const_value((lst[idx], self.freeze(fr.genv)), st)
            return ('s', 'promoted:' + text)
        m = re.match(r'^\{(alloc\d+): (.*)\}$', text, re.S)
        if m:
            a = self.p.allocs.get(m.group(1))
            mm = re.match(r'^static: (.*), size: \d+, align: \d+$', a['head']) if a else None
            k = self.p.statics.get(mm.group(1)) if mm else None
            if k is not None:
                return ('cref', self.const_value((k, ()), st))
            return ('alloc', m.group(1), m.group(2))
        # named constant
        parsed = self.parse_callee(text)
        genv = fr.genv if fr is not None else {}
        if parsed[0] == 'path':
            full = (parsed[1] + '::' if parsed[1] else '') + parsed[2]
            if full in self.p.plain and self.p.plain[full].kind == 'const':
                return self.const_value((full, ()), st)
        r = self._const_lookup(parsed, genv)
        if r is not None:
            return self.const_value(r, st)
        if text.startswith('_') or text == '_':
            return ('s', 'const:' + text + ':' + (fr.key if fr else ''))
        return ('s', 'const ' + text)

    def _const_lookup(self, parsed, genv):
        """associated constants: <T as Trait>::NAME, Type::NAME and consts nested in methods"""
        if parsed[0] == 'trait':
            selfT = T.subst(parsed[1], genv)
            tr = T.subst(parsed[2], genv)
            for im in self.p.impls:
                if im.trait == tr[1] and parsed[3] in im.methods:
                    env = {}
                    if T.unify(im.for_, selfT, env) and selfT[0] not in ('param', 'impl'):
                        return (im.methods[parsed[3]], self.freeze(env))
            return None
        if parsed[0] == 'path' and parsed[1]:
            # nested const in an impl method: body key has '<impl at'
            nm = parsed[2]
            suffix = '::' + nm
            owner = parsed[1].split('::')[-1].split('<')[0]
            pt = T.subst(self.prefix_type(parsed[1]), genv)
            for im in self.p.by_method.get(nm, ()):
                if nm in im.methods and im.trait is None:
                    env = {}
                    if T.unify(im.for_, pt, env):
                        return (im.methods[nm], self.freeze(env))
            cands = [k for k, b in self.p.bodies.items() if b.kind == 'const' and k.endswith('::' + owner + suffix)]
            if len(cands) == 1:
                return (cands[0], ())
            if len(cands) > 1:
                # choose by the type before the owner
                pre = parsed[1].rsplit('::', 1)[0]
                tt = T.show(self.p.mty(pre.replace('::<', '<')))
                good = []
                for k in cands:
                    mkey = k[:-len(suffix)]
                    im = self.p.impl_of.get(mkey)
                    if im is not None and T.show(im.for_).split('<')[0] == tt.split('<')[0]:
                        good.append(k)
                    elif im is None and mkey == parsed[1]:
                        good.append(k)
                if len(good) == 1:
                    return (good[0], ())
        return None

    def const_value(self, key, st):
        name, genv = key if isinstance(key, tuple) else (key, ())
        ck = ('constval', name, genv)
        c = self._loops.get(ck)
        if c is not None:
            return c
        fn = self.p.bodies.get(name) or self.p.plain.get(name)
        if fn is None:
            return ('s', 'const ' + str(name))
        st2 = State()
        save = self.record_writes
        outs = self.run_fn(name, fn, [], st2, dict(genv), 0, (), keep=True)
        self.record_writes = save
        rets = [o for o in outs if o[0] == 'ret']
        if len(rets) != 1:
            v = ('s', 'const ' + str(name))
        else:
            v = self.reify(rets[0][1], rets[0][2])
        self._loops[ck] = v
        return v

    def reify(self, st, v):
        """close a constant's value over its memory: local refs become 'k' bases"""
        if v[0] == 'ref' and v[1][0] == 'l':
            inner = self.reify(st, self.load(st, v[1], v[2]))
            return ('cref', inner)
        if v[0] == 'agg':
            return v[:4] + (tuple(self.reify(st, f) for f in v[4]),) + v[5:]
        return v

    # ------------------------------------------------------------ arithmetic
    def rng(self, ty):
        if ty is None:
            return None
        if ty[0] == 'prim':
            return INT_RANGE.get(ty[1])
        return None

    def lf(self, st, t, acc):
        """linear form of an integer term; side constraints are added to acc (dict atom->None)"""
        k = t[0]
        if k == 'c':
            if isinstance(t[1], bool):
                return lin.const(int(t[1]))
            if isinstance(t[1], int):
                return lin.const(t[1])
        elif k == 'bin':
            op, a, b = t[1], t[2], t[3]
            if op in ('Add', 'Sub', 'Mul') and self.isint(t):
                fa = self.lf(st, a, acc)
                fb = self.lf(st, b, acc)
                if op == 'Add':
                    return lin.add(fa, fb)
                if op == 'Sub':
                    return lin.add(fa, fb, 1, -1)
                if not fa[0]:
                    return lin.scale(fb, fa[1])
                if not fb[0]:
                    return lin.scale(fa, fb[1])
            elif op in ('Div', 'Shr', 'Rem', 'BitAnd') and self.isint(t):
                if t not in acc:
                    acc[t] = None
                    fb = self.lf(st, b, acc)
                    fa = self.lf(st, a, acc)
                    me = lin.atom(t)
                    cons = []
                    r = self.rng(self.typeof(t)) or (None, None)
                    if not fb[0] and r[0] == 0:
                        c = fb[1]
                        if op == 'Shr':
                            c = 2 ** c
                        if op in ('Div', 'Shr') and c > 0:
                            cons = [lin.add(fa, me, 1, -c), lin.add(lin.add(me, fa, c, -1), lin.const(c - 1))]
                        elif op == 'Rem' and c > 0:
                            cons = [lin.add(lin.const(c - 1), me, 1, -1), lin.add(fa, me, 1, -1)]
                        elif op == 'BitAnd' and c >= 0:
                            cons = [lin.add(lin.const(c), me, 1, -1), lin.add(fa, me, 1, -1)]
                    elif op == 'BitAnd' and r[0] == 0:
                        cons = [lin.add(fa, me, 1, -1), lin.add(fb, me, 1, -1)]
                    acc[t] = cons
                return lin.atom(t)
        elif k == 'lin':
            for a, _ in t[1][0]:
                self.lf(st, a, acc)
            return t[1]
        elif k == 'un' and t[1] == 'Neg' and self.isint(t):
            return lin.scale(self.lf(st, t[2], acc), -1)
        elif k == 'cast':
            src = (self.dis_range(t[1]) if t[1][0] == 'dis' else self.rng(self.typeof(t[1]))) if t[1][0] != 'c' else None
            dst = self.rng(('prim', t[2]))
            if t[1][0] == 'c' and isinstance(t[1][1], int) and dst and dst[0] <= t[1][1] <= dst[1]:
                return lin.const(int(t[1][1]))
            if src and dst and dst[0] <= src[0] and src[1] <= dst[1]:
                return self.lf(st, t[1], acc)
            if src and dst and t not in self.casting:
                f = self.lf(st, t[1], acc)
                self.casting.add(t)
                try:
                    if self.prove(st, lin.add(f, lin.const(-dst[0]))) and self.prove(st, lin.add(lin.const(dst[1]), f, 1, -1)):
                        return f
                finally:
                    self.casting.discard(t)
        elif k == 'min' or k == 'max':
            if t not in acc:
                acc[t] = None
                fa = self.lf(st, t[1], acc)
                fb = self.lf(st, t[2], acc)
                me = lin.atom(t)
                s = 1 if k == 'min' else -1
                acc[t] = [lin.add(fa, me, s, -s), lin.add(fb, me, s, -s)]
            return lin.atom(t)
        elif k == 'sat':
            # saturating op: between the range bounds; for unsigned Add: >= both operands
            if t not in acc:
                acc[t] = None
                fa = self.lf(st, t[2], acc)
                fb = self.lf(st, t[3], acc)
                me = lin.atom(t)
                r = self.rng(self.typeof(t))
                cons = []
                if r and r[0] == 0:
                    if t[1] == 'Add':
                        cons = [lin.add(me, fa, 1, -1), lin.add(me, fb, 1, -1), lin.add(lin.add(fa, fb), me, 1, -1)]
                    elif t[1] == 'Sub':
                        cons = [lin.add(fa, me, 1, -1), lin.add(me, lin.add(fa, fb, 1, -1), 1, -1)]
                acc[t] = cons
            return lin.atom(t)
        if t not in acc:
            acc[t] = []
            if k == 'len':
                acc[t] = [lin.atom(t), lin.add(lin.const(2 ** 63 - 1), lin.atom(t), 1, -1)]
            elif k == 'dis':
                b = self.dis_range(t)
                if b:
                    acc[t] = [lin.add(lin.atom(t), lin.const(-b[0])), lin.add(lin.const(b[1]), lin.atom(t), 1, -1)]
        return lin.atom(t)

    def dis_range(self, t):
        """least and greatest discriminant of the value's type, if it is an enum of the program"""
        ty = self.typeof(t[1])
        while ty and ty[0] == 'ref':
            ty = ty[1]
        if ty and ty[0] == 'path' and ty[1] in self.p.enums:
            ds = [i for i, _ in enumerate(self.p.enums[ty[1]]['variants'])]
            if all(v[2] in (None, i, str(i)) for i, v in enumerate(self.p.enums[ty[1]]['variants'])):
                return (0, len(ds) - 1) if ds else None
        return None

    def isint(self, t):
        ty = self.typeof(t)
        return bool(ty and ty[0] == 'prim' and ty[1] in INT_RANGE and ty[1] != 'bool')

    def side(self, acc):
        cons = []
        for a, cs in acc.items():
            r = self.rng(self.typeof(a))
            if r:
                cons.append(lin.add(lin.atom(a), lin.const(-r[0])))
                cons.append(lin.add(lin.const(r[1]), lin.atom(a), 1, -1))
            if cs:
                cons.extend(cs)
        return cons

    def _system(self, st, extra, acc):
        cons = list(extra)
        # facts of the path
        seeds = [a for f in extra for a, _ in f[0]]
        allc = list(st.lin)
        rel, atoms = lin.relevant(allc + cons, seeds)
        known = dict(acc)
        todo = [a for a in atoms if a not in known]
        tmp = dict(acc)
        for a in todo:
            self.lf(st, a, tmp)
        # closing over structural constraints may bring more atoms
        for _ in range(6):
            sc = self.side(tmp)
            more = {a for f in sc for a, _ in f[0]} - set(tmp)
            if not more:
                break
            for a in more:
                self.lf(st, a, tmp)
        sc = self.side(tmp)
        rel, _ = lin.relevant(allc + cons + sc, seeds)
        return rel

    def feasible(self, st, extra, acc):
        if not self.lin_on:
            return True
        key = (tuple(extra), st.lin)
        r = self._feas.get(key)
        if r is None:
            r = not lin.infeasible(self._system(st, extra, acc))
            self._feas[key] = r
        return r



    def prove(self, st, f, acc=None):
        """path facts imply f >= 0"""
        if not f[0]:
            return f[1] >= 0
        acc = dict(acc or {})
        for a, _ in f[0]:
            if a not in acc:
                acc2 = {}
                self.lf(st, a, acc2)
                acc.update(acc2)
        neg = lin.add(lin.const(-1), f, 1, -1)
        return not self.feasible(st, [neg], acc)

    def assume_ge0(self, st, f, acc):
        """add f >= 0; False if that is contradictory"""
        if not f[0]:
            return f[1] >= 0
        f = lin.norm(f)
        if f in st.lin:
            return True
        if not self.feasible(st, [f], acc):
            return False
        st.lin = st.lin + (f,)
        return True

    def fold(self, st, t):
        """simplify a scalar term under the facts of the path"""
        k = t[0]
        if k == 'c':
            return t
        v = st.facts.get(t)
        if v is not None:
            if k == 'dis':
                return ('c', v, 'isize')
            return ('c', v, (self.typeof(t) or ('prim', 'bool'))[1] if not isinstance(v, bool) else 'bool')
        if k == 'un' and t[1] == 'Not':
            x = self.fold(st, t[2])
            if x[0] == 'c' and isinstance(x[1], bool):
                return ('c', not x[1], 'bool')
        if k == 'bin' and t[1] in CMP:
            a, b = self.fold(st, t[2]), self.fold(st, t[3])
            if a[0] == 'c' and b[0] == 'c' and type(a[1]) in (int, bool, float) and type(b[1]) in (int, bool, float):
                return ('c', CMP[t[1]](a[1], b[1]), 'bool')
            if a == b and self.isint(a):
                return ('c', t[1] in ('Eq', 'Le', 'Ge'), 'bool')
            if t[1] in ('Eq', 'Ne') and a[0] == b[0] == 'deref' and a[1][0] == b[1][0] == 'c' and \
                    isinstance(a[1][1], str) and isinstance(b[1][1], str):
                return ('c', (a[1][1] == b[1][1]) == (t[1] == 'Eq'), 'bool')
        return t

    def branch(self, st, cond, truth):
        """assume cond == truth on st (mutates); False if infeasible"""
        cond = self.fold(st, cond)
        k = cond[0]
        if k == 'c':
            return bool(cond[1]) == truth
        if k == 'un' and cond[1] == 'Not':
            return self.branch(st, cond[2], not truth)
        if k == 'bin' and cond[1] in CMP:
            op, a, b = cond[1], cond[2], cond[3]
            a2, b2 = self.fold(st, a), self.fold(st, b)
            if not truth:
                op = NEGOP[op]
            if op in ('Eq', 'Ne') and b2[0] == 'c' and a2[0] in ('dis',):
                return self.assume_val(st, a2, b2[1], op == 'Eq')
            if op in ('Eq', 'Ne') and a2[0] == 'c' and b2[0] in ('dis',):
                return self.assume_val(st, b2, a2[1], op == 'Eq')
            if op in ('Eq', 'Ne') and b2[0] == 'c' and isinstance(b2[1], bool):
                return self.branch(st, a2, b2[1] == (op == 'Eq'))
            if op in ('Eq', 'Ne') and a2[0] == 'c' and isinstance(a2[1], bool):
                return self.branch(st, b2, a2[1] == (op == 'Eq'))
            if self.isint(a2) or self.isint(b2) or (a2[0] == 'c' and isinstance(a2[1], int)):
                acc = {}
                fa, fb = self.lf(st, a2, acc), self.lf(st, b2, acc)
                d = lin.add(fb, fa, 1, -1)     # b - a
                if op == 'Lt':
                    r = self.assume_ge0(st, lin.add(d, lin.const(-1)), acc)
                elif op == 'Le':
                    r = self.assume_ge0(st, d, acc)
                elif op == 'Gt':
                    r = self.assume_ge0(st, lin.add(lin.scale(d, -1), lin.const(-1)), acc)
                elif op == 'Ge':
                    r = self.assume_ge0(st, lin.scale(d, -1), acc)
                elif op == 'Eq':
                    r = self.assume_ge0(st, d, acc) and self.assume_ge0(st, lin.scale(d, -1), acc)
                else:
                    lo = self.feasible(st, [lin.add(d, lin.const(-1))], acc) if d[0] else d[1] >= 1
                    hi = self.feasible(st, [lin.add(lin.scale(d, -1), lin.const(-1))], acc) if d[0] else d[1] <= -1
                    if not lo and not hi:
                        return False
                    r = True
                    if not lo:
                        r = self.assume_ge0(st, lin.add(lin.scale(d, -1), lin.const(-1)), acc)
                    elif not hi:
                        r = self.assume_ge0(st, lin.add(d, lin.const(-1)), acc)
                if r:
                    st.facts[cond] = truth
                return r
            st.facts[cond] = truth
            if op == 'Eq':
                st.facts[('bin', 'Ne', cond[2], cond[3])] = False
            elif op == 'Ne':
                st.facts[('bin', 'Eq', cond[2], cond[3])] = False
            return True
        if k == 'ovf':
            op, a, b, ty = cond[1], cond[2], cond[3], cond[4]
            r = INT_RANGE.get(ty)
            if r is None or op not in ('Add', 'Sub', 'Mul'):
                st.facts[cond] = truth
                return True
            t = self.settype(('bin', op, a, b), ('prim', ty))
            acc = {}
            f = self.lf(st, t, acc)
            lo = lin.add(f, lin.const(-r[0]))
            hi = lin.add(lin.const(r[1]), f, 1, -1)
            if f[0] == ((t, 1),):
                # non linear: unknown
                st.facts[cond] = truth
                return True
            if not truth:
                return self.assume_ge0(st, lo, acc) and self.assume_ge0(st, hi, acc)
            below = lin.add(lin.const(-1), lo, 1, -1)
            above = lin.add(lin.const(-1), hi, 1, -1)
            fb = (self.feasible(st, [below], acc) if below[0] else below[1] >= 0)
            fa = (self.feasible(st, [above], acc) if above[0] else above[1] >= 0)
            if not fa and not fb:
                return False
            st.facts[cond] = truth
            return True
        if k == 'bin' and cond[1] in ('BitAnd', 'BitOr'):
            if (cond[1] == 'BitAnd') == truth:
                return self.branch(st, cond[2], truth) and self.branch(st, cond[3], truth)
        st.facts[cond] = truth
        return True

    def assume_val(self, st, t, val, eq=True):
        """discriminant-like term equals / differs from a constant"""
        cur = st.facts.get(t)
        if cur is not None:
            return (cur == val) == eq
        ex = st.facts.get(('not', t), frozenset())
        if eq:
            if val in ex:
                return False
            st.facts[t] = val
        else:
            st.facts[('not', t)] = ex | {val}
        return True

    def assume_int(self, st, t, val, eq):
        return self.branch(st, ('bin', 'Eq', t, ('c', val, (self.typeof(t) or ('prim', 'isize'))[1])), eq)

    # ------------------------------------------------------------ rvalues
    def discr(self, st, v, ty):
        if v[0] == 'agg' and v[3] is not None:
            return ('c', self.variant_no(v[2], v[3]), 'isize')
        if v[0] == 'upd' and v[1][0] == 'as':
            n = self.variant_no_ty(ty, v[1][2])
            if n is not None:
                return ('c', n, 'isize')
        t = ('dis', v)
        f = st.facts.get(t)
        if f is not None:
            return ('c', f, 'isize')
        if ty is not None:
            self.types.setdefault(v, ty)
        return t

    def variant_no(self, enum, variant):
        e = self.p.enums.get(enum)
        if e is None:
            return 'variant:' + variant
        n = self.p.variant_index(enum, variant)
        return n if n is not None else 'variant:' + variant

    def variant_no_ty(self, ty, variant):
        if ty and ty[0] == 'path' and ty[1] in self.p.enums:
            return self.p.variant_index(ty[1], variant)
        return None

    def variants_of(self, ty):
        if ty and ty[0] == 'path' and ty[1] in self.p.enums:
            return self.p.enums[ty[1]]['variants']
        return None

    def rvalue(self, st, fr, rv, dty, span=None):
        k = rv[0]
        if k == 'use':
            v = self.operand(st, fr, rv[1])
            self.settype(v, dty)
            return v
        if k in ('ref', 'rawptr'):
            b, pr, ty = self.place_loc(st, fr, rv[2])
            if not pr and b[0] == 'h':
                # reborrow of an unknown pointer is that pointer
                self.settype(b[1], dty)
                return b[1]
            r = ('ref', b, tuple(p[:2] if p[0] == 'field' else p for p in pr))
            return r if rv[1] == 'mut' else r + ('shr',)
        if k == 'len':
            b, pr, ty = self.place_loc(st, fr, rv[1])
            v = self.load(st, b, pr, ty)
            return self.length_of(v, ty)
        if k == 'discr':
            b, pr, ty = self.place_loc(st, fr, rv[1])
            v = self.load(st, b, pr, ty)
            return self.discr(st, v, ty)
        if k in ('bin', 'checked'):
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            ta = self.typeof(a) or self.optype(st, fr, rv[2]) or self.typeof(b)
            r = self.binop(st, rv[1], a, b, ta)
            if k == 'checked':
                tn = ta[1] if ta and ta[0] == 'prim' else '?'
                o = self.ovf(st, rv[1], a, b, tn, r)
                return tup(r, o)
            self.settype(r, dty)
            return r
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            a = self.fold(st, a)
            if a[0] == 'c':
                if rv[1] == 'Not':
                    if isinstance(a[1], bool):
                        return ('c', not a[1], 'bool')
                    lo, hi = INT_RANGE.get(a[2], (0, 0))
                    return ('c', hi - a[1] if lo == 0 else -1 - a[1], a[2])
                if isinstance(a[1], (int, float)):
                    return ('c', -a[1], a[2])
            if a[0] == 'un' and a[1] == rv[1]:
                return a[2]
            return self.settype(('un', rv[1], a), dty)
        if k == 'cast':
            a = self.operand(st, fr, rv[1])
            self.settype(a, self.optype(st, fr, rv[1]))
            ty = T.subst(self.p.mty(rv[2]), fr.genv)
            if rv[3] == 'Pointer(Unsize)' and a[0] == 'ref':
                sty = self.optype(st, fr, rv[1])
                if sty and sty[0] in ('ref', 'ptr') and sty[2][0] == 'array' and str(sty[2][2]).isdigit():
                    # a reinterpreted pointer may cover only a part of what it points to
                    v = self.load(st, a[1], a[2])
                    n = self.length_of(v)
                    vt = self.typeof(v)
                    if n[0] == 'c' and n[1] != int(sty[2][2]) or vt and vt[0] == 'array' and vt != sty[2] \
                            and str(vt[2]).isdigit() and vt[2] != sty[2][2]:
                        return ('subp', a, cint(0), cint(int(sty[2][2])))
            return self.cast(st, a, ty, rv[3])
        if k == 'tuple':
            return tup(*[self.operand(st, fr, o) for o in rv[1]])
        if k == 'array':
            return ('agg', 'array', '', None, tuple(self.operand(st, fr, o) for o in rv[1]), ())
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            m = re.match(r'^(?:const )?(\d+)(?:_usize)?$', rv[2])
            if m and int(m.group(1)) <= 64:
                return ('agg', 'array', '', None, (v,) * int(m.group(1)), ())
            return ('repeat', v, rv[2])
        if k == 'adt':
            return self.make_adt(st, fr, rv)
        if k == 'closure':
            key = self.closure_key(fr, rv)
            return ('agg', 'closure', key, None, tuple(self.operand(st, fr, o) for _, o in rv[2]), self.freeze(fr.genv))
        if k == 'nullary':
            m = re.match(r'^SizeOf\((.*)\)$', rv[1])
            if m:
                ty = T.subst(self.p.mty(m.group(1)), fr.genv)
                n = self.size_of(ty)
                if n is not None:
                    return cint(n)
                return self.settype(('sizeof', ty), ('prim', 'usize'))
            return ('s', rv[1])
        raise AnalysisError('rvalue %r' % (rv,))

    def length_of(self, v, ty=None):
        if v[0] == 'agg' and v[1] == 'array':
            return cint(len(v[4]))
        if v[0] == 'c' and isinstance(v[1], (bytes, str)):
            return cint(len(v[1]) if isinstance(v[1], bytes) else len(v[1].encode()))
        if v[0] == 'vec0':
            return cint(0)
        if v[0] == 'vpush':
            return self.add1(self.length_of(v[1]), cint(1))
        if v[0] == 'vext':
            return self.add1(self.length_of(v[1]), v[3])
        if v[0] == 'updelem':
            return self.length_of(v[1], ty)
        if v[0] in ('phi', 'hv') and (ty is None or ty[0] != 'array'):
            ty = self.typeof(v) or ty
        if ty and ty[0] == 'array' and str(ty[2]).isdigit():
            return cint(int(ty[2]))
        if v[0] == 'deref' and v[1][0] == 'subp':
            return v[1][3]
        if v[0] == 'deref' and v[1][0] == 'c' and isinstance(v[1][1], (bytes, str)):
            c = v[1][1]
            return cint(len(c) if isinstance(c, bytes) else len(c.encode()))
        return self.settype(('len', v), ('prim', 'usize'))

    def add1(self, a, b):
        if a[0] == 'c' and b[0] == 'c':
            return cint(a[1] + b[1])
        return self.settype(('bin', 'Add', a, b), ('prim', 'usize'))

    def ptr_len(self, st, p, ty=None):
        """length of the slice / str / Vec behind a pointer value"""
        if p[0] == 'subp':
            return p[3]
        if p[0] == 'c' and isinstance(p[1], (bytes, str)):
            return cint(len(p[1]) if isinstance(p[1], bytes) else len(p[1].encode()))
        return self.length_of(self.read_ref(st, p), ty)

    def canon(self, st, t):
        """canonical form of an integer term"""
        acc = {}
        f = self.lf(st, t, acc)
        if not f[0]:
            return ('c', f[1], 'usize')
        if len(f[0]) == 1 and f[1] == 0 and f[0][0][1] == 1:
            return f[0][0][0]
        return self.settype(('lin', f), ('prim', 'usize'))

    def subslice(self, st, p, start, n):
        if p[0] == 'subp':
            base, s0 = p[1], p[2]
        else:
            base, s0 = p, cint(0)
        t = self.binop(st, 'Add', s0, start, ('prim', 'usize'))
        return ('subp', base, self.canon(st, t), self.canon(st, n))

    def closure_key(self, fr, rv):
        m = re.search(r'::(\{closure#\d+\})$', rv[3] or '')
        base = re.sub(r'#(\d+)$', '', re.sub(r'^promoted\[\d+\] in ', '', fr.key))
        mm = re.search(r'[^}]#(\d+)$', fr.key)
        if m:
            name = base + '::' + m.group(1)
            if name in self.p.bodies:
                return name
            if mm and name + '#' + mm.group(1) in self.p.bodies:
                return name + '#' + mm.group(1)
        return 'unknown:' + rv[1]

    def make_adt(self, st, fr, rv):
        path = rv[1]
        segs, args = T.split_path(path)
        if segs is None:
            return ('s', 'adt ' + path)
        # enum variant?
        en = T.canon_path('::'.join(segs[:-1])) if len(segs) > 1 else None
        vals = [(n, self.operand(st, fr, o)) for n, o in rv[2]]
        if en in self.p.enums:
            vname = segs[-1]
            for nm, fl, d in self.p.enums[en]['variants']:
                if nm == vname:
                    return ('agg', 'adt', en, vname, self.order_fields(fl, vals), ())
        name = T.canon_path('::'.join(segs))
        s = self.p.structs.get(name)
        if s is not None:
            return ('agg', 'adt', name, None, self.order_fields(s['fields'], vals), ())
        # unknown external ADT: struct or enum variant, fields in listed order
        if en and segs[-1][:1].isupper() and segs[-2][:1].isupper():
            return ('agg', 'adt', en, segs[-1], tuple(v for _, v in vals), ())
        return ('agg', 'adt', name, None, tuple(v for _, v in vals), ())

    def order_fields(self, fl, vals):
        idx = {n: i for i, (n, _) in enumerate(fl)}
        out = [None] * len(fl)
        for k, (n, v) in enumerate(vals):
            i = n if isinstance(n, int) else idx.get(n, k)
            if i >= len(out):
                out.extend([None] * (i + 1 - len(out)))
            out[i] = v
        return tuple(UNIT if x is None else x for x in out)

    SIZES = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'char': 4,
             'u64': 8, 'i64': 8, 'f64': 8, 'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16}

    def size_of(self, ty):
        """sizes of primitives, arrays, and (repr(Rust)) structs of them"""
        r = self.layout(ty)
        return r[0] if r else None

    def layout(self, ty):
        if ty[0] == 'prim' and ty[1] in self.SIZES:
            n = self.SIZES[ty[1]]
            return n, n
        if ty[0] == 'array' and str(ty[2]).isdigit():
            l = self.layout(ty[1])
            return (l[0] * int(ty[2]), l[1]) if l else None
        if ty[0] == 'tuple' and not ty[1]:
            return 0, 1
        if ty[0] == 'path':
            if ty[1] in ('euclid::Length', 'euclid::TypedScale') and ty[2]:
                return self.layout(ty[2][0])
            if ty[1] == 'std::PhantomData':
                return 0, 1
            s = self.p.structs.get(ty[1])
            if s is not None:
                env = dict(zip(s['params'], ty[2]))
                tot = 0
                al = 1
                for _, ft in s['fields']:
                    l = self.layout(T.subst(ft, env))
                    if l is None:
                        return None
                    tot += l[0]
                    al = max(al, l[1])
                # repr(Rust) reorders fields: no inner padding for sorted alignments
                return (tot + al - 1) // al * al, al
        return None

    def binop(self, st, op, a, b, ty):
        a, b = self.fold(st, a), self.fold(st, b)
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            x, y = a[1], b[1]
            if op in CMP:
                return ('c', CMP[op](x, y), 'bool')
            if isinstance(x, bool) and isinstance(y, bool):
                if op in ('BitAnd', 'BitOr', 'BitXor'):
                    return ('c', {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op], 'bool')
            if isinstance(x, int) and isinstance(y, int):
                r = None
                if op in ('Add', 'Sub', 'Mul'):
                    r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[op]
                elif op in ('Div', 'Rem') and y != 0:
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    r = q if op == 'Div' else x - q * y
                elif op in ('BitAnd', 'BitOr', 'BitXor'):
                    r = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op]
                elif op == 'Shl':
                    r = x << y
                elif op == 'Shr':
                    r = x >> y
                if r is not None:
                    lo, hi = INT_RANGE.get(a[2], (None, None))
                    if lo is not None and op in ('Shl',):
                        r = r & hi if lo == 0 else r
                    return ('c', r, a[2])
            elif isinstance(x, float) and isinstance(y, float) and op in ('Add', 'Sub', 'Mul'):
                return ('c', {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[op], a[2])
            elif isinstance(x, float) and isinstance(y, float) and op == 'Div' and y:
                return ('c', x / y, a[2])
        if op in CMP:
            if op in ('Eq', 'Ne') and a[0] == 'c' and b[0] != 'c':
                a, b = b, a
            t = ('bin', op, a, b)
            self.types[t] = ('prim', 'bool')
            return self.fold(st, t)
        if op in ('BitAnd', 'BitOr') and (a[0] == 'c' and isinstance(a[1], bool) or b[0] == 'c' and isinstance(b[1], bool)):
            c, o = (a, b) if a[0] == 'c' and isinstance(a[1], bool) else (b, a)
            if op == 'BitAnd':
                return o if c[1] else FALSE
            return TRUE if c[1] else o
        if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and a[0] == 'c' and b[0] != 'c':
            a, b = b, a
        if b[0] == 'c' and not isinstance(b[1], float):
            if op in ('Add', 'Sub', 'Shl', 'Shr') and b[1] == 0:
                return a
            if op in ('Mul', 'Div') and b[1] == 1:
                return a
        t = ('bin', op, a, b)
        if ty is not None and ty[0] == 'prim':
            self.types.setdefault(t, ty)
        if op in ('BitOr', 'BitXor', 'Add') and ty is not None and ty[0] == 'prim':
            w = self.joined_bytes(st, t, ty)
            if w is not None:
                return w
        return t

    def joined_bytes(self, st, t, ty):
        """consecutive bytes of one sequence shifted together are the big-endian (or little-endian) word read there"""
        n = {'u16': 2, 'u32': 4, 'u64': 8}.get(ty[1])
        if n is None:
            return None
        got = {}

        def walk(x, sh):
            if x[0] == 'bin' and x[1] in ('BitOr', 'BitXor', 'Add'):
                return walk(x[2], sh) and walk(x[3], sh)
            if x[0] == 'bin' and x[1] == 'Shl' and x[3][0] == 'c':
                return walk(x[2], sh + x[3][1])
            if x[0] == 'bin' and x[1] == 'Mul' and x[3][0] == 'c' and bin(x[3][1]).count('1') == 1:
                return walk(x[2], sh + x[3][1].bit_length() - 1)
            while x[0] == 'cast' and x[1][0] != 'bin':
                x = x[1]
            if x[0] != 'elem' or x[2][0] != 'c' and x[2][0] != 'lin' or sh % 8 or sh in got:
                return False
            got[sh] = x
            return True
        if not walk(t, 0) or sorted(got) != [8 * i for i in range(n)]:
            return None
        base = got[0][1]
        if any(x[1] != base for x in got.values()):
            return None
        for be in (True, False):
            seq = [got[8 * i] for i in (range(n - 1, -1, -1) if be else range(n))]
            i0 = seq[0][2]
            if all(self.lf(st, x[2], {}) == lin.add(self.lf(st, i0, {}), lin.const(k)) for k, x in enumerate(seq)):
                if base[0] == 'deref' and base[1][0] == 'subp':
                    p, off = base[1][1], base[1][2]
                elif base[0] == 'deref' and base[1][0] == 'rawp':
                    p, off = base[1][1], base[1][2]
                elif base[0] == 'deref':
                    p, off = base[1], cint(0)
                else:
                    return None
                if off[:2] == ('c', 0):
                    o = i0
                elif i0[:2] == ('c', 0):
                    o = off
                else:
                    o = self.canon(st, self.binop(st, 'Add', off, i0, ('prim', 'usize')))
                w = self.cast(st, ('deref', ('rawp', p, o, cint(n))), ty, 'Transmute')
                return self.settype(('from_be' if be else 'from_le', w), ty)
        return None

    def ovf(self, st, op, a, b, tn, r):
        rg = INT_RANGE.get(tn)
        if r[0] == 'c' and isinstance(r[1], int) and rg:
            return ('c', not (rg[0] <= r[1] <= rg[1]), 'bool')
        return ('ovf', op, a, b, tn)

    def cast(self, st, a, ty, kind):
        if kind.startswith('Pointer(ReifyFnPointer') and a[0] == 'agg' and a[1] == 'adt' and a[3] is None and not a[4]:
            return ('fn', a[2], ())       # a function item written as a bare path
        if kind.startswith('Pointer(ClosureFnPointer') or kind.startswith('Pointer(ReifyFnPointer') \
                or kind in ('PtrToPtr', 'Pointer(Unsize)', 'Misc', 'Pointer(MutToConstPointer)', 'Pointer(UnsafeFnPointer)') and not (ty[0] == 'prim'):
            return a
        if ty[0] == 'prim':
            tn = ty[1]
            src = self.typeof(a)
            if a[0] == 'c' and isinstance(a[1], (int, bool)) and tn in INT_RANGE:
                lo, hi = INT_RANGE[tn]
                v = int(a[1])
                if not lo <= v <= hi:
                    v = (v - lo) % (hi - lo + 1) + lo
                return ('c', v, tn)
            if a[0] == 'c' and isinstance(a[1], int) and tn in ('f32', 'f64'):
                return ('c', float(a[1]), tn)
            if src == ty:
                return a
            return self.settype(('cast', a, tn), ty)
        if kind == 'Transmute':
            return self.settype(('transmute', a, ty), ty)
        return a


def _lt(a, b):
    return a < b


CMP = {'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Lt': lambda a, b: a < b,
       'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}
NEGOP = {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt'}


def unescape(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '\\' and i + 1 < n:
            d = s[i + 1]
            if d == 'n':
                out.append('\n')
            elif d == 't':
                out.append('\t')
            elif d == 'r':
                out.append('\r')
            elif d == '0':
                out.append('\0')
            elif d == 'x':
                out.append(chr(int(s[i + 2:i + 4], 16)))
                i += 2
            elif d == 'u':
                e = s.index('}', i)
                out.append(chr(int(s[i + 3:e], 16)))
                i = e - 1
            else:
                out.append(d)
            i += 2
            continue
        out.append(c)
        i += 1
    return ''.join(out)
