"""Control part of the value-flow analysis: paths, calls, loops (see absint.py)."""
import re
import absint
import lin
import rtypes as T
from absint import (Engine, State, Frame, Event, LoopInfo, Limit, UNIT, TRUE, FALSE, NONE, some, ok, err,
                    adt, tup, cint, INT_RANGE)
from front import AnalysisError


def succs(term):
    k = term[0]
    if k == 'goto':
        return [term[1]]
    if k == 'switch':
        return [b for _, b in term[2]] + ([term[3]] if term[3] is not None else [])
    if k == 'drop':
        return [term[2]] if term[2] is not None else []
    if k == 'call':
        return [term[4]] if term[4] is not None else []
    if k == 'assert':
        return [term[5]]
    return []


class LoopTree:
    """back edges and natural loop bodies of one MIR body (non-cleanup part)"""

    def __init__(self, fn):
        self.headers = {}
        color = {}
        order = []
        back = []
        stack = [(0, iter(succs(fn.blocks[0]['term'])))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in color:
                    color[s] = 1
                    stack.append((s, iter(succs(fn.blocks[s]['term']))))
                    adv = True
                    break
                elif color[s] == 1:
                    back.append((b, s))
            if not adv:
                color[b] = 2
                stack.pop()
        pred = {}
        for b in color:
            for s in succs(fn.blocks[b]['term']):
                pred.setdefault(s, set()).add(b)
        for src, h in back:
            body = self.headers.setdefault(h, {h})
            work = [src]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(pred.get(x, ()))


class Analyzer(Engine):
    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.loops = {}
        self.looptrees = {}
        self.phi_info = {}      # loop-varying value -> (LoopInfo, location)
        self.callstack = []
        self.track_facts = True
        self.opaque_hook = None
        self.invariants = True
        self._feas = {}
        self.drop_impls = {}
        for im in prog.impls:
            if im.trait == 'std::Drop' and 'drop' in im.methods and im.for_[0] == 'path':
                self.drop_impls[im.for_[1]] = im

    # ------------------------------------------------------------ entry
    def entry(self, key, args=None, genv=None, st=None):
        """analyse a body with unknown arguments; list of (kind, state, value)"""
        fn = self.p.bodies.get(key) or self.p.plain.get(key)
        if fn is None:
            raise AnalysisError('no body named %s' % key)
        st = st or State()
        genv = genv or {}
        if args is None:
            args = []
            for n, t in fn.args:
                nm = ('s', 'arg%d' % n)
                ty = T.subst(self.p.mty(t), genv)
                self.settype(nm, ty)
                args.append(nm)
        return self.run_fn(key, fn, args, st, genv, 0, (), keep=True)

    def run_fn(self, key, fn, args, st, genv, depth, stack, keep=False):
        if depth > self.max_depth:
            raise Limit('inlining deeper than %d at %s' % (self.max_depth, key))
        self.analysed[key] = self.analysed.get(key, 0) + 1
        fr = Frame()
        fr.fn = fn
        fr.key = key
        st.nframe += 1
        fr.id = st.nframe
        fr.genv = genv
        fr.depth = depth
        fr.stack = stack + (key,)
        for (n, t), v in zip(fn.args, args):
            st.mem[('l', fr.id, n)] = v
            if v[0] not in ('c', 'agg', 'ref') and v not in self.types:
                self.settype(v, T.subst(self.p.mty(t), genv))
        lt = self.looptrees.get(key)
        if lt is None:
            lt = self.looptrees[key] = LoopTree(fn)
        outs = self.run(0, st, fr, lt, (), None)
        res = []
        for kind, s, v in outs:
            if kind == 'ret':
                rv = s.mem.get(('l', fr.id, 0), UNIT)
                if not keep:
                    for b in [b for b in s.mem if b[0] == 'l' and b[1] == fr.id]:
                        del s.mem[b]
                res.append(('ret', s, rv))
            elif kind in ('back', 'exit'):
                raise AnalysisError('stray %s in %s' % (kind, key))
            else:
                res.append((kind, s, v))
        if self.merge and len(res) > 1:
            res = self.merge_outs(res)
        return res

    def merge_outs(self, outs):
        """join paths that ended with the same value, memory and events"""
        groups = []
        for kind, s, v in outs:
            if kind != 'ret':
                groups.append([kind, s, v])
                continue
            for g in groups:
                if g[0] == 'ret' and g[1].ev is s.ev and g[2] == v and self.same_mem(g[1].mem, s.mem):
                    a = g[1]
                    a.facts = {k: x for k, x in a.facts.items() if s.facts.get(k) == x}
                    keep = set(s.lin)
                    a.lin = tuple(f for f in a.lin if f in keep)
                    a.nframe = max(a.nframe, s.nframe)
                    a.ncall = max(a.ncall, s.ncall)
                    break
            else:
                groups.append([kind, s, v])
        return [tuple(g) for g in groups]

    def same_mem(self, a, b):
        if a is b:
            return True
        for k in set(a) | set(b):
            x = a.get(k)
            y = b.get(k)
            if x is None or y is None:
                # a lazily materialised initial value
                z = x if x is not None else y
                if k[0] == 'h' and (z == ('deref', k[1]) or k[1][0] == 'cref' and z == k[1][1]):
                    continue
                if k[0] == 'k':
                    continue
                return False
            if x is not y and x != y:
                return False
        return True

    # ------------------------------------------------------------ blocks
    def run(self, bb, st, fr, lt, active, body):
        """explore from bb; active: headers being iterated; body: allowed blocks or None.
        outcomes: ret / panic / stop / back(h) / exit(b)"""
        outs = []
        work = [(bb, st, True)]
        while work:
            b, s, first = work.pop()
            self.nsteps += 1
            if self.nsteps > self.max_steps:
                raise Limit('too many steps in %s' % fr.key)
            if not (first and b == bb and active and b == active[-1]):
                if b in lt.headers:
                    if b in active:
                        outs.append(('back', s, b))
                        continue
                    if body is None or b in body:
                        for k, s2, v in self.loop(b, s, fr, lt, active, body):
                            if k == 'exit' and (body is None or v in body) :
                                work.append((v, s2, False))
                            else:
                                outs.append((k, s2, v))
                        continue
            if body is not None and b not in body:
                outs.append(('exit', s, b))
                continue
            blk = fr.fn.blocks[b]
            for stmt in blk['stmts']:
                if stmt[0] == 'assign':
                    self.assign(s, fr, stmt)
                elif stmt[0] == 'setdiscr':
                    base, pr, ty = self.place_loc(s, fr, stmt[1])
                    vs = self.variants_of(ty)
                    nm = vs[stmt[2]][0] if vs else str(stmt[2])
                    self.store(s, base, pr, ('agg', 'adt', ty[1] if ty else '?', nm, (), ()), fr)
            for k, s2, v in self.terminator(s, fr, b, blk['term']):
                if k == 'goto':
                    work.append((v, s2, False))
                else:
                    outs.append((k, s2, v))
            if len(outs) + len(work) > self.max_paths:
                raise Limit('more than %d paths in %s' % (self.max_paths, fr.key))
        return outs

    def assign(self, s, fr, stmt):
        base, pr, ty = self.place_loc(s, fr, stmt[1])
        v = self.rvalue(s, fr, stmt[2], ty, stmt[3])
        if stmt[1][2] == () and base[0] == 'l':
            s.mem[base] = v
        else:
            self.store(s, base, pr, v, fr, stmt[3])

    def terminator(self, s, fr, b, t):
        k = t[0]
        if k == 'goto':
            return [('goto', s, t[1])]
        if k == 'return':
            return [('ret', s, None)]
        if k in ('unreachable',):
            return []
        if k in ('resume', 'abort'):
            return []
        if k == 'switch':
            return self.switch(s, fr, t)
        if k == 'assert':
            cond = self.operand(s, fr, t[1])
            bad = s.fork()
            outs = []
            if self.branch(bad, cond, not t[2]):
                bad.event('panic', 'assert', (('c', t[3], '&str'),), {'fn': fr.key, 'span': t[7], 'stack': fr.stack})
                outs.append(('panic', bad, ('assert', t[3], fr.key, t[7])))
            if self.on_assert:
                self.on_assert(fr, b, t, bool(outs), s)
            if self.branch(s, cond, t[2]):
                outs.append(('goto', s, t[5]))
            return outs
        if k == 'drop':
            base, pr, ty = self.place_loc(s, fr, t[1])
            return [('goto' if kk == 'ret' else kk, s2, t[2] if kk == 'ret' else v)
                    for kk, s2, v in self.drop_value(s, fr, base, pr, ty)]
        if k == 'call':
            return self.call_term(s, fr, t)
        raise AnalysisError('terminator %r' % (t,))

    def switch(self, s, fr, t):
        v = self.operand(s, fr, t[1])
        v = self.fold(s, v)
        cases, other = t[2], t[3]
        if v[0] == 'c':
            x = int(v[1]) if not isinstance(v[1], str) else v[1]
            if isinstance(x, int) and x < 0:
                pass
            for val, bb in cases:
                if val == x or (isinstance(x, int) and x < 0 and val in (x % 2 ** 8, x % 2 ** 16, x % 2 ** 32, x % 2 ** 64)):
                    return [('goto', s, bb)]
            return [('goto', s, other)] if other is not None else []
        outs = []
        ty = self.typeof(v)
        if v[0] == 'dis':
            ety = self.types.get(v[1])
            vs = self.variants_of(ety)
            for val, bb in cases:
                val2 = val if val < 2 ** 63 else val - 2 ** 64
                if val == 255 and vs and any(d == -1 for _, _, d in vs):
                    val2 = -1
                s2 = s.fork()
                if self.assume_val(s2, v, val2, True):
                    outs.append(('goto', s2, bb))
            if other is not None and fr.fn.blocks[other]['term'][0] != 'unreachable':
                if vs is not None:
                    seen = {val if val < 2 ** 63 else val - 2 ** 64 for val, _ in cases}
                    if 255 in seen:
                        seen.add(-1)
                    rest = [d for _, _, d in vs if d not in seen]
                    if not rest:
                        return outs
                    for d in rest:
                        s2 = s.fork()
                        if self.assume_val(s2, v, d, True):
                            outs.append(('goto', s2, other))
                    return outs
                s2 = s.fork()
                good = True
                for val, _ in cases:
                    good = good and self.assume_val(s2, v, val, False)
                if good:
                    outs.append(('goto', s2, other))
            return outs
        isbool = (ty == ('prim', 'bool')) or v[0] == 'ovf' or (v[0] == 'un' and v[1] == 'Not' and ty is None)
        if isbool:
            for val, bb in cases:
                s2 = s.fork()
                if self.branch(s2, v, bool(val)):
                    outs.append(('goto', s2, bb))
            if other is not None:
                seen = {bool(val) for val, _ in cases}
                for tv in (True, False):
                    if tv not in seen:
                        s2 = s.fork()
                        if self.branch(s2, v, tv):
                            outs.append(('goto', s2, other))
            return outs
        tn = ty[1] if ty and ty[0] == 'prim' else 'u64'
        for val, bb in cases:
            s2 = s.fork()
            if self.branch(s2, ('bin', 'Eq', v, ('c', val, tn)), True):
                outs.append(('goto', s2, bb))
        if other is not None:
            s2 = s.fork()
            good = True
            for val, _ in cases:
                if not self.branch(s2, ('bin', 'Eq', v, ('c', val, tn)), False):
                    good = False
                    break
            if good:
                outs.append(('goto', s2, other))
        return outs

    # ------------------------------------------------------------ calls
    def call_term(self, s, fr, t):
        dest, callee_op, argops, target, unwind, span = t[1:]
        args = [self.operand(s, fr, a) for a in argops]
        fr.span = span
        outs = []
        if callee_op[0] == 'fn':
            res = self.call(s, fr, callee_op[1], args, span, argops)
            if target is None:
                res2 = []
                for k, s2, v in res:
                    if k == 'ret':
                        nm, _, _, _ = self.resolve(self.parse_callee(callee_op[1]), fr.genv)
                        s2.event('panic', nm, args, {'fn': fr.key, 'span': span, 'stack': fr.stack})
                        res2.append(('panic', s2, (nm, self.panic_msg(args), fr.key, span)))
                    else:
                        res2.append((k, s2, v))
                res = res2
        else:
            fv = self.operand(s, fr, callee_op)
            res = self.call_value(s, fr, fv, args, span)
        for k, s2, v in res:
            if k == 'ret':
                if target is None:
                    continue
                b, pr, ty = self.place_loc(s2, fr, dest)
                if v[0] not in ('c', 'agg', 'ref'):
                    self.settype(v, ty)
                if not pr and b[0] == 'l':
                    s2.mem[b] = v
                else:
                    self.store(s2, b, pr, v, fr, span)
                outs.append(('goto', s2, target))
            else:
                outs.append((k, s2, v))
        return outs

    def panic_msg(self, args):
        for a in args:
            if a[0] == 'c' and isinstance(a[1], str):
                return a[1]
        return ''

    def panic(self, s, fr, name, args, span):
        s.event('panic', name, args, {'fn': fr.key, 'span': span, 'stack': fr.stack})
        return ('panic', s, (name, self.panic_msg(args), fr.key, span))

    def call(self, s, fr, text, args, span, argops=None):
        callee = self.parse_callee(text)
        return self.call_parsed(s, fr, callee, fr.genv, args, span, text,
                                [self.optype(s, fr, o) for o in argops] if argops is not None else None)

    def call_parsed(self, s, fr, callee, genv, args, span, text='', atys=None):
        name, key, env, info = self.resolve(callee, genv)
        info = dict(info)
        info['key'] = key
        info['env'] = env
        info['genv'] = genv
        info['atys'] = atys
        info['callee'] = callee
        info['span'] = span
        info['fn'] = fr.key
        info['text'] = text
        m = self.models.get(name)
        if m is None and '<' in name:
            m = self.models.get(name.split('<')[0] + '::' + name.rsplit('::', 1)[1])
        if m is None and callee[0] == 'trait':
            m = self.models.get('*::' + name.split('::')[-2] + '::' + name.split('::')[-1]) if '::' in name else None
        if m is not None:
            r = m(self, s, fr, name, args, info)
            if r is not None:
                return r
        if key is not None and name not in self.opaque and key not in self.opaque:
            fn = self.p.bodies.get(key) or self.p.plain.get(key)
            if key in fr.stack and fr.stack.count(key) >= 1 and not self.allow_recursion(key, fr):
                info['recursive'] = True
                return self.opaque_call(s, fr, name, args, info)
            if self.inline_filter is None or self.inline_filter(name, key):
                return self.run_fn(key, fn, args, s, env, fr.depth + 1, fr.stack)
        # constructor functions
        c = self.ctor(callee, name, args)
        if c is not None:
            return [('ret', s, c)]
        return self.opaque_call(s, fr, name, args, info)

    rec_limit = 1       # how many calls of a function may be under way on one path

    def allow_recursion(self, key, fr):
        return fr.stack.count(key) < self.rec_limit

    def ctor(self, callee, name, args):
        if callee[0] != 'path':
            return None
        full = (callee[1] + '::' if callee[1] else '') + callee[2]
        en = T.canon_path(re.sub(r'::<.*?>$', '', callee[1])) if callee[1] else None
        pt = self.prefix_type(callee[1]) if callee[1] else None
        if pt is not None and pt[0] == 'path' and pt[1] in self.p.enums:
            for nm, fl, d in self.p.enums[pt[1]]['variants']:
                if nm == callee[2]:
                    return ('agg', 'adt', pt[1], nm, tuple(args), ())
        full2 = T.canon_path(full)
        if full2 in self.p.structs and callee[2][:1].isupper():
            return ('agg', 'adt', full2, None, tuple(args), ())
        return None

    def call_value(self, s, fr, fv, args, span):
        """call a function value with spread arguments"""
        while fv[0] in ('ref', 'cref') or (fv[0] == 'agg' and fv[1] == 'box'):
            fv2 = self.read_ref(s, fv)
            if fv2[0] in ('deref', 'undef'):
                break
            if fv2[0] == 'agg' and fv2[1] == 'closure':
                return self.call_closure(s, fr, fv2, fv, args, span)
            fv = fv2
        if fv[0] == 'agg' and fv[1] == 'closure':
            return self.call_closure(s, fr, fv, None, args, span)
        if fv[0] == 'fn':
            return self.call_parsed(s, fr, self.parse_callee(fv[1]), dict(fv[2]), args, span, fv[1])
        info = {'span': span, 'fn': fr.key, 'callee': fv}
        return self.opaque_call(s, fr, 'callback', [fv] + list(args), info)

    def call_closure(self, s, fr, clo, ref, args, span):
        key = clo[2]
        fn = self.p.bodies.get(key)
        if fn is None or key in self.opaque:
            return self.opaque_call(s, fr, 'closure:' + key, list(args), {'span': span, 'fn': fr.key})
        if fr.stack.count(key) >= self.rec_limit:
            return self.opaque_call(s, fr, 'closure:' + key, list(args), {'span': span, 'fn': fr.key, 'recursive': True})
        a0ty = fn.args[0][1] if fn.args else ''
        if a0ty.startswith('&'):
            if ref is None:
                s.nframe += 1
                base = ('l', s.nframe, 'clo')
                s.mem[base] = clo
                ref = ('ref', base, ())
            a0 = ref
        else:
            a0 = clo
        return self.run_fn(key, fn, [a0] + list(args), s, dict(clo[5]), fr.depth + 1, fr.stack)

    def fresh(self, s, name, args, ty=None):
        s.ncall += 1
        t = ('call', name, tuple(args), s.ncall)
        return self.settype(t, ty)

    def hv(self, s, what):
        s.ncall += 1
        return ('hv', what, s.ncall)

    def opaque_call(self, s, fr, name, args, info, ty=None, pure=False):
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        if self.opaque_hook:
            r = self.opaque_hook(self, s, fr, name, args, info)
            if r is not None:
                return r
        if pure or name in self.pure:
            return [('ret', s, ('call', name, tuple(self.stable(s, a) for a in args), 0))]
        snap = tuple(self.snapshot(s, a) for a in args)
        info = dict(info)
        info['vals'] = snap
        info['stack'] = fr.stack
        s.event('call', name, args, info)
        # closures handed to unknown code may run any number of times
        outs = [('ret', s, None)]
        ran = []
        for a in args:
            clo, ref = self.find_closure(s, a)
            if clo is not None:
                if clo[2] in self.p.bodies and clo[2] not in fr.stack:
                    ran.append(a)
                outs = self.star(outs, fr, clo, ref, info.get('span'), name)
        res = []
        for k, s2, v in outs:
            if k != 'ret':
                res.append((k, s2, v))
                continue
            # what a closure captured changes only by running it
            self.havoc_args(s2, args, name, info.get('atys'), ran)
            s2.ncall += 1
            r = ('call', name, tuple(self.short(a) for a in args), s2.ncall)
            info['res'] = r
            res.append(('ret', s2, r))
        return res

    # operators on foreign types (euclid, num); local impls are resolved and inlined before this
    pure = {'std::Div::div', 'std::Mul::mul', 'std::Add::add', 'std::Sub::sub', 'std::Neg::neg',
            'euclid::Length::cast', 'euclid::TypedScale::cast', 'euclid::Length::get', 'euclid::TypedScale::get'}

    def short(self, a):
        return a

    def stable(self, s, a):
        """argument of a pure call: pointers are replaced by the value they point to"""
        if a[0] == 'ref':
            return ('&', self.load(s, a[1], a[2]))
        return a

    def snapshot(self, s, a):
        if a[0] == 'ref':
            return self.load(s, a[1], a[2])
        return a

    def find_closure(self, s, a):
        if a[0] == 'agg' and a[1] == 'closure':
            return a, None
        if a[0] == 'ref':
            v = self.load(s, a[1], a[2])
            if v[0] == 'agg' and v[1] == 'closure':
                return v, a
        return None, None

    def havoc_args(self, s, args, name, atys=None, ran=()):
        for i, a in enumerate(args):
            if a in ran:
                continue
            t = atys[i] if atys and i < len(atys) else None
            if t is not None and t[0] == 'ref' and not t[1] and self.find_closure(s, a)[0] is None:
                continue
            if t is not None and t[0] == 'ref' and t[1] and a[0] not in ('ref', 'agg', 'c', 'upd'):
                nv = self.hv(s, '%s.%d' % (name, i))
                self.settype(nv, t[2])
                self.store(s, ('h', a), (), nv)
                continue
            self.havoc_value(s, a, '%s.%d' % (name, i), 0)

    def havoc_value(self, s, a, what, depth):
        if depth > 4:
            return
        if a[0] == 'mref':
            a = a[1]
        if a[0] == 'ref':
            if self.is_shared(a):
                return
            v = self.load(s, a[1], a[2])
            if v[0] == 'agg' and v[1] == 'closure':
                for f in v[4]:
                    self.havoc_value(s, f, what, depth + 1)
                return
            nv = self.hv(s, what)
            self.settype(nv, self.types.get(v) if v[0] not in ('agg', 'c') else None)
            self.store(s, a[1], a[2], nv)
        elif a[0] == 'agg' and a[1] in ('closure', 'tuple', 'adt', 'array'):
            for f in a[4]:
                self.havoc_value(s, f, what, depth + 1)

    def is_shared(self, a):
        return len(a) > 3

    def star(self, outs, fr, clo, ref, span, name):
        """run a closure zero or more times (unknown caller)"""
        fn = self.p.bodies.get(clo[2])
        res = []
        for k, s, v in outs:
            if k != 'ret':
                res.append((k, s, v))
                continue
            if fn is None or clo[2] in fr.stack:
                res.append((k, s, v))
                continue
            info = LoopInfo(('star', clo[2]), clo[2])
            # fixpoint on the locations the closure modifies
            hav = {}
            for rnd in range(8):
                st = s.fork()
                for loc, phi in hav.items():
                    self.store(st, loc[0], loc[1], phi)
                def again(st):
                    cargs = []
                    for n, t in fn.args[1:]:
                        st.ncall += 1
                        x = ('carg', clo[2], n, st.ncall)
                        self.settype(x, T.subst(self.p.mty(t), dict(clo[5])))
                        cargs.append(x)
                    st.ev = (None,)
                    return self.call_closure(st, fr, clo, ref, cargs, span)
                base_mem = dict(st.mem)
                r = again(st)
                diff = set()
                for kk, s2, vv in r:
                    if kk == 'ret':
                        diff |= self.mem_diff(base_mem, s2.mem)
                new = [d for d in diff if d not in hav and not any(self.loc_prefix(h, d) for h in hav)]
                if not new:
                    break
                for d in new:
                    s.ncall += 1
                    for g in [g for g in hav if self.loc_prefix(d, g)]:
                        del hav[g]
                    hav[d] = ('phi', ('star', clo[2], s.ncall))
                    self.settype(hav[d], self.typeof(self.load(s, d[0], d[1])) or self.loc_type(d, fr))
            else:
                raise Limit('closure fixpoint %s' % clo[2])
            inv = ()
            if self.invariants:
                inv, r2 = self.find_invariants(s, hav, r, again, lambda k, v: k == 'ret')
                if r2 is not None:
                    r = r2
            info.inv = inv
            info.entry = {d: self.load(s, d[0], d[1]) for d in hav}
            for d, phi in hav.items():
                self.phi_info[phi] = (info, d)
            info.iters = [s2 for kk, s2, vv in r if kk == 'ret']
            info.rets = [vv for kk, s2, vv in r if kk == 'ret']
            info.phis = dict(hav)
            pan = [(kk, s2, vv) for kk, s2, vv in r if kk != 'ret']
            for kk, s2, vv in pan:
                s2.ev = self.splice(s.ev, [Event(('star', clo[2], (), {'loop': info}))], s2)
                res.append((kk, s2, vv))
            for loc, phi in hav.items():
                self.store(s, loc[0], loc[1], phi)
            for f in inv:
                for a, _ in f[0]:
                    self.lf(s, a, {})
                if f not in s.lin:
                    s.lin = s.lin + (f,)
            s.event('star', clo[2], (), {'loop': info, 'via': name})
            res.append(('ret', s, None))
        return res

    def splice(self, prefix, mid, st):
        ev = prefix
        for e in mid:
            ev = (ev, e)
        for e in st.events():
            ev = (ev, e)
        return ev

    # ------------------------------------------------------------ drops
    def has_drop(self, ty, seen=()):
        if ty is None:
            return False
        if ty[0] == 'path':
            if ty[1] in seen:
                return False
            if ty[1] in self.drop_impls:
                return True
            s = self.p.structs.get(ty[1])
            if s:
                env = dict(zip(s['params'], ty[2]))
                return any(self.has_drop(T.subst(f, env), seen + (ty[1],)) for _, f in s['fields'])
            e = self.p.enums.get(ty[1])
            if e:
                env = dict(zip(e['params'], ty[2]))
                return any(self.has_drop(T.subst(f, env), seen + (ty[1],)) for _, fl, _ in e['variants'] for _, f in fl)
            return any(self.has_drop(x, seen + (ty[1],)) for x in ty[2])
        if ty[0] == 'tuple':
            return any(self.has_drop(x, seen) for x in ty[1])
        if ty[0] in ('slice', 'array'):
            return self.has_drop(ty[1], seen)
        if ty[0] == 'closure':
            return False
        return False

    drop_events = False

    def drop_value(self, s, fr, base, pr, ty):
        if ty is None or not self.has_drop(ty):
            if self.drop_events:
                s.event('drop', T.show(ty) if ty else '?', (('ref', base, tuple(p[:2] if p[0] == 'field' else p for p in pr)),),
                        {'fn': fr.key, 'ty': ty, 'val': self.load(s, base, pr)})
            return [('ret', s, None)]
        outs = [('ret', s, None)]
        if ty[0] == 'path':
            if self.drop_events:
                s.event('drop', ty[1], (('ref', base, tuple(p[:2] if p[0] == 'field' else p for p in pr)),),
                        {'fn': fr.key, 'ty': ty, 'val': self.load(s, base, pr)})
            im = self.drop_impls.get(ty[1])
            if im is not None:
                key = im.methods['drop']
                fn = self.p.bodies[key]
                env = {}
                T.unify(im.for_, ty, env)
                self_ref = ('ref', base, tuple(p[:2] if p[0] == 'field' else p for p in pr))
                if key in self.opaque or key in fr.stack:
                    s.event('call', 'drop:' + ty[1], (self_ref,), {'fn': fr.key})
                    outs = [('ret', s, None)]
                else:
                    outs = self.run_fn(key, fn, [self_ref], s, env, fr.depth + 1, fr.stack)
            st_ = self.p.structs.get(ty[1])
            if st_:
                env = dict(zip(st_['params'], ty[2]))
                for i, (_, ft) in enumerate(st_['fields']):
                    ft = T.subst(ft, env)
                    if self.has_drop(ft):
                        nxt = []
                        for k, s2, v in outs:
                            if k != 'ret':
                                nxt.append((k, s2, v))
                            else:
                                nxt.extend(self.drop_value(s2, fr, base, tuple(pr) + (('field', i, ft),), ft))
                        outs = nxt
                return outs
            e = self.p.enums.get(ty[1])
            if e:
                env = dict(zip(e['params'], ty[2]))
                nxt = []
                for k, s2, v in outs:
                    if k != 'ret':
                        nxt.append((k, s2, v))
                        continue
                    val = self.load(s2, base, pr)
                    d = self.discr(s2, val, ty)
                    for nm, fl, dn in e['variants']:
                        s3 = s2.fork()
                        if d[0] == 'c':
                            if d[1] != dn:
                                continue
                        elif not self.assume_val(s3, d, dn, True):
                            continue
                        sub = [('ret', s3, None)]
                        for i, (_, ft) in enumerate(fl):
                            ft = T.subst(ft, env)
                            if self.has_drop(ft):
                                n2 = []
                                for k4, s4, v4 in sub:
                                    if k4 != 'ret':
                                        n2.append((k4, s4, v4))
                                    else:
                                        n2.extend(self.drop_value(s4, fr, base, tuple(pr) + (('downcast', nm), ('field', i, ft)), ft))
                                sub = n2
                        nxt.extend(sub)
                return nxt
        return outs

    def drop_term(self, s, fr, v):
        """drop a value that a modelled operation discards"""
        if v[0] == 'agg' and v[1] == 'closure':
            outs = [('ret', s, None)]
            for f in v[4]:
                nxt = []
                for k, s2, x in outs:
                    nxt += self.drop_term(s2, fr, f) if k == 'ret' else [(k, s2, x)]
                outs = nxt
            return outs
        t = self.typeof(v)
        if t is None and v[0] == 'agg' and v[1] == 'adt':
            t = ('path', v[2], ())
        if t is None or t[0] == 'ref' or not self.has_drop(t):
            return [('ret', s, None)]
        s.nframe += 1
        b = ('l', s.nframe, 'dropped')
        s.mem[b] = v
        return self.drop_value(s, fr, b, (), t)

    # ------------------------------------------------------------ loops
    def loop(self, h, st, fr, lt, active, body):
        lbody = lt.headers[h]
        key = (fr.key, h)
        info = LoopInfo(key, fr.key)
        hav = {}
        st.ncall += 1
        lid = (fr.key, h, st.ncall)
        entry_ev = st.ev
        if self.unroll:
            r = self.unrolled(h, st, fr, lt, active, lbody)
            if r is not None:
                return r
        rnd = 0
        while True:
            rnd += 1
            if rnd > 12:
                raise Limit('loop fixpoint in %s bb%d' % (fr.key, h))
            s = st.fork()
            for loc, phi in hav.items():
                self.store_quiet(s, loc, phi)
            base_mem = dict(s.mem)
            s.ev = (None,)
            outs = self.run(h, s, fr, lt, active + (h,), lbody)
            diff = set()
            for k, s2, v in outs:
                if k == 'back' and v == h:
                    diff |= self.mem_diff(base_mem, s2.mem, fr)
            new = sorted((d for d in diff if not any(self.loc_prefix(g, d) for g in hav)), key=repr)
            if not new:
                break
            # drop finer entries that a coarser one subsumes
            for d in new:
                for g in [g for g in hav if self.loc_prefix(d, g)]:
                    del hav[g]
                phi = ('phi', lid + (self.loc_key(d, fr),))
                old = self.load(st, d[0], d[1])
                ty = self.typeof(old) or self.loc_type(d, fr)
                self.settype(phi, ty)
                hav[d] = phi
        twins = self.twin_counters(st, hav, outs, h)
        if twins:
            hav.update(twins)
            s = st.fork()
            for loc, phi in hav.items():
                self.store_quiet(s, loc, phi)
            s.ev = (None,)
            outs = self.run(h, s, fr, lt, active + (h,), lbody)
        inv = ()
        if self.invariants:
            inv, outs2 = self.find_invariants(st, hav, outs,
                                              lambda s: self.run(h, s, fr, lt, active + (h,), lbody),
                                              lambda k, v: k == 'back' and v == h)
            if outs2 is not None:
                outs = outs2
        info.phis = dict(hav)
        for d, phi in hav.items():
            self.phi_info[phi] = (info, d)
        info.entry = {d: self.load(st, d[0], d[1]) for d in hav}
        info.iters = [s2 for k, s2, v in outs if k == 'back' and v == h]
        info.inv = inv
        ev = Event(('loop', key, (), {'loop': info, 'fn': fr.key}))
        res = []
        for k, s2, v in outs:
            if k == 'back' and v == h:
                continue
            s2.ev = self.splice(entry_ev, [ev], s2)
            res.append((k, s2, v))
        return res

    def twin_counters(self, st, hav, outs, h):
        """counters that start at the same constant and go up together are one counter: {location: phi of the first}"""
        if len(hav) < 2:
            return {}
        iters = [s for k, s, v in outs if k == 'back' and v == h]
        groups = {}
        for loc, phi in hav.items():
            e = self.load(st, loc[0], loc[1])
            if e[0] != 'c' or not isinstance(e[1], int) or isinstance(e[1], bool) or not iters:
                continue
            if all(self.load(s, loc[0], loc[1]) == self.binop(s.fork(), 'Add', phi, ('c', 1, e[2]), self.typeof(phi)) for s in iters):
                groups.setdefault((e, self.typeof(phi)), []).append((loc, phi))
        out = {}
        for g in groups.values():
            for loc, phi in g[1:]:
                out[loc] = g[0][1]
        return out

    unroll = 0
    unroll_width = 16       # paths kept apart
    unroll_any = False      # also without a counter that shows the end

    def unrolled(self, h, st, fr, lt, active, lbody):
        """the loop run out concretely, if a counter with constant bounds shows that it ends within a few rounds"""
        res = []
        cur = [st]
        for rnd in range(self.unroll + 1):
            nxt = []
            for c in cur:
                s = c.fork()
                backs = 0
                for k, s2, v in self.run(h, s, fr, lt, active + (h,), lbody):
                    if k == 'back' and v == h:
                        if not self.unroll_any and not self.counts(c.mem, s2.mem):
                            return None
                        nxt.append(s2)
                    else:
                        res.append((k, s2, v))
            if not nxt:
                return res
            if len(nxt) > self.unroll_width:
                return None
            cur = nxt
        return None

    def counts(self, old, new):
        """some location goes from one integer constant to another"""
        def diff(o, v):
            if o == v or o is None:
                return False
            if o[0] == 'c' and v[0] == 'c' and isinstance(o[1], int) and isinstance(v[1], int) \
                    and not isinstance(o[1], bool):
                return True
            if o[0] == 'agg' and v[0] == 'agg' and o[1:4] == v[1:4] and len(o[4]) == len(v[4]):
                return any(diff(x, y) for x, y in zip(o[4], v[4]))
            return False
        return any(diff(old.get(b), v) for b, v in new.items() if b in old)

    def store_quiet(self, s, loc, val):
        rw = self.record_writes
        self.record_writes = False
        self.store(s, loc[0], loc[1], val)
        self.record_writes = rw

    def loc_key(self, d, fr):
        b, pr = d
        if b[0] == 'l' and b[1] == fr.id:
            return ('_%s' % (b[2],), pr)
        return d

    def loc_type(self, d, fr):
        b, pr = d
        if b[0] == 'l' and b[1] == fr.id and not pr:
            return self.lty(fr, b[2])
        if b[0] == 'l' and b[1] == fr.id:
            ty = self.lty(fr, b[2])
            for p in pr:
                if p[0] == 'field' and ty and ty[0] == 'path' and ty[1] in self.p.structs:
                    s_ = self.p.structs[ty[1]]
                    if p[1] < len(s_['fields']):
                        ty = T.subst(s_['fields'][p[1]][1], dict(zip(s_['params'], ty[2])))
                        continue
                if p[0] == 'field' and ty and ty[0] == 'path' and ty[1] == 'std::Range' and ty[2]:
                    ty = ty[2][0]
                    continue
                if p[0] == 'field' and ty and ty[0] == 'tuple' and p[1] < len(ty[1]):
                    ty = ty[1][p[1]]
                    continue
                return None
            return ty
        return None

    def loc_prefix(self, a, b):
        """location a covers location b"""
        return a[0] == b[0] and len(a[1]) <= len(b[1]) and b[1][:len(a[1])] == a[1]

    def mem_diff(self, old, new, fr=None):
        out = set()
        for b, v in new.items():
            o = old.get(b)
            if o is None:
                if b[0] == 'l' and (fr is None or b[1] != fr.id):
                    continue
                if b[0] == 'l':
                    # first assigned inside the loop: not live at the header
                    continue
                if b[0] == 'h':
                    o = ('deref', b[1])
                    if v == o or b[1][0] == 'cref' and v == b[1][1]:
                        continue
                    if self.loop_local_base(b[1], old):
                        continue
                    out.add((b, ()))
                    continue
                continue
            if o is v or o == v:
                continue
            self._diff(b, (), o, v, out)
        return out

    def loop_local_base(self, t, old):
        return False

    def _diff(self, b, pr, o, v, out):
        if o == v:
            return
        if o[0] == 'agg' and v[0] == 'agg' and o[1:4] == v[1:4] and len(o[4]) == len(v[4]) and o[1] in ('adt', 'tuple', 'closure'):
            for i, (x, y) in enumerate(zip(o[4], v[4])):
                if x != y:
                    p = pr + ((('downcast', o[3]),) if o[3] else ()) + (('field', i),)
                    self._diff(b, p, x, y, out)
            return
        if v[0] == 'upd' and (v[1] == o or (o[0] == 'upd' and o[1] == v[1])):
            if o[0] == 'upd':
                od = dict(o[2])
            else:
                od = {}
            for i, y in v[2]:
                x = od.get(i, self.proj_value(None, o if o[0] != 'upd' else o[1], ('field', i)))
                if x != y:
                    self._diff(b, pr + (('field', i),), x, y, out)
            return
        out.add((b, pr))

    def find_invariants(self, st, hav, outs, again, isback):
        """linear facts over the loop-varying integers, kept if inductive"""
        ints = [(d, phi) for d, phi in hav.items() if self.isint(phi)]
        if not hav or not self.lin_on:
            return (), None
        cands = []

        def val0(d):
            return self.load(st, d[0], d[1])
        # lengths of loop-varying vectors
        lens = []
        for d, phi in hav.items():
            if self.is_vec(val0(d)) or self.is_vec(phi):
                lens.append((d, self.length_of(phi)))
        fs = []
        for d, phi in ints:
            acc = {}
            fs.append((d, phi, lin.atom(phi), self.lf(st, val0(d), acc)))
        for d, phi in lens:
            acc = {}
            fs.append((d, phi, lin.atom(phi), self.lf(st, self.length_of(val0(d)), acc)))

        def back_values(s2):
            m = {phi: self.load(s2, d[0], d[1]) for d, phi in ints}
            m.update({phi: self.length_of(self.load(s2, d[0], d[1])) for d, phi in lens})
            return m
        for d, phi, f, f0 in fs:
            cands.append(lin.add(f, f0, 1, -1))      # phi >= init
            cands.append(lin.add(f0, f, 1, -1))      # phi <= init
            for c in (0, 1):
                cands.append(lin.add(f, lin.const(-c)))
        for i in range(len(fs)):
            for j in range(len(fs)):
                if i < j:
                    s_ = lin.add(fs[i][2], fs[j][2])
                    s0 = lin.add(fs[i][3], fs[j][3])
                    cands.append(lin.add(s_, s0, 1, -1))
                    cands.append(lin.add(s0, s_, 1, -1))
                if i != j:
                    dd = lin.add(fs[i][2], fs[j][2], 1, -1)
                    cands.append(dd)                                   # phi_i >= phi_j
                    d0 = lin.add(fs[i][3], fs[j][3], 1, -1)
                    cands.append(lin.add(dd, d0, 1, -1))
        # comparisons the loop itself makes against loop-invariant terms
        phis = {phi for _, phi in ints}
        bounds = set()
        for k, s2, v in outs:
            for f in s2.lin:
                if f in st.lin:
                    continue
                at = [a for a, _ in f[0]]
                if any(a in phis for a in at) and all(a in phis or self.stable_atom(a, hav) for a in at):
                    bounds.add(f)
                    bounds.add(lin.add(f, lin.const(1)))
        cands.extend(sorted(bounds, key=repr))
        cs = []
        for f in cands:
            f = lin.norm(f)
            if not f[0] or f in cs:
                continue
            # holds on entry?
            sub = self.subst_form(st, f, back_values(st))
            if sub is not None and self.prove(st, sub[0], sub[1]):
                cs.append(f)
        while cs:
            s = st.fork()
            for loc, phi in hav.items():
                self.store_quiet(s, loc, phi)
            good = True
            for f in cs:
                acc = {}
                for a, _ in f[0]:
                    self.lf(s, a, acc)
                if f not in s.lin:
                    s.lin = s.lin + (f,)
            s.ev = (None,)
            outs2 = again(s)
            bad = set()
            for k, s2, v in outs2:
                if isback(k, v):
                    m = back_values(s2)
                    for f in cs:
                        if f in bad:
                            continue
                        sub = self.subst_form(s2, f, m)
                        if sub is None or not self.prove(s2, sub[0], sub[1]):
                            bad.add(f)
            if not bad:
                return tuple(cs), outs2
            cs = [f for f in cs if f not in bad]
        return (), None

    def is_vec(self, v):
        if v[0] in ('vec0', 'vpush', 'vext'):
            return True
        t = self.typeof(v)
        return bool(t and t[0] == 'path' and t[1] in ('std::Vec', 'smallvec::SmallVec'))

    def stable_atom(self, a, hav):
        """the term does not mention loop-varying values"""
        phis = set(hav.values())

        def mentions(t):
            if not isinstance(t, tuple):
                return False
            if t in phis or (t and t[0] in ('phi', 'hv', 'call')):
                return True
            return any(mentions(x) for x in t)
        return not mentions(a)

    def subst_form(self, st, f, m):
        acc = {}
        out = lin.const(f[1])
        for a, k in f[0]:
            if a in m:
                v = m[a]
                if not (self.isint(v) or v[0] == 'c' and isinstance(v[1], int)):
                    return None
                g = self.lf(st, v, acc)
            else:
                g = self.lf(st, a, acc)
            out = lin.add(out, g, 1, k)
        return out, acc
