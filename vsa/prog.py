"""Program database: MIR bodies + rustdoc items of one crate, with callee resolution."""
import json
import os
import re
import mir
import front
import rtypes as T
from front import AnalysisError


class Impl:
    __slots__ = ('id', 'trait', 'traitargs', 'for_', 'params', 'span', 'items', 'methods', 'traitname')


class Program:
    def __init__(self, crate):
        self.crate = crate
        cache = front.artifacts(crate)
        with open(os.path.join(cache, crate + '.json')) as f:
            self.doc = json.load(f)
        own = ['::'.join(v['path'][1:]) for v in self.doc['paths'].values()
               if v['crate_id'] == 0 and v['kind'] in ('struct', 'enum') and len(v['path']) > 2]
        own = [t for t in own if own.count(t) == 1]
        self.funcs, self.allocs = mir.parse_file(os.path.join(cache, crate + '.mir'), own)
        with open(os.path.join(cache, crate + '.consts.json')) as f:
            self.named_consts = json.load(f)
        self.ix = self.doc['index']
        self._paths()
        self._adts()
        self._impls()
        self._bodies()
        self.statics = {}
        for k, b in self.bodies.items():
            if getattr(b, 'static', False):
                base, _, last = k.rpartition('::')
                im = self.impl_of.get(base)
                if im is not None:
                    base = '%s::%s' % (T.show(im.for_), base.rsplit('::', 1)[1])
                self.statics[base + '::' + last] = k
        for name, lst in mir.parse_file(front.prelude())[0].items():
            self.bodies['vsa::prelude::' + name] = lst[0]

    # ------------------------------------------------------------ names
    def _paths(self):
        self.path = {}
        for k, v in self.doc['paths'].items():
            segs = v['path']
            if segs and segs[0] == self.crate:
                segs = segs[1:]
                name = '::'.join(segs)
            else:
                name = T.canon_path('::'.join(segs))
            self.path[k] = name

    def pathname(self, name, id_):
        p = self.path.get(id_)
        if p:
            return p
        return T.canon_path(name)

    def ty(self, t):
        """rustdoc type -> term"""
        if t is None:
            return ('tuple', ())
        k = t['kind']
        i = t.get('inner')
        if k == 'resolved_path':
            args = []
            a = i.get('args')
            if a and 'angle_bracketed' in a:
                for x in a['angle_bracketed']['args']:
                    if 'type' in x:
                        args.append(self.ty(x['type']))
                    elif 'const' in x:
                        args.append(('?', str(x['const'])))
            nm = i['name'].split('::')[-1]
            nm = self.path.get(i['id']) or T.canon_path(i['name'])
            # type aliases are expanded
            item = self.ix.get(i['id'])
            if item and item['kind'] == 'typedef':
                al = item['inner']
                params = [p['name'] for p in al['generics']['params']]
                return T.subst(self.ty(al['type']), dict(zip(params, args)))
            return ('path', nm, tuple(args))
        if k == 'generic':
            return ('param', i)
        if k == 'primitive':
            return ('prim', i) if i in T.PRIMS else ('?', i)
        if k == 'tuple':
            return ('tuple', tuple(self.ty(x) for x in i))
        if k == 'slice':
            return ('slice', self.ty(i))
        if k == 'array':
            return ('array', self.ty(i['type']), i['len'])
        if k == 'borrowed_ref':
            return ('ref', bool(i['mutable']), self.ty(i['type']))
        if k == 'raw_pointer':
            return ('ptr', bool(i['mutable']), self.ty(i['type']))
        if k == 'qualified_path':
            return ('proj', self.ty(i['self_type']), ('path', (i['trait'] or {}).get('name', ''), ()), i['name'])
        if k == 'impl_trait':
            return ('impl', '')
        if k == 'dyn_trait':
            return ('dyn', '')
        if k == 'function_pointer':
            return ('fnptr', '')
        return ('?', k)

    def mty(self, text):
        """type text from MIR -> term"""
        return T.resolve_params(T.parse(text), self.rootadts)

    # ------------------------------------------------------------ ADTs
    def _adts(self):
        self.field_vis = {}
        self.item_vis = {self.path[i]: it['visibility'] for i, it in self.ix.items()
                         if it['crate_id'] == 0 and it['kind'] in ('function', 'struct', 'enum', 'trait') and self.path.get(i)}
        self.structs = {}
        self.enums = {}
        self.variant_owner = {}
        for id_, it in self.ix.items():
            if it['crate_id'] != 0:
                continue
            if it['kind'] in ('struct', 'union'):
                name = self.path.get(id_)
                if not name:
                    continue
                k = it['inner'].get('kind', 'unit')
                fields = []
                if isinstance(k, dict):
                    if 'plain' in k:
                        ids = k['plain']['fields']
                    else:
                        ids = k['tuple']
                    for f in ids:
                        if f is None or f not in self.ix:
                            fields.append((None, ('?', '')))
                        else:
                            fi = self.ix[f]
                            fields.append((fi['name'], self.ty(fi['inner'])))
                if isinstance(k, dict):
                    self.field_vis[name] = [self.ix[f]['visibility'] if f in self.ix else 'default' for f in ids]
                params = [p['name'] for p in it['inner']['generics']['params'] if 'type' in p['kind']]
                self.structs[name] = {'fields': fields, 'params': params, 'vis': it['visibility'],
                                      'attrs': it['attrs'], 'span': it['span']}
            elif it['kind'] == 'enum':
                name = self.path.get(id_)
                if not name:
                    continue
                variants = []
                for n, v in enumerate(it['inner']['variants']):
                    vi = self.ix[v]
                    k = vi['inner']['kind']
                    fields = []
                    if isinstance(k, dict):
                        ids = k['tuple'] if 'tuple' in k else k['struct']['fields']
                        for f in ids:
                            if f is None or f not in self.ix:
                                fields.append((None, ('?', '')))
                            else:
                                fi = self.ix[f]
                                fields.append((fi['name'], self.ty(fi['inner'])))
                    dis = vi['inner'].get('discriminant')
                    variants.append((vi['name'], fields, int(dis['value']) if dis else None))
                nxt = 0
                vs = []
                for nm, fl, dis in variants:
                    if dis is not None:
                        nxt = dis
                    vs.append((nm, fl, nxt))
                    nxt += 1
                params = [p['name'] for p in it['inner']['generics']['params'] if 'type' in p['kind']]
                self.enums[name] = {'variants': vs, 'params': params, 'attrs': it['attrs'], 'span': it['span']}
        self.enums.update(STD_ENUMS)
        self.rootadts = {n for n in list(self.structs) + list(self.enums) if '::' not in n}

    def variant_index(self, enum, variant):
        for k, (nm, _, d) in enumerate(self.enums[enum]['variants']):
            if nm == variant:
                return d
        return None

    # ------------------------------------------------------------ impls
    def _impls(self):
        self.impls = []
        for id_, it in self.ix.items():
            if it['kind'] != 'impl' or it['crate_id'] != 0:
                continue
            inn = it['inner']
            if inn['synthetic'] or inn['blanket_impl']:
                continue
            im = Impl()
            im.id = id_
            tr = inn['trait']
            im.trait = None
            im.traitargs = ()
            if tr:
                t = self.ty({'kind': 'resolved_path', 'inner': tr})
                im.trait = t[1]
                im.traitargs = t[2] if len(t) > 2 else ()
            im.for_ = self.ty(inn['for'])
            im.params = [p['name'] for p in inn['generics']['params'] if 'type' in p['kind']]
            sp = it['span']
            im.span = (sp['filename'], sp['begin'][0], sp['begin'][1] + 1) if sp else None
            im.items = {}
            for x in inn['items']:
                xi = self.ix.get(x)
                if xi and xi['kind'] == 'function':
                    im.items[xi['name']] = xi
                elif xi and xi['kind'] in ('assoc_const', 'assoc_type'):
                    im.items.setdefault(xi['name'], xi)
            im.methods = {}
            self.impls.append(im)
        self.impls.sort(key=lambda i: int(i.id.split(':')[1].split('-')[0]))
        self.by_method = {}
        for im in self.impls:
            for nm in im.items:
                self.by_method.setdefault(nm, []).append(im)

    def _sig_match(self, im, item, fn, strict=False):
        if item['kind'] != 'function':
            return fn.kind == 'const'
        decl = item['inner']['decl']
        ins = [self.ty(t) for _, t in decl['inputs']]
        if len(ins) != len(fn.args):
            return False
        out = self.ty(decl['output'])
        env = {}
        selfsub = {'Self': im.for_}
        for a, (_, b) in zip(ins + [out], fn.args + [(0, fn.ret)]):
            a = T.subst(a, selfsub)
            b = self.mty(b)
            if not _same(a, b):
                return False
        return True

    # ------------------------------------------------------------ bodies
    def _bodies(self):
        self.bodies = {}       # unique key -> Function
        self.impl_of = {}      # unique key -> Impl
        self.plain = {}        # fn path -> Function
        self.trait_default = {}
        self.unmatched = []
        counts = {}
        for name, lst in self.funcs.items():
            for k, fn in enumerate(lst):
                key = name if len(lst) == 1 else '%s#%d' % (name, k)
                self.bodies[key] = fn
        IMPL = re.compile(r'^(.*?)<impl at [^>]*>::([A-Za-z_0-9#]+)$')
        for key, fn in self.bodies.items():
            base = key.split('#')[0] if '#' in key and not key.endswith('}') else key
            base = re.sub(r'#\d+$', '', key)
            if fn.kind == 'promoted':
                continue
            m = IMPL.match(base)
            if m:
                meth = m.group(2)
                cands = [im for im in self.by_method.get(meth, ())]
                f, l, c = fn.impl_span[:3]
                sp = [im for im in cands if im.span and im.span[:3] == (f, l, c)]
                if len(sp) > 1:
                    sp = [im for im in sp if self._sig_match(im, im.items[meth], fn)]
                if not sp:
                    # macro-generated: rustdoc reports the invocation
                    sp = [im for im in cands if (im.span is None or im.span[:3] not in self._mir_spans())
                          and self._sig_match(im, im.items[meth], fn)]
                free = [im for im in sp if meth not in im.methods]
                if len(free) >= 1:
                    im = free[0]
                    im.methods[meth] = key
                    self.impl_of[key] = im
                else:
                    self.unmatched.append(key)
            else:
                self.plain.setdefault(base, fn)
        self.closure_parent = {}
        self._anon_consts()

    def _anon_consts(self):
        """MIR prints unevaluated constants of primitive types as `_`: name them from the typed
        syntax tree (THIR), where the same expression has its definition"""
        ANON = ('const', '_')
        table = {}
        for path, d in self.named_consts.items():
            comps = [c for c in re.sub(r'^\w+\[\w+\]::', '', path).split('::')]
            table.setdefault(comps[-1], []).append((comps, d))
        consts = {}
        for key, fn in self.bodies.items():
            if fn.kind == 'const':
                consts.setdefault(re.sub(r'#\d+$', '', key).rsplit('::', 1)[-1], []).append(key)

        def has(t):
            return isinstance(t, (tuple, list)) and (t == ANON or any(has(x) for x in t))

        def count(t):
            if t == ANON:
                return 1
            return sum(count(x) for x in t) if isinstance(t, (tuple, list)) else 0

        def repl(t, ns):
            if t == ANON:
                return ns.pop(0)
            if isinstance(t, tuple):
                return tuple(repl(x, ns) for x in t)
            if isinstance(t, list):
                return [repl(x, ns) for x in t]
            return t

        def comps_of(key):
            out = []
            base = re.sub(r'<impl at [^>]*>', '<impl>', re.sub(r'#\d+$', '', key))
            for c in base.split('::'):
                out.append(c)
            return out

        def same_path(a, b):
            """a: MIR key components, b: THIR ones"""
            return len(a) == len(b) and all(x == y or (x.startswith('<impl') and y.startswith('{impl'))
                                            for x, y in zip(a, b))

        def resolve(path, fkey):
            comps = path.split('::')
            crate = comps[0].split('[')[0]
            if crate != self.crate:
                v = STD_CONSTS.get((comps[-3] if comps[-2].startswith('{') else comps[-2], comps[-1]))
                return ('const', v) if v is not None else None
            cs = [k for k in consts.get(comps[-1], ()) if same_path(comps_of(k), comps[1:])]
            if len(cs) > 1:
                pre = re.sub(r'#\d+$', '', fkey)
                cs2 = [k for k in cs if k.startswith(pre + '::')]
                cs = cs2 or cs
            return ('const', '_', ('key', cs[0])) if len(cs) == 1 else None

        for key, fn in self.bodies.items():
            sites = []
            for bb in (fn.blocks.values() if isinstance(fn.blocks, dict) else fn.blocks):
                for i, s in enumerate(bb['stmts']):
                    if s[0] == 'assign' and has(s[2]):
                        sites.append((bb, i, s[3], count(s[2])))
                t = bb['term']
                if t and t[0] in ('call', 'assert') and has(t):
                    sites.append((bb, None, t[6] if t[0] == 'call' else t[7], count(t)))
            if not sites:
                continue
            kc = comps_of(key)
            cands = [d for c, d in table.get(kc[-1], ()) if same_path(kc, c)]
            spans = {span for _, _, span, _ in sites}
            cands = [d for d in cands if spans & ({u[0] for u in d['uses']} | {u[1] for u in d['uses']})]
            if len(cands) > 1:
                mine = _body_spans(fn)
                cands.sort(key=lambda d: len(mine & set(d['spans'])))
                cands = cands[-1:]
            if not cands:
                continue
            used = {}
            for bb, i, span, n in sites:
                us = [u for u in cands[0]['uses'] if u[0] == span] or [u for u in cands[0]['uses'] if u[1] == span]
                k = used.get(span, 0)
                if len(us) == 1:
                    us = us * (k + n)        # the same expression duplicated
                if len(us) < k + n:
                    continue
                ns = [resolve(u[2], key) for u in us[k:k + n]]
                used[span] = k + n
                if None in ns:
                    continue
                if i is None:
                    bb['term'] = repl(bb['term'], ns)
                else:
                    s = bb['stmts'][i]
                    bb['stmts'][i] = s[:2] + (repl(s[2], ns), s[3])

    def _mir_spans(self):
        s = getattr(self, '_ms', None)
        if s is None:
            s = self._ms = {fn.impl_span[:3] for fn in self.bodies.values() if fn.impl_span}
        return s


STD_CONSTS = {
    ('f32', 'MIN'): '-3.40282347E+38f32', ('f32', 'MAX'): '3.40282347E+38f32',
    ('f32', 'EPSILON'): '1.1920929E-7f32', ('f32', 'INFINITY'): 'inff32', ('f32', 'NEG_INFINITY'): '-inff32',
    ('f32', 'NAN'): 'NaNf32',
}
for _w in (8, 16, 32, 64, 128):
    STD_CONSTS[('u%d' % _w, 'MAX')] = '%d_u%d' % (2 ** _w - 1, _w)
    STD_CONSTS[('u%d' % _w, 'MIN')] = '0_u%d' % _w
    STD_CONSTS[('i%d' % _w, 'MAX')] = '%d_i%d' % (2 ** (_w - 1) - 1, _w)
    STD_CONSTS[('i%d' % _w, 'MIN')] = '-%d_i%d' % (2 ** (_w - 1), _w)
    STD_CONSTS[('u%d' % _w, 'BITS')] = STD_CONSTS[('i%d' % _w, 'BITS')] = '%d_u32' % _w
for _k in ('MAX', 'MIN'):
    STD_CONSTS[('usize', _k)] = STD_CONSTS[('u64', _k)].replace('u64', 'usize')
    STD_CONSTS[('isize', _k)] = STD_CONSTS[('i64', _k)].replace('i64', 'isize')
STD_CONSTS[('usize', 'BITS')] = STD_CONSTS[('isize', 'BITS')] = '64_u32'


def _body_spans(fn):
    out = set()
    for bb in (fn.blocks.values() if isinstance(fn.blocks, dict) else fn.blocks):
        for s in bb['stmts']:
            if s[0] == 'assign' and len(s) > 3 and s[3]:
                out.add(s[3])
        t = bb['term']
        if t and t[0] == 'call':
            out.add(t[6])
    return out


def _same(a, b):
    """Loose type equality: params, projections and impl types match anything."""
    if a[0] in ('?', 'impl', 'proj', 'param', 'dyn', 'fnptr') or b[0] in ('?', 'impl', 'proj', 'param', 'param_or_path', 'dyn', 'fnptr'):
        if a[0] == 'prim' or b[0] == 'prim' or {a[0], b[0]} & {'ref', 'tuple', 'slice', 'array'}:
            return not (a[0] == 'param' and b[0] in ('prim', 'ref', 'tuple') or
                        b[0] == 'param' and a[0] in ('prim', 'ref', 'tuple'))
        if b[0] == 'param' and a[0] == 'path':
            # bare MIR names of crate-root types parse as params
            return a[1] == b[1]
        return True
    if a[0] != b[0]:
        return False
    if a[0] == 'path':
        return a[1] == b[1] and all(_same(x, y) for x, y in zip(a[2], b[2]))
    if a[0] in ('ref', 'ptr'):
        return a[1] == b[1] and _same(a[2], b[2])
    if a[0] == 'tuple':
        return len(a[1]) == len(b[1]) and all(_same(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == 'slice':
        return _same(a[1], b[1])
    if a[0] == 'array':
        return _same(a[1], b[1]) and (a[2] == b[2] or not str(a[2]).isdigit() or not str(b[2]).isdigit())
    return a == b


STD_ENUMS = {
    'std::Option': {'variants': [('None', [], 0), ('Some', [('0', ('param', 'T'))], 1)], 'params': ['T']},
    'std::Result': {'variants': [('Ok', [('0', ('param', 'T'))], 0), ('Err', [('0', ('param', 'E'))], 1)], 'params': ['T', 'E']},
    'std::ControlFlow': {'variants': [('Continue', [('0', ('param', 'C'))], 0), ('Break', [('0', ('param', 'B'))], 1)], 'params': ['B', 'C']},
    'std::Cow': {'variants': [('Borrowed', [('0', ('?', ''))], 0), ('Owned', [('0', ('?', ''))], 1)], 'params': ['B']},
    'std::Ordering': {'variants': [('Less', [], -1), ('Equal', [], 0), ('Greater', [], 1)], 'params': []},
    'std::Entry': {'variants': [('Occupied', [('0', ('?', ''))], 0), ('Vacant', [('0', ('?', ''))], 1)], 'params': []},
    'std::Infallible': {'variants': [], 'params': []},
    'html5ever::NodeOrText': {'variants': [('AppendNode', [('0', ('?', ''))], 0), ('AppendText', [('0', ('?', ''))], 1)], 'params': ['Handle']},
    'xml::XmlEvent': {'variants': [(n, [(f, ('?', '')) for f in fs], i) for i, (n, fs) in enumerate((
        ('StartDocument', ('version', 'encoding', 'standalone')), ('EndDocument', ()), ('ProcessingInstruction', ('name', 'data')),
        ('StartElement', ('name', 'attributes', 'namespace')), ('EndElement', ('name',)), ('CData', ('0',)), ('Comment', ('0',)),
        ('Characters', ('0',)), ('Whitespace', ('0',))))], 'params': []},
}

if __name__ == '__main__':
    import sys
    for c in sys.argv[1:] or ['victor', 'lester']:
        p = Program(c)
        print(c, len(p.bodies), 'bodies', len(p.impls), 'impls', 'matched', len(p.impl_of), 'unmatched', len(p.unmatched))
        for u in p.unmatched[:20]:
            print('  ?', u, [a[1] for a in p.bodies[u].args], p.bodies[u].ret)
        print(len(p.structs), len(p.enums))
