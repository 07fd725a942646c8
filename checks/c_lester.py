"""R01-R08: the Poppler/cairo wrapper (lester)."""
import json
import os
import re
import subprocess
import engine
import front
import rtypes as T
from models import NULL
from common import program, disp, methods, sh
from front import AnalysisError
from report import check

# the ownership contract of the C functions (their documentation)
ACQ = {'cairo_image_surface_create': 'cairo_surface_destroy',
       'cairo_image_surface_create_from_png_stream': 'cairo_surface_destroy',
       'cairo_create': 'cairo_destroy',
       'poppler_document_new_from_data': 'g_object_unref',
       'poppler_document_get_page': 'g_object_unref',
       'poppler_document_get_producer': 'g_free',
       'poppler_page_get_text': 'g_free'}
OUT = {'poppler_document_new_from_data': (3, 'g_error_free')}     # given when the result is null
NEVERNULL = {'cairo_image_surface_create', 'cairo_image_surface_create_from_png_stream', 'cairo_create'}
REL = {'cairo_surface_destroy', 'cairo_destroy', 'g_object_unref', 'g_free', 'g_error_free'}
PLAIN = {'cairo_surface_status', 'cairo_image_surface_get_width', 'cairo_image_surface_get_height',
         'cairo_image_surface_get_stride', 'cairo_image_surface_get_data', 'cairo_image_surface_get_format',
         'cairo_surface_write_to_png_stream', 'cairo_surface_flush', 'cairo_set_source_rgb', 'cairo_paint', 'cairo_scale',
         'cairo_status', 'cairo_status_to_string', 'poppler_document_get_n_pages', 'poppler_page_get_size',
         'poppler_page_render', 'poppler_page_render_for_printing'}
DRAW = {'cairo_set_source_rgb': 0, 'cairo_paint': 0, 'cairo_scale': 0, 'poppler_page_render': 1,
        'poppler_page_render_for_printing': 1}
STREAMS = {'cairo_image_surface_create_from_png_stream': (0, 1), 'cairo_surface_write_to_png_stream': (1, 2)}


def parts(t, depth=0):
    """all subterms that are aggregates"""
    if isinstance(t, tuple):
        if t and t[0] == 'agg':
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from parts(x, depth + 1)


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def strip(t):
    while t[0] == 'cast':
        t = t[1]
    return t


class Lester:
    _one = None

    @classmethod
    def get(cls):
        if cls._one is None:
            cls._one = cls()
        return cls._one

    def __init__(self):
        p = self.p = program('lester')
        self.ffi = {}
        for it in p.ix.values():
            if it['crate_id'] == 0 and it['kind'] == 'function' and not it['inner'].get('has_body', True) and \
                    it['inner']['header']['abi'] != 'Rust':
                self.ffi[it['name']] = it
        self.runs = {}
        self.entries = self._entries()
        self.callbacks = None
        self.owner = {}
        for s in p.structs:
            d = methods(p, s, 'std::Drop').get('drop')
            if d:
                self.owner[s] = self._owner(s, d)

    def name(self, ev):
        """the foreign function called by an event"""
        if ev[0] != 'call' or not isinstance(ev[1], str):
            return None
        n = ev[1].rsplit('::', 1)[-1]
        return n if n in self.ffi else None

    def run(self, key):
        if key not in self.runs:
            a = engine.Analyzer(self.p)
            a.record_writes = True
            self.runs[key] = (a, a.entry(key))
        return self.runs[key]

    def calls(self, s):
        """foreign calls of a path: [(name, args, info)]"""
        return [(self.name(e), e[2], e[3]) for e in s.events() if self.name(e)]

    def _entries(self):
        """public methods and trait implementations: {key: (type, trait, method)}"""
        out = {}
        for im in self.p.impls:
            if im.for_[0] != 'path' or im.for_[1] not in self.p.structs and im.for_[1] not in self.p.enums:
                continue
            for m, k in im.methods.items():
                if k not in self.p.bodies:
                    continue
                if im.trait is None and im.items[m]['visibility'] != 'public':
                    continue
                out[k] = (im.for_[1], im.trait, m)
        return out

    def _owner(self, s, key):
        """(field, release function) of a type that owns a foreign object, from its Drop"""
        a, outs = self.run(key)
        found = set()
        bad = []
        for k, st, v in outs:
            rel = [(n, strip(args[0])) for n, args, i in self.calls(st) if n in REL]
            for n, t in rel:
                f = None
                if t[0] == 'fld' and t[1] == ('deref', ('s', 'arg1')):
                    f = t[2]
                found.add((f, n))
            if len(rel) != 1:
                bad.append((st, rel))
        return {'drop': key, 'found': found, 'bad': bad, 'n': len(outs)}

    def owned(self, v, t, st=None, a=None):
        """[(type, release function)] of the owners holding t in a value"""
        out = []
        for g in parts(v):
            o = self.owner.get(g[2]) if g[1] == 'adt' else None
            if not o:
                continue
            for f, n in o['found']:
                if f is not None and f < len(g[4]) and strip(g[4][f]) == t:
                    out.append((g[2], n))
        return out


def nullness(a, st, t):
    """True: is null, False: is not null, None: unknown"""
    if t == NULL:
        return True
    c = ('bin', 'Eq', t, NULL)
    if not a.branch(st.fork(), c, True):
        return False
    if not a.branch(st.fork(), c, False):
        return True
    return None


def is_zero(a, st, t):
    return not a.branch(st.fork(), a.binop(st, 'Eq', t, ('c', 0, 'u32'), ('prim', 'u32')), False)


@check('R01', 'On every returning path of every function of lester callable from outside, each object obtained from cairo, '
       'Poppler or glib (by a table of their ownership contracts) must be released exactly once by its own release function, '
       'with no use afterwards, or be held by exactly one value of an owning type that is returned. Owning types are those '
       'whose Drop releases a field; Drop must release it exactly once, the types must not be duplicable and the field is '
       'written only on construction.',
       ['ownership rules of cairo, poppler-glib and glib as documented', 'Rust runs Drop exactly once for a value'])
def r01(r):
    L = Lester.get()
    p = L.p
    for n in L.ffi:
        r.ob('contract', n in ACQ or n in REL or n in PLAIN, n, 'the ownership contract of the foreign function is known',
             'contract: ' + n)
    r.floor('foreign functions', len(L.ffi), 20)
    r.floor('owning types', len(L.owner), 6)
    for s, o in L.owner.items():
        w = disp(p, o['drop'])
        fs = {f for f, n in o['found']}
        r.ob('drop', len(o['found']) == 1 and None not in fs and not o['bad'] and o['n'], w,
             'Drop of %s releases one field of it exactly once on every path' % s, 'drop: ' + s,
             {'found': str(o['found']), 'paths without exactly one release': len(o['bad'])})
        for im in p.impls:
            if im.for_[0] == 'path' and im.for_[1] == s and im.trait in ('std::Clone', 'std::Copy', 'std::marker::Copy'):
                r.violate('duplicable', w, '%s owns a foreign object and can be duplicated' % s, 'duplicable: ' + s)
    tokens = rel = 0
    fields = {s: {f for f, n in o['found']} for s, o in L.owner.items()}
    for key, (ty, trait, m) in sorted(L.entries.items()):
        a, outs = L.run(key)
        w = disp(p, key)
        r.fn(*[disp(p, k) for k in a.analysed])
        fn = p.bodies[key]
        isdrop = trait == 'std::Drop'
        byval = []
        for n, t in fn.args:
            t = p.mty(t)
            if t[0] == 'path' and t[1] in L.owner:
                byval.append((n, t[1]))
        for k, s, v in outs:
            if k != 'ret':
                continue
            calls = L.calls(s)
            rels = {}
            for i, (n, args, info) in enumerate(calls):
                if n in REL:
                    rels.setdefault(strip(args[0]), []).append((i, n))
            toks = []
            for i, (n, args, info) in enumerate(calls):
                if n in ACQ:
                    t = info['res']
                    toks.append((t, ACQ[n], i, n))
                    if n in OUT:
                        pos, relf = OUT[n]
                        hv = {x for x in list(walk(v)) + [y for c in calls for y in walk(c[1])]
                              if x and x[0] == 'hv' and isinstance(x[1], str) and x[1].endswith('%s.%d' % (n, pos))}
                        if nullness(a, s, t) is not False:
                            e = next(iter(hv)) if len(hv) == 1 else None
                            toks.append((e, relf, i, n + ' (error)'))
                        elif hv:
                            r.violate('error object', w, 'the error object is used although %s succeeded' % n,
                                      'error object: %s' % w)
            for n, tyn in byval:
                for f, relf in L.owner[tyn]['found']:
                    toks.append((('fld', ('s', 'arg%d' % (n if isinstance(n, int) else 1)), f), relf, -1, 'argument'))
            known = set()
            for t, relf, i, n in toks:
                tokens += 1
                if t is None:
                    r.violate('released once', w, 'the error object given by %s is not kept' % n, 'released once: %s: %s' % (w, n))
                    continue
                known.add(t)
                rl = rels.get(t, [])
                ow = L.owned(v, t)
                if n == 'argument':       # the value itself may be passed on
                    ow = ow + [(t[1], relf) for x in walk(v) if x == t[1]]
                nl = nullness(a, s, t) if n in ACQ and n not in NEVERNULL else False
                if nl is True:
                    bad = [x for x in rl if x[1] != 'g_free'] or ow
                    r.ob('null', not bad, w, 'a null result of %s is neither released nor kept' % n, 'null: %s: %s' % (w, n))
                    continue
                r.ob('null checked', nl is False, w, 'the result of %s is known not to be null where it is kept' % n,
                     'null checked: %s: %s' % (w, n), sh(v)[:300])
                r.ob('released once', len(rl) + len(ow) == 1, w,
                     'the object from %s has exactly one owner or release' % n, 'released once: %s: %s' % (w, n),
                     {'released': [x[1] for x in rl], 'owners': ow, 'result': sh(v)[:300]})
                r.ob('release function', all(x[1] == relf for x in rl + ow), w, 'the object from %s is released by %s' % (n, relf),
                     'release function: %s: %s' % (w, n))
                if rl:
                    late = [c[0] for j, c in enumerate(calls) if j > rl[0][0] and any(strip(x) == t for x in c[1])]
                    r.ob('use after release', not late, w, 'no use of the object from %s after its release' % n,
                         'use after release: %s: %s' % (w, n), late)
            if not isdrop:
                for t, l in rels.items():
                    rel += 1
                    r.ob('foreign release', t in known, w, 'only objects obtained on the path are released',
                         'foreign release: %s' % w, sh(t)[:200])
                for e in s.events():
                    if e[0] == 'write':
                        loc = e[2][0]
                        base, pr = loc[1], loc[2]
                        if base[0] == 'h' and pr and pr[0][0] == 'field':
                            t = a.typeof(('deref', base[1])) or (ty and ('path', ty, ()) if base[1] == ('s', 'arg1') else None)
                            if t and t[0] == 'path' and t[1] in fields and pr[0][1] in fields[t[1]]:
                                r.violate('pointer replaced', w, 'the owned pointer is overwritten', 'pointer replaced: ' + w)
    r.floor('objects obtained or taken over on paths', tokens, 20)


@check('R02', 'On every path of lester that returns success, the status of every cairo surface created on it, of every cairo '
       'context after the last drawing on it, of every PNG encoding, and the result of every file operation is known to have '
       'been successful, the document pointer is not null, and a buffered writer was flushed; an error value made from a '
       'status holds the status that was found.',
       ['cairo contexts and surfaces keep the first error they run into (cairo documentation)'])
def r02(r):
    L = Lester.get()
    p = L.p
    n_ok = checked = 0
    for key, (ty, trait, m) in sorted(L.entries.items()):
        a, outs = L.run(key)
        w = disp(p, key)
        r.fn(*[disp(p, k) for k in a.analysed])
        for k, s, v in outs:
            if k != 'ret':
                continue
            calls = L.calls(s)
            evs = list(s.events())
            for g in parts(v):
                if g[1] == 'adt' and g[2].endswith('CairoError') and g[4]:
                    st = strip(g[4][0])
                    if st[0] == 'fld' and st[1] in (('deref', ('s', 'arg1')), ('s', 'arg1')):
                        continue        # a copy of the error
                    stats = [i['res'] for n, args, i in calls if n in ('cairo_status', 'cairo_surface_status',
                                                                      'cairo_surface_write_to_png_stream')]
                    r.ob('status kept', st in stats and not is_zero(a, s, st), w,
                         'the error holds the unsuccessful status', 'status kept: ' + w, sh(st)[:200])
            if v[0] == 'agg' and v[3] == 'Err':
                continue
            n_ok += 1
            for i, (n, args, info) in enumerate(calls):
                t = info['res']
                if n in ('cairo_image_surface_create', 'cairo_image_surface_create_from_png_stream'):
                    ok = any(c[0] == 'cairo_surface_status' and strip(c[1][0]) == t and is_zero(a, s, c[2]['res'])
                             for c in calls[i + 1:])
                    checked += 1
                    r.ob('surface status', ok, w, 'the status of a new surface is success where it is returned',
                         'surface status: %s' % w)
                if n == 'cairo_create':
                    last = max([j for j, c in enumerate(calls) if c[0] in DRAW and strip(c[1][DRAW[c[0]]]) == t] or [i])
                    ok = any(j > last and c[0] == 'cairo_status' and strip(c[1][0]) == t and is_zero(a, s, c[2]['res'])
                             for j, c in enumerate(calls))
                    checked += 1
                    r.ob('context status', ok, w, 'the status of a context is success after the last drawing',
                         'context status: %s' % w)
                if n == 'cairo_surface_write_to_png_stream':
                    checked += 1
                    r.ob('png status', is_zero(a, s, t), w, 'the status of PNG encoding is success', 'png status: %s' % w)
                if n == 'poppler_document_new_from_data':
                    checked += 1
                    r.ob('document', nullness(a, s, t) is False, w, 'the document is not null', 'document: %s' % w)
            bufs = [i for i, e in enumerate(evs) if e[0] == 'call' and re.match(r'std::(BufWriter|LineWriter)::(new|with_capacity)', e[1])]
            png = [i for i, e in enumerate(evs) if L.name(e) == 'cairo_surface_write_to_png_stream']
            fl = [i for i, e in enumerate(evs) if e[0] == 'call' and e[1] in ('std::Write::flush', 'std::BufWriter::into_inner',
                                                                            'std::BufWriter::flush', 'std::LineWriter::flush')]
            if bufs and png:
                checked += 1
                r.ob('flush', any(i > png[-1] for i in fl), w, 'the buffered writer is flushed after the last write', 'flush: ' + w)
            for e in evs:
                if e[0] == 'call' and re.match(r'std::(Write|Read|File|BufWriter|LineWriter)::(?!new|with_capacity)', e[1]) and e[3].get('res'):
                    t = e[3]['res']
                    checked += 1
                    r.ob('io result', s.facts.get(('dis', t)) == 0 or v == t, w, 'the result of %s is success' % e[1],
                         'io result: %s: %s' % (w, e[1]))
    r.floor('successful paths', n_ok, 20)
    r.floor('statuses and results checked on them', checked, 15)


def user_panics(a):
    """calls of code given by the user may also unwind"""
    inner = {'on': True}

    def hook(eng, s, fr, name, args, info):
        if not inner['on']:
            return None
        inner['on'] = False
        try:
            s2 = s.fork()
            outs = eng.opaque_call(s, fr, name, args, info)
        finally:
            inner['on'] = True
        s2.event('call', name, args, dict(info))
        s2.ncall += 1
        return outs + [eng.panic(s2, fr, name, args, info.get('span'))]
    a.opaque_hook = hook


def bodykey(L, text):
    """key of the body of a function value"""
    k = re.sub(r'::<.*>$', '', text)
    if k in L.p.bodies:
        return k
    a = engine.Analyzer(L.p)
    try:
        c = a.parse_callee(text)
        key = a.resolve(c, {})[0]
        if key in L.p.bodies:
            return key
    except Exception:
        pass
    m = k.rsplit('::', 2)[-2:]
    c = [b for b in L.p.bodies if b.endswith('>::%s::%s' % (m[0], m[1])) or b.endswith('::%s::%s' % (m[0], m[1]))]
    if len(c) == 1:
        return c[0]
    raise AnalysisError('function value %s' % text)


@check('R03', 'Each function given to cairo as a PNG stream callback is analysed with every call into user code also panicking: '
       'no path may unwind out of it; success is returned only after exactly one read_exact or write_all of the whole buffer '
       'succeeded and no error had been recorded before; otherwise an error status is returned and the error or panic payload '
       'is recorded. In the callers, success implies that nothing was recorded, a recorded panic is resumed and a recorded '
       'error returned.',
       ['cairo calls the callback with the closure pointer it was given and the length of the buffer',
        'dropping the user\'s error values does not panic'])
def r03(r):
    L = Lester.get()
    p = L.p
    ncb = ncall = 0
    done = {}
    for key, (ty, trait, m) in sorted(L.entries.items()):
        a, outs = L.run(key)
        w = disp(p, key)
        for k, s, v in outs:
            for n, args, info in L.calls(s):
                for x in args:
                    if x[0] == 'fn':
                        r.ob('stream', n in STREAMS and args[STREAMS[n][0]] == x, w, 'functions are only given to the PNG streams',
                             'stream: %s' % w)
                if n not in STREAMS:
                    continue
                fi, di = STREAMS[n]
                f, d = args[fi], strip(args[di])
                if f[0] != 'fn' or d[0] != 'ref':
                    r.violate('stream', w, 'the callback and its data can be seen', 'stream: %s' % w, [sh(f), sh(d)])
                    continue
                cb = bodykey(L, f[1])
                if cb not in done:
                    done[cb] = callback(r, L, cb, 'read' if 'from_png' in n else 'write')
                res, pan, streamf = done[cb]
                ncall += 1
                ini = info['vals'][di]
                if ini[0] != 'agg' or None in (res, pan, streamf):
                    r.violate('callback data', w, 'the data of the callback is understood', 'callback data: ' + w, sh(ini)[:200])
                    continue
                r.ob('callback data', ini[4][res][0] == 'agg' and ini[4][res][3] == 'Ok' and ini[4][pan][0] == 'agg' and
                     ini[4][pan][3] == 'None', w, 'nothing is recorded at first', 'callback data: ' + w)
                sp = ini[4][streamf]
                r.ob('user stream', any(x == ('s', 'arg%d' % i) or x[0] == 'call' or x[0] == 'ref' or x[0] == 'agg' for i in (1, 2, 3)
                                        for x in [sp]), w, 'the stream is the one given', 'user stream: ' + w, sh(sp)[:200])
                after = [t[1] for t in s.facts if t[0] == 'dis' and t[1][0] == 'fld' and t[1][1][0] == 'hv' and
                         n in str(t[1][1][1])]
                F = lambda i: [s.facts[('dis', t)] for t in after if t[2] == i]
                if k == 'panic':
                    nm = v[0] if v else ''
                    if 'resume_unwind' in str(nm):
                        r.ob('panic resumed', F(pan) == [1], w, 'a recorded panic is resumed', 'panic resumed: ' + w)
                        e = [e for e in s.events() if e[0] == 'call' and e[1].endswith('resume_unwind')]
                        pl = e[-1][2][0] if e else None
                        r.ob('payload', pl is not None and pl[0] == 'vfld' and pl[1] in after and pl[1][2] == pan, w,
                             'with the payload it had', 'payload: ' + w, sh(pl)[:200] if pl else None)
                    else:
                        r.violate('panic', w, 'panics: %s' % (v,), 'panic: %s %s' % (w, v[0]))
                    continue
                r.ob('panic not lost', F(pan) == [0], w, 'the function returns only if no panic was recorded',
                     'panic not lost: ' + w, sh(v)[:200])
                if v[0] == 'agg' and v[3] == 'Err':
                    io = [g for g in parts(v) if g[1] == 'adt' and g[3] == 'Io']
                    if F(res) == [1]:
                        e = ('vfld', [t for t in after if t[2] == res][0], 'Err', 0)
                        r.ob('error forwarded', any(g[4][0] == e for g in io), w, 'the recorded error is returned',
                             'error forwarded: ' + w, sh(v)[:300])
                else:
                    r.ob('error not lost', F(res) == [0], w, 'success is returned only if no error was recorded',
                         'error not lost: ' + w, sh(v)[:200])
    r.floor('callbacks', len(done), 2)
    r.floor('calls with callbacks on paths', ncall, 8)


def callback(r, L, key, mode):
    """(field of the result, of the panic payload, of the stream) in the data of a callback"""
    p = L.p
    a = engine.Analyzer(p)
    a.record_writes = True
    user_panics(a)
    outs = a.entry(key)
    w = disp(p, key)
    r.fn(*[disp(p, k) for k in a.analysed])
    D = ('h', ('s', 'arg1'))
    resf, panf, strf = set(), set(), set()
    for k, s, v in outs:
        r.ob('no unwinding', k != 'panic', w, 'no path unwinds into C code', 'no unwinding: ' + w, str(v)[:300])
    # which fields are recorded into
    rows = []
    for k, s, v in outs:
        if k != 'ret':
            continue
        wr = [(e[2][0], e[2][1]) for e in s.events() if e[0] == 'write' and e[2][0][1] == D]
        user = [e for e in s.events() if e[0] == 'call' and e[1].startswith('std::') and e[1].rsplit('::', 1)[-1] in
                ('read_exact', 'write_all')]
        other = [e for e in s.events() if e[0] == 'call' and re.match(r'std::(Read|Write)::', e[1]) and e not in user]
        for loc, val in wr:
            if len(loc[2]) == 1 and (val[0] == 'agg' and val[3] == 'Err' or
                                     any(e[3].get('res') == val for e in user) and s.facts.get(('dis', val)) == 1):
                resf.add(loc[2][0][1])
            if len(loc[2]) == 1 and val[0] == 'agg' and val[3] == 'Some':
                panf.add(loc[2][0][1])
        for e in user:
            t = e[2][0]
            if t[0] == 'ref' and t[1] == D and len(t[2]) == 1:
                strf.add(t[2][0][1])
        rows.append((s, v, wr, user, other))
    one = lambda x: next(iter(x)) if len(x) == 1 else None
    res, pan, stf = one(resf), one(panf), one(strf)
    r.ob('recorded', None not in (res, pan, stf), w, 'errors and panics are recorded in one field each of the data',
         'recorded: ' + w, [str(resf), str(panf), str(strf)])
    if None in (res, pan, stf):
        return None, None, None
    R0 = ('fld', ('deref', ('s', 'arg1')), res)
    good = 0
    for s, v, wr, user, other in rows:
        final = a.load(s, D, (('field', res),))
        if v[0] != 'c':
            r.violate('status', w, 'the returned status is known', 'status: ' + w, sh(v)[:200])
            continue
        if v[1] == 0:
            good += 1
            ok = len(user) == 1 and not other
            if ok:
                e = user[0]
                sl = e[2][1]
                want = 'std::Read::read_exact' if mode == 'read' else 'std::Write::write_all'
                buf = whole(a, s, sl)
                ok = e[1] == want and buf and s.facts.get(('dis', e[3]['res'])) == 0 and s.facts.get(('dis', R0)) == 0
            r.ob('success', ok, w, 'success is returned only after the whole buffer was transferred once',
                 'success: ' + w, [e[1] for e in user + other])
            rec = [1 for loc, val in wr if (not loc[2] or loc[2][0][1] in (res, pan)) and not
                   (loc[2] == (('field', res),) and (s.facts.get(('dis', val)) == 0 or val[0] == 'agg' and val[3] == 'Ok'))]
            r.ob('nothing recorded', not rec, w, 'nothing is recorded on success', 'nothing recorded: ' + w)
        else:
            caught = [e for e in s.events() if e[0] == 'caught']
            if caught:
                pl = [val for loc, val in wr if loc[2] == (('field', pan),)]
                r.ob('panic recorded', pl and pl[-1][3] == 'Some' and pl[-1][4][0][0] == 'payload', w,
                     'the payload of a panic is recorded', 'panic recorded: ' + w)
            elif s.facts.get(('dis', R0)) == 1:
                r.ob('stopped', not user and not other and not wr, w, 'after an error the stream is not used again', 'stopped: ' + w)
            else:
                rec = [val for loc, val in wr if loc[2] == (('field', res),)]
                e = ('vfld', user[-1][3]['res'], 'Err', 0) if user and user[-1][3].get('res') else None
                same = rec and user and rec[-1] == user[-1][3].get('res') and s.facts.get(('dis', rec[-1])) == 1
                r.ob('error recorded', same or rec and rec[-1][0] == 'agg' and rec[-1][3] == 'Err' and rec[-1][4][0] == e, w,
                     'the error of the stream is recorded', 'error recorded: ' + w, [sh(x)[:100] for x in rec])
    r.floor('successful paths of %s' % w, good, 1)
    return res, pan, stf


def whole(a, s, sl):
    """the slice covers the buffer given by cairo: data arg2, length arg3"""
    if sl[0] == 'call' and sl[1].startswith('std::slice::from_raw_parts'):
        d, n = strip(sl[2][0]), strip(sl[2][1])
        return d == ('s', 'arg2') and n == ('s', 'arg3')
    if sl[0] == 'rawp':
        return strip(sl[1]) == ('s', 'arg2') and strip(sl[3]) == ('s', 'arg3') and sl[2][:2] == ('c', 0)
    return False


RANGE = {'i32': (-2 ** 31, 2 ** 31 - 1), 'u32': (0, 2 ** 32 - 1), 'usize': (0, 2 ** 64 - 1), 'i64': (-2 ** 63, 2 ** 63 - 1)}


def never(a, s, op, x, y, ty):
    """x op y cannot be true on the path"""
    return not a.branch(s.fork(), a.binop(s, op, x, y, ('prim', ty)), True)


def in_range(a, s, x, src, dst):
    """the value is known to be representable in dst"""
    lo, hi = RANGE[dst]
    if src in ('f64', 'f32'):
        # comparisons known to be false say nothing about NaN: only true ones count
        low = high = False
        for t, v in s.facts.items():
            if v is not True or t[0] != 'bin':
                continue
            op, p, q = t[1:4]
            if q == x:
                p, q, op = q, p, {'Ge': 'Le', 'Le': 'Ge', 'Gt': 'Lt', 'Lt': 'Gt'}.get(op, op)
            if p != x or q[0] != 'c':
                continue
            low = low or op in ('Ge', 'Gt', 'Eq') and q[1] >= lo
            high = high or op in ('Le', 'Lt', 'Eq') and q[1] <= hi
        return low and high
    slo, shi = RANGE[src]
    return (slo >= lo or never(a, s, 'Lt', x, ('c', lo, src), src)) and \
        (shi <= hi or never(a, s, 'Gt', x, ('c', hi, src), src))


def product(t):
    """the two factors of a product, without casts"""
    t = strip(t)
    if t[0] == 'bin' and t[1] == 'Mul':
        return [strip(t[2]), strip(t[3])]
    return None


def own(L, s, ty):
    """the term of the owned pointer of `&self`"""
    f = next(iter(L.owner[ty]['found']))[0]
    return ('fld', ('deref', ('s', 'arg1')), f)


def entry(L, ty, m, trait=None):
    for k, (t, tr, n) in L.entries.items():
        if t == ty and n == m and tr == trait:
            return k
    raise AnalysisError('%s::%s not found' % (ty, m))


def named(L, suffix):
    c = [s for s in list(L.p.structs) + list(L.p.enums) if s.rsplit('::', 1)[-1] == suffix]
    if len(c) != 1:
        raise AnalysisError('type %s' % suffix)
    return c[0]


def field(L, ty, name):
    return [n for n, t in L.p.structs[ty]['fields']].index(name)


@check('R04', 'On every returning path of ImageSurface::pixels the surface was flushed before its data was asked for, the format '
       'is known to be RGB24 or ARGB32, the stride is proved to be four times the width and the data pointer aligned; the fields '
       'are the width and height of the surface, and the slice starts at the data and its length is their product, which is known '
       'not to be zero, or the slice is empty and the product known to be zero.',
       ['cairo\'s image surface getters describe the memory of the surface',
        'the product of the dimensions of a surface fits i32 (cairo limits both to 32767)'])
def r04(r):
    L = Lester.get()
    S = named(L, 'ImageSurface')
    P = named(L, 'Argb32Pixels')
    key = entry(L, S, 'pixels')
    a, outs = L.run(key)
    w = disp(L.p, key)
    r.fn(*[disp(L.p, k) for k in a.analysed])
    ptr = own(L, None, S)
    n = full = 0
    fi = {x: field(L, P, x) for x in ('width', 'height', 'buffer')}
    for k, s, v in outs:
        if k != 'ret':
            continue
        n += 1
        calls = L.calls(s)
        get = {}
        for i, (c, args, info) in enumerate(calls):
            if c in get and c != 'cairo_surface_flush':
                continue
            get[c] = (i, strip(args[0]), info['res'])
        ok = all(x[1] == ptr for x in get.values())
        r.ob('own surface', ok, w, 'only the own surface is asked', 'own surface')
        G = lambda c: get['cairo_image_surface_get_' + c][2] if 'cairo_image_surface_get_' + c in get else None
        if None in [G(c) for c in ('data', 'width', 'height', 'stride', 'format')]:
            r.violate('asked', w, 'data, width, height, stride and format of the surface are asked for', 'asked',
                      sorted(get))
            continue
        fl = [i for i, (c, args, info) in enumerate(calls) if c == 'cairo_surface_flush']
        r.ob('flush', fl and min(fl) < get['cairo_image_surface_get_data'][0], w, 'the surface is flushed first', 'flush')
        s2 = s.fork()
        ok = not a.branch(s2, ('bin', 'Eq', G('format'), ('c', 0, 'i32')), False) or \
            not a.branch(s2, ('bin', 'Eq', G('format'), ('c', 1, 'i32')), False)
        r.ob('format', ok, w, 'the format is one with 32 bits per pixel in the documented layout', 'format')
        acc = {}
        import lin
        d = lin.add(a.lf(s, G('stride'), acc), a.lf(s, G('width'), acc), 1, -4)
        ok = a.prove(s, d) and a.prove(s, lin.scale(d, -1))
        r.ob('stride', ok, w, 'the stride is four times the width', 'stride')
        d = ('cast', G('data'), 'usize')
        ok = False
        for c in (('bin', 'Rem', d, ('c', 4, 'usize')), ('bin', 'BitAnd', d, ('c', 3, 'usize'))):
            ok = ok or s.facts.get(('bin', 'Eq', c, ('c', 0, 'usize'))) is True
        r.ob('aligned', ok, w, 'the data is aligned', 'aligned')
        if v[0] != 'agg' or v[2] != P:
            r.violate('pixels', w, 'the pixels are returned', 'pixels', sh(v)[:200])
            continue
        for x in ('width', 'height'):
            t = v[4][fi[x]]
            r.ob(x, strip(t) == G(x) and in_range(a, s, G(x), 'i32', 'usize'), w, 'the field is the %s of the surface' % x, x, sh(t)[:200])
        b = v[4][fi['buffer']]
        prods = [t for u in list(s.facts) + [b] for t in walk(u)
                 if len(t) == 4 and t[0] == 'bin' and t[1] == 'Mul' and sorted(map(repr, product(t))) == sorted(map(repr, (G('width'), G('height'))))]
        z = None

        def zero(u):
            ty = u[2] if u[0] == 'cast' else (a.typeof(u) or ('prim', 'i32'))[1]
            c = ('bin', 'Eq', u, ('c', 0, ty))
            if not a.branch(s.fork(), c, True):
                return False
            return True if not a.branch(s.fork(), c, False) else None
        for t in prods:
            for u in (t, ('cast', t, 'usize')):
                z = zero(u) if z is None else z
        for x in (G('width'), G('height')):
            for u in (x, ('cast', x, 'usize')):
                z = True if z is None and zero(u) else z
        if b[0] in ('ref', 'cref') and (b[1][0] == 'agg' and not b[1][4] or b[0] == 'ref' and empty(a, s, b)):
            r.ob('empty', z is True, w, 'an empty slice is given only if the surface has no pixels', 'empty')
            continue
        full += 1
        rp = None
        if b[0] == 'call' and b[1].endswith('from_raw_parts_mut'):
            rp = (strip(b[2][0]), b[2][1])
        elif b[0] == 'rawp' and b[2][:2] == ('c', 0):
            rp = (strip(b[1]), b[3])
        r.ob('slice', rp and rp[0] == G('data') and product(rp[1]) in ([G('width'), G('height')], [G('height'), G('width')]), w,
             'the slice is the data, one word per pixel', 'slice', sh(b)[:300])
        r.ob('not null', z is False, w, 'a surface without pixels, whose data may be null, gives no slice of it', 'not null')
    r.floor('returning paths', n, 2)
    r.floor('paths with pixels', full, 1)


def empty(a, s, b):
    try:
        t = a.load(s, b[1], b[2])
    except Exception:
        return False
    return t[0] == 'agg' and t[1] == 'array' and not t[4]


@check('R06', 'The document is opened from the pointer and length of exactly the given bytes; pages() iterates from 0 to the page count '
       'of the own document; each of next, nth and next_back returns the page of the own document at the start of the '
       'remaining range, n after it, or before its end, and leaves the range after or before it, and returns nothing only if there is no such page; '
       'len and size_hint are the length of the range; the strings come from the own document or page.',
       ['poppler_document_get_page gives the page with the given index', 'the model of std::ops::Range used by the analyser'])
def r06(r):
    import lin
    L = Lester.get()
    D, I, G, S = named(L, 'PdfDocument'), named(L, 'PagesIter'), named(L, 'Page'), named(L, 'GlibString')
    fd, fr = field(L, I, 'doc'), field(L, I, 'range')
    me = ('deref', ('s', 'arg1'))
    # opening
    key = entry(L, D, 'from_bytes')
    a, outs = L.run(key)
    w = disp(L.p, key)
    n = 0
    for k, s, v in outs:
        for c, args, info in L.calls(s):
            if c != 'poppler_document_new_from_data':
                continue
            n += 1
            p0, l0 = strip(args[0]), strip(args[1])
            arg = ('s', 'arg1')
            full = ptr_of(a, s, p0) == arg and (l0 == ('len', arg) or l0 == ('len', ('deref', arg))) and \
                in_range(a, s, l0, 'usize', 'i32')
            noth = l0[:2] == ('c', 0) and any(s.facts.get(('bin', 'Eq', ('len', x), ('c', 0, 'usize'))) is True for x in (arg, ('deref', arg)))
            if not full and not noth and l0[0] == 'len':
                noth = not a.branch(s.fork(), ('bin', 'Eq', l0, ('c', 0, 'usize')), False) and \
                    any(not a.branch(s.fork(), ('bin', 'Eq', ('len', x), ('c', 0, 'usize')), False) for x in (arg, ('deref', arg)))
            r.ob('bytes', full or noth, w, 'the given bytes are parsed, all of them', 'bytes', [sh(p0)[:200], sh(l0)[:200]])
            r.ob('password', strip(args[2]) == NULL, w, 'no password is given', 'password')
    r.floor('documents opened on paths', n, 2)
    # the range
    key = entry(L, D, 'pages')
    a, outs = L.run(key)
    w = disp(L.p, key)
    for k, s, v in outs:
        c = [x for x in L.calls(s) if x[0] == 'poppler_document_get_n_pages']
        ok = k == 'ret' and v[0] == 'agg' and v[2] == I and len(c) == 1 and strip(c[0][1][0]) == own(L, s, D)
        if ok:
            rg = v[4][fr]
            ok = rg[0] == 'agg' and rg[4][0][:2] == ('c', 0) and rg[4][1] == c[0][2]['res'] and v[4][fd] == ('s', 'arg1')
        r.ob('pages', ok, w, 'the pages are those from 0 to the number of pages of the document', 'pages', sh(v)[:300])
    lo, hi = ('fld', ('fld', me, fr), 0), ('fld', ('fld', me, fr), 1)
    doc = ('fld', ('deref', ('fld', me, fd)), next(iter(L.owner[D]['found']))[0])
    count = 0
    for m, tr in (('next', 'std::Iterator'), ('nth', 'std::Iterator'), ('next_back', 'std::DoubleEndedIterator'),
                  ('nth_back', 'std::DoubleEndedIterator'), ('last', 'std::Iterator')):
        try:
            key = entry(L, I, m, tr)
        except AnalysisError:
            if m in ('next', 'next_back'):
                raise
            continue
        if m in ('nth_back', 'last'):
            r.violate('understood', disp(L.p, key), 'the rule covers next, nth and next_back', 'understood: ' + m)
            continue
        a, outs = L.run(key)
        w = disp(L.p, key)
        r.fn(*[disp(L.p, k) for k in a.analysed])
        for k, s, v in outs:
            acc = {}
            lf = lambda t: a.lf(s, t, acc)
            same = lambda x, y: a.prove(s, lin.add(x, y, 1, -1)) and a.prove(s, lin.add(y, x, 1, -1))
            nth = lf(('s', 'arg2')) if m == 'nth' else lin.const(0)
            if k == 'panic':
                if not any(c[0] == 'poppler_document_get_page' for c in L.calls(s)):
                    r.violate('panic', w, 'panics: %s' % (v,), 'panic: %s' % m)
                continue
            count += 1
            c = [x for x in L.calls(s) if x[0] == 'poppler_document_get_page']
            l2, h2 = [a.load(s, ('h', ('s', 'arg1')), (('field', fr), ('field', i))) for i in (0, 1)]
            if v[0] == 'agg' and v[3] == 'None':
                ok = a.prove(s, lin.add(lin.add(lf(lo), nth), lf(hi), 1, -1))
                r.ob('end', ok and not c, w, 'nothing is returned only if there is no such page', 'end: ' + m)
                continue
            ok = v[0] == 'agg' and v[3] == 'Some' and len(c) == 1 and strip(c[0][1][0]) == doc
            if ok:
                x = c[0][1][1]
                g = v[4][0]
                ok = g[0] == 'agg' and g[2] == G and c[0][2]['res'] in g[4]
                want = lin.add(lf(hi), lin.const(-1)) if m == 'next_back' else lin.add(lf(lo), nth)
                X = lf(x)
                r.ob('index', same(X, want) and a.prove(s, lin.add(lin.add(lf(hi), X, 1, -1), lin.const(-1))) and
                     a.prove(s, lin.add(X, lf(lo), 1, -1)), w, 'the page has the expected index in the range',
                     'index: ' + m, sh(x)[:200])
                wl, wh = (lf(lo), X) if m == 'next_back' else (lin.add(X, lin.const(1)), lf(hi))
                r.ob('rest', same(lf(l2), wl) and same(lf(h2), wh), w, 'the remaining range excludes the page and those passed over',
                     'rest: ' + m, [sh(l2)[:100], sh(h2)[:100]])
            r.ob('page', ok, w, 'the page comes from the own document', 'page: ' + m, sh(v)[:200])
    r.floor('returning paths of the iterator', count, 5)
    for m, tr in (('len', 'std::ExactSizeIterator'), ('size_hint', 'std::Iterator')):
        try:
            key = entry(L, I, m, tr)
        except AnalysisError:
            continue
        a, outs = L.run(key)
        w = disp(L.p, key)
        for k, s, v in outs:
            ok = k == 'ret'
            if ok:
                vs = [v]
                if m == 'size_hint':
                    ok = v[0] == 'agg' and len(v[4]) == 2 and v[4][1][3] == 'Some'
                    vs = [v[4][0], v[4][1][4][0]] if ok else []
                acc = {}
                for x in vs:
                    d = lin.add(a.lf(s, hi, acc), a.lf(s, lo, acc), 1, -1)
                    y = lin.add(d, a.lf(s, strip(x), acc), 1, -1)
                    none = x[:2] == ('c', 0) and a.prove(s, lin.scale(d, -1))
                    ok = ok and (none or a.prove(s, y) and a.prove(s, lin.scale(y, -1)) and a.prove(s, d))
            r.ob('length', ok, w, 'the length is that of the remaining range', 'length: ' + m, sh(v)[:200])
    # strings
    for ty, m, c in ((D, 'producer', 'poppler_document_get_producer'), (G, 'text', 'poppler_page_get_text')):
        key = entry(L, ty, m)
        a, outs = L.run(key)
        for k, s, v in outs:
            if k != 'ret':
                continue
            cs = L.calls(s)
            ok = len(cs) == 1 and cs[0][0] == c and strip(cs[0][1][0]) == own(L, s, ty)
            res = cs[0][2]['res'] if ok else None
            if v[0] == 'agg' and v[3] == 'None':
                ok = ok and nullness(a, s, res) is True
            else:
                g = [x for x in parts(v) if x[2] == S]
                ok = ok and len(g) == 1 and strip(g[0][4][next(iter(L.owner[S]['found']))[0]]) == res
            r.ob('string', ok, disp(L.p, key), 'the string is the one of the own document or page', 'string: ' + m, sh(v)[:200])
    key = entry(L, S, 'to_str')
    a, outs = L.run(key)
    for k, s, v in outs:
        ok = k == 'ret' and v[0] == 'call' and v[1].endswith('CStr::to_str')
        x = v[2][0] if ok else None
        while x is not None and x[0] in ('deref', 'cref'):
            x = x[1]
        ok = ok and x[0] == 'call' and x[1].endswith('CStr::from_ptr') and strip(x[2][0]) == own(L, s, S)
        r.ob('string', ok, disp(L.p, key), 'the text is that of the own string', 'string: to_str', sh(v)[:200])


def ptr_of(a, s, t):
    """the slice whose first element the pointer points to"""
    t = strip(t)
    if t[0] == 'call' and t[1].endswith('::as_ptr'):
        return t[2][0]
    if t[0] in ('subp', 'rawp') and t[2][:2] == ('c', 0):
        return t[1]
    return None


@check('R07', 'Every path of the render functions that returns a surface is followed: the surface is created in the format of the backdrop, '
       'its size is the ceiling of the page size in px times the resolution of the axis, a white backdrop is painted before '
       'anything else, the only scale is the resolution of each axis times 96/72, and the own page is rendered once on a context of the returned surface by the function the '
       'options select. The size functions and the defaults are checked as formulas.',
       ['poppler_page_get_size gives the size of the page in points', 'f64::ceil'])
def r07(r):
    from c_pdf import poly, peq, pmul
    L = Lester.get()
    p = L.p
    G, O, B = named(L, 'Page'), named(L, 'RenderOptions'), named(L, 'Backdrop')
    K = 96. / 72.
    ptr = own(L, None, G)
    hv = lambda t, i: t[0] == 'hv' and str(t[1]).endswith('poppler_page_get_size.%d' % i)

    def axis(m):
        """the axis whose page size the polynomial is linear in, without it"""
        out = set()
        rest = {}
        for k, c in m.items():
            h = [i for t in k for i in (1, 2) if hv(t, i)]
            if len(h) != 1:
                return None, None
            out.add(h[0])
            rest[tuple(t for t in k if not hv(t, 1) and not hv(t, 2))] = c
        return (out.pop(), rest) if len(out) == 1 else (None, None)

    def sizes(calls):
        c = [x for x in calls if x[0] == 'poppler_page_get_size']
        return len(c) >= 1 and all(strip(x[1][0]) == ptr and x[1][1] != x[1][2] for x in c)
    # sizes
    for m, f in (('size_in_ps_points', 1.), ('size_in_css_px', K)):
        key = entry(L, G, m)
        a, outs = L.run(key)
        for k, s, v in outs:
            ok = k == 'ret' and v[0] == 'agg' and len(v[4]) == 2 and sizes(L.calls(s))
            for i in (0, 1):
                ax, rest = axis(poly(v[4][i])) if ok else (None, None)
                ok = ok and ax == i + 1 and peq(rest, {(): f})
            r.ob('size', ok, disp(p, key), 'the size of the page is returned in the unit', 'size: ' + m, sh(v)[:300])
    # defaults
    variants = [x[0] for x in p.enums[B]['variants']]
    fn = [n for n, t in p.structs[O]['fields']]
    key = entry(L, O, 'default', 'std::Default')
    a, outs = L.run(key)
    dflt = None
    for k, s, v in outs:
        ok = k == 'ret' and v[0] == 'agg' and v[2] == O
        if ok:
            dflt = dict(zip(fn, v[4]))
            ok = all(dflt[x][0] == 'c' and dflt[x][1] == 1.0 for x in ('dppx_x', 'dppx_y')) and dflt['backdrop'][0] == 'agg' and dflt['for_printing'][0] == 'c'
        r.ob('default', ok, disp(p, key), 'the default resolution is 1 dppx', 'default', sh(v)[:200])
    if dflt is None:
        return
    surf = named(L, 'ImageSurface')
    n = 0
    for m in ('render', 'render_with_dppx', 'render_with_options'):
        key = entry(L, G, m)
        a, outs = L.run(key)
        w = disp(p, key)
        r.fn(*[disp(p, k) for k in a.analysed])
        for k, s, v in outs:
            if k == 'panic':
                r.ob('panic', not [c for c in L.calls(s) if c[0] in DRAW] and 'unwrap' in v[0], w,
                     'panics only for a size that has no representation', 'panic: ' + m, str(v)[:200])
                continue
            if v[0] == 'agg' and v[3] == 'Err':
                continue
            n += 1
            o = dict(dflt)
            if m == 'render_with_dppx':
                o['dppx_x'] = o['dppx_y'] = ('s', 'arg2')
            elif m == 'render_with_options':
                o = {x: ('fld', ('s', 'arg2'), i) for i, x in enumerate(fn)}
            bd = o['backdrop']
            if bd[0] == 'agg':
                back = bd[3]
            else:
                d = s.facts.get(('dis', bd))
                back = variants[d] if isinstance(d, int) else None
                for t, u in s.facts.items():
                    # compared with a constant
                    if back is None and t[0] == 'bin' and t[1] == 'Eq' and t[2] == ('disc', bd) and u is True:
                        back = variants[t[3][1]]
            pr = o['for_printing']
            pr = pr[1] if pr[0] == 'c' else s.facts.get(pr)
            calls = L.calls(s)
            cr = [c for c in calls if c[0] == 'cairo_image_surface_create']
            cx = [c for c in calls if c[0] == 'cairo_create']
            ok = len(cr) == 1 and len(cx) == 1 and sizes(calls) and back in ('White', 'Transparent') and pr in (True, False)
            ok = ok and strip(cx[0][1][0]) == cr[0][2]['res']
            if not r.ob('one surface', ok, w, 'one surface and one context of it are created, knowing the options', 'one surface: ' + m,
                        [back, pr, [c[0] for c in calls]]):
                continue
            g = [x for x in parts(v) if x[2] == surf]
            r.ob('result', len(g) == 1 and cr[0][2]['res'] in g[0][4], w, 'the surface is the one returned', 'result: ' + m)
            f = cr[0][1][0]
            r.ob('format', f[0] == 'c' and f[1] == (1 if back == 'White' else 0), w, 'the format fits the backdrop (%s)' % back,
                 'format: %s %s' % (m, back), sh(f))
            for i, x in ((1, 'dppx_x'), (2, 'dppx_y')):
                t = cr[0][1][i]
                c = strip(t)
                ok = c[0] == 'call' and c[1].endswith('f64::ceil')
                if ok:
                    ax, rest = axis(poly(c[2][0]))
                    ok = ax == i and peq(rest, pmul({(): K}, poly(o[x]))) and in_range(a, s, c, 'f64', 'i32')
                r.ob('dimension', ok, w, 'the %s is the ceiling of the page size in px times the resolution' % ('width', 'height')[i - 1],
                     'dimension: %s %d' % (m, i), sh(t)[:300])
            ctx = cx[0][2]['res']
            seq = [(c, args) for c, args, info in calls if c in DRAW]
            r.ob('own context', all(strip(args[DRAW[c]]) == ctx for c, args in seq), w, 'everything is drawn on that context', 'own context: ' + m)
            names = [c for c, args in seq]
            fun = 'poppler_page_render_for_printing' if pr else 'poppler_page_render'
            rend = [i for i, c in enumerate(names) if c.startswith('poppler_page_render')]
            ok = len(rend) == 1 and names[rend[0]] == fun and strip(seq[rend[0]][1][0]) == ptr and rend[0] == len(names) - 1
            r.ob('rendered', ok, w, 'the own page is rendered once, last, by %s' % fun, 'rendered: %s %s' % (m, pr), names)
            paint = [i for i, c in enumerate(names) if c == 'cairo_paint']
            src = [i for i, c in enumerate(names) if c == 'cairo_set_source_rgb']
            if back == 'White':
                ok = len(paint) == 1 and len(src) >= 1 and rend and max(src) < paint[0] < rend[0] and \
                    all(poly(x) == {(): 1.0} for x in seq[max(src)][1][1:])
            else:
                ok = not paint
            r.ob('backdrop', ok, w, 'the backdrop is painted first if it is white, else nothing is (%s)' % back,
                 'backdrop: %s %s' % (m, back), names)
            sc = [i for i, c in enumerate(names) if c == 'cairo_scale']
            tot = [{(): 1.0}, {(): 1.0}]
            for i in sc:
                tot = [pmul(tot[j], poly(seq[i][1][1 + j])) for j in (0, 1)]
            ok = rend and sc and max(sc) < rend[0] and all(peq(tot[j], pmul({(): K}, poly(o[x]))) for j, x in enumerate(('dppx_x', 'dppx_y')))
            r.ob('scale', ok, w, 'a point is scaled to 96/72 px times the resolution on each axis', 'scale: ' + m,
                 [[sh(x)[:100] for x in seq[i][1][1:]] for i in sc])
    r.floor('paths that return a surface', n, 6)


@check('R09', 'Every path of each implementation of the conversion trait: it returns the value unchanged only where the value is '
       'known to be in the range of the target (for floats by comparisons known to be true, which excludes NaN), and an '
       'error only where it is not. Each number given to a foreign function through an integer cast is also proved to be in range.',
       ['comparison of floats (IEEE 754)'])
def r09(r):
    L = Lester.get()
    p = L.p
    n = 0
    for im in p.impls:
        if not im.trait or im.trait.rsplit('::', 1)[-1] != 'TryInto' or im.for_[0] != 'prim':
            continue
        src = im.for_[1]
        for m, key in im.methods.items():
            a = engine.Analyzer(p)
            a.record_writes = True
            outs = a.entry(key)
            w = '%s (from %s)' % (disp(p, key), src)
            r.fn(disp(p, key))
            good = bad = 0
            for k, s, v in outs:
                n += 1
                x = ('s', 'arg1')
                if k == 'panic':
                    r.violate('panic', w, 'conversions do not panic', 'panic: ' + src, str(v)[:200])
                    continue
                ret = p.mty(p.bodies[key].ret)
                dst = ret[2][0][1] if ret[0] == 'path' and ret[2] and ret[2][0][0] == 'prim' else None
                if v[0] != 'agg' or v[3] not in ('Ok', 'Err') or dst not in RANGE or src not in RANGE and src not in ('f64', 'f32'):
                    r.violate('understood', w, 'the result is understood', 'understood: ' + src, sh(v)[:200])
                    continue
                if v[3] == 'Ok':
                    good += 1
                    t = v[4][0]
                    r.ob('value', t == x or t == ('cast', x, dst), w, 'the value is unchanged', 'value: %s %s' % (src, dst), sh(t)[:200])
                    r.ob('range', in_range(a, s, x, src, dst), w, 'the value is in the range of %s' % dst, 'range: %s %s' % (src, dst))
                else:
                    bad += 1
                    lo, hi = RANGE[dst]
                    if src in ('f64', 'f32'):
                        flo, fhi = float(lo), float(hi)
                        out = any(t[0] == 'bin' and (t[2] == x or t[3] == x) and (
                            (t[1] in ('Ge', 'Le') and val is False) or (t[1] in ('Lt', 'Gt') and val is True)) and
                            bound(t, x) in ((('lo', flo)), ('hi', fhi)) for t, val in s.facts.items())
                        # a NaN: the value differs from itself
                        out = out or any(t[0] == 'bin' and t[2] == x == t[3] for t in s.facts) or \
                            any(t[0] == 'call' and t[1].endswith('::is_nan') and val is True for t, val in s.facts.items())
                    else:
                        s2 = s.fork()
                        slo, shi = RANGE[src]
                        inl = slo >= lo or a.branch(s2, a.binop(s2, 'Ge', x, ('c', lo, src), ('prim', src)), True)
                        inh = inl and (shi <= hi or a.branch(s2, a.binop(s2, 'Le', x, ('c', hi, src), ('prim', src)), True))
                        out = not inh
                    r.ob('out of range', out, w, 'an error is returned only if the value is not in the range', 'out of range: %s %s' % (src, dst))
            r.ob('some value', good, w, 'some value is converted', 'some value: ' + src)
    r.floor('paths of conversions', n, 6)
    casts = 0
    for key in sorted(L.entries):
        a, outs = L.run(key)
        w = disp(p, key)
        for k, s, v in outs:
            for c, args, info in L.calls(s):
                for i, x in enumerate(args):
                    while x[0] == 'cast' and x[2] in RANGE:
                        t = a.typeof(x[1])
                        src = t[1] if t and t[0] == 'prim' else None
                        if x[1][0] == 'call' and x[1][1].startswith('f64::'):
                            src = 'f64'
                        if src is None and x[1][0] == 'c':
                            break
                        casts += 1
                        r.ob('cast', src in RANGE and in_range(a, s, x[1], src, x[2]) or src == 'f64' and in_range(a, s, x[1], src, x[2]), w,
                             'argument %d of %s is converted without changing its value' % (i, c), 'cast: %s %s %d' % (w, c, i),
                             [src, x[2], sh(x[1])[:200]])
                        x = x[1]
    r.floor('casts of numbers given to C', casts, 10)


def bound(t, x):
    op, p, q = t[1:4]
    if q == x:
        p, q, op = q, p, {'Ge': 'Le', 'Le': 'Ge', 'Gt': 'Lt', 'Lt': 'Gt'}[op]
    if q[0] != 'c':
        return None
    return ('lo' if op in ('Ge', 'Lt') else 'hi', float(q[1]))


CTYPES = {'c_int': 'int', 'c_uint': 'unsigned int', 'c_char': 'char', 'c_uchar': 'unsigned char', 'c_void': 'void', 'c_long': 'long',
          'c_ulong': 'unsigned long', 'c_short': 'short', 'c_ushort': 'unsigned short', 'c_double': 'double', 'c_float': 'float',
          'i32': 'int', 'u32': 'unsigned int', 'f64': 'double', 'f32': 'float', 'u8': 'unsigned char', 'i8': 'signed char',
          'u16': 'unsigned short', 'i16': 'short', 'usize': 'unsigned long', 'isize': 'long', 'i64': 'long', 'u64': 'unsigned long'}


class Decl:
    """C declarations written from the Rust ones (rustdoc types)"""

    def __init__(self, p):
        self.p = p

    def ctype(self, t, name):
        """C declarator of `name` with the type"""
        if t is None:
            return 'void ' + name
        k, i = t['kind'], t.get('inner')
        if k == 'primitive':
            return '%s %s' % (CTYPES[i], name)
        if k == 'raw_pointer':
            q = '' if i['mutable'] else 'const '
            inner = i['type']
            if inner['kind'] == 'raw_pointer' and not i['mutable']:
                return self.ctype(inner, 'const *' + name)
            return q + self.ctype(inner, '*' + name)
        if k == 'resolved_path':
            nm = i['name'].split('::')[-1]
            if nm in CTYPES:
                return '%s %s' % (CTYPES[nm], name)
            item = self.p.ix.get(i['id'])
            if item and item['kind'] == 'typedef':
                return self.ctype(item['inner']['type'], name)
            if item and item['kind'] == 'struct' and item['crate_id'] == 0:
                return '%s %s' % (nm, name)
            if nm == 'Option' and i.get('args'):
                x = i['args']['angle_bracketed']['args'][0]['type']
                return self.ctype(x, name)
        if k == 'function_pointer':
            d = i['decl']
            if 'C' not in json.dumps(i['header'].get('abi')):
                raise AnalysisError('function pointer that is not extern "C"')
            return self.ctype(d['output'], '(*%s)(%s)' % (name, self.params(d)))
        raise AnalysisError('no C type for %s' % json.dumps(t)[:200])

    def params(self, d):
        return ', '.join(self.ctype(t, '') for n, t in d['inputs']) or 'void'

    def function(self, it):
        d = it['inner']['decl']
        return '%s;' % self.ctype(d['output'], '%s(%s)' % (it['name'], self.params(d)))


def constant(L, it):
    """value of an integer constant of the crate"""
    v = it['inner'].get('value') or it['inner'].get('expr')
    m = re.match(r'^(-?\d+)(_?[iu](8|16|32|64|size))?$', (v or '').strip())
    return int(m.group(1)) if m else None


@check('R08', 'The declarations of the C functions in lester, translated to C, are compiled by clang together with the installed '
       'headers of cairo, Poppler and glib: a declaration that differs in any parameter or the result is an error of the '
       'compiler. Constants are compared with those of the same name, and the offset of each field of GError with the real one.',
       ['the installed headers describe the libraries that are linked', 'clang 18 front end'])
def r08(r):
    import tempfile
    L = Lester.get()
    p = L.p
    D = Decl(p)
    lines = []         # (what, text)
    ix = p.ix
    for n, it in sorted(L.ffi.items()):
        r.ob('abi', 'C' in json.dumps(it['inner']['header']['abi']), n, 'the function is declared extern "C"', 'abi: ' + n)
        lines.append(('function ' + n, 'extern ' + D.function(it)))
        r.fn(n)
    ncst = 0
    for it in ix.values():
        if it['crate_id'] == 0 and it['kind'] == 'constant' and re.match(r'^(CAIRO|POPPLER|G)_[A-Z0-9_]+$', it['name'] or ''):
            v = constant(L, it)
            if v is None:
                r.violate('constant', it['name'], 'the value of the constant is known', 'constant: ' + it['name'])
                continue
            ncst += 1
            lines.append(('constant ' + it['name'], '_Static_assert((long) (%s) == %dL, "value");' % (it['name'], v)))
    st = {}
    # GError by layout: a field that is read from C memory
    for it in ix.values():
        if it['crate_id'] == 0 and it['kind'] == 'struct' and it['name'] == 'GError':
            kind = it['inner'].get('kind')
            ids = kind['plain']['fields'] if isinstance(kind, dict) and 'plain' in kind else it['inner'].get('fields', [])
            fs = [(ix[f]['name'], ix[f]['inner']) for f in ids]
            body = ' '.join(D.ctype(t if 'kind' in t else t, n) + ';' for n, t in fs)
            st['GError'] = [n for n, t in fs]
            lines.append(('struct GError', 'struct rust_GError { %s };' % body))
            r.ob('repr', any('repr(C)' in x for x in it['attrs']), 'GError', 'the layout is that of C', 'repr')
            for n, t in fs:
                lines.append(('field GError.' + n, '_Static_assert(__builtin_offsetof(struct rust_GError, %s) == __builtin_offsetof(GError, %s) && '
                              'sizeof(((struct rust_GError *) 0)->%s) == sizeof(((GError *) 0)->%s), "field");' % (n, n, n, n)))
            lines.append(('size GError', '_Static_assert(sizeof(struct rust_GError) == sizeof(GError), "size");'))
    r.floor('constants compared', ncst, 5)
    r.floor('structs compared', len(st), 1)
    src = ['#include <cairo.h>', '#include <glib-object.h>', '#include <poppler.h>', '#undef g_free', '#undef g_object_unref', '#undef g_error_free']
    at = {}
    for what, text in lines:
        src.append(text)
        at[len(src)] = what
    flags = subprocess.run(['pkg-config', '--cflags', 'cairo', 'poppler-glib', 'glib-2.0'], stdout=subprocess.PIPE, universal_newlines=True, check=True).stdout.split()
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, 'decl.c')
        with open(f, 'w') as o:
            o.write('\n'.join(src) + '\n')
        q = subprocess.run(['clang', '-std=gnu11', '-fsyntax-only', '-w', '-ferror-limit=0', '-fno-caret-diagnostics'] + flags + [f], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True)
    errs = {}
    for l in q.stdout.splitlines():
        m = re.match(r'.*decl\.c:(\d+):\d+: (?:fatal )?error: (.*)', l)
        if m:
            errs.setdefault(int(m.group(1)), m.group(2))
    if q.returncode and not errs:
        raise AnalysisError('clang: ' + q.stdout[-1000:])
    for i, what in sorted(at.items()):
        r.ob('declaration', i not in errs, what, 'agrees with the C header', 'declaration: ' + what, [src[i - 1], errs.get(i)])
    for i in errs:
        if i not in at:
            raise AnalysisError('clang: ' + errs[i])
    r.floor('declarations compared', len(at), 30)


# (what must not compile, error codes, prelude, program that must not compile, twin that must)
USE = 'use lester::*;\n'
WITNESS = [
    ('a document outlives its bytes', 'E0597 E0505 E0716',
     'fn main() { let d; { let b = vec![0u8]; d = PdfDocument::from_bytes(&b).unwrap(); } d.producer(); }',
     'fn main() { let d; { static B: &[u8] = &[0]; d = PdfDocument::from_bytes(B).unwrap(); } d.producer(); }'),
    ('the bytes change under a document', 'E0502 E0506 E0499',
     'fn main() { let mut b = vec![0u8]; let d = PdfDocument::from_bytes(&b).unwrap(); b[0] = 1; d.producer(); }',
     'fn main() { let mut b = vec![0u8]; let d = PdfDocument::from_bytes(&b).unwrap(); d.producer(); drop(d); b[0] = 1; }'),
    ('a page outlives the bytes of its document', 'E0597 E0505 E0716',
     'fn main() { let p; { let b = vec![0u8]; p = PdfDocument::from_bytes(&b).unwrap().pages().next().unwrap(); } p.text(); }',
     'fn main() { let p; { static B: &[u8] = &[0]; p = PdfDocument::from_bytes(B).unwrap().pages().next().unwrap(); } p.text(); }'),
    ('a page obtained from the end outlives the bytes', 'E0597 E0505 E0716',
     'fn main() { let p; { let b = vec![0u8]; p = PdfDocument::from_bytes(&b).unwrap().pages().next_back().unwrap(); } p.text(); }',
     'fn main() { let p; { static B: &[u8] = &[0]; p = PdfDocument::from_bytes(B).unwrap().pages().next_back().unwrap(); } p.text(); }'),
    ('an iterator outlives its document', 'E0597 E0505 E0716',
     'fn main() { static B: &[u8] = &[0]; let mut i; { let d = PdfDocument::from_bytes(B).unwrap(); i = d.pages(); } i.next(); }',
     'fn main() { static B: &[u8] = &[0]; let d = PdfDocument::from_bytes(B).unwrap(); let mut i; { i = d.pages(); } i.next(); }'),
    ('pixels outlive their surface', 'E0597 E0505 E0716',
     'fn main() { let p; { let mut s = ImageSurface::new_rgb24(1, 1).unwrap(); p = s.pixels(); } p.buffer[0] = 1; }',
     'fn main() { let mut s = ImageSurface::new_rgb24(1, 1).unwrap(); let p; { p = s.pixels(); } p.buffer[0] = 1; }'),
    ('the buffer outlives its surface', 'E0597 E0505 E0716',
     'fn main() { let p; { let mut s = ImageSurface::new_rgb24(1, 1).unwrap(); p = s.pixels().buffer; } p[0] = 1; }',
     'fn main() { let mut s = ImageSurface::new_rgb24(1, 1).unwrap(); let p; { p = s.pixels().buffer; } p[0] = 1; }'),
    ('two views of the pixels of a surface', 'E0499 E0502',
     'fn main() { let mut s = ImageSurface::new_rgb24(1, 1).unwrap(); let p = s.pixels(); let q = s.pixels(); p.buffer[0] = q.buffer[0]; }',
     'fn main() { let mut s = ImageSurface::new_rgb24(1, 1).unwrap(); let p = s.pixels(); p.buffer[0] = 1; let q = s.pixels(); q.buffer[0] = 1; }'),
    ('a surface is encoded while its pixels are borrowed', 'E0502',
     'fn main() { let mut s = ImageSurface::new_rgb24(1, 1).unwrap(); let p = s.pixels(); s.write_to_png(Vec::new()).unwrap(); p.buffer[0] = 1; }',
     'fn main() { let mut s = ImageSurface::new_rgb24(1, 1).unwrap(); let p = s.pixels(); p.buffer[0] = 1; s.write_to_png(Vec::new()).unwrap(); }'),
    ('pixels through a shared reference', 'E0596',
     'fn f(s: &ImageSurface) -> usize { s.pixels().width } fn main() { f(&ImageSurface::new_rgb24(1, 1).unwrap()); }',
     'fn f(s: &mut ImageSurface) -> usize { s.pixels().width } fn main() { f(&mut ImageSurface::new_rgb24(1, 1).unwrap()); }'),
    ('text outlives its string', 'E0597 E0505 E0716 E0515',
     'fn f(p: &Page) -> usize { let t; { let s = p.text(); t = s.to_str().unwrap(); } t.len() } fn main() { let _ = f; }',
     'fn f(p: &Page) -> usize { let s = p.text(); let t; { t = s.to_str().unwrap(); } t.len() } fn main() { let _ = f; }'),
    ('an owner of a foreign pointer is made from any pointer', 'E0451 E0423 E0560 E0063',
     'fn main() { let _s = ImageSurface { ptr: std::ptr::null_mut() }; }', 'fn main() { let _s = ImageSurface::new_rgb24(1, 1); }'),
] + [('%s is %s' % (t.split('<')[0], w), 'E0277',
      'fn f<T: %s>() {} fn main() { f::<%s>(); }' % (w, t), 'fn f<T: Sized>() {} fn main() { f::<%s>(); }' % t)
     for t in ("PdfDocument<'static>", "Page<'static>", "PagesIter<'static, 'static>") for w in ('Send', 'Sync')] + [
    ('%s is duplicated' % t.split('<')[0], 'E0599 E0277',
     'fn f<T: Clone>() {} fn main() { f::<%s>(); }' % t, 'fn f<T: Sized>() {} fn main() { f::<%s>(); }' % t)
    for t in ("PdfDocument<'static>", "Page<'static>", 'ImageSurface', 'GlibString', 'GlibError')]


@check('R05', 'Witness programs that would use memory of Poppler or cairo after it is gone, alias the pixels of a surface, share a '
       'document between threads, or duplicate an owner are compiled against the current crate and must be rejected by the '
       'compiler with a borrow, trait or privacy error; a twin of each that differs only in the misuse must compile.',
       ['rustc 1.70 borrow checker and trait solver', 'a page of Poppler keeps its document alive'])
def r05(r):
    import tempfile
    from concurrent.futures import ThreadPoolExecutor
    with tempfile.TemporaryDirectory() as tmp:
        def rustc(*args):
            return subprocess.run(['rustc', '--edition', '2018', '--cap-lints', 'allow', '--error-format', 'json'] + list(args), cwd=tmp,
                                  env=front.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        src = os.path.join(front.REPO, 'lester', 'src', 'lib.rs')
        q = rustc('--crate-type', 'lib', '--crate-name', 'lester', '--emit', 'metadata', '--out-dir', tmp, src)
        lib = os.path.join(tmp, 'liblester.rmeta')
        if q.returncode or not os.path.exists(lib):
            raise AnalysisError('lester does not compile: ' + q.stderr[-1000:])

        def comp(job):
            i, text = job
            f = os.path.join(tmp, 'w%d.rs' % i)
            with open(f, 'w') as o:
                o.write(USE + text + '\n')
            q = rustc('--crate-type', 'bin', '--crate-name', 'w%d' % i, '--emit', 'metadata', '--out-dir', tmp, '--extern', 'lester=' + lib, f)
            codes = set()
            for l in q.stderr.splitlines():
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get('level') == 'error' and d.get('code'):
                    codes.add(d['code']['code'])
            return q.returncode, codes, q.stderr[-600:]
        jobs = [(2 * i + j, w[2 + j]) for i, w in enumerate(WITNESS) for j in (0, 1)]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(comp, jobs))
        for i, (what, codes, bad, good) in enumerate(WITNESS):
            rc, found, text = res[2 * i]
            rc2, found2, text2 = res[2 * i + 1]
            r.fn('witness: ' + what)
            r.ob('twin', rc2 == 0, what, 'the twin of the witness compiles', 'twin: ' + what, [good, text2])
            r.ob('rejected', rc != 0 and found and found <= set(codes.split()), what, 'a program where %s does not compile' % what,
                 'rejected: ' + what, [bad, rc, sorted(found)])
    r.floor('witnesses', len(WITNESS), 20)
