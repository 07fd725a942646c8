"""Meaning of the standard-library operations the analysed code uses.

Each model is called as f(eng, st, fr, name, args, info) and returns a list of
outcomes [(kind, st, value)] or None for "no opinion" (the callee is then inlined
if it is crate-local, or treated as an unknown external call)."""
import lin
import rtypes as T
from absint import (UNIT, TRUE, FALSE, NONE, some, ok, err, adt, tup, cint, INT_RANGE)

REG = {}


def model(*names):
    def d(f):
        for n in names:
            REG[n] = f
        return f
    return d


def install(eng):
    eng.models.update(REG)


def ret(st, v):
    return [('ret', st, v)]


USIZE = ('prim', 'usize')
BOOL = ('prim', 'bool')


# ------------------------------------------------------------------ helpers
def split(eng, st, v, ty):
    """case split on an enum value -> [(state, variant, [field values])]"""
    if v[0] == 'agg' and v[3] is not None:
        return [(st, v[3], list(v[4]))]
    if v[0] == 'upd' and v[1][0] == 'as':
        vs = eng.variants_of(ty) or ()
        for nm, fl, d in vs:
            if nm == v[1][2]:
                return [(st, nm, [eng.proj_value(st, v, ('field', i)) for i in range(len(fl))])]
    out = []
    vs = eng.variants_of(ty)
    if vs is None:
        return None
    env = dict(zip(eng.p.enums[ty[1]]['params'], ty[2]))
    eng.settype(v, ty)
    for nm, fl, d in vs:
        s2 = st.fork()
        if eng.assume_val(s2, ('dis', v), d, True):
            fs = []
            for i, (_, ft) in enumerate(fl):
                fs.append(eng.settype(('vfld', v, nm, i), T.subst(ft, env)))
            out.append((s2, nm, fs))
    return out


def field_ref(ptr, i):
    if ptr[0] == 'ref':
        return ('ref', ptr[1], tuple(ptr[2]) + (('field', i),)) + tuple(ptr[3:])
    return ('ref', ('h', ptr), (('field', i),))


def fork_bool(eng, st, cond):
    """[(state, bool)] for the feasible outcomes of a condition"""
    out = []
    a = st.fork()
    if eng.branch(a, cond, True):
        out.append((a, True))
    b = st.fork()
    if eng.branch(b, cond, False):
        out.append((b, False))
    return out


def lt(eng, st, a, b):
    return eng.binop(st, 'Lt', a, b, eng.typeof(a))


def le(eng, st, a, b):
    return eng.binop(st, 'Le', a, b, eng.typeof(a))


def bind(outs, f):
    """apply f(st, v) -> outcomes to every returning outcome"""
    res = []
    for k, s, v in outs:
        if k == 'ret':
            res.extend(f(s, v))
        else:
            res.append((k, s, v))
    return res


def is_int(ty):
    return ty is not None and ty[0] == 'prim' and ty[1] in INT_RANGE and ty[1] != 'bool'


def cmp_values(eng, st, a, b, ty):
    """[(state, 'Less'|'Equal'|'Greater')]"""
    if a[0] == 'c' and b[0] == 'c' and type(a[1]) == type(b[1]):
        return [(st, 'Less' if a[1] < b[1] else 'Equal' if a[1] == b[1] else 'Greater')]
    if is_int(ty) or eng.isint(a):
        out = []
        for nm, c in (('Less', ('bin', 'Lt', a, b)), ('Equal', ('bin', 'Eq', a, b)), ('Greater', ('bin', 'Gt', a, b))):
            s2 = st.fork()
            eng.types[c] = BOOL
            if eng.branch(s2, c, True):
                out.append((s2, nm))
        return out
    t = ('cmp', a, b)
    out = []
    for nm, d in (('Less', -1), ('Equal', 0), ('Greater', 1)):
        s2 = st.fork()
        if eng.assume_val(s2, ('dis', t), d, True):
            if nm == 'Equal':
                eq = ('bin', 'Eq', a, b)
                eng.types[eq] = BOOL
                if not eng.branch(s2, eq, True):
                    continue
            out.append((s2, nm))
    return out


def ordering(nm):
    return adt('std::Ordering', nm)


def trait_call(eng, st, fr, selfT, trait, meth, args, info, targs=(), margs=()):
    return eng.call_parsed(st, fr, ('trait', selfT, ('path', trait, tuple(targs)), meth, tuple(margs)), {}, args,
                           info.get('span'), '<%s as %s>::%s' % (T.show(selfT), trait, meth))


def selft(info, k=None):
    t = info.get('self')
    if t is not None and k is not None:
        return t[2][k] if t[0] == 'path' and k < len(t[2]) else None
    return t


def strip(t):
    while t is not None and t[0] == 'ref':
        t = t[2]
    return t


# ------------------------------------------------------------------ ? operator
@model('std::Try::branch')
def try_branch(eng, st, fr, name, args, info):
    ty = selft(info)
    cs = split(eng, st, args[0], ty)
    if cs is None:
        return None
    out = []
    for s, nm, f in cs:
        if nm in ('Ok', 'Some', 'Continue'):
            out.append(('ret', s, adt('std::ControlFlow', 'Continue', f[0] if f else UNIT)))
        elif nm == 'Err':
            out.append(('ret', s, adt('std::ControlFlow', 'Break', err(f[0]))))
        else:
            out.append(('ret', s, adt('std::ControlFlow', 'Break', NONE)))
    return out


@model('std::FromResidual::from_residual')
def from_residual(eng, st, fr, name, args, info):
    ty = selft(info)
    v = args[0]
    if ty is None or ty[0] != 'path':
        return None
    if ty[1] == 'std::Option':
        return ret(st, NONE)
    if ty[1] != 'std::Result':
        return None
    if v[0] == 'agg' and v[3] == 'Err':
        e = v[4][0]
    else:
        e = ('vfld', v, 'Err', 0)
    tr = info.get('trait')
    src = None
    if tr and tr[2] and tr[2][0][0] == 'path' and len(tr[2][0][2]) > 1:
        src = tr[2][0][2][1]
    dst = ty[2][1] if len(ty[2]) > 1 else None
    if src == dst or src is None or dst is None:
        return ret(st, err(e))
    outs = trait_call(eng, st, fr, dst, 'std::From', 'from', [e], info, (src,))
    return bind(outs, lambda s, x: ret(s, err(x)))


# ------------------------------------------------------------------ conversions
def conv(eng, st, v, src, dst):
    """std conversions between plain values; None if unknown"""
    if src == dst:
        return v
    if dst is not None and dst[0] == 'prim' and (src is None or src[0] == 'prim') and dst[1] != 'str':
        return eng.cast(st, v, dst, 'IntToInt')
    return None


@model('std::From::from')
def from_from(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    dst = selft(info)
    tr = info.get('trait')
    src = tr[2][0] if tr and tr[2] else None
    v = conv(eng, st, args[0], src, dst)
    if v is not None:
        return ret(st, v)
    if dst is not None and dst[0] == 'path' and dst[1] == 'std::Cow' and src is not None:
        if src[0] == 'ref':
            return ret(st, ('agg', 'adt', 'std::Cow', 'Borrowed', (args[0],), ()))
        if src[0] == 'path' and src[1] in ('std::Vec', 'std::String'):
            return ret(st, ('agg', 'adt', 'std::Cow', 'Owned', (args[0],), ()))
    if dst is not None and dst[0] == 'path' and dst[1] == 'std::Option' and src == dst[2][0]:
        return ret(st, some(args[0]))
    return ret(st, eng.settype(('conv', args[0], dst), dst))


@model('std::Into::into')
def into(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    src = selft(info)
    tr = info.get('trait')
    dst = tr[2][0] if tr and tr[2] else None
    if src is None or dst is None:
        return None
    return trait_call(eng, st, fr, dst, 'std::From', 'from', args, info, (src,))


@model('std::Clone::clone', 'std::ToOwned::to_owned', 'slice::to_vec', 'std::Cow::into_owned', 'std::ToString::to_string')
def clone(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    if name.endswith('into_owned'):
        return ret(st, ('owned', args[0]))
    v = eng.read_ref(st, args[0], strip(selft(info)) if selft(info) else None)
    return ret(st, v)


@model('std::Borrow::borrow', 'std::AsRef::as_ref', 'std::Vec::as_slice', 'str::as_bytes', 'std::String::as_bytes',
       'std::String::as_str', 'std::AsMut::as_mut', 'std::Vec::as_mut_slice', 'std::BorrowMut::borrow_mut')
def same_ptr(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    t = selft(info)
    if name.startswith('std::Borrow') or name.startswith('std::As'):
        if t is not None and t[0] == 'path' and t[1] not in ('std::Vec', 'std::String', 'std::Box'):
            if name.startswith('std::Borrow') and t[1] in eng.p.structs:
                return ret(st, args[0])     # the blanket Borrow<T> for T
            return None
        # &&T -> &T
        n = 0
        p = args[0]
        while t is not None and t[0] == 'ref' and name.startswith('std::As'):
            p = eng.read_ref(st, p)
            t = t[2]
        return ret(st, p)
    return ret(st, args[0])


@model('std::Deref::deref', 'std::DerefMut::deref_mut')
def deref(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    t = selft(info)
    if t is None:
        return None
    if t[0] == 'path' and t[1] in ('std::Vec', 'std::String'):
        return ret(st, args[0])
    if t[0] == 'ref':
        return ret(st, eng.read_ref(st, args[0]))
    if t[0] == 'path' and t[1] in ('std::Box', 'std::Arc', 'std::Rc', 'std::MutexGuard', 'atomic_refcell::AtomicRef',
                                   'atomic_refcell::AtomicRefMut', 'std::Ref', 'std::RefMut'):
        v = eng.read_ref(st, args[0])
        if v[0] == 'agg' and v[1] == 'adt' and v[2] in ('std::Box', 'std::Arc', 'std::Rc') and len(v[4]) == 1:
            return ret(st, v[4][0])
        return ret(st, v if v[0] != 'agg' else ('derefof', v))
    v = eng.read_ref(st, args[0])
    if v[0] == 'agg' and v[2] == 'std::Cow':
        if v[3] == 'Borrowed':
            return ret(st, v[4][0])
        b, pr = eng.deref_loc(st, args[0])
        return ret(st, ('ref', b, tuple(pr) + (('downcast', 'Owned'), ('field', 0)), 'shr'))
    return ret(st, ('derefof', v))


# ------------------------------------------------------------------ Option / Result
def combin(names):
    return model(*names)


@model('std::Option::ok_or', 'std::Option::ok_or_else')
def ok_or(eng, st, fr, name, args, info):
    cs = split(eng, st, args[0], selft(info))
    if cs is None:
        return None
    out = []
    for s, nm, f in cs:
        if nm == 'Some':
            out.append(('ret', s, ok(f[0])))
        elif name.endswith('else'):
            out.extend(bind(eng.call_value(s, fr, args[1], [], info['span']), lambda s2, x: ret(s2, err(x))))
        else:
            out.append(('ret', s, err(args[1])))
    return out


@model('std::Option::map', 'std::Result::map', 'std::Result::map_err', 'std::Option::and_then', 'std::Result::and_then',
       'std::Option::filter', 'std::Result::ok', 'std::Result::err', 'std::Option::unwrap_or', 'std::Result::unwrap_or',
       'std::Option::unwrap_or_else', 'std::Result::unwrap_or_else', 'std::Option::map_or', 'std::Option::map_or_else',
       'std::Result::map_or', 'std::Option::or', 'std::Option::or_else', 'std::Result::or_else',
       'std::Option::unwrap_or_default', 'std::Option::is_some_and')
def opt_comb(eng, st, fr, name, args, info):
    cs = split(eng, st, args[0], selft(info))
    if cs is None:
        return None
    meth = name.rsplit('::', 1)[1]
    isopt = name.startswith('std::Option')
    wrap = some if isopt else ok
    out = []
    for s, nm, f in cs:
        good = nm in ('Some', 'Ok')
        same = adt('std::Option' if isopt else 'std::Result', nm, *f)
        used = []
        n0 = len(out)

        def call(fn, a, s=s, used=used):
            used.append(fn)
            return eng.call_value(s, fr, fn, a, info['span'])
        if meth == 'map':
            out += bind(call(args[1], f), lambda s2, x: ret(s2, wrap(x))) if good else ret(s, same)
        elif meth == 'map_err':
            out += bind(call(args[1], f), lambda s2, x: ret(s2, err(x))) if not good else ret(s, same)
        elif meth == 'and_then':
            out += call(args[1], f) if good else ret(s, same)
        elif meth == 'filter':
            if not good:
                out += ret(s, NONE)
            else:
                s.nframe += 1
                b = ('l', s.nframe, 'tmp')
                s.mem[b] = f[0]
                for k, s2, c in call(args[1], [('ref', b, (), 'shr')]):
                    if k != 'ret':
                        out.append((k, s2, c))
                        continue
                    for s3, tv in fork_bool(eng, s2, c):
                        out += ret(s3, same) if tv else dropped(eng, s3, fr, f, ret(s3, NONE))
        elif meth == 'ok':
            out += ret(s, some(f[0])) if good else dropped(eng, s, fr, f, ret(s, NONE))
        elif meth == 'err':
            out += ret(s, some(f[0])) if not good else dropped(eng, s, fr, f, ret(s, NONE))
        elif meth == 'unwrap_or':
            out += ret(s, f[0] if good else args[1])
        elif meth == 'unwrap_or_else':
            out += ret(s, f[0]) if good else call(args[1], [] if isopt else f)
        elif meth == 'unwrap_or_default':
            out += ret(s, f[0]) if good else trait_call(eng, s, fr, selft(info, 0), 'std::Default', 'default', [], info)
        elif meth == 'map_or':
            out += call(args[2], f) if good else ret(s, args[1])
        elif meth == 'map_or_else':
            out += call(args[2], f) if good else call(args[1], [])
        elif meth == 'or':
            out += ret(s, same if good else args[1])
        elif meth == 'or_else':
            out += ret(s, same) if good else call(args[1], [] if isopt else f)
        elif meth == 'is_some_and':
            out += call(args[1], f) if good else ret(s, FALSE)
        idle = [x for x in args[1:] if x[0] == 'agg' and x[1] == 'closure' and x not in used]
        if idle:       # functions that were not called are dropped with what they captured
            new = out[n0:]
            del out[n0:]
            for k, s2, v in new:
                out += dropped(eng, s2, fr, idle, [(k, s2, v)]) if k == 'ret' else [(k, s2, v)]
    return out


def dropped(eng, s, fr, values, outs):
    """outcomes after dropping values"""
    for v in values:
        nxt = []
        for k, s1, x in outs:
            if k != 'ret':
                nxt.append((k, s1, x))
                continue
            nxt += [(k2, s2, x if k2 == 'ret' else x2) for k2, s2, x2 in eng.drop_term(s1, fr, v)]
        outs = nxt
    return outs


@model('std::Option::unwrap', 'std::Result::unwrap', 'std::Option::expect', 'std::Result::expect', 'std::Result::unwrap_err',
       'std::Result::expect_err')
def unwrap(eng, st, fr, name, args, info):
    cs = split(eng, st, args[0], selft(info))
    if cs is None:
        return None
    out = []
    for s, nm, f in cs:
        good = nm in ('Some', 'Ok')
        if name.endswith('_err'):
            good = not good
        if good:
            out.append(('ret', s, f[0]))
        else:
            out.append(eng.panic(s, fr, name, args, info['span']))
    return out


@model('std::Option::is_some', 'std::Option::is_none', 'std::Result::is_ok', 'std::Result::is_err')
def is_some(eng, st, fr, name, args, info):
    v = eng.read_ref(st, args[0])
    cs = split(eng, st, v, selft(info))
    if cs is None:
        return None
    pos = name.endswith(('is_some', 'is_ok'))
    return [('ret', s, TRUE if (nm in ('Some', 'Ok')) == pos else FALSE) for s, nm, f in cs]


@model('std::Option::as_ref', 'std::Option::as_mut', 'std::Result::as_ref', 'std::Option::as_deref', 'std::Option::as_deref_mut')
def opt_as_ref(eng, st, fr, name, args, info):
    b, pr = eng.deref_loc(st, args[0])
    v = eng.load(st, b, pr)
    cs = split(eng, st, v, selft(info))
    if cs is None:
        return None
    out = []
    shr = () if name.endswith('mut') else ('shr',)
    for s, nm, f in cs:
        if nm == 'Some' or nm in ('Ok', 'Err'):
            r = ('ref', b, tuple(pr) + (('downcast', nm), ('field', 0))) + shr
            if 'deref' in name:
                inner = selft(info, 0)
                if not (inner and inner[0] == 'path' and inner[1] in ('std::Vec', 'std::String')):
                    r = eng.read_ref(s, r)
            out.append(('ret', s, some(r) if nm == 'Some' else adt('std::Result', nm, r)))
        else:
            out.append(('ret', s, NONE))
    return out


@model('std::Option::take', 'std::mem::take', 'std::mem::replace', 'std::Option::replace')
def opt_take(eng, st, fr, name, args, info):
    b, pr = eng.deref_loc(st, args[0])
    v = eng.load(st, b, pr)
    if name == 'std::mem::replace':
        new = args[1]
    elif name == 'std::Option::replace':
        new = some(args[1])
    elif name == 'std::Option::take':
        eng.settype(v, selft(info))
        new = NONE
    else:
        t = info['margs'][0] if info.get('margs') else None
        if t is None:
            return None
        def fin(s, d):
            eng.store(s, b, pr, d, fr, info['span'])
            return ret(s, v)
        return bind(trait_call(eng, st, fr, t, 'std::Default', 'default', [], info), fin)
    eng.store(st, b, pr, new, fr, info['span'])
    return ret(st, v)


@model('std::Option::get_or_insert_with', 'std::Option::get_or_insert', 'std::Option::insert')
def opt_insert(eng, st, fr, name, args, info):
    """the value that is there, or the one that is put there"""
    b, pr = eng.deref_loc(st, args[0])
    v = eng.load(st, b, pr)
    cs = split(eng, st, v, selft(info))
    if cs is None:
        return None
    inside = ('ref', b, tuple(pr) + (('downcast', 'Some'), ('field', 0)))

    def fin(s, x):
        eng.store(s, b, pr, some(x), fr, info['span'])
        return ret(s, inside)
    out = []
    for s, nm, f in cs:
        if nm == 'Some' and name != 'std::Option::insert':
            out += ret(s, inside)
        elif name.endswith('_with'):
            out += bind(eng.call_value(s, fr, args[1], [], info['span']), fin)
        else:
            out += fin(s, args[1])
    return out


@model('std::Option::cloned', 'std::Option::copied')
def opt_cloned(eng, st, fr, name, args, info):
    t = selft(info)
    cs = split(eng, st, args[0], t)
    if cs is None:
        return None
    out = []
    for s, nm, f in cs:
        out += ret(s, some(eng.read_ref(s, f[0])) if nm == 'Some' else NONE)
    return out


@model('std::Option::transpose')
def transpose(eng, st, fr, name, args, info):
    return None


# ------------------------------------------------------------------ comparison
@model('std::Ord::cmp', 'std::PartialOrd::partial_cmp')
def ord_cmp(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    a, b = eng.read_ref(st, args[0]), eng.read_ref(st, args[1])
    t = selft(info)
    while t is not None and t[0] == 'ref':
        a, b = eng.read_ref(st, a), eng.read_ref(st, b)
        t = t[2]
    eng.settype(a, t)
    eng.settype(b, t)
    out = []
    for s, nm in cmp_values(eng, st, a, b, t):
        out += ret(s, ordering(nm) if name.endswith('::cmp') else some(ordering(nm)))
    return out


@model('std::PartialOrd::lt', 'std::PartialOrd::le', 'std::PartialOrd::gt', 'std::PartialOrd::ge')
def part_ord(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    a, b = eng.read_ref(st, args[0]), eng.read_ref(st, args[1])
    t = selft(info)
    while t is not None and t[0] == 'ref':
        a, b = eng.read_ref(st, a), eng.read_ref(st, b)
        t = t[2]
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[name[-2:]]
    eng.settype(a, t)
    eng.settype(b, t)
    return ret(st, eng.binop(st, op, a, b, t))


def val_eq(eng, st, a, b, ty):
    """term (bool) for structural equality"""
    if a == b:
        return TRUE
    if a[0] == 'c' and b[0] == 'c':
        x, y = a[1], b[1]
        if isinstance(x, str) and isinstance(y, bytes):
            x = x.encode()
        if isinstance(y, str) and isinstance(x, bytes):
            y = y.encode()
        return TRUE if x == y else FALSE
    if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1]:
        if a[3] != b[3]:
            return FALSE
        if len(a[4]) == len(b[4]):
            if not a[4]:
                return TRUE
            parts = [val_eq(eng, st, x, y, None) for x, y in zip(a[4], b[4])]
            if FALSE in parts:
                return FALSE
            parts = [p for p in parts if p != TRUE]
            if not parts:
                return TRUE
            t = parts[0]
            for p in parts[1:]:
                t = ('bin', 'BitAnd', t, p)
                eng.types[t] = BOOL
            return t
    vs = eng.variants_of(ty) if ty else None
    if vs is not None and all(not fl for _, fl, _ in vs):
        eng.settype(a, ty)
        eng.settype(b, ty)
        return eng.binop(st, 'Eq', eng.discr(st, a, ty), eng.discr(st, b, ty), ('prim', 'isize'))
    if a[0] == 'cref' or b[0] == 'cref' or a[0] == 'ref' and b[0] == 'ref':
        pass
    r = eng.binop(st, 'Eq', a, b, eng.typeof(a))
    eng.types[r] = BOOL
    return r


@model('std::PartialEq::eq', 'std::PartialEq::ne')
def part_eq(eng, st, fr, name, args, info):
    neg = name.endswith('ne')
    if info.get('key'):
        return None
    t = selft(info)
    if neg and t is not None and t[0] == 'path':
        tr = info.get('trait')
        nm, key, env, inf = eng.resolve(('trait', t, tr, 'eq', ()), {})
        if key is not None:
            r = trait_call(eng, st, fr, t, 'std::PartialEq', 'eq', args, info, tr[2])
            return bind(r, lambda s, x: ret(s, negate(eng, s, x)))
    x, y = const_text(eng, st, args[0]), const_text(eng, st, args[1])
    if x is not None and y is not None:
        return ret(st, TRUE if (x == y) != neg else FALSE)
    a, b = eng.read_ref(st, args[0]), eng.read_ref(st, args[1])
    u = t
    while u is not None and u[0] == 'ref':
        a, b = eng.read_ref(st, a), eng.read_ref(st, b)
        u = u[2]
    if a[0] == b[0] == 'agg' and a[2] == b[2] == 'html5ever::ExpandedName':
        pairs = list(zip(a[4], b[4]))
        out = []
        cur = [st]
        for x, y in pairs:
            nxt = []
            for s in cur:
                r = val_eq(eng, s, eng.read_ref(s, x), eng.read_ref(s, y), None)
                for s2, v in fork_bool(eng, s, r):
                    if v:
                        nxt.append(s2)
                    else:
                        out += ret(s2, TRUE if neg else FALSE)
            cur = nxt
        for s in cur:
            out += ret(s, FALSE if neg else TRUE)
        return out
    r = val_eq(eng, st, a, b, u)
    return ret(st, negate(eng, st, r) if neg else r)


@model('html5ever::QualName::expanded')
def qual_expanded(eng, st, fr, name, args, info):
    """a qualified name without its prefix: references to the namespace and the local name in it"""
    p = args[0]
    return ret(st, ('agg', 'adt', 'html5ever::ExpandedName', None, (field_ref(p, 1), field_ref(p, 2)), ()))


def negate(eng, st, x):
    x = eng.fold(st, x)
    if x == TRUE:
        return FALSE
    if x == FALSE:
        return TRUE
    if x[0] == 'bin' and x[1] in ('Eq', 'Ne'):
        t = ('bin', 'Ne' if x[1] == 'Eq' else 'Eq') + x[2:]
    else:
        t = ('un', 'Not', x)
    eng.types[t] = BOOL
    return t


@model('std::cmp::min', 'std::cmp::max', 'std::Ord::min', 'std::Ord::max')
def minmax(eng, st, fr, name, args, info):
    k = name.rsplit('::', 1)[1]
    a, b = args
    t = (info.get('margs') or [None])[0] or selft(info) or eng.typeof(a)
    if not is_int(t):
        return ret(st, eng.settype((k, a, b), t))
    eng.settype(a, t)
    eng.settype(b, t)
    out = []
    for s, tv in fork_bool(eng, st, le(eng, st, a, b)):
        out += ret(s, (a if tv else b) if k == 'min' else (b if tv else a))
    return out


@model('f32::min', 'f32::max', 'f64::min', 'f64::max')
def fminmax(eng, st, fr, name, args, info):
    if all(x[0] == 'c' and isinstance(x[1], float) for x in args):
        return ret(st, ('c', (min if name.endswith('min') else max)(args[0][1], args[1][1]), name[:3]))
    return ret(st, eng.settype((name.replace('::', ''), args[0], args[1]), ('prim', name[:3])))


# ------------------------------------------------------------------ integers
def int_method(eng, st, fr, name, args, info):
    ty, meth = name.split('::')
    t = ('prim', ty)
    lo, hi = INT_RANGE[ty]
    for a in args[:1]:
        eng.settype(a, t)
    def exact(op, a, b):
        return eng.binop(st, op, a, b, t)
    OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'shl': 'Shl', 'shr': 'Shr', 'neg': 'Neg'}
    pre, _, op = meth.partition('_')
    if meth in ('max_value', 'min_value'):
        return ret(st, cint(hi if meth == 'max_value' else lo, ty))
    if meth in ('from_be', 'to_be', 'swap_bytes', 'from_le', 'to_le'):
        return ret(st, eng.settype((meth, args[0]), t))
    if meth in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes'):
        w = eng.cast(st, args[0], t, 'Transmute')
        if meth == 'from_ne_bytes':
            return ret(st, w)
        return ret(st, eng.settype((meth[:7], w), t))
    if meth in ('to_be_bytes', 'to_le_bytes') and lo == 0:
        n = (hi.bit_length() + 7) // 8
        bs = []
        for i in range(n):
            x = eng.binop(st, 'Shr', args[0], cint(8 * i, 'i32'), t)
            bs.append(eng.cast(st, eng.settype(x, t), ('prim', 'u8'), 'IntToInt'))
        return ret(st, ('agg', 'array', '', None, tuple(bs[::-1] if meth == 'to_be_bytes' else bs), ()))
    if pre in ('checked', 'overflowing', 'wrapping', 'saturating') and OPS.get(op) in ('Add', 'Sub', 'Mul'):
        a, b = args
        eng.settype(b, t)
        r = exact(OPS[op], a, b)
        o = eng.ovf(st, OPS[op], a, b, ty, r)
        out = []
        if pre == 'saturating':
            s = st.fork()
            if not eng.branch(s, o, True):
                eng.branch(st, o, False)
                return ret(st, r)
            v = eng.settype(('sat', OPS[op], a, b), t)
            return ret(st, v)
        for s, tv in fork_bool(eng, st, o):
            if pre == 'checked':
                out += ret(s, NONE if tv else some(r))
            elif pre == 'overflowing':
                w = eng.settype(('wrap', OPS[op], a, b), t) if tv else r
                out += ret(s, tup(w, TRUE if tv else FALSE))
            elif pre == 'wrapping':
                out += ret(s, eng.settype(('wrap', OPS[op], a, b), t) if tv else r)
        return out
    if meth in ('checked_div', 'checked_rem'):
        a, b = args
        out = []
        for s, tv in fork_bool(eng, st, eng.binop(st, 'Eq', b, cint(0, ty), t)):
            out += ret(s, NONE if tv else some(eng.binop(s, OPS[op], a, b, t)))
        return out
    if meth in ('min', 'max'):
        return minmax(eng, st, fr, 'std::cmp::' + meth, args, dict(info, margs=(t,)))
    return None


for _t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    for _m in ('max_value', 'min_value', 'from_be', 'to_be', 'swap_bytes', 'from_le', 'to_le', 'from_be_bytes',
               'to_be_bytes', 'to_le_bytes', 'from_le_bytes', 'from_ne_bytes', 'checked_div', 'checked_rem', 'min', 'max') + tuple(
            p + '_' + o for p in ('checked', 'overflowing', 'wrapping', 'saturating') for o in ('add', 'sub', 'mul')):
        REG['%s::%s' % (_t, _m)] = int_method


@model('std::char::from_u32', 'char::from_u32')
def char_from_u32(eng, st, fr, name, args, info):
    v = args[0]
    eng.settype(v, ('prim', 'u32'))
    if v[0] == 'c' and isinstance(v[1], int):
        good = v[1] <= 0x10FFFF and not 0xD800 <= v[1] <= 0xDFFF
        return ret(st, some(('c', v[1], 'char')) if good else NONE)
    t = ('ischar', v)
    eng.types[t] = BOOL
    out = []
    for s, tv in fork_bool(eng, st, t):
        if tv:
            if not eng.branch(s, le(eng, s, v, cint(0x10FFFF, 'u32')), True):
                continue
            out += ret(s, some(eng.settype(('cast', v, 'char'), ('prim', 'char'))))
        else:
            out += ret(s, NONE)
    return out


@model('std::mem::size_of')
def size_of(eng, st, fr, name, args, info):
    t = info['margs'][0] if info.get('margs') else None
    if t is not None:
        n = eng.size_of(T.subst(t, info.get('genv') or {}))
        if n is not None:
            return ret(st, cint(n))
    return ret(st, eng.settype(('sizeof', t), USIZE))


@model('std::mem::align_of')
def align_of(eng, st, fr, name, args, info):
    t = info['margs'][0] if info.get('margs') else None
    if t is not None:
        l = eng.layout(T.subst(t, info.get('genv') or {}))
        if l is not None:
            return ret(st, cint(l[1]))


@model('std::mem::swap')
def mem_swap(eng, st, fr, name, args, info):
    a, b = eng.read_ref(st, args[0]), eng.read_ref(st, args[1])
    eng.write_ref(st, args[0], b, fr, info['span'])
    eng.write_ref(st, args[1], a, fr, info['span'])
    return ret(st, UNIT)


@model('std::mem::drop', 'std::mem::forget')
def mem_drop(eng, st, fr, name, args, info):
    if name.endswith('forget'):
        st.event('call', name, args, dict(info, vals=tuple(args)))
        return ret(st, UNIT)
    t = info['margs'][0] if info.get('margs') else None
    st.nframe += 1
    b = ('l', st.nframe, 'dropped')
    st.mem[b] = args[0]
    return [(k, s, UNIT if k == 'ret' else v) for k, s, v in eng.drop_value(st, fr, b, (), t)]


# ------------------------------------------------------------------ slices
def slice_parts(eng, st, rng, n):
    """(lo, hi, inclusive-obligations) of a range value over length n"""
    if rng[0] == 'agg' and rng[1] == 'adt':
        k = rng[2].rsplit('::', 1)[-1]
        f = rng[4]
        if k == 'Range':
            return f[0], f[1]
        if k == 'RangeFrom':
            return f[0], n
        if k == 'RangeTo':
            return cint(0), f[0]
        if k == 'RangeFull':
            return cint(0), n
        if k == 'RangeInclusive':
            return f[0], eng.binop(st, 'Add', f[1], cint(1), USIZE)
        if k == 'RangeToInclusive':
            return cint(0), eng.binop(st, 'Add', f[0], cint(1), USIZE)
    if rng[0] == 's' and 'RangeFull' in str(rng[1]):
        return cint(0), n
    return None


def slice_get_cases(eng, st, fr, p, idx, info, sty=None):
    """[(state, pointer|None)]"""
    n = eng.ptr_len(st, p, sty)
    rg = slice_parts(eng, st, idx, n)
    if rg is not None:
        lo, hi = rg
        out = []
        for s, a in fork_bool(eng, st, le(eng, st, lo, hi)):
            if not a:
                out.append((s, None))
                continue
            for s2, b in fork_bool(eng, s, le(eng, s, hi, n)):
                if not b:
                    out.append((s2, None))
                else:
                    out.append((s2, eng.subslice(s2, p, lo, eng.binop(s2, 'Sub', hi, lo, USIZE))))
        return out
    eng.settype(idx, USIZE)
    out = []
    for s, a in fork_bool(eng, st, lt(eng, st, idx, n)):
        if a:
            b, pr = eng.deref_loc(s, p)
            out.append((s, ('ref', b, tuple(pr) + (('elem', idx),))))
        else:
            out.append((s, None))
    return out


@model('slice::get', 'slice::get_mut', 'str::get')
def slice_get(eng, st, fr, name, args, info):
    out = []
    for s, p in slice_get_cases(eng, st, fr, args[0], args[1], info):
        out += ret(s, NONE if p is None else some(p))
    return out


@model('std::Index::index', 'std::IndexMut::index_mut')
def index(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    t = selft(info)
    if t is not None and t[0] == 'path' and t[1] in ('std::HashMap', 'std::BTreeMap'):
        m = eng.read_ref(st, args[0])
        k = map_key(eng, st, args[1])
        return [('ret', s, map_cell(eng, s, m, k)) if has else eng.panic(s, fr, 'HashMap::index', args, info['span'])
                for s, has in map_has(eng, st, m, k)]
    out = []
    sty = t if t is not None and t[0] == 'array' else None
    for s, p in slice_get_cases(eng, st, fr, args[0], args[1], info, sty):
        if p is None:
            out.append(eng.panic(s, fr, 'index', args, info['span']))
        else:
            out += ret(s, p)
    return out


@model('slice::len', 'std::Vec::len', 'str::len', 'std::String::len')
def slice_len(eng, st, fr, name, args, info):
    return ret(st, eng.ptr_len(st, args[0], info.get('self')))


@model('slice::is_empty', 'std::Vec::is_empty', 'str::is_empty', 'std::String::is_empty')
def slice_empty(eng, st, fr, name, args, info):
    return ret(st, eng.binop(st, 'Eq', eng.ptr_len(st, args[0], info.get('self')), cint(0), USIZE))


@model('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut')
def slice_first(eng, st, fr, name, args, info):
    n = eng.ptr_len(st, args[0])
    i = cint(0) if 'first' in name else eng.binop(st, 'Sub', n, cint(1), USIZE)
    out = []
    for s, e in fork_bool(eng, st, eng.binop(st, 'Eq', n, cint(0), USIZE)):
        if e:
            out += ret(s, NONE)
        else:
            b, pr = eng.deref_loc(s, args[0])
            out += ret(s, some(('ref', b, tuple(pr) + (('elem', i),))))
    return out


@model('slice::as_ptr', 'slice::as_mut_ptr', 'std::Vec::as_ptr', 'str::as_ptr')
def as_ptr(eng, st, fr, name, args, info):
    p = args[0]
    n = eng.ptr_len(st, p)
    if p[0] == 'subp':
        return ret(st, ('rawp', p[1], p[2], n))
    return ret(st, ('rawp', p, cint(0), n))


@model('slice::split_at')
def split_at(eng, st, fr, name, args, info):
    n = eng.ptr_len(st, args[0])
    out = []
    for s, a in fork_bool(eng, st, le(eng, st, args[1], n)):
        if not a:
            out.append(eng.panic(s, fr, name, args, info['span']))
        else:
            out += ret(s, tup(eng.subslice(s, args[0], cint(0), args[1]),
                              eng.subslice(s, args[0], args[1], eng.binop(s, 'Sub', n, args[1], USIZE))))
    return out


@model('std::TryFrom::try_from', 'std::TryInto::try_into')
def try_from(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    t = selft(info)
    tr = info.get('trait')
    o = tr[2][0] if tr and tr[2] else None
    dst, src = (t, o) if name.endswith('try_from') else (o, t)
    if dst is None:
        return None
    if is_int(dst):
        eng.settype(args[0], src)
        lo, hi = INT_RANGE[dst[1]]
        sty = eng.typeof(args[0]) or src
        out = []
        for s, a in fork_bool(eng, st, le(eng, st, args[0], cint(hi, sty[1]))):
            if not a:
                out += ret(s, err(('s', 'TryFromIntError')))
                continue
            for s2, b in fork_bool(eng, s, eng.binop(s, 'Ge', args[0], cint(lo, sty[1]), sty)):
                out += ret(s2, ok(eng.cast(s2, args[0], dst, 'IntToInt')) if b else err(('s', 'TryFromIntError')))
        return out
    if dst[0] == 'array' and str(dst[2]).isdigit() or dst[0] == 'ref' and dst[2][0] == 'array':
        arr = dst if dst[0] == 'array' else dst[2]
        n = eng.ptr_len(st, args[0])
        out = []
        for s, a in fork_bool(eng, st, eng.binop(st, 'Eq', n, cint(int(arr[2])), USIZE)):
            p = args[0]
            v = ('deref', ('rawp', p[1], p[2], n)) if p[0] == 'subp' else ('deref', ('rawp', p, cint(0), n))
            if dst[0] == 'ref':
                v = v[1]
            out += ret(s, ok(v) if a else err(('s', 'TryFromSliceError')))
        return out
    if name.endswith('try_into') and dst[0] == 'path' and src is not None:
        return trait_call(eng, st, fr, dst, 'std::TryFrom', 'try_from', args, info, (src,))
    return None


# ------------------------------------------------------------------ iterators
def range_like(v):
    return v[0] == 'agg' and v[1] == 'adt' and v[2] in ('std::Range', 'std::RangeInclusive', 'std::RangeFrom')


ITERS = {'std::Range', 'std::RangeInclusive', 'std::RangeFrom', 'std::Rev', 'std::Map', 'std::Zip', 'std::Enumerate',
         'std::Iter', 'std::IterMut', 'std::IntoIter', 'std::Cloned', 'std::Copied', 'std::Skip', 'std::Take', 'std::Filter',
         'std::Chain', 'std::Once', 'std::Peekable', 'std::Chars', 'std::Bytes', 'std::FilterMap', 'std::StepBy'}


def seqit(ptr, lo, hi, mode):
    """iterator over the elements lo..hi of the sequence behind ptr"""
    return ('agg', 'adt', 'vsa::SeqIter', None, (ptr, lo, hi, ('c', mode, 'mode')), ())


@model('slice::iter', 'slice::iter_mut', 'std::Vec::iter')
def slice_iter(eng, st, fr, name, args, info):
    return ret(st, seqit(args[0], cint(0), eng.ptr_len(st, args[0]), 'ref' if not name.endswith('mut') else 'mut'))


@model('std::IntoIterator::into_iter')
def into_iter(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    t = selft(info)
    v = args[0]
    if t is not None:
        if t[0] == 'ref' and (t[2][0] in ('slice', 'array') or t[2][0] == 'path' and t[2][1] in ('std::Vec', 'smallvec::SmallVec')):
            return ret(st, seqit(v, cint(0), eng.ptr_len(st, v, t[2]), 'mut' if t[1] else 'ref'))
        if t[0] == 'array' or t[0] == 'path' and t[1] in ('std::Vec', 'smallvec::SmallVec'):
            st.nframe += 1
            b = ('l', st.nframe, 'seq')
            st.mem[b] = v
            r = ('ref', b, ())
            return ret(st, seqit(r, cint(0), eng.length_of(v, t), 'val'))
        if t[0] == 'path' and t[1] == 'std::Option':
            st.nframe += 1
            return ret(st, ('agg', 'adt', 'vsa::OptIter', None, (v,), ()))
    # an iterator is its own IntoIterator
    return ret(st, v)


@model('std::Iterator::rev')
def it_rev(eng, st, fr, name, args, info):
    return ret(st, ('agg', 'adt', 'std::Rev', None, (args[0],), ()))


@model('std::Iterator::map', 'std::Iterator::filter', 'std::Iterator::filter_map')
def it_map(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    nm = {'map': 'std::Map', 'filter': 'std::Filter', 'filter_map': 'std::FilterMap'}[name.rsplit('::', 1)[1]]
    return ret(st, ('agg', 'adt', nm, None, (args[0], args[1]), ()))


@model('std::Iterator::enumerate')
def it_enum(eng, st, fr, name, args, info):
    return ret(st, ('agg', 'adt', 'std::Enumerate', None, (args[0], cint(0)), ()))


@model('std::Iterator::zip')
def it_zip(eng, st, fr, name, args, info):
    t = (info.get('margs') or [None])[0]
    outs = trait_call(eng, st, fr, t, 'std::IntoIterator', 'into_iter', [args[1]], info) if t else ret(st, args[1])
    return bind(outs, lambda s, x: ret(s, ('agg', 'adt', 'std::Zip', None, (args[0], x), ())))


@model('std::Iterator::chain')
def it_chain(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    t = (info.get('margs') or [None])[0]
    outs = trait_call(eng, st, fr, t, 'std::IntoIterator', 'into_iter', [args[1]], info) if t else ret(st, args[1])
    return bind(outs, lambda s, x: ret(s, ('agg', 'adt', 'std::Chain', None, (args[0], x), ())))


@model('std::Iterator::cloned', 'std::Iterator::copied')
def it_cloned(eng, st, fr, name, args, info):
    return ret(st, ('agg', 'adt', 'std::Cloned', None, (args[0],), ()))


@model('std::Iterator::by_ref')
def it_by_ref(eng, st, fr, name, args, info):
    return ret(st, args[0])


@model('std::RangeInclusive::new')
def ri_new(eng, st, fr, name, args, info):
    return ret(st, ('agg', 'adt', 'std::RangeInclusive', None, (args[0], args[1], FALSE), ()))


@model('std::RangeInclusive::start', 'std::RangeInclusive::end')
def ri_part(eng, st, fr, name, args, info):
    return ret(st, field_ref(args[0], 0 if name.endswith('start') else 1))


@model('std::RangeInclusive::contains', 'std::Range::contains')
def r_contains(eng, st, fr, name, args, info):
    r = eng.read_ref(st, args[0])
    x = eng.read_ref(st, args[1])
    if r[0] != 'agg' and not r[0] == 'upd':
        return None
    lo, hi = eng.proj_value(st, r, ('field', 0)), eng.proj_value(st, r, ('field', 1))
    a = le(eng, st, lo, x)
    b = lt(eng, st, x, hi) if name.startswith('std::Range::') else le(eng, st, x, hi)
    return ret(st, eng.binop(st, 'BitAnd', a, b, BOOL))


@model('std::Iterator::next', 'std::DoubleEndedIterator::next_back')
def it_next(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    p = args[0]
    t = selft(info)
    while t is not None and t[0] == 'ref':
        p = eng.read_ref(st, p)
        t = t[2]
    return iter_step(eng, st, fr, p, name.endswith('next'), info, t)


def iter_step(eng, st, fr, p, fwd, info, t=None):
    b, pr = eng.deref_loc(st, p)
    v = eng.load(st, b, pr)
    fld = lambda i: eng.proj_value(st, v, ('field', i))
    def put(s, i, x):
        eng.store(s, b, tuple(pr) + (('field', i),), x)
    k = iter_kind(v, t)
    if k in ('std::Range', 'vsa::SeqIter'):
        o = 0 if k == 'std::Range' else 1
        lo, hi = fld(o), fld(o + 1)
        ty = None
        if k == 'std::Range':
            ty = t[2][0] if t and t[0] == 'path' and t[2] else eng.typeof(lo) or eng.typeof(hi)
        else:
            ty = USIZE
        eng.settype(lo, ty)
        eng.settype(hi, ty)
        out = []
        for s, a in fork_bool(eng, st, lt(eng, st, lo, hi)):
            if not a:
                out += ret(s, NONE)
                continue
            if fwd:
                x = lo
                put(s, o, eng.binop(s, 'Add', lo, cint(1, ty[1] if ty else 'usize'), ty))
            else:
                x = eng.binop(s, 'Sub', hi, cint(1, ty[1] if ty else 'usize'), ty)
                put(s, o + 1, x)
            if k == 'vsa::SeqIter':
                ptr, mode = fld(0), fld(3)[1]
                if ptr[0] == 'subp' and ptr[1][0] == 'ref' and ptr[1][1][0] == 'l':
                    x = eng.canon(s, eng.binop(s, 'Add', ptr[2], x, USIZE))
                    ptr = ptr[1]
                b2, pr2 = eng.deref_loc(s, ptr)
                r = ('ref', b2, tuple(pr2) + (('elem', x),))
                if mode == 'val':
                    x = eng.load(s, b2, tuple(pr2) + (('elem', x),))
                else:
                    x = r + (('shr',) if mode == 'ref' else ())
            out += ret(s, some(x))
        return out
    if k == 'std::RangeInclusive':
        lo, hi, done = fld(0), fld(1), fld(2)
        ty = (t[2][0] if t and t[0] == 'path' and t[2] else None) or eng.typeof(lo) or eng.typeof(hi)
        eng.settype(lo, ty)
        eng.settype(hi, ty)
        eng.types.setdefault(done, BOOL)
        out = []
        for s, d in fork_bool(eng, st, done):
            if d:
                out += ret(s, NONE)
                continue
            for s2, a in fork_bool(eng, s, le(eng, s, lo, hi)):
                if not a:
                    out += ret(s2, NONE)
                    continue
                for s3, l in fork_bool(eng, s2, lt(eng, s2, lo, hi)):
                    one = cint(1, ty[1] if ty else 'u32')
                    if fwd:
                        x = lo
                        if l:
                            put(s3, 0, eng.binop(s3, 'Add', lo, one, ty))
                        else:
                            put(s3, 2, TRUE)
                    else:
                        x = hi
                        if l:
                            put(s3, 1, eng.binop(s3, 'Sub', hi, one, ty))
                        else:
                            put(s3, 2, TRUE)
                    out += ret(s3, some(x))
        return out
    if k == 'std::Rev':
        return sub_step(eng, st, fr, field_ref(p, 0), not fwd, info, t[2][0] if t and t[0] == 'path' and t[2] else None)
    if k == 'vsa::OptIter':
        o = fld(0)
        cs = split(eng, st, o, ('path', 'std::Option', (('?', ''),)))
        out = []
        for s, nm, f in cs:
            put(s, 0, NONE)
            out += ret(s, some(f[0]) if nm == 'Some' else NONE)
        return out
    if k == 'std::Successors' and fwd and v[0] == 'agg':
        # the next value is computed before the current one is handed out
        out = []
        for s, nm, f in split(eng, st, fld(0), ('path', 'std::Option', (('?', ''),))):
            if nm == 'None':
                out += ret(s, NONE)
                continue
            put(s, 0, NONE)
            def keep(s2, y, x=f[0]):
                put(s2, 0, y)
                return ret(s2, some(x))
            out += bind(eng.call_value(s, fr, field_ref(p, 1), [('cref', f[0])], info['span']), keep)
        return out
    if k == 'std::Cloned':
        outs = sub_step(eng, st, fr, field_ref(p, 0), fwd, info, t[2][0] if t and t[0] == 'path' and t[2] else None)
        def cl(s, x):
            cs = split(eng, s, x, ('path', 'std::Option', (('?', ''),)))
            o = []
            for s2, nm, f in cs:
                o += ret(s2, some(eng.read_ref(s2, f[0])) if nm == 'Some' else NONE)
            return o
        return bind(outs, cl)
    if k in ('std::Map', 'std::Enumerate', 'std::Zip') and fwd or k == 'std::Map':
        outs = sub_step(eng, st, fr, field_ref(p, 0), fwd, info, t[2][0] if t and t[0] == 'path' and t[2] else None)
        def go(s, x):
            cs = split(eng, s, x, ('path', 'std::Option', (('?', ''),)))
            o = []
            for s2, nm, f in cs:
                if nm == 'None':
                    o += ret(s2, NONE)
                elif k == 'std::Map':
                    clo = field_ref(p, 1)
                    o += bind(eng.call_value(s2, fr, clo, [f[0]], info['span']), lambda s3, y: ret(s3, some(y)))
                elif k == 'std::Enumerate':
                    n = eng.load(s2, b, tuple(pr) + (('field', 1),))
                    eng.settype(n, USIZE)
                    eng.store(s2, b, tuple(pr) + (('field', 1),), eng.binop(s2, 'Add', n, cint(1), USIZE))
                    o += ret(s2, some(tup(n, f[0])))
                else:
                    r = sub_step(eng, s2, fr, field_ref(p, 1), fwd, info, t[2][1] if t and t[0] == 'path' and len(t[2]) > 1 else None)
                    def fin(s3, y, x0=f[0]):
                        q = []
                        for s4, nm2, g in split(eng, s3, y, ('path', 'std::Option', (('?', ''),))):
                            q += ret(s4, some(tup(x0, g[0])) if nm2 == 'Some' else NONE)
                        return q
                    o += bind(r, fin)
            return o
        return bind(outs, go)
    if k == 'std::Chain':
        # both are asked as if fused: none that is known here goes on after its end
        g = t[2] if t and t[0] == 'path' and len(t[2]) > 1 else (None, None)
        i, j = (0, 1) if fwd else (1, 0)

        def second(s, x):
            o = []
            for s2, nm, f in split(eng, s, x, ('path', 'std::Option', (('?', ''),))):
                o += ret(s2, some(f[0])) if nm == 'Some' else sub_step(eng, s2, fr, field_ref(p, j), fwd, info, g[j])
            return o
        return bind(sub_step(eng, st, fr, field_ref(p, i), fwd, info, g[i]), second)
    if k == 'vsa::Chunks' and fwd:
        return chunk_step(eng, st, fr, p, v)
    if k in ('std::Filter', 'std::FilterMap') and fwd:
        g = t[2] if t and t[0] == 'path' and len(t[2]) > 1 else (None, None)
        return prelude(eng, st, fr, 'filter_next' if k == 'std::Filter' else 'filter_map_next',
                       [field_ref(p, 0), field_ref(p, 1)], info, I=g[0], F=g[1])
    # unknown iterator
    info2 = dict(info)
    return eng.opaque_call(st, fr, 'std::Iterator::next' if fwd else 'std::DoubleEndedIterator::next_back', [p], info2)


ADAPTORS = ('std::Map', 'std::Filter', 'std::FilterMap', 'std::Enumerate', 'std::Zip', 'std::Cloned', 'std::Copied',
            'std::Rev', 'std::Range', 'std::RangeInclusive')


def iter_kind(v, t):
    if v[0] == 'agg' and v[1] == 'adt':
        return v[2]
    if v[0] == 'upd' and v[1][0] == 'agg':
        return v[1][2]
    if t is not None and t[0] == 'path' and t[1] in ('std::Range', 'std::RangeInclusive', 'std::Rev'):
        return t[1]
    return None


def sub_step(eng, st, fr, p, fwd, info, t):
    if t is not None and t[0] != '?' and t[0] != 'param':
        while t[0] == 'ref':
            p = eng.read_ref(st, p)
            t = t[2]
        nm, key, env, inf = eng.resolve(('trait', t, ('path', 'std::Iterator' if fwd else 'std::DoubleEndedIterator', ()),
                                         'next' if fwd else 'next_back', ()), {})
        if key is not None:
            return trait_call(eng, st, fr, t, 'std::Iterator' if fwd else 'std::DoubleEndedIterator',
                              'next' if fwd else 'next_back', [p], info)
    return iter_step(eng, st, fr, p, fwd, info, t)


@model('std::iter::successors')
def it_successors(eng, st, fr, name, args, info):
    return ret(st, ('agg', 'adt', 'std::Successors', None, (args[0], args[1]), ()))


@model('std::NonZeroUsize::new')
def nonzero_new(eng, st, fr, name, args, info):
    """a non-zero number stands for itself"""
    out = []
    for s, z in fork_bool(eng, st, eng.binop(st, 'Eq', args[0], cint(0), USIZE)):
        out += ret(s, NONE if z else some(args[0]))
    return out


# ------------------------------------------------------------------ consumers: loops of prelude.rs
def prelude(eng, st, fr, name, args, info, **gen):
    key = 'vsa::prelude::' + name
    env = {k: v for k, v in gen.items() if v is not None}
    if fr.stack.count(key) >= max(3, eng.rec_limit):
        return eng.opaque_call(st, fr, 'std::Iterator::' + name, args, info)
    return eng.run_fn(key, eng.p.bodies[key], args, st, env, fr.depth + 1, fr.stack)


def at(info, i):
    t = (info.get('atys') or ())
    return t[i] if i < len(t) else None


def filtered(it, t):
    """an adaptor on the outside, and some filter in it"""
    while it[0] == 'agg' and t is not None and t[0] == 'path' and t[1] in ('std::Map', 'std::Filter', 'std::FilterMap') and it[2] == t[1]:
        if t[1] != 'std::Map':
            return True
        it, t = it[4][0], t[2][0]
    return False


@model('std::Iterator::for_each', 'std::Iterator::fold', 'std::Iterator::count', 'std::Iterator::last')
def it_consume(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    it, t = args[0], at(info, 0)
    if name.endswith('for_each') and it[0] == 'agg' and it[2] == 'std::Chain' and t is not None and t[:2] == ('path', 'std::Chain'):
        return prelude(eng, st, fr, 'for_each_chain', [it[4][0], it[4][1], args[1]], info, A=t[2][0], B=t[2][1], F=at(info, 1))
    if name.endswith('for_each') and filtered(it, t):
        nm = {'std::Map': 'for_each_map', 'std::Filter': 'for_each_filter', 'std::FilterMap': 'for_each_filter_map'}[it[2]]
        return prelude(eng, st, fr, nm, [it[4][0], it[4][1], args[1]], info, I=t[2][0], F=at(info, 1),
                       **({'P': t[2][1]} if nm == 'for_each_filter' else {'G': t[2][1]}))
    return prelude(eng, st, fr, name.rsplit('::', 1)[1], args, info, I=at(info, 0),
                   F=at(info, len(args) - 1) if len(args) > 1 else None, B=at(info, 1) if len(args) > 2 else None)


@model('std::Iterator::any', 'std::Iterator::all', 'std::Iterator::find', 'std::Iterator::find_map',
       'std::Iterator::position', 'std::Iterator::nth')
def it_search(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    t = at(info, 0)
    return prelude(eng, st, fr, name.rsplit('::', 1)[1], args, info,
                   I=t[2] if t and t[0] == 'ref' else None, F=at(info, 1))


@model('std::HashSet::new', 'std::BTreeSet::new', 'std::HashSet::with_capacity')
def set_new(eng, st, fr, name, args, info):
    return ret(st, ('agg', 'adt', 'vsa::Set', None, (('vec0',),), ()))


def set_has(eng, st, v, x):
    """[(state, whether the set, made of listed values, has x)]; None if what is in it is not known"""
    if v[0] != 'agg' or v[2] != 'vsa::Set':
        return None
    v = v[4][0]
    items = []
    while v[0] == 'vpush':
        items.append(v[2])
        v = v[1]
    if v != ('vec0',):
        return None
    x = eng.read_ref(st, x) if x[0] in ('ref', 'cref') else x
    cur, out = [st], []
    for y in items[::-1]:
        y2 = y
        nxt = []
        for s in cur:
            if y2[0] in ('ref', 'cref'):
                y2 = eng.read_ref(s, y2)
            for s2, b in fork_bool(eng, s, val_eq(eng, s, y2, x, None)):
                (out if b else nxt).append((s2, True) if b else s2)
        cur = nxt
    return out + [(s, False) for s in cur]


@model('std::HashSet::contains', 'std::BTreeSet::contains')
def set_contains(eng, st, fr, name, args, info):
    r = set_has(eng, st, eng.read_ref(st, args[0]), args[1])
    return None if r is None else [('ret', s, TRUE if b else FALSE) for s, b in r]


@model('std::HashSet::insert', 'std::BTreeSet::insert')
def set_insert(eng, st, fr, name, args, info):
    v = eng.read_ref(st, args[0])
    r = set_has(eng, st, v, args[1])
    if r is None:
        return None
    out = []
    for s, b in r:
        if not b:
            eng.write_ref(s, args[0], ('agg', 'adt', 'vsa::Set', None, (('vpush', v[4][0], args[1]),), ()), fr, info['span'])
        out += ret(s, FALSE if b else TRUE)
    return out


@model('std::Iterator::try_for_each')
def it_try(eng, st, fr, name, args, info):
    m = info.get('margs') or ()
    if info.get('key') or not m or m[-1][:2] != ('path', 'std::Result'):
        return None
    t = at(info, 0)
    return prelude(eng, st, fr, 'try_for_each', args, info, I=t[2] if t and t[0] == 'ref' else None, F=at(info, 1))


@model('std::Iterator::collect')
def it_collect(eng, st, fr, name, args, info):
    m = info.get('margs') or ()
    if info.get('key') or not m or m[0][0] != 'path':
        return None
    t = m[0]
    inner = t[2][0] if t[2] else None
    vec = lambda x: x is not None and x[:2] == ('path', 'std::Vec')
    if vec(t):
        return prelude(eng, st, fr, 'collect_vec_each' if filtered(args[0], at(info, 0)) else 'collect_vec', args, info, I=at(info, 0))
    it = at(info, 0)
    if t[1] == 'std::String' and it is not None and it[0] == 'path' and it[1] == 'std::Map' and args[0][0] == 'agg':
        clo = args[0][4][1]
        fn = eng.p.bodies.get(clo[2]) if clo[0] == 'agg' and clo[1] == 'closure' else None
        if fn is not None and fn.ret == 'char':
            return prelude(eng, st, fr, 'collect_string', args, info, I=it)
    if t[1] in ('std::HashSet', 'std::BTreeSet'):
        outs = prelude(eng, st, fr, 'collect_vec_each' if filtered(args[0], at(info, 0)) else 'collect_vec', args, info, I=at(info, 0))
        return bind(outs, lambda s, v: ret(s, ('agg', 'adt', 'vsa::Set', None, (v,), ())))
    if t[1] == 'std::Result' and vec(inner):
        return prelude(eng, st, fr, 'collect_result_vec', args, info, I=at(info, 0), T=inner[2][0], E=t[2][1])
    if t[1] == 'std::Result' and inner == ('tuple', ()):
        return prelude(eng, st, fr, 'collect_result_unit', args, info, I=at(info, 0), E=t[2][1])
    if t[1] == 'std::Option' and vec(inner):
        return prelude(eng, st, fr, 'collect_option_vec', args, info, I=at(info, 0), T=inner[2][0])
    return None


# ------------------------------------------------------------------ closures
@model('std::FnMut::call_mut', 'std::Fn::call', 'std::FnOnce::call_once')
def fn_call(eng, st, fr, name, args, info):
    tupv = args[1]
    if tupv[0] == 'agg' and tupv[1] == 'tuple':
        a = list(tupv[4])
    else:
        t = info['atys'][1] if info.get('atys') else None
        n = len(t[1]) if t and t[0] == 'tuple' else 0
        a = [eng.settype(('fld', tupv, i), t[1][i]) for i in range(n)]
    return eng.call_value(st, fr, args[0], a, info['span'])


# ------------------------------------------------------------------ allocation
@model('std::Box::new', 'std::Arc::new', 'std::Rc::new')
def box_new(eng, st, fr, name, args, info):
    st.nframe += 1
    b = ('l', st.nframe, 'box')
    st.mem[b] = args[0]
    return ret(st, ('agg', 'adt', name.rsplit('::', 1)[0], None, (('ref', b, ()),), ()))


def const_text(eng, st, p):
    """the bytes of a constant string"""
    for _ in range(4):
        if p[0] in ('ref', 'cref'):
            p = eng.read_ref(st, p)
    if p[0] != 'c' or not isinstance(p[1], (str, bytes)):
        return None
    return p[1].encode() if isinstance(p[1], str) else p[1]


@model('str::to_ascii_lowercase', 'str::to_ascii_uppercase', 'str::to_lowercase', 'str::to_uppercase')
def case_const(eng, st, fr, name, args, info):
    """of a constant"""
    x = const_text(eng, st, args[0])
    if x is None:
        return None
    x = x.decode()
    if not x.isascii():
        return None
    return ret(st, ('c', x.lower() if 'lower' in name else x.upper(), '&str'))


@model('str::eq_ignore_ascii_case')
def eq_ignore_const(eng, st, fr, name, args, info):
    """of two constants"""
    x, y = const_text(eng, st, args[0]), const_text(eng, st, args[1])
    if x is None or y is None:
        return None
    return ret(st, TRUE if x.lower() == y.lower() else FALSE)


@model('std::Cow::to_mut')
def cow_to_mut(eng, st, fr, name, args, info):
    """the owned value in it, copied there first if it was borrowed"""
    v = eng.read_ref(st, args[0])
    if v[0] != 'agg' or v[3] not in ('Borrowed', 'Owned'):
        return None
    if v[3] == 'Borrowed':
        eng.write_ref(st, args[0], ('agg', 'adt', 'std::Cow', 'Owned', (eng.read_ref(st, v[4][0]),), ()), fr, info['span'])
    return ret(st, field_ref(args[0], 0))


@model('std::alloc::exchange_malloc')
def box_raw(eng, st, fr, name, args, info):
    """the block of a box whose content is written afterwards (vec![...])"""
    st.nframe += 1
    return ret(st, ('agg', 'adt', 'std::Box', None, (('ref', ('l', st.nframe, 'box'), ()),), ()))


@model('std::Arc::make_mut', 'std::Rc::make_mut')
def make_mut(eng, st, fr, name, args, info):
    """copy on write: the place holds a pointer of its own to a copy of the old content"""
    v = eng.read_ref(st, args[0])
    kind = name.rsplit('::', 1)[0]
    if v[0] == 'agg' and v[2] == kind and len(v[4]) == 1:
        content = eng.read_ref(st, v[4][0])
    elif v[0] == 'agg':
        return None
    else:
        content = eng.read_ref(st, v)
    t = selft(info)
    if t is not None:
        eng.settype(content, t)
    st.nframe += 1
    b = ('l', st.nframe, 'box')
    st.mem[b] = content
    eng.write_ref(st, args[0], ('agg', 'adt', kind, None, (('ref', b, ()),), ()), fr, info['span'])
    return ret(st, ('ref', b, ()))


# ------------------------------------------------------------------ lazy statics / euclid
@model('lazy_static::Lazy::get')
def lazy_get(eng, st, fr, name, args, info):
    im = eng.p.impl_of.get(info['fn'].rpartition('::')[0])
    return ret(st, ('lazy', T.show(im.for_) if im else info['fn']))


@model('euclid::Length::new', 'euclid::TypedScale::new')
def eu_new(eng, st, fr, name, args, info):
    return ret(st, ('agg', 'adt', name.rsplit('::', 1)[0], None, (args[0],), ()))


@model('euclid::Length::get', 'euclid::TypedScale::get')
def eu_get(eng, st, fr, name, args, info):
    v = args[0]
    if v[0] == 'ref':
        v = eng.read_ref(st, v)
    return ret(st, eng.proj_value(st, v, ('field', 0), selft(info, 0)))


UNIT = ('c', (), '()')


def eu_pair(kind, x, y):
    return ('agg', 'adt', 'euclid::' + kind, None, (x, y, UNIT), ())


@model('euclid::TypedPoint2D::new', 'euclid::point2')
def eu_point(eng, st, fr, name, args, info):
    return ret(st, eu_pair('TypedPoint2D', *args))


@model('euclid::TypedSize2D::new', 'euclid::size2')
def eu_size(eng, st, fr, name, args, info):
    return ret(st, eu_pair('TypedSize2D', *args))


@model('euclid::TypedPoint2D::from_lengths', 'euclid::TypedSize2D::from_lengths')
def eu_from_lengths(eng, st, fr, name, args, info):
    vs = [a[4][0] if a[0] == 'agg' else ('fld', a, 0) for a in args]
    return ret(st, eu_pair(name.split('::')[1], *vs))


@model('euclid::TypedRect::new')
def eu_rect_new(eng, st, fr, name, args, info):
    return ret(st, ('agg', 'adt', 'euclid::TypedRect', None, tuple(args), ()))


@model('euclid::rect')
def eu_rect(eng, st, fr, name, args, info):
    return ret(st, ('agg', 'adt', 'euclid::TypedRect', None, (eu_pair('TypedPoint2D', *args[:2]), eu_pair('TypedSize2D', *args[2:])), ()))


def channel(i):
    def f(eng, st, fr, name, args, info):
        c = eng.read_ref(st, args[0]) if args[0][0] == 'ref' else ('deref', args[0])
        v = eng.proj_value(st, c, ('field', i), ('prim', 'u8'))
        return ret(st, ('bin', 'Div', ('cast', v, ('prim', 'f32')), ('c', 255.0, 'f32')))
    return f


for i, n in enumerate(('red', 'green', 'blue', 'alpha')):
    model('cssparser::RGBA::%s_f32' % n)(channel(i))


# ------------------------------------------------------------------ panicking std functions
def may_panic(eng, st, fr, name, args, info):
    a = st.fork()
    out = [eng.panic(a, fr, name, args, info['span'])]
    info = dict(info)
    return out + eng.opaque_call(st, fr, name, args, info)


for _n in ('std::Vec::remove', 'std::Vec::insert', 'std::Vec::swap_remove', 'std::Vec::drain', 'std::Vec::split_off',
           'slice::copy_from_slice', 'slice::clone_from_slice', 'slice::split_at_mut', 'slice::swap', 'slice::windows',
           'slice::chunks_exact', 'slice::rotate_left', 'slice::rotate_right', 'str::split_at', 'std::String::remove',
           'std::String::insert', 'std::String::truncate', 'std::String::drain', 'std::String::split_off',
           'std::RefCell::borrow', 'std::RefCell::borrow_mut', 'atomic_refcell::AtomicRefCell::borrow',
           'atomic_refcell::AtomicRefCell::borrow_mut', 'std::Iterator::step_by', 'char::to_digit', 'std::char::from_digit',
           'u32::pow', 'u64::pow', 'usize::pow', 'i32::pow', 'i64::pow', 'i32::abs', 'i64::abs', 'std::Duration::from_secs_f32',
           'std::process::exit', 'std::process::abort', 'std::Ord::clamp', 'f32::clamp', 'std::slice::from_raw_parts',
           'std::Arc::try_unwrap_unchecked'):
    if _n not in ('std::process::exit', 'std::process::abort', 'std::slice::from_raw_parts'):
        REG[_n] = may_panic


@model('slice::chunks')
def chunks(eng, st, fr, name, args, info):
    out = []
    for s, z in fork_bool(eng, st, eng.binop(st, 'Eq', args[1], cint(0), USIZE)):
        if z:
            out.append(eng.panic(s, fr, name, args, info['span']))
        else:
            out += ret(s, ('agg', 'adt', 'vsa::Chunks', None, (args[0], cint(0), args[1]), ()))
    return out


def chunk_step(eng, st, fr, p, v):
    b, pr = eng.deref_loc(st, p)
    ptr, pos, n = (eng.proj_value(st, v, ('field', i)) for i in range(3))
    eng.settype(pos, USIZE)
    eng.settype(n, USIZE)
    ln = eng.ptr_len(st, ptr)
    eng.settype(ln, USIZE)
    out = []
    for s, more in fork_bool(eng, st, lt(eng, st, pos, ln)):
        if not more:
            out += ret(s, NONE)
            continue
        left = eng.binop(s, 'Sub', ln, pos, USIZE)
        for s2, full in fork_bool(eng, s, le(eng, s, n, left)):
            k = n if full else left
            x = eng.subslice(s2, ptr, pos, k)
            eng.store(s2, b, tuple(pr) + (('field', 1),), eng.canon(s2, eng.binop(s2, 'Add', pos, k, USIZE)))
            out += ret(s2, some(x))
    return out


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def copy_from_slice(eng, st, fr, name, args, info):
    """panics unless the lengths agree; a whole local array becomes a copy of the source"""
    d, src = args
    n, m = eng.ptr_len(st, d), eng.ptr_len(st, src)
    out = []
    for s, same in fork_bool(eng, st, eng.binop(st, 'Eq', n, m, USIZE)):
        if not same:
            out.append(eng.panic(s, fr, name, args, info['span']))
            continue
        whole = d[1] if d[0] == 'subp' and d[2][:2] == ('c', 0) else d
        v = None
        if whole[0] == 'ref':
            v = eng.read_ref(s, whole)
            t = eng.typeof(v) or (('array', None, v[2][1]) if v[0] == 'repeat' and v[2][0] == 'c' else None)
            ln = eng.length_of(v, t)
        acc = {}
        d = lin.add(eng.lf(s, ln, acc), eng.lf(s, n, acc), 1, -1) if v is not None else None
        if v is not None and eng.prove(s, d, acc) and eng.prove(s, lin.scale(d, -1), acc):
            k = n if n[0] == 'c' else m
            new = ('deref', ('rawp', src[1], src[2], k)) if src[0] == 'subp' else ('deref', ('rawp', src, cint(0), k))
            eng.write_ref(s, whole, new)
            out += ret(s, UNIT)
        else:
            out += eng.opaque_call(s, fr, name, args, dict(info))
    return out


# ------------------------------------------------------------------ maps: ('map0',), ('mins', map, key, value)
@model('std::HashMap::new', 'std::HashMap::with_capacity', 'std::BTreeMap::new')
def map_new(eng, st, fr, name, args, info):
    return ret(st, ('map0',))


@model('std::HashMap::len', 'std::BTreeMap::len')
def map_len(eng, st, fr, name, args, info):
    return ret(st, eng.settype(('len', eng.read_ref(st, args[0])), USIZE))


def map_key(eng, st, k):
    while k[0] == 'ref':
        k = eng.read_ref(st, k)
    return k


def map_has(eng, st, m, k):
    """[(state, bool)]: whether the map has the key"""
    t = ('mhas', m, k)
    if t in st.facts:
        return [(st, st.facts[t])]
    if m == ('map0',):
        return [(st, False)]
    if m[0] == 'mins' and m[2] == k:
        return [(st, True)]
    a, b = st.fork(), st.fork()
    a.facts[t] = True
    b.facts[t] = False
    return [(a, True), (b, False)]


def map_cell(eng, st, m, k):
    if m[0] == 'mins' and m[2] == k:
        base = ('h', ('mval', m, k))
        if base not in st.mem:
            st.mem[base] = m[3]
        return ('ref', base, ())
    return ('ref', ('h', ('mval', m, k)), ())


def map_insert(eng, st, mp, k, v):
    m = ('mins', eng.read_ref(st, mp), k, v)
    eng.write_ref(st, mp, m)
    st.mem[('h', ('mval', m, k))] = v
    return ('ref', ('h', ('mval', m, k)), ())


@model('std::HashMap::entry', 'std::BTreeMap::entry')
def map_entry(eng, st, fr, name, args, info):
    m = eng.read_ref(st, args[0])
    out = []
    for s, has in map_has(eng, st, m, map_key(eng, st, args[1])):
        e = ('mentry', args[0], m, map_key(eng, st, args[1]))
        out += ret(s, adt('std::Entry', 'Occupied' if has else 'Vacant', e))
    return out


def entry_of(v):
    return v if v[0] == 'mentry' else None


@model('std::OccupiedEntry::get', 'std::OccupiedEntry::get_mut', 'std::OccupiedEntry::into_mut')
def occ_get(eng, st, fr, name, args, info):
    e = args[0]
    while e[0] == 'ref':
        e = eng.read_ref(st, e)
    if e[0] != 'mentry':
        return None
    return ret(st, map_cell(eng, st, e[2], e[3]))


@model('std::VacantEntry::insert')
def vac_insert(eng, st, fr, name, args, info):
    if args[0][0] != 'mentry':
        return None
    return ret(st, map_insert(eng, st, args[0][1], args[0][3], args[1]))


@model('std::Entry::or_insert_with', 'std::Entry::or_insert')
def or_insert(eng, st, fr, name, args, info):
    e = args[0]
    if e[0] != 'agg' or e[3] not in ('Occupied', 'Vacant') or e[4][0][0] != 'mentry':
        return None
    me = e[4][0]
    if e[3] == 'Occupied':
        return ret(st, map_cell(eng, st, me[2], me[3]))
    if name.endswith('or_insert'):
        return ret(st, map_insert(eng, st, me[1], me[3], args[1]))
    return bind(eng.call_value(st, fr, args[1], [], info.get('span')),
                lambda s, v: ret(s, map_insert(eng, s, me[1], me[3], v)))


@model('std::HashMap::get', 'std::HashMap::get_mut', 'std::BTreeMap::get')
def map_get(eng, st, fr, name, args, info):
    m = eng.read_ref(st, args[0])
    k = map_key(eng, st, args[1])
    out = []
    for s, has in map_has(eng, st, m, k):
        out += ret(s, some(map_cell(eng, s, m, k)) if has else NONE)
    return out


@model('std::HashMap::contains_key', 'std::BTreeMap::contains_key')
def map_contains(eng, st, fr, name, args, info):
    m = eng.read_ref(st, args[0])
    return [('ret', s, TRUE if has else FALSE) for s, has in map_has(eng, st, m, map_key(eng, st, args[1]))]


@model('std::HashMap::insert', 'std::BTreeMap::insert')
def map_ins(eng, st, fr, name, args, info):
    k = map_key(eng, st, args[1])
    out = []
    for s, has in map_has(eng, st, eng.read_ref(st, args[0]), k):
        old = ('mval', eng.read_ref(s, args[0]), k)
        map_insert(eng, s, args[0], k, args[2])
        out += ret(s, some(('deref', old)) if has else NONE)
    return out


# ------------------------------------------------------------------ vectors: length and contents as terms
@model('std::Vec::new', 'std::Vec::with_capacity', 'std::String::new', 'std::String::with_capacity', 'smallvec::SmallVec::new')
def vec_new(eng, st, fr, name, args, info):
    return ret(st, ('vec0',))


@model('std::Vec::push', 'smallvec::SmallVec::push', 'std::String::push')
def vec_push(eng, st, fr, name, args, info):
    o = eng.read_ref(st, args[0])
    info = dict(info)
    info['vals'] = (o, args[1])
    info['stack'] = fr.stack
    st.event('call', name, args, info)
    n = ('vpush', o, args[1])
    eng.settype(n, eng.typeof(o))
    eng.write_ref(st, args[0], n)
    return ret(st, UNIT)


@model('std::Vec::pop')
def vec_pop(eng, st, fr, name, args, info):
    """of a vector known down to its last item"""
    o = eng.read_ref(st, args[0])
    if o[0] not in ('vec0', 'vpush'):
        return None
    info = dict(info)
    info['vals'] = (o,)
    info['stack'] = fr.stack
    st.event('call', name, args, info)
    if o[0] == 'vec0':
        return ret(st, NONE)
    eng.write_ref(st, args[0], o[1])
    return ret(st, some(o[2]))


@model('std::Vec::extend_from_slice', 'std::String::push_str')
def vec_extend(eng, st, fr, name, args, info):
    o = eng.read_ref(st, args[0])
    info = dict(info)
    info['vals'] = tuple(eng.snapshot(st, a) for a in args)
    info['stack'] = fr.stack
    st.event('call', name, args, info)
    cs = known_items(eng, st, args[1]) if getattr(eng, 'chars', None) is not None else None
    if cs is not None:
        n = o
        for c in cs:
            n = ('vpush', n, c)
    else:
        n = ('vext', o, eng.read_ref(st, args[1]) if args[1][0] != 'subp' else args[1], eng.ptr_len(st, args[1]))
    eng.settype(n, eng.typeof(o))
    eng.write_ref(st, args[0], n)
    return ret(st, UNIT)


@model('std::Default::default')
def default_vec(eng, st, fr, name, args, info):
    t = info.get('self')
    if info.get('key') or t is None or t[0] != 'path' or t[1] not in ('std::Vec', 'std::String', 'std::Option'):
        return None
    return ret(st, ('vec0',) if t[1] != 'std::Option' else NONE)


@model('std::Vec::append')
def vec_append(eng, st, fr, name, args, info):
    """the items of one vector moved to the end of another, where both are known"""
    v = eng.read_ref(st, args[1])
    items = []
    while v[0] == 'vpush':
        items.append(v[2])
        v = v[1]
    if v != ('vec0',):
        return None
    o = eng.read_ref(st, args[0])
    info = dict(info)
    info['vals'] = tuple(eng.snapshot(st, a) for a in args)
    info['stack'] = fr.stack
    st.event('call', name, args, info)
    for x in reversed(items):
        o = ('vpush', o, x)
    eng.write_ref(st, args[0], o)
    eng.write_ref(st, args[1], v)
    return ret(st, UNIT)


@model('std::Extend::extend')
def extend_slice(eng, st, fr, name, args, info):
    """a vector of bytes extended with the items of a slice"""
    atys = info.get('atys') or ()
    if len(atys) < 2 or atys[1] is None or atys[0] is None:
        return None
    d, t = strip(atys[0]), atys[1]
    if args[1][0] == 'c' and isinstance(args[1][1], bytes):
        t = ('ref', False, ('slice', ('prim', 'u8')))
    if d[0] == 'path' and d[1] == 'std::Vec' and t[0] == 'path' and t[1] in ADAPTORS:
        return prelude(eng, st, fr, 'extend_vec_each' if filtered(args[1], t) else 'extend_vec', args, info, I=t, T=d[2][0] if d[2] else None)
    if d[0] == 'path' and d[1] == 'smallvec::SmallVec' and t[0] == 'path' and t[1] in ADAPTORS:
        e = d[2][0] if d[2] else None
        return prelude(eng, st, fr, 'extend_vec_each' if filtered(args[1], t) else 'extend_vec', args, info, I=t, **({'T': e[1]} if e and e[0] == 'array' else {}))
    if t[0] != 'ref' or d[0] != 'path' or d[1] not in ('std::Vec', 'std::String'):
        return None
    t = strip(t)
    if not (t[0] in ('slice', 'array') and t[1] == ('prim', 'u8') or
            t[0] == 'path' and t[1] == 'std::Vec' and t[2] and t[2][0] == ('prim', 'u8')):
        return None
    return vec_extend(eng, st, fr, 'std::Vec::extend_from_slice', args, info)


@model('slice::to_vec', 'slice::into_vec')
def to_vec(eng, st, fr, name, args, info):
    if args[0][0] == 'agg' and args[0][2] == 'std::Box' and len(args[0][4]) == 1:
        c = eng.read_ref(st, args[0][4][0])
        if c[0] == 'agg' and c[1] == 'array':
            v = ('vec0',)
            for x in c[4]:
                v = ('vpush', v, x)
            return ret(st, v)
    n = ('vext', ('vec0',), eng.read_ref(st, args[0]) if args[0][0] != 'subp' else args[0], eng.ptr_len(st, args[0]))
    return ret(st, n)


# ------------------------------------------------------------------ texts known character by character
def known_items(eng, st, p):
    """the items behind a pointer to (a part of) a sequence whose items are all known"""
    if p[0] == 'c' and isinstance(p[1], str):
        return [('c', c, 'char') for c in p[1]]
    lo = 0
    if p[0] == 'subp':
        if p[2][0] != 'c' or p[3][0] != 'c':
            return None
        lo, n, p = p[2][1], p[3][1], p[1]
    else:
        n = None
    if p[0] == 'c' and isinstance(p[1], str):
        return known_items(eng, st, p)[lo:lo + n] if n is not None else None
    v = eng.read_ref(st, p)
    for _ in range(3):
        if v[0] in ('ref', 'subp', 's', 'cref') and (v[0] != 's' or ('h', v) in st.mem):
            if v[0] == 'subp':
                return known_items(eng, st, v)
            v = eng.read_ref(st, v)
    out = []
    while v[0] == 'vpush':
        out.append(v[2])
        v = v[1]
    if v != ('vec0',):
        return None
    out.reverse()
    return out[lo:] if n is None else out[lo:lo + n]


def text_of(eng, st, p):
    """characters of a text known character by character; constants are left to the other models"""
    while p[0] in ('ref', 'cref'):
        q = eng.read_ref(st, p)
        if q[0] not in ('ref', 'cref', 'subp', 'c') and not (q[0] == 's' and ('h', q) in st.mem):
            break
        p = q
    if p[0] == 'c':
        return None, None
    return p, known_items(eng, st, p)


def matches(eng, st, fr, pat, ch, info):
    """[(state, whether a pattern matches a character)]"""
    while pat[0] in ('ref', 'cref') and eng.find_closure(st, pat)[0] is None:
        pat = eng.read_ref(st, pat)
    if pat[0] == 'c' and isinstance(pat[1], (str, int)) and len(str(pat[1])) >= 1:
        p = pat[1] if isinstance(pat[1], str) else chr(pat[1])
        if len(p) != 1:
            return None
        if ch[0] == 'c':
            return [(st, (ch[1] if isinstance(ch[1], str) else chr(ch[1])) == p)]
        k = getattr(eng, 'chars', {}).get(ch)
        if k in ('letter', 'wide'):
            return [(st, False)] if p in ' \t\n\r\x0c' else fork_bool(eng, st, ('bin', 'Eq', ch, ('c', p, 'char')))
        return fork_bool(eng, st, ('bin', 'Eq', ch, ('c', p, 'char')))
    if eng.find_closure(st, pat)[0] is None and pat[0] != 'fn':
        return None
    out = []
    for k, s, v in eng.call_value(st, fr, pat, [ch], info.get('span')):
        if k != 'ret':
            return None
        out += fork_bool(eng, s, v) if v[0] != 'c' else [(s, bool(v[1]))]
    return out


@model('str::chars', 'str::bytes', 'str::char_indices')
def str_chars(eng, st, fr, name, args, info):
    p, cs = text_of(eng, st, args[0])
    if cs is None:
        return None
    it = seqit(p, cint(0), cint(len(cs)), 'val')
    if name.endswith('indices'):
        it = ('agg', 'adt', 'std::Enumerate', None, (it, cint(0)), ())
    return ret(st, it)


def run_along(eng, st, fr, pat, cs, info, stop):
    """[(state, number of leading characters before the first where the pattern's answer is `stop`)]"""
    out = []
    todo = [(st, 0)]
    while todo:
        s, i = todo.pop(0)
        if i == len(cs):
            out.append((s, i))
            continue
        ms = matches(eng, s, fr, pat, cs[i], info)
        if ms is None:
            return None
        for s2, b in ms:
            if b == stop:
                out.append((s2, i))
            else:
                todo.append((s2, i + 1))
    return out


@model('str::starts_with', 'str::ends_with')
def str_starts(eng, st, fr, name, args, info):
    p, cs = text_of(eng, st, args[0])
    if cs is None:
        return None
    if not cs:
        return ret(st, ('c', False, 'bool'))
    ms = matches(eng, st, fr, args[1], cs[0 if 'starts' in name else -1], info)
    return None if ms is None else [o for s, b in ms for o in ret(s, ('c', b, 'bool'))]


@model('str::contains')
def str_contains(eng, st, fr, name, args, info):
    p, cs = text_of(eng, st, args[0])
    if cs is None:
        return None
    rs = run_along(eng, st, fr, args[1], cs, info, True)
    return None if rs is None else [o for s, i in rs for o in ret(s, ('c', i < len(cs), 'bool'))]


@model('str::find', 'str::rfind')
def str_find(eng, st, fr, name, args, info):
    p, cs = text_of(eng, st, args[0])
    if cs is None:
        return None
    back = name.endswith('rfind')
    rs = run_along(eng, st, fr, args[1], cs[::-1] if back else cs, info, True)
    return None if rs is None else [o for s, i in rs for o in ret(s, NONE if i == len(cs) else some(cint(len(cs) - 1 - i if back else i)))]


@model('str::trim_start_matches', 'str::trim_end_matches', 'str::trim_left_matches', 'str::trim_right_matches', 'str::trim_matches')
def str_trim(eng, st, fr, name, args, info):
    p, cs = text_of(eng, st, args[0])
    if cs is None:
        return None
    out = []
    which = name.rsplit('::', 1)[1]
    for s, i in ((run_along(eng, st, fr, args[1], cs, info, False)) if which not in ('trim_end_matches', 'trim_right_matches') else [(st, 0)]) or ():
        j = [(s, 0)] if which in ('trim_start_matches', 'trim_left_matches') else run_along(eng, s, fr, args[1], cs[i:][::-1], info, False)
        if j is None:
            return None
        for s2, k in j:
            out += ret(s2, eng.subslice(s2, p, cint(i), cint(len(cs) - i - k)))
    return out or None


@model('str::split_at')
def str_split_at(eng, st, fr, name, args, info):
    p, cs = text_of(eng, st, args[0])
    if cs is None or args[1][0] != 'c':
        return None
    i, n = args[1][1], len(cs)
    if i > n:
        return [eng.panic(st, fr, name, args, info['span'])]
    return ret(st, tup(eng.subslice(st, p, cint(0), cint(i)), eng.subslice(st, p, cint(i), cint(n - i))))


@model('char::is_ascii_whitespace', 'u8::is_ascii_whitespace', 'char::is_whitespace')
def is_ws(eng, st, fr, name, args, info):
    c = args[0]
    while c[0] in ('ref', 'cref'):
        c = eng.read_ref(st, c)
    k = getattr(eng, 'chars', {}).get(c)
    if k == 'space':
        return ret(st, ('c', True, 'bool'))
    if k in ('letter', 'wide'):
        return ret(st, ('c', k == 'wide' and 'ascii' not in name, 'bool'))
    if c[0] == 'c' and isinstance(c[1], str):
        return ret(st, ('c', c[1] in ' \t\n\r\x0c', 'bool'))
    return None


def blank(eng, c, wide):
    """is a character white space (of Unicode, or of ASCII)?  None: not known"""
    k = getattr(eng, 'chars', {}).get(c)
    if k is not None:
        return k == 'space' or k == 'wide' and wide
    if c[0] == 'c' and isinstance(c[1], (str, int)):
        ch = c[1] if isinstance(c[1], str) else chr(c[1])
        return ch.isspace() if wide else ch in ' \t\n\r\x0c'
    return None


@model('str::trim', 'str::trim_start', 'str::trim_end', 'str::trim_left', 'str::trim_right', 'str::trim_ascii',
       'str::trim_ascii_start', 'str::trim_ascii_end')
def str_trim_blank(eng, st, fr, name, args, info):
    p, cs = text_of(eng, st, args[0])
    if cs is None:
        return None
    w = name.rsplit('::', 1)[1]
    bs = [blank(eng, c, 'ascii' not in w) for c in cs]
    if None in bs:
        return None
    i, n = 0, len(cs)
    if not w.endswith(('_end', '_right')):
        while i < n and bs[i]:
            i += 1
    if not w.endswith(('_start', '_left')):
        while n > i and bs[n - 1]:
            n -= 1
    return ret(st, eng.subslice(st, p, cint(i), cint(n - i)))


@model('str::split_whitespace', 'str::split_ascii_whitespace')
def str_words(eng, st, fr, name, args, info):
    p, cs = text_of(eng, st, args[0])
    if cs is None:
        return None
    bs = [blank(eng, c, 'ascii' not in name) for c in cs]
    if None in bs:
        return None
    v, i, n = ('vec0',), 0, 0
    while i < len(cs):
        j = i
        while j < len(cs) and not bs[j]:
            j += 1
        if j > i:
            v, n = ('vpush', v, eng.subslice(st, p, cint(i), cint(j - i))), n + 1
        i = j + 1
    st.nframe += 1
    b = ('l', st.nframe, 'words')
    st.mem[b] = v
    return ret(st, seqit(('ref', b, ()), cint(0), cint(n), 'val'))


@model('std::Arc::ptr_eq', 'std::Rc::ptr_eq')
def arc_ptr_eq(eng, st, fr, name, args, info):
    a, b = [eng.read_ref(st, x) for x in args]
    if a == b:
        return ret(st, ('c', True, 'bool'))
    if getattr(eng, 'distinct', None) and a in eng.distinct and b in eng.distinct:
        return ret(st, ('c', False, 'bool'))
    return None


@model('std::Arc::get_mut', 'std::Rc::get_mut')
def arc_get_mut(eng, st, fr, name, args, info):
    v = eng.read_ref(st, args[0])
    if getattr(eng, 'chars', None) is None or v[0] != 'agg' or len(v[4]) != 1 or v[4][0][0] != 'ref':
        return None
    return ret(st, some(v[4][0]))


# ------------------------------------------------------------------ formatting
@model('std::ArgumentV1::new_display', 'std::ArgumentV1::new_lower_hex', 'std::ArgumentV1::new_upper_hex',
       'std::ArgumentV1::new_debug', 'std::Argument::new_display', 'std::Argument::new_lower_hex',
       'std::Argument::new_upper_hex', 'std::Argument::new_debug')
def fmt_arg(eng, st, fr, name, args, info):
    v = args[0]
    while v[0] == 'ref':
        v = eng.read_ref(st, v)
    return ret(st, ('fmtarg', name.rsplit('new_', 1)[1], v))


@model('std::fmt::format', 'alloc::fmt::format')
def fmt_format(eng, st, fr, name, args, info):
    return ret(st, ('format', args[0]))


@model('std::String::into_bytes', 'std::String::into_boxed_str', 'std::Vec::into_boxed_slice')
def same_bytes(eng, st, fr, name, args, info):
    return ret(st, args[0])


@model('std::Arguments::new_v1', 'std::Arguments::new_const', 'std::Arguments::new_v1_formatted')
def fmt_args(eng, st, fr, name, args, info):
    def arr(a):
        v = eng.read_ref(st, a)
        if v[0] == 'agg' and v[1] == 'array':
            return v[4]
        return (v,)
    return ret(st, ('fmt',) + tuple(arr(a) for a in args[:3]))


@model('std::Write::write_all')
def vec_write_all(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    t = strip(selft(info)) if selft(info) else None
    if t is None or t[0] != 'path' or t[1] != 'std::Vec':
        return None
    w = args[0]
    if selft(info)[0] == 'ref':
        w = eng.read_ref(st, w)
    vec_extend(eng, st, fr, name, [w, args[1]], info)
    return ret(st, ok(UNIT))        # never an error, by its documentation


# ------------------------------------------------------------------ unwinding
@model('std::panic::catch_unwind')
def catch_unwind(eng, st, fr, name, args, info):
    f = args[0]
    if f[0] == 'agg' and f[2] and f[2].endswith('AssertUnwindSafe'):
        f = f[4][0]
    out = []
    for k, s, v in eng.call_value(st, fr, f, [], info['span']):
        if k == 'panic':
            s.ncall += 1
            s.event('caught', 'caught', (), {'panic': v})
            out.append(('ret', s, err(('payload', s.ncall))))
        elif k == 'ret':
            out.append(('ret', s, ok(v)))
        else:
            out.append((k, s, v))
    return out


# ------------------------------------------------------------------ raw pointers
NULL = ('c', 0, 'usize')


@model('std::ptr::null', 'std::ptr::null_mut')
def ptr_null(eng, st, fr, name, args, info):
    return ret(st, NULL)


@model('ptr::is_null')
def ptr_is_null(eng, st, fr, name, args, info):
    return ret(st, eng.binop(st, 'Eq', args[0], NULL, USIZE))


# ------------------------------------------------------------------ lengths of ranges and of iterators over sequences
def range_value(eng, st, p, t):
    """(pointer, kind, first field, element type) of a range or sequence iterator behind a pointer"""
    while t is not None and t[0] == 'ref':
        v = eng.read_ref(st, p)
        if v[0] not in ('ref', 's', 'fld', 'deref') or t[2][0] != 'ref':
            break
        p, t = v, t[2]
    if t is not None and t[0] == 'ref':
        t = t[2]
    v = eng.read_ref(st, p)
    k = iter_kind(v, t)
    if k not in ('std::Range', 'vsa::SeqIter'):
        return None
    o = 0 if k == 'std::Range' else 1
    lo, hi = eng.proj_value(st, v, ('field', o)), eng.proj_value(st, v, ('field', o + 1))
    ty = USIZE
    if k == 'std::Range':
        ty = t[2][0] if t and t[0] == 'path' and t[2] else eng.typeof(lo) or eng.typeof(hi)
    if ty is None or ty[0] != 'prim':
        return None
    eng.settype(lo, ty)
    eng.settype(hi, ty)
    return p, k, o, ty, lo, hi


def range_left(eng, st, ty, lo, hi):
    """[(state, number of items left)]"""
    out = []
    for s, a in fork_bool(eng, st, lt(eng, st, lo, hi)):
        n = cint(0)
        if a:
            n = eng.binop(s, 'Sub', hi, lo, ty)
            if ty != USIZE:
                n = eng.cast(s, n, USIZE, 'IntToInt')
        out.append((s, n))
    return out


@model('std::ExactSizeIterator::len', 'std::Iterator::size_hint')
def it_len(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    r = range_value(eng, st, args[0], at(info, 0))
    if r is None:
        return None
    out = []
    for s, n in range_left(eng, st, *r[3:]):
        out += ret(s, n if name.endswith('len') else tup(n, some(n)))
    return out


@model('std::Iterator::nth')
def it_nth(eng, st, fr, name, args, info):
    if info.get('key'):
        return None
    r = range_value(eng, st, args[0], at(info, 0))
    if r is None or r[1] != 'std::Range':
        return it_search(eng, st, fr, name, args, info)
    p, k, o, ty, lo, hi = r
    b, pr = eng.deref_loc(st, p)
    n = args[1]
    out = []
    acc = {}
    left = lin.add(eng.lf(st, hi, acc), eng.lf(st, lo, acc), 1, -1)
    d = lin.add(left, eng.lf(st, n, acc), 1, -1)
    s = st.fork()
    if eng.assume_ge0(s, lin.add(d, lin.const(-1)), acc):
        m = n if ty == USIZE else eng.settype(('cast', n, ty[1]), ty)
        if ty != USIZE:        # n is below a difference of two values of that type
            g = lin.add(eng.lf(s, m, acc), eng.lf(s, n, acc), 1, -1)
            eng.assume_ge0(s, g, acc)
            eng.assume_ge0(s, lin.scale(g, -1), acc)
        x = eng.binop(s, 'Add', lo, m, ty)
        eng.store(s, b, tuple(pr) + (('field', o),), eng.binop(s, 'Add', x, cint(1, ty[1]), ty))
        out += ret(s, some(x))
    if eng.assume_ge0(st, lin.scale(d, -1), acc):
        eng.store(st, b, tuple(pr) + (('field', o),), hi)
        out += ret(st, NONE)
    return out


# ------------------------------------------------------------------ rayon: order-preserving adaptors, as if run in order
def seqty(t):
    """the sequential counterpart of a rayon iterator's type"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'path':
            return ('path', 'std::' + t[1][7:] if t[1].startswith('rayon::') else t[1], seqty(t[2]))
        return tuple(seqty(x) for x in t)
    return t


@model('rayon::IntoParallelRefIterator::par_iter', 'rayon::IntoParallelRefMutIterator::par_iter_mut')
def par_iter(eng, st, fr, name, args, info):
    t = selft(info)
    if t is None or not (t[0] in ('slice', 'array') or t[:2] == ('path', 'std::Vec')):
        return None
    return ret(st, seqit(args[0], cint(0), eng.ptr_len(st, args[0], t), 'mut' if name.endswith('mut') else 'ref'))


@model('rayon::IntoParallelIterator::into_par_iter')
def into_par_iter(eng, st, fr, name, args, info):
    t = selft(info)
    if t is None or not (t[0] in ('array', 'ref') or t[:2] == ('path', 'std::Vec')):
        return None
    return into_iter(eng, st, fr, name, args, dict(info, key=None))


@model('rayon::ParallelIterator::map', 'rayon::ParallelIterator::filter', 'rayon::ParallelIterator::filter_map',
       'rayon::IndexedParallelIterator::enumerate', 'rayon::IndexedParallelIterator::rev')
def par_adapt(eng, st, fr, name, args, info):
    k = name.rsplit('::', 1)[1]
    return {'enumerate': it_enum, 'rev': it_rev}.get(k, it_map)(eng, st, fr, 'std::Iterator::' + k, args, dict(info, key=None))


@model('rayon_croissant::ParallelIteratorExt::mapfold_reduce_into')
def mapfold(eng, st, fr, name, args, info):
    return ret(st, ('agg', 'adt', 'vsa::Mapfold', None, tuple(args), (('I', seqty(at(info, 0))), ('T', (at(info, 1) or (0, 0, None))[2]),
                                                                   ('F', at(info, 2)), ('R', at(info, 3)))))


@model('rayon::ParallelIterator::collect')
def par_collect(eng, st, fr, name, args, info):
    m = info.get('margs') or ()
    v = args[0]
    if v[0] == 'agg' and v[2] == 'vsa::Mapfold':
        if not m or m[0][:2] != ('path', 'std::Vec'):
            return None
        g = dict(v[5])
        if getattr(eng, 'par_split', False):
            return prelude(eng, st, fr, 'mapfold_split', list(v[4]), info, **g)
        return prelude(eng, st, fr, 'mapfold_seq', list(v[4][:3]), info, **{k: x for k, x in g.items() if k != 'R'})
    return it_collect(eng, st, fr, 'std::Iterator::collect', args, dict(info, key=None, atys=seqty(tuple(info.get('atys') or ()))))


@model('rayon::ParallelExtend::par_extend')
def par_extend(eng, st, fr, name, args, info):
    t = seqty(at(info, 1))
    d = at(info, 0)
    if d is None or d[0] != 'ref' or d[2][:2] != ('path', 'std::Vec'):
        return None
    if args[1][0] == 'agg' and args[1][2] == 'vsa::Mapfold':
        return None
    return prelude(eng, st, fr, 'extend_vec', args, info, I=t, T=d[2][2][0] if d[2][2] else None)


@model('std::Chars::as_str')
def chars_as_str(eng, st, fr, name, args, info):
    it = eng.read_ref(st, args[0])
    if it[0] != 'agg' or it[2] != 'vsa::SeqIter' or it[4][1][0] != 'c' or it[4][2][0] != 'c':
        return None
    ptr, lo, hi = it[4][:3]
    if ptr[0] == 'subp':
        if ptr[2][0] != 'c':
            return None
        lo, hi, ptr = cint(lo[1] + ptr[2][1]), cint(hi[1] + ptr[2][1]), ptr[1]
    return ret(st, ('subp', ptr, lo, cint(hi[1] - lo[1])))


@model('std::Vec::truncate')
def vec_truncate(eng, st, fr, name, args, info):
    """of a vector known item by item, to a known length"""
    o = eng.read_ref(st, args[0])
    if args[1][0] != 'c' or not isinstance(args[1][1], int):
        return None
    v, n = o, 0
    while v[0] == 'vpush':
        v, n = v[1], n + 1
    if v != ('vec0',):
        return None
    v = o
    while n > args[1][1]:
        v, n = v[1], n - 1
    info = dict(info)
    info['vals'] = tuple(eng.snapshot(st, a) for a in args)
    info['stack'] = fr.stack
    st.event('call', name, args, info)
    eng.write_ref(st, args[0], v)
    return ret(st, ('c', (), '()'))


@model('std::Vec::clear', 'std::String::clear')
def vec_clear(eng, st, fr, name, args, info):
    o = eng.read_ref(st, args[0])
    if o[0] not in ('vec0', 'vpush'):
        return None
    info = dict(info)
    info['vals'] = (o,)
    info['stack'] = fr.stack
    st.event('call', name, args, info)
    eng.write_ref(st, args[0], ('vec0',))
    return ret(st, ('c', (), '()'))
