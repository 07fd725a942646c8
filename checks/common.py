"""Shared helpers of the checks."""
import re
import prog
import engine
import rtypes as T
from front import AnalysisError

_P = {}


def program(crate):
    if crate not in _P:
        _P[crate] = prog.Program(crate)
    return _P[crate]


def disp(p, key):
    """readable, line-number-free name of a body"""
    base = key
    tail = ''
    m = re.match(r'^(.*?)((?:::\{closure#\d+\})+)$', key)
    if m:
        base, tail = m.group(1), m.group(2)
        tail = tail.replace('::{closure#', '{').replace('}', '}')
        tail = '::closure' * m.group(2).count('closure')
    im = p.impl_of.get(base)
    if im is not None:
        meth = base.rsplit('::', 1)[1].split('#')[0]
        t = T.show(im.for_)
        return ('<%s as %s>::%s' % (t, im.trait, meth) if im.trait else '%s::%s' % (t, meth)) + tail
    return re.sub(r'#\d+$', '', base) + tail


def methods(p, tyname, trait=None):
    """{method: body key} of the (inherent, or given trait's) impls of a local type"""
    out = {}
    for im in p.impls:
        if im.for_[0] == 'path' and im.for_[1] == tyname and im.trait == trait:
            for m, k in im.methods.items():
                out[m] = k
    return out


def visible_methods(p, tyname):
    """inherent methods that other modules may call: {name: (key, item)}"""
    out = {}
    for im in p.impls:
        if im.for_[0] == 'path' and im.for_[1] == tyname and im.trait is None:
            for m, k in im.methods.items():
                it = im.items[m]
                if it['visibility'] in ('public', 'crate'):
                    out[m] = (k, it)
    return out


def method(p, tyname, name, trait=None):
    k = methods(p, tyname, trait).get(name)
    if k is None:
        raise AnalysisError('anchor missing: %s::%s' % (tyname, name))
    return k


def where(span):
    return span or '?'


def sh(t):
    """readable term"""
    if not isinstance(t, tuple):
        return str(t)
    if t and t[0] == 'c':
        return str(t[1])
    if t and t[0] == 's':
        return t[1]
    if t and t[0] == "phi":
        return 'phi'
    if t and t[0] == 'bin':
        return '(%s %s %s)' % (sh(t[2]), {'Add': '+', 'Sub': '-', 'Mul': '*'}.get(t[1], t[1]), sh(t[3]))
    if t and t[0] == 'agg':
        n = (t[2].rsplit('::', 1)[-1] if t[2] else t[1]) + ('::' + t[3] if t[3] else '')
        return n + '(' + ', '.join(sh(x) for x in t[4]) + ')'
    return '(' + ' '.join(sh(x) for x in t) + ')'


def panic_where(p, info):
    """(msg, fn, span) of a panic outcome value"""
    nm, msg, key, span = info
    return nm, msg, disp(p, key), span
