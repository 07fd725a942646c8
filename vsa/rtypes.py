"""Types as terms.

('path', name, (args...))  ('ref', mut, t)  ('ptr', mut, t)  ('tuple', (ts))
('slice', t)  ('array', t, n)  ('param', name)  ('prim', name)
('closure', span)  ('fnptr', text)  ('dyn', text)  ('proj', self, trait, name)  ('?', text)
"""
import re
from functools import lru_cache
from mir import split_top, match_close

PRIMS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize',
         'bool', 'char', 'str', 'f32', 'f64', '!'}

STD = {'std', 'core', 'alloc'}


def canon_path(p, local=()):
    """std paths are known by their last segment only."""
    if p == 'lazy_static::__Deref':
        return 'std::Deref'
    segs = p.split('::')
    if segs[0] in STD:
        return 'std::' + segs[-1]
    if segs[0] in ('html5ever', 'markup5ever', 'cssparser', 'selectors', 'euclid', 'xml', 'rayon',
                   'smallvec', 'smallbitvec', 'atomic_refcell', 'lazy_static', 'parking_lot',
                   'lock_api', 'num_traits', 'rayon_croissant', 'string_cache', 'tendril', 'phf',
                   'libc', 'rayon_core'):
        if len(segs) > 1:
            return ('html5ever' if segs[0] == 'markup5ever' else segs[0]) + '::' + segs[-1]
    return p


def strip_lifetimes(s):
    s = re.sub(r"for<[^>]*> ", '', s)
    return s


@lru_cache(maxsize=None)
def parse(s):
    s = s.strip()
    if s.startswith('for<'):
        s = s[match_close(s, 3) + 1:].strip()
    if s.startswith('&'):
        r = s[1:].strip()
        m = re.match(r"'[A-Za-z_0-9]+ ", r)
        if m:
            r = r[m.end():]
        mut = False
        if r.startswith('mut '):
            mut = True
            r = r[4:]
        return ('ref', mut, parse(r))
    if s.startswith('*const ') or s.startswith('*mut '):
        mut = s.startswith('*mut')
        return ('ptr', mut, parse(s.split(' ', 1)[1]))
    if s.startswith('('):
        e = match_close(s, 0)
        if e == len(s) - 1:
            return ('tuple', tuple(parse(x) for x in split_top(s[1:-1])))
    if s.startswith('['):
        if s.startswith('[closure@'):
            return ('closure', s[9:-1].split(' ', 1)[0] if False else s[9:-1])
        inner = s[1:match_close(s, 0)]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('array', parse(parts[0]), parts[1])
        return ('slice', parse(inner))
    if s in PRIMS:
        return ('prim', s)
    if s.startswith('dyn ') or s.startswith('impl '):
        return ('dyn' if s.startswith('dyn') else 'impl', re.sub(r'\s+', ' ', s))
    if s.startswith(('fn(', 'unsafe ', 'extern ', 'fn ')):
        return ('fnptr', s)
    if s.startswith('<'):
        e = match_close(s, 0)
        inner = s[1:e]
        rest = s[e + 1:]
        k = find_as(inner)
        if k is not None and rest.startswith('::'):
            return ('proj', parse(inner[:k]), parse(inner[k + 4:]), rest[2:])
        return ('?', s)
    if re.fullmatch(r'[A-Za-z_][A-Za-z_0-9]*', s):
        if s == 'Self' or (s[0].isupper()):
            return ('param_or_path', s)
        return ('param_or_path', s)
    # path with generics
    segs, args = split_path(s)
    if segs is None:
        return ('?', s)
    name = '::'.join(segs)
    tyargs = []
    for a in args:
        for x in a:
            if x.startswith("'"):
                continue
            tyargs.append(parse(x))
    return ('path', canon_path(name), tuple(tyargs))


def find_as(s):
    depth = 0
    for i, c in enumerate(s):
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and s[i - 1] not in '-=':
            depth -= 1
        elif depth == 0 and s.startswith(' as ', i):
            return i
    return None


def split_path(s):
    """'a::b::C<X, Y>::d::<Z>' -> (['a','b','C','d'], [[X,Y],[Z]]) plus None on odd syntax."""
    segs = []
    args = []
    i = 0
    n = len(s)
    cur = ''
    while i < n:
        c = s[i]
        if c == '<':
            e = match_close(s, i)
            inner = s[i + 1:e]
            if cur == '':
                if inner.startswith('impl ') and not (segs and e + 1 == n and not inner.startswith('impl at ')):
                    segs.append('<' + inner + '>')
                    i = e + 1
                    if s.startswith('::', i):
                        i += 2
                    continue
                # turbofish
                args.append([x for x in split_top(inner)])
            else:
                segs.append(cur)
                cur = ''
                args.append([x for x in split_top(inner)])
            i = e + 1
            if s.startswith('::', i):
                i += 2
            continue
        if c == '{':
            e = match_close(s, i)
            cur += s[i:e + 1]
            i = e + 1
            continue
        if s.startswith('::', i):
            if cur:
                segs.append(cur)
                cur = ''
            i += 2
            continue
        if re.match(r"[A-Za-z0-9_#'\[\]]", c):
            cur += c
            i += 1
            continue
        return None, None
    if cur:
        segs.append(cur)
    return segs, args


def resolve_params(t, params):
    """Turn 'param_or_path' leaves into bare paths (if in the set of crate-root ADTs) or params."""
    k = t[0]
    if k == 'param_or_path':
        return ('path', t[1], ()) if t[1] in params else ('param', t[1])
    if k == 'path':
        return ('path', t[1], tuple(resolve_params(x, params) for x in t[2]))
    if k in ('ref', 'ptr'):
        return (k, t[1], resolve_params(t[2], params))
    if k == 'tuple':
        return ('tuple', tuple(resolve_params(x, params) for x in t[1]))
    if k == 'slice':
        return ('slice', resolve_params(t[1], params))
    if k == 'array':
        return ('array', resolve_params(t[1], params), t[2])
    if k == 'proj':
        return ('proj', resolve_params(t[1], params), resolve_params(t[2], params), t[3])
    return t


def subst(t, env):
    k = t[0]
    if k in ('param', 'param_or_path'):
        return env.get(t[1], t)
    if k == 'path':
        return ('path', t[1], tuple(subst(x, env) for x in t[2]))
    if k in ('ref', 'ptr'):
        return (k, t[1], subst(t[2], env))
    if k == 'tuple':
        return ('tuple', tuple(subst(x, env) for x in t[1]))
    if k == 'slice':
        return ('slice', subst(t[1], env))
    if k == 'array':
        return ('array', subst(t[1], env), t[2])
    if k == 'proj':
        return ('proj', subst(t[1], env), subst(t[2], env), t[3])
    if k in ('impl', 'dyn'):
        return env.get(t[1], t)
    return t


def unify(pat, t, env):
    """Match pattern (with params) against a type; extends env. True if it matches."""
    k = pat[0]
    if k == 'param':
        old = env.get(pat[1])
        if old is None:
            env[pat[1]] = t
            return True
        return old == t or unify(old, t, env) if old != pat else True
    if k in ('?', 'impl', 'dyn', 'fnptr', 'proj') or t[0] in ('?', 'impl', 'proj', 'param', 'param_or_path'):
        return True if k in ('?', 'impl', 'proj') or t[0] in ('?', 'impl', 'proj') else (
            k == t[0] or t[0] in ('param', 'param_or_path'))
    if k != t[0]:
        return False
    if k == 'path':
        if pat[1] != t[1]:
            return False
        if len(pat[2]) != len(t[2]):
            # defaulted parameters
            n = min(len(pat[2]), len(t[2]))
            return all(unify(a, b, env) for a, b in zip(pat[2][:n], t[2][:n]))
        return all(unify(a, b, env) for a, b in zip(pat[2], t[2]))
    if k in ('ref', 'ptr'):
        return pat[1] == t[1] and unify(pat[2], t[2], env)
    if k == 'tuple':
        return len(pat[1]) == len(t[1]) and all(unify(a, b, env) for a, b in zip(pat[1], t[1]))
    if k == 'slice':
        return unify(pat[1], t[1], env)
    if k == 'array':
        return unify(pat[1], t[1], env) and (pat[2] == t[2] or not str(pat[2]).isdigit() or not str(t[2]).isdigit())
    return pat == t


def show(t):
    k = t[0]
    if k in ('param', 'param_or_path', 'prim', '?', 'fnptr', 'dyn', 'impl'):
        return t[1]
    if k == 'path':
        return t[1] + ('<%s>' % ', '.join(show(x) for x in t[2]) if t[2] else '')
    if k == 'ref':
        return '&' + ('mut ' if t[1] else '') + show(t[2])
    if k == 'ptr':
        return '*' + ('mut ' if t[1] else 'const ') + show(t[2])
    if k == 'tuple':
        return '(' + ', '.join(show(x) for x in t[1]) + (',' if len(t[1]) == 1 else '') + ')'
    if k == 'slice':
        return '[' + show(t[1]) + ']'
    if k == 'array':
        return '[%s; %s]' % (show(t[1]), t[2])
    if k == 'proj':
        return '<%s as %s>::%s' % (show(t[1]), show(t[2]), t[3])
    if k == 'closure':
        return '[closure@' + t[1] + ']'
    return str(t)
