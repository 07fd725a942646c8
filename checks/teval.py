"""Values of scalar terms under an assignment of integers to some of their subterms (finite domains only)."""
import re

W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}


class Unknown(Exception):
    pass


def alloc_bytes(p, name):
    al = p.allocs.get(name)
    if al is None:
        return None
    out = bytearray()
    for l in al['lines']:
        body = l.split('│')
        hexes = body[1] if len(body) > 2 else body[0]
        for h in hexes.split():
            if not re.match(r'^[0-9a-f]{2}$', h):
                return None
            out.append(int(h, 16))
    return bytes(out)


def wrap(v, ty):
    w = W.get(ty)
    if w is None or isinstance(v, float):
        return v
    v &= (1 << w) - 1
    if ty[0] == 'i' and v >> (w - 1):
        v -= 1 << w
    return v


def conv(v, ty):
    if isinstance(v, bool):
        v = int(v)
    if ty in ('f32', 'f64'):
        return float(v)
    if isinstance(v, float):
        if v != v:
            return 0
        w = W.get(ty, 64)
        lo, hi = (0, (1 << w) - 1) if ty[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return int(min(max(v, lo), hi))
    if ty == 'char':
        return v
    return wrap(v, ty)


def ev(p, t, env):
    """value of t; env: {term: int}"""
    if t in env:
        return env[t]
    k = t[0]
    if k == 'c':
        if isinstance(t[1], (int, bool, float)):
            return t[1]
        raise Unknown(t)
    if k == 'cast':
        return conv(ev(p, t[1], env), t[2] if isinstance(t[2], str) else t[2][1])
    if k == 'un':
        v = ev(p, t[2], env)
        if t[1] == 'Not':
            return not v if isinstance(v, bool) else ~v
        return -v
    if k == 'bin':
        a = ev(p, t[2], env)
        b = ev(p, t[3], env)
        ty = t[4] if len(t) > 4 and isinstance(t[4], str) else None
        op = t[1]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
        if op == 'Add':
            return wrap(a + b, ty)
        if op == 'Sub':
            return wrap(a - b, ty)
        if op == 'Mul':
            return wrap(a * b, ty)
        if op == 'Div' and b:
            return a / b if isinstance(a, float) else abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        if op == 'Rem' and b:
            return abs(a) % abs(b) * (-1 if a < 0 else 1)
        if op == 'Shr':
            return a >> b
        if op == 'Shl':
            return wrap(a << b, ty)
        if op == 'BitAnd':
            return a & b
        if op == 'BitOr':
            return a | b
        if op == 'BitXor':
            return a ^ b
    if k == 'elem':
        d = table(p, t[1])
        if d is not None:
            i = ev(p, t[2], env)
            if 0 <= i < len(d):
                return d[i]
    if k == 'dis':
        return ev(p, t[1], env)
    if k in ('deref', '&'):
        return ev(p, t[1], env)
    raise Unknown(t)


def table(p, t):
    while t[0] in ('deref', 'cref', '&'):
        t = t[1]
    if t[0] == 'c' and isinstance(t[1], bytes):
        return t[1]
    if t[0] == 'c' and isinstance(t[1], str):
        return t[1].encode()
    if t[0] == 'alloc':
        if not re.search(r'\[.*; \d+\]$', t[2]):
            return None
        return alloc_bytes(p, t[1])
    if t[0] == 'agg' and t[1] == 'array':
        out = []
        for x in t[4]:
            if x[0] == 'c' and isinstance(x[1], int):
                out.append(x[1])
            elif x[0] == 'agg' and x[1] == 'adt' and not x[4]:
                out.append(p.variant_index(x[2], x[3]))
            else:
                return None
        return out
    return None


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t)


def consistent(p, st, env, base=()):
    """the path facts of st that only depend on the assigned terms hold under the assignment"""
    for f, v in st.facts.items():
        if not any(mentions(f, x) for x in env):
            continue
        try:
            g = ev(p, f, env)
        except Unknown:
            continue
        if f[0] == 'dis' or not isinstance(v, bool):
            if int(g) != v:
                return False
        elif bool(g) != v:
            return False
    return True
