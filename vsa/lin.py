"""Linear inequalities over integer atoms; Fourier-Motzkin elimination.

A linear form is (frozenset-able tuple of sorted (atom, coef)), const).
A constraint is a form f meaning f >= 0.
"""
from math import gcd


_IDS = {}


def aid(a):
    i = _IDS.get(a)
    if i is None:
        i = _IDS[a] = len(_IDS)
    return i


def form(d, c):
    items = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda x: aid(x[0])))
    return (items, c)


def const(c):
    return ((), c)


def atom(a):
    return (((a, 1),), 0)


def add(f, g, kf=1, kg=1):
    d = {}
    for a, k in f[0]:
        d[a] = d.get(a, 0) + k * kf
    for a, k in g[0]:
        d[a] = d.get(a, 0) + k * kg
    return form(d, f[1] * kf + g[1] * kg)


def scale(f, k):
    return (tuple((a, c * k) for a, c in f[0]), f[1] * k) if k else ((), 0)


def norm(f):
    """divide by the gcd of the coefficients, flooring the constant (integers)"""
    g = 0
    for _, k in f[0]:
        g = gcd(g, abs(k))
    if g > 1:
        return (tuple((a, k // g) for a, k in f[0]), f[1] // g)
    return f


def infeasible(cons, limit=400):
    """True if the conjunction of f >= 0 has no integer solution (sound, incomplete)."""
    best = {}      # items -> smallest constant
    pos = {}       # atom -> set of items with a positive coefficient
    neg = {}

    def put(f):
        """False when a contradiction shows"""
        items, c = norm(f)
        if not items:
            return c >= 0
        o = best.get(items)
        if o is not None:
            if c >= o:
                return True
            best[items] = c
        else:
            best[items] = c
            for a, k in items:
                (pos if k > 0 else neg).setdefault(a, set()).add(items)
        o = best.get(tuple((a, -k) for a, k in items))
        return o is None or o + c >= 0

    def remove(items):
        del best[items]
        for a, k in items:
            s = (pos if k > 0 else neg)[a]
            s.discard(items)

    for f in cons:
        if not put(f):
            return True
    while best:
        atoms = None
        # drop atoms bounded on one side only
        changed = True
        while changed:
            changed = False
            for a in list(pos):
                if pos[a] and not neg.get(a):
                    for it in list(pos[a]):
                        remove(it)
                    changed = True
            for a in list(neg):
                if neg[a] and not pos.get(a):
                    for it in list(neg[a]):
                        remove(it)
                    changed = True
        cand = None
        for a, ps in pos.items():
            p = len(ps)
            if not p:
                continue
            n = len(neg[a])
            key = (p * n - p - n, aid(a))
            if cand is None or key < cand[0]:
                cand = (key, a)
        if cand is None:
            return False
        a = cand[1]
        ps = list(pos[a])
        ns = list(neg[a])
        if len(best) + len(ps) * len(ns) - len(ps) - len(ns) > limit:
            return False
        pl = [((it, best[it]), dict(it)[a]) for it in ps]
        nl = [((it, best[it]), -dict(it)[a]) for it in ns]
        for it in ps:
            remove(it)
        for it in ns:
            if it in best:
                remove(it)
        for f, k in pl:
            for g, l in nl:
                if not put(add(f, g, l, k)):
                    return True
    return False


def relevant(cons, seeds):
    """constraints connected to the seed atoms"""
    cons = list(cons)
    at = set()
    idx = {}
    out = []
    for i, f in enumerate(cons):
        if not f[0]:
            out.append(i)
        for a, _ in f[0]:
            idx.setdefault(a, []).append(i)
    used = set(out)
    work = list(seeds)
    while work:
        a = work.pop()
        if a in at:
            continue
        at.add(a)
        for i in idx.get(a, ()):
            if i not in used:
                used.add(i)
                for b, _ in cons[i][0]:
                    if b not in at:
                        work.append(b)
    return [cons[i] for i in sorted(used)], at
