"""Interned strings (string_cache atoms) of the HTML parser crates: packed constant -> string, from their generated tables."""
import glob
import os
import re
import front
from front import AnalysisError

_M = None
NS = {'html': 'http://www.w3.org/1999/xhtml', 'svg': 'http://www.w3.org/2000/svg',
      'mathml': 'http://www.w3.org/1998/Math/MathML', '': ''}


def load():
    global _M
    if _M is None:
        _M = {}
        for f in sorted(glob.glob(os.path.join(front.TARGET, 'debug', 'build', 'markup5ever-*', 'out', 'generated.rs'))):
            text = open(f).read()
            for m in re.finditer(r'impl :: string_cache :: StaticAtomSet for (\w+) .*?atoms : & \[(.*?)\] ,', text, re.S):
                atoms = [bytes(x, 'utf-8').decode('unicode_escape') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2))]
                old = _M.setdefault(m.group(1), atoms)
                if old != atoms:
                    raise AnalysisError('two different atom tables for ' + m.group(1))
        if not _M:
            raise AnalysisError('the table of interned strings was not found')
    return _M


def decode(value, kind):
    """string of a packed atom; kind 'Namespace', 'LocalName' or 'Prefix'"""
    tag = value & 3
    if tag == 2:
        t = load().get(kind + 'StaticSet')
        i = value >> 32
        return t[i] if t and i < len(t) else None
    if tag == 1:
        n = (value >> 4) & 0xf
        return value.to_bytes(8, 'little')[1:1 + n].decode('utf-8', 'replace')
    return None


def encode(name, kind):
    """packed constant of a name in the tables (the inverse of decode), or inline if short enough"""
    t = load().get(kind + 'StaticSet') or []
    if name in t:
        return t.index(name) << 32 | 2
    b = name.encode()
    if len(b) > 7:
        raise AnalysisError('no constant for %r' % name)
    return int.from_bytes(bytes([len(b) << 4 | 1]) + b.ljust(7, b'\0'), 'little')
