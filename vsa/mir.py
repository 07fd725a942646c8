"""Parser for the textual MIR that rustc 1.70 emits (`--emit=mir`).

Produces Function objects: typed locals, basic blocks, statements and
terminators as tuples.  Nothing is evaluated here.

Statements
  ('assign', place, rvalue, span)
  ('setdiscr', place, n, span)
  ('nop',)
Terminators
  ('goto', bb) ('switch', operand, [(value, bb)...], otherwise|None)
  ('return',) ('unreachable',) ('resume',) ('abort',)
  ('drop', place, target, unwind)
  ('call', place, callee_operand, args, target|None, unwind|None, span)
  ('assert', operand, expected, msg, args, target, unwind, span)
Places
  ('place', local:int, projections tuple)
  projections: ('deref',) ('field', idx, ty) ('downcast', name) ('index', local)
               ('cindex', off, minlen, from_end) ('subslice', from, to, from_end)
Operands
  ('move', place) ('copy', place) ('const', text, ty|None, litpath|None)
Rvalues
  ('use', op) ('ref', kind, place) ('rawptr', kind, place) ('len', place)
  ('discr', place) ('bin', op, a, b) ('checked', op, a, b) ('un', op, a)
  ('cast', op, ty, kind) ('tuple', [ops]) ('array', [ops]) ('repeat', op, n)
  ('adt', path, [(fieldname|idx, op)...]) ('closure', ty, [(name, op)...], defsuffix)
  ('nullary', text)
"""
import re

BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr',
          'Eq', 'Lt', 'Le', 'Ne', 'Ge', 'Gt', 'Offset',
          'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}


class ParseError(Exception):
    pass


class Function:
    __slots__ = ('name', 'kind', 'args', 'ret', 'locals', 'blocks', 'cleanup', 'debug',
                 'span', 'impl_span', 'self_debug', 'lines', 'static', 'mutable')

    def __init__(self):
        self.args = []
        self.locals = {}
        self.blocks = {}
        self.cleanup = set()
        self.static = False
        self.mutable = False
        self.debug = {}

    def __repr__(self):
        return '<Function %s>' % self.name


OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}


def skip_string(s, i):
    """s[i] == '"'; index after the closing quote."""
    i += 1
    n = len(s)
    while i < n:
        c = s[i]
        if c == '\\':
            i += 2
            continue
        if c == '"':
            return i + 1
        i += 1
    raise ParseError('string ' + s)


def split_top(s, sep=','):
    """Split on sep at nesting depth 0, aware of strings, -> and =>."""
    out = []
    depth = 0
    i = 0
    start = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'":
            # char literal or lifetime
            m = re.compile(r"'(\\u\{[0-9a-fA-F]+\}|\\x..|\\.|[^'\\])'").match(s, i)
            if m:
                i = m.end()
                continue
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '<':
            depth += 1
        elif c == '>':
            if i > 0 and s[i - 1] in '-=':
                pass
            else:
                depth -= 1
        elif c == sep and depth == 0:
            out.append(s[start:i].strip())
            start = i + 1
        i += 1
    tail = s[start:].strip()
    if tail or out:
        out.append(tail)
    if out and out[-1] == '':
        out.pop()
    return out


def match_close(s, i):
    """s[i] is an opening bracket: index of the matching close."""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'":
            m = re.compile(r"'(\\u\{[0-9a-fA-F]+\}|\\x..|\\.|[^'\\])'").match(s, i)
            if m:
                i = m.end()
                continue
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
            if depth == 0:
                return i
        elif c == '>':
            if not (i > 0 and s[i - 1] in '-='):
                depth -= 1
                if depth == 0:
                    return i
        i += 1
    raise ParseError('unbalanced ' + s)


# ---------------------------------------------------------------- places

_place_cache = {}


def parse_place(s):
    r = _place_cache.get(s)
    if r is None:
        p, i = _place(s, 0)
        if i != len(s):
            raise ParseError('place %r at %d' % (s, i))
        r = _place_cache[s] = p
    return r


def _place(s, i):
    n = len(s)
    if s[i] == '_':
        m = re.compile(r'_(\d+)').match(s, i)
        if not m:
            raise ParseError('place ' + s)
        base = (int(m.group(1)), ())
        i = m.end()
    elif s[i] == '(':
        if s[i + 1] == '*':
            (_, l, pr), j = _place(s, i + 2)
            if s[j] != ')':
                raise ParseError('deref ' + s)
            base = (l, pr + (('deref',),))
            i = j + 1
        else:
            (_, l, pr), j = _place(s, i + 1)
            if s.startswith(' as ', j):
                e = match_close(s, i)
                name = s[j + 4:e]
                base = (l, pr + (('downcast', name),))
                i = e + 1
            elif s[j] == '.':
                m = re.compile(r'\.(\d+): ').match(s, j)
                if not m:
                    raise ParseError('field ' + s)
                e = match_close(s, i)
                base = (l, pr + (('field', int(m.group(1)), s[m.end():e]),))
                i = e + 1
            else:
                raise ParseError('place? ' + s)
    else:
        raise ParseError('place?? ' + s)
    l, pr = base
    while i < n and s[i] == '[':
        e = match_close(s, i)
        inner = s[i + 1:e]
        m = re.fullmatch(r'_(\d+)', inner)
        if m:
            pr = pr + (('index', int(m.group(1))),)
        else:
            m = re.fullmatch(r'(-?)(\d+) of (\d+)', inner)
            if m:
                pr = pr + (('cindex', int(m.group(2)), int(m.group(3)), bool(m.group(1))),)
            else:
                m = re.fullmatch(r'(\d+):(-?)(\d*)', inner)
                if not m:
                    raise ParseError('index ' + s)
                pr = pr + (('subslice', int(m.group(1)), int(m.group(3) or 0), bool(m.group(2))),)
        i = e + 1
    return ('place', l, pr), i


# ---------------------------------------------------------------- operands

def parse_operand(s):
    s = s.strip()
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:])
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s and s[0] in '_(':
        return ('copy', parse_place(s))
    return ('fn', s)


def is_operand(s):
    return s.startswith(('move ', 'const ', 'copy ')) or bool(re.match(r'^(_\d|\(+\*?\(*_\d)', s))


def parse_rvalue(s, comments=()):
    if s == 'const _':
        for c in comments:
            m = re.search(r'val: Unevaluated\((.*), \[(.*)\], (None|Some\(promoted\[(\d+)\]\))\) \}$', c, re.S)
            if m:
                return ('use', ('const', '_', m.group(1), tuple(split_top(m.group(2))), m.group(4)))
    if s.startswith('&'):
        if s.startswith('&raw const '):
            return ('rawptr', 'const', parse_place(s[11:]))
        if s.startswith('&raw mut '):
            return ('rawptr', 'mut', parse_place(s[9:]))
        if s.startswith('&mut '):
            return ('ref', 'mut', parse_place(s[5:]))
        if s.startswith('&shallow '):
            return ('ref', 'shallow', parse_place(s[9:]))
        if s.startswith('&uniq '):
            return ('ref', 'mut', parse_place(s[6:]))
        return ('ref', 'shared', parse_place(s[1:]))
    m = re.match(r'^([A-Z][A-Za-z]*)\(', s)
    if m and match_close(s, m.end() - 1) == len(s) - 1:
        name = m.group(1)
        args = split_top(s[m.end():-1])
        if name == 'Len':
            return ('len', parse_place(args[0]))
        if name in BINOPS and len(args) == 2:
            return ('bin', name, parse_operand(args[0]), parse_operand(args[1]))
        if name.startswith('Checked') and name[7:] in BINOPS:
            return ('checked', name[7:], parse_operand(args[0]), parse_operand(args[1]))
        if name in ('Not', 'Neg'):
            return ('un', name, parse_operand(args[0]))
        if name in ('SizeOf', 'AlignOf'):
            return ('nullary', s)
        if name == 'ShallowInitBox':
            return ('use', parse_operand(args[0]))
        if name == 'CopyForDeref':
            return ('use', ('copy', parse_place(args[0])))
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[13:-1]))
    if s.startswith('deref_copy '):
        return ('use', ('copy', parse_place(s[11:])))
    # casts:  <operand> as <ty> (<Kind>)
    m = re.search(r' \(((?:[A-Za-z]+)(?:\([A-Za-z()]*\))?)\)$', s)
    if is_operand(s) or (m and m.group(1).startswith(('Pointer', 'PtrToPtr'))):
        if m and ' as ' in s:
            body = s[:m.start()]
            # the last top-level " as "
            idx = -1
            depth = 0
            i = 0
            while i < len(body):
                c = body[i]
                if c == '"':
                    i = skip_string(body, i)
                    continue
                if c in '([{<':
                    depth += 1
                elif c in ')]}':
                    depth -= 1
                elif c == '>' and body[i - 1] not in '-=':
                    depth -= 1
                elif depth == 0 and body.startswith(' as ', i):
                    idx = i
                    break
                i += 1
            if idx >= 0:
                return ('cast', parse_operand(body[:idx]), body[idx + 4:], m.group(1))
        try:
            return ('use', parse_operand(s))
        except ParseError:
            if not s.startswith('('):
                raise
    if s.startswith('('):
        return ('tuple', [parse_operand(x) for x in split_top(s[1:match_close(s, 0)])])
    if s.startswith('[closure@') or s.startswith('[generator@'):
        e = match_close(s, 0)
        ty = s[:e + 1]
        rest = s[e + 1:].strip()
        fields = []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1].strip()):
                nm, v = f.split(': ', 1)
                fields.append((nm, parse_operand(v)))
        suffix = None
        for c in comments:
            m = re.search(r'def_id: DefId\([^~]*~ (.*)\)$', c)
            if m:
                suffix = m.group(1)
        return ('closure', ty, fields, suffix)
    if s.startswith('['):
        inner = s[1:match_close(s, 0)]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('repeat', parse_operand(parts[0]), parts[1])
        return ('array', [parse_operand(x) for x in split_top(inner)])
    # ADT aggregates
    m = re.match(r'^(.*?) \{ (.*) \}$', s, re.S)
    if s.endswith('}'):
        # find the '{' that closes at the end at depth 0
        depth = 0
        i = 0
        while i < len(s):
            c = s[i]
            if c == '"':
                i = skip_string(s, i)
                continue
            if c == '{' and depth == 0 and s[i - 1] == ' ' and match_close(s, i) == len(s) - 1:
                path = s[:i].strip()
                fields = []
                for f in split_top(s[i + 1:-1].strip()):
                    nm, v = f.split(': ', 1)
                    fields.append((nm, parse_operand(v)))
                return ('adt', path, fields)
            if c in '([{<':
                depth += 1
            elif c in ')]}':
                depth -= 1
            elif c == '>' and s[i - 1] not in '-=':
                depth -= 1
            i += 1
    if s.endswith(')'):
        depth = 0
        i = 0
        while i < len(s):
            c = s[i]
            if c == '(' and depth == 0 and match_close(s, i) == len(s) - 1:
                return ('adt', s[:i], [(k, parse_operand(x))
                                       for k, x in enumerate(split_top(s[i + 1:-1]))])
            if c in '([{<':
                depth += 1
            elif c in ')]}':
                depth -= 1
            elif c == '>' and s[i - 1] not in '-=':
                depth -= 1
            i += 1
    return ('adt', s, [])


_bb = re.compile(r'^bb(\d+)$')


def bbnum(s):
    m = _bb.match(s)
    if not m:
        raise ParseError('bb ' + s)
    return int(m.group(1))


def parse_targets(s):
    """Text after '->' : '[return: bb1, unwind: bb2]' | 'bb1' | 'unwind bb2' | 'unwind terminate'"""
    s = s.strip()
    d = {}
    if s.startswith('['):
        for part in split_top(s[1:-1]):
            if ': ' in part:
                k, v = part.split(': ')
                d[k] = bbnum(v) if v.startswith('bb') else v
            else:
                d['unwind'] = None
    elif s.startswith('unwind'):
        d['unwind'] = None
    else:
        d['single'] = bbnum(s)
    return d


def arrow_split(s):
    """Split 'X -> targets' at the last top-level ' -> '."""
    i = s.rfind(' -> ')
    while i >= 0:
        rest = s[i + 4:]
        if re.match(r'^(\[.*\]|bb\d+|unwind.*)$', rest):
            return s[:i], rest
        i = s.rfind(' -> ', 0, i)
    return s, None


def parse_terminator(s, span, in_cleanup, cleanup):
    if s == 'return':
        return ('return',)
    if s == 'unreachable':
        return ('unreachable',)
    if s == 'resume':
        return ('resume',)
    if s in ('abort', 'terminate'):
        return ('abort',)
    if s.startswith('goto -> '):
        return ('goto', bbnum(s[8:]))
    if s.startswith('falseEdge -> ') or s.startswith('falseUnwind -> '):
        d = parse_targets(s.split(' -> ', 1)[1])
        return ('goto', d.get('real'))
    if s.startswith('switchInt('):
        head, tgt = arrow_split(s)
        op = parse_operand(head[10:-1])
        cases = []
        other = None
        for part in split_top(tgt[1:-1]):
            k, v = part.rsplit(': ', 1)
            if k == 'otherwise':
                other = bbnum(v)
            else:
                cases.append((int(k), bbnum(v)))
        return ('switch', op, cases, other)
    if s.startswith('drop('):
        head, tgt = arrow_split(s)
        d = parse_targets(tgt)
        target = d.get('return', d.get('single'))
        unwind = d.get('unwind')
        return ('drop', parse_place(head[5:-1]), target, unwind if isinstance(unwind, int) else None)
    if s.startswith('assert('):
        head, tgt = arrow_split(s)
        d = parse_targets(tgt)
        args = split_top(head[7:-1])
        cond = args[0]
        expected = True
        if cond.startswith('!'):
            expected = False
            cond = cond[1:]
        target = d.get('success', d.get('single'))
        unwind = d.get('unwind')
        return ('assert', parse_operand(cond), expected, args[1],
                [parse_operand(a) for a in args[2:]], target,
                unwind if isinstance(unwind, int) else None, span)
    # call:  PLACE = CALLEE(args) -> targets
    head, tgt = arrow_split(s)
    depth = 0
    eq = None
    i = 0
    while i < len(head):
        c = head[i]
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and head[i - 1] not in '-=':
            depth -= 1
        elif depth == 0 and head.startswith(' = ', i):
            eq = i
            break
        i += 1
    if eq is None:
        raise ParseError('terminator ' + s)
    dest = parse_place(head[:eq])
    rest = head[eq + 3:]
    # args: the last top-level paren group
    i = 0
    depth = 0
    opn = None
    while i < len(rest):
        c = rest[i]
        if c == '"':
            i = skip_string(rest, i)
            continue
        if c == '(' and depth == 0:
            e = match_close(rest, i)
            if e == len(rest) - 1:
                opn = i
                break
            i = e + 1
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and rest[i - 1] not in '-=':
            depth -= 1
        i += 1
    if opn is None:
        raise ParseError('call ' + s)
    callee = rest[:opn]
    args = [parse_operand(a) for a in split_top(rest[opn + 1:-1])]
    if re.match(r'^(move |copy )', callee) or re.match(r'^(_\d|\(+\*?\(*_\d)', callee):
        callee_op = parse_operand(callee)
    else:
        callee_op = ('fn', callee)
    target = unwind = None
    if tgt is not None:
        d = parse_targets(tgt)
        target = d.get('return')
        u = d.get('unwind')
        unwind = u if isinstance(u, int) else None
        if 'single' in d:
            b = d['single']
            if b in cleanup and not in_cleanup:
                unwind = b
            else:
                target = b
    return ('call', dest, callee_op, args, target, unwind, span)


HEAD = re.compile(r'^(fn|const|static|static mut|promoted\[\d+\] in) ')
SCOPE_COMMENT = re.compile(r'\s+// (?:\+ )?(?:in )?scope \d+ at (.*)$')


def logical_lines(text):
    """Yield (indent, code, span, following comment lines)."""
    for raw in text:
        yield raw


def parse_file(path, types=()):
    """Parse a .mir file: (functions: {name: [Function]}, allocs: {name: dict}).
    types: paths of the crate's types; those defined in functions are printed with another one."""
    with open(path, encoding='utf-8') as f:
        text = f.read()
    for t in types:
        mod, _, n = t.rpartition('::')
        if t not in text and '::%s' % n in text:
            text = re.sub(r"(?<![\w:])%s::(?:[\w:]|<'[^<>\n]*>|<impl at [^>\n]*>)*::%s\b" % (re.escape(mod), re.escape(n)), t, text)
    lines = text.split('\n')
    funcs = {}
    allocs = {}
    i = 0
    n = len(lines)
    while i < n:
        line = lines[i]
        if not line or line.startswith('//'):
            i += 1
            continue
        if line.startswith('alloc'):
            # alloc1 (size: 4, align: 1) { ... }
            m = re.match(r'^(alloc\d+) \((.*)\)', line)
            if line.endswith('{}') or not line.endswith('{'):
                allocs.setdefault(m.group(1), {'head': m.group(2), 'lines': []})
                i += 1
                continue
            j = i + 1
            body = []
            while lines[j] != '}':
                body.append(lines[j])
                j += 1
            allocs[m.group(1)] = {'head': m.group(2), 'lines': body}
            i = j + 1
            continue
        if line[0] in ' }':
            i += 1
            continue
        if line.startswith('fn ') and not line.endswith('{'):
            j = i + 1
            while not lines[j].endswith('{'):
                j += 1
            lines[j] = ' '.join(x.strip() for x in lines[i:j + 1])
            i = j
            continue
        if line.endswith('{'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            fn = parse_function(line, lines[i + 1:j])
            if fn is not None:
                funcs.setdefault(fn.name, []).append(fn)
            i = j + 1
            continue
        i += 1
    return funcs, allocs


def parse_function(head, body):
    fn = Function()
    fn.lines = len(body)
    h = head[:-1].strip()
    if h.startswith('fn '):
        fn.kind = 'fn'
        # find the '(' opening the args: the first "(_1:" or "()" at depth 0
        s = h[3:]
        i = 0
        depth = 0
        opn = None
        while i < len(s):
            c = s[i]
            if c == '(' and depth == 0:
                opn = i
                break
            if c in '[{<(':
                depth += 1
            elif c in ')]}':
                depth -= 1
            elif c == '>' and s[i - 1] not in '-=':
                depth -= 1
            i += 1
        fn.name = s[:opn]
        e = match_close(s, opn)
        for a in split_top(s[opn + 1:e]):
            m = re.match(r'^_(\d+): (.*)$', a, re.S)
            fn.args.append((int(m.group(1)), m.group(2)))
            fn.locals[int(m.group(1))] = m.group(2)
        rest = s[e + 1:].strip()
        fn.ret = rest[3:].strip() if rest.startswith('->') else '()'
    else:
        # const NAME: TY = {   |  NAME::{constant#0}: TY = {
        s = re.sub(r'^(const|static mut|static) ', '', h)
        fn.kind = 'const'
        fn.static = h.startswith('static')
        fn.mutable = h.startswith('static mut')
        m = re.match(r'^(promoted\[\d+\] in .*|.*?): ([^:].*) =$', s, re.S)
        # choose the split at the last ": " at depth 0 before " ="
        depth = 0
        cut = None
        for k, c in enumerate(s):
            if c in '([{<':
                depth += 1
            elif c in ')]}':
                depth -= 1
            elif c == '>' and s[k - 1] not in '-=':
                depth -= 1
            elif depth == 0 and s.startswith(': ', k):
                cut = k
                break
        if cut is None:
            raise ParseError('head ' + head)
        fn.name = s[:cut]
        fn.ret = s[cut + 2:].rsplit(' =', 1)[0]
        if fn.name.startswith('promoted['):
            fn.kind = 'promoted'
    m = re.search(r'<impl at ([^>]*?): (\d+):(\d+)>', fn.name)
    fn.impl_span = None
    m = re.search(r'<impl at ([^:>]*):(\d+):(\d+): (\d+):(\d+)>', fn.name)
    if m:
        fn.impl_span = (m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5)))
    fn.span = None

    # group logical statements with trailing comment lines
    cur = None
    cleanup = set()
    for l in body:
        m = re.match(r'^    bb(\d+)( \(cleanup\))?: \{', l)
        if m and m.group(2):
            cleanup.add(int(m.group(1)))
    fn.cleanup = cleanup
    blk = None
    pending = None  # [code, span, comments]

    def flush():
        nonlocal pending
        if pending is None:
            return
        code, span, comments = pending
        pending = None
        if blk is None:
            return
        b = fn.blocks[blk]
        try:
            add(b, code, span, comments)
        except ParseError as ex:
            raise ParseError('%s in %s: %s' % (ex, fn.name, code))

    def add(b, code, span, comments):
        if not code.endswith(';'):
            raise ParseError('no ; ' + code)
        code = code[:-1]
        first = code.split('(', 1)[0].split(' ', 1)[0]
        if first in ('StorageLive', 'StorageDead', 'FakeRead', 'AscribeUserType', 'Retag',
                     'nop', 'Coverage::', 'ConstEvalCounter', 'PlaceMention'):
            return
        if first == 'discriminant' and ' = ' in code:
            l, r = code.split(' = ')
            b['stmts'].append(('setdiscr', parse_place(l[13:-1]), int(r), span))
            return
        if first in ('Deinit', 'assume'):
            return
        if (first in ('return', 'unreachable', 'resume', 'abort', 'terminate', 'goto',
                      'falseEdge', 'falseUnwind', 'switchInt', 'drop', 'assert')):
            b['term'] = parse_terminator(code, span, blk in cleanup, cleanup)
            return
        # call or assignment
        head_, tgt = arrow_split(code)
        iscall = tgt is not None
        if not iscall and comments and ' = ' in code:
            # diverging call without cleanup: "_x = path(args)" followed by a fn literal comment
            rhs = code.split(' = ', 1)[1]
            if rhs.endswith(')') and not rhs.startswith(('const ', '(', '[', '&', 'move ', '_')):
                for c in comments:
                    m = re.search(r'literal: Const \{ ty: (.*?), val: Value\(<ZST>\)', c)
                    if m and re.search(r'\{(.*)\}$', m.group(1)):
                        p = re.search(r'\{(.*)\}$', m.group(1)).group(1)
                        if rhs.startswith(p + '('):
                            iscall = True
        if iscall:
            b['term'] = parse_terminator(code, span, blk in cleanup, cleanup)
            return
        # split at first top-level ' = '
        depth = 0
        for k, c in enumerate(code):
            if c in '([{<':
                depth += 1
            elif c in ')]}':
                depth -= 1
            elif c == '>' and code[k - 1] not in '-=':
                depth -= 1
            elif depth == 0 and code.startswith(' = ', k):
                b['stmts'].append(('assign', parse_place(code[:k]),
                                   parse_rvalue(code[k + 3:], comments), span))
                return
        raise ParseError('statement ' + code)

    carry = ''
    for l in body:
        if blk is None:
            s = l.strip()
            if carry:
                s = carry + ' ' + s
                carry = ''
            if s.startswith('let ') and '//' not in s:
                carry = s
                continue
            m = re.match(r'^    bb(\d+)(?: \(cleanup\))?: \{', l)
            if m:
                blk = int(m.group(1))
                fn.blocks[blk] = {'stmts': [], 'term': None}
                continue
            m = re.match(r'^let (?:mut )?_(\d+): (.*?);\s*// (.*)$', s)
            if m:
                fn.locals[int(m.group(1))] = m.group(2)
                if m.group(1) == '0':
                    fn.ret = m.group(2)
                mm = re.search(r' at (.*)$', m.group(3))
                if m.group(1) == '0' and mm:
                    fn.span = mm.group(1)
                continue
            m = re.match(r'^debug (\S+) => (.*?);\s*//', s)
            if m:
                fn.debug.setdefault(m.group(1), []).append(m.group(2))
            continue
        if l == '    }':
            flush()
            blk = None
            continue
        if not l.strip():
            continue
        st = l.strip()
        if st.startswith('//'):
            if pending is not None:
                c, cs = st[2:].strip(), pending[2]
                if cs and cs[-1].startswith('+ literal:') and not cs[-1].endswith('}') and not re.match(r'\+ |mir::|ty::', c):
                    cs[-1] += ' ' + c   # a type printed over several lines
                else:
                    cs.append(c)
            continue
        # a code line
        m = SCOPE_COMMENT.search(l)
        if not m and not st.endswith(';'):
            carry = (carry + ' ' + st).strip()
            continue
        if carry:
            l = carry + ' ' + st
            carry = ''
            m = SCOPE_COMMENT.search(l)
        if m:
            code = l[:m.start()].strip()
            flush()
            pending = [code, m.group(1), []]
        else:
            # continuation (multi-line constant) or no comment
            flush()
            pending = [st, None, []]
    flush()
    return fn


if __name__ == '__main__':
    import sys
    import time
    t = time.time()
    f, a = parse_file(sys.argv[1])
    print(len(f), 'names', sum(len(x) for x in f.values()), 'bodies', len(a), 'allocs', time.time() - t)
