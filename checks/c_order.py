"""What a rendering may depend on: the document, and nothing that differs from one run to the next."""
import re

import engine
from common import disp, program
from front import AnalysisError
from report import check

# calls whose result differs from run to run
SOURCES = [
    (r'\b(Instant|SystemTime)::(now|elapsed)\b', 'the time'),
    (r'\bstd::(time::)?UNIX_EPOCH\b.*elapsed', 'the time'),
    (r'^std::env::(?!Args)', 'the environment'),
    (r'\bstd::process::id\b', 'the process'),
    (r'\bstd::thread::(current|spawn|scope|park|Builder|available_parallelism|sleep|yield_now|ThreadId)|\bThread(Id)?::|\bJoinHandle', 'threads'),
    (r'\bLocalKey::', 'the state of one thread'),
    (r'\brayon(_core)?::(current_thread_index|current_num_threads|max_num_threads|spawn|scope|in_place_scope|broadcast|yield_)', 'threads'),
    (r'\bRandomState\b|\brand(_core)?::|\bgetrandom::', 'random numbers'),
    (r'\bAtomic(Bool|Ptr|[UI](8|16|32|64|size))?(::<[^>]*>)?::(load|store|swap|update|try_update|fetch_\w+|compare_\w+|get_mut|as_ptr)\b', 'state shared between threads'),
    (r'\b(Mutex|RwLock|Condvar|ReentrantLock)(::<.*>)?::(lock|try_lock|read|write|try_read|try_write|wait|notify_one|notify_all)$', 'state shared between threads'),
    (r'\bstd::sync::mpsc::', 'the order in which threads send'),
    (r'\bArguments?(::<.*>)?::new_pointer|\bas std::fmt::Pointer>', 'an address'),
    (r'::addr$|::expose_provenance$|::expose_addr$', 'an address'),
]
# operations of rayon whose result depends on how the work is divided
DIVIDED = {'find_any', 'find_map_any', 'position_any', 'try_for_each', 'try_for_each_with', 'try_for_each_init', 'try_reduce', 'try_reduce_with',
           'try_fold', 'try_fold_with', 'fold', 'fold_with', 'fold_chunks', 'reduce', 'reduce_with', 'par_bridge', 'while_some', 'take_any', 'skip_any', 'take_any_while', 'skip_any_while', 'map_with',
           'map_init', 'fold_chunks_with', 'par_split', 'split'}
HASHED = r'(?:std::collections::)?(?:hash_map::|hash_set::)?(?:HashMap|HashSet|FxHashMap|FxHashSet|FnvHashMap)'
WALKER = r'(?:std::collections::)?hash_(?:map|set)::(?:Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b'
# what a walk over a hash table may be used for without its order mattering
ANY_ORDER = {'any', 'all', 'count', 'max', 'min', 'len', 'size_hint', 'is_empty'}
LAZY = {'map', 'filter', 'filter_map', 'flat_map', 'flatten', 'cloned', 'copied', 'by_ref', 'chain', 'into_iter', 'iter', 'clone', 'inspect', 'drop', 'drop_in_place', 'deref'}
MAKES = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'extract_if', 'union', 'intersection', 'difference', 'symmetric_difference', 'into_iter', 'par_iter', 'into_par_iter', 'par_drain'}

CELLS = r'\b(Atomic(Bool|Ptr|[UI](8|16|32|64|size))|Mutex|RwLock|RefCell|AtomicRefCell|UnsafeCell|Cell)\b'


def parts(text):
    """(self type, trait, method, generic arguments of the method) of the text of a callee"""
    gen = ''
    t = text
    if t.endswith('>'):
        i = match_back(t, len(t) - 1)
        if i >= 2 and t[i - 2:i] == '::':
            gen, t = t[i + 1:-1], t[:i - 2]
    if t.startswith('<'):
        j = match(t, 0)
        head, meth = t[1:j], t[j + 1:].lstrip(':')
        k = top_as(head)
        return (head if k is None else head[:k], None if k is None else head[k + 4:], meth, gen)
    a, _, m = t.rpartition('::')
    return a, None, m, gen


def match(t, i):
    d = 0
    while i < len(t):
        if t[i] in '<([':
            d += 1
        elif t[i] in ')]' or t[i] == '>' and t[i - 1] not in '-=':
            d -= 1
            if not d:
                return i
        i += 1
    raise AnalysisError('a callee with unbalanced brackets: ' + t)


def match_back(t, i):
    d = 0
    while i >= 0:
        if t[i] in ')]' or t[i] == '>' and t[i - 1] not in '-=':
            d += 1
        elif t[i] in '<([':
            d -= 1
            if not d:
                return i
        i -= 1
    return -1


def top_as(t):
    d = 0
    for i, c in enumerate(t):
        if c in '<([':
            d += 1
        elif c in ')]' or c == '>' and t[i - 1] not in '-=':
            d -= 1
        elif not d and t.startswith(' as ', i):
            return i
    return None


def strip_refs(t):
    return re.sub(r"^(&|mut |'\w+ )+", '', t.strip())


def hash_order(text):
    """why a call depends on the order of a hash table"""
    s, tr, m, gen = parts(text)
    me = strip_refs(s)
    walks = re.search(WALKER, text) is not None
    if walks and re.search(WALKER, me):
        if m in ANY_ORDER or m in LAZY:
            return None
        if m in ('collect', 'from_iter') and re.match(HASHED + r'\b|(std::collections::)?(btree_map::|btree_set::)?BTree(Map|Set)\b', gen):
            return None
        return '%s on %s' % (m, short(me))
    if re.match(HASHED + r'\b', me):
        if tr and tail(tr) in ('Debug', 'Display', 'Hash', 'Serialize'):
            return '%s of %s' % (tail(tr), short(me))
        return None
    # a table, or a walk over one, given to something else
    args = gen + ',' + (tr or '')
    if m in ('extend', 'par_extend', 'from_iter', 'new_debug', 'join', 'concat', 'zip', 'chain') and (re.search(WALKER, args) or re.search(r'(^|[ ,<(&])' + HASHED + r'\b', gen)):
        if re.match(r'(std::collections::)?(btree_map::|btree_set::)?BTree(Map|Set)\b', me) or m == 'from_iter' and re.match(HASHED, me):
            return None
        return '%s of %s from a hash table' % (m, short(me))
    return None


def tail(t):
    return re.sub(r'<.*', '', t).rsplit('::', 1)[-1]


def short(t):
    return re.sub(r'\b(?:\w+::)+', '', t)[:80]


def sources(text):
    for pat, what in SOURCES:
        s, tr, m, gen = parts(text)
        if re.search(pat, text) and not ('RandomState' in text and re.search(HASHED, text)):
            return what
    return None


def divided(text):
    s, tr, m, gen = parts(text)
    par = re.search(r'\brayon(_core|_croissant)?::', s + (tr or '')) is not None
    if not par or tr is None and 'rayon' not in s:
        return None
    if m in DIVIDED:
        return m
    if m in ('sum', 'product') and re.search(r'\bf(32|64)\b|Length', gen):
        return m + ' of floating point numbers'
    return None


def shared(p, k, text):
    """for_each has no result of its own: what its closures leave behind is in cells that they share"""
    if not parts(text)[2].startswith('for_each'):
        return None
    for k2, b in p.bodies.items():
        if k2.startswith(k + '::{closure'):
            for bb in (b.blocks.values() if isinstance(b.blocks, dict) else b.blocks):
                t = bb['term']
                if t and t[0] == 'call' and t[2][0] == 'fn' and re.search(r'\b(AtomicRef\w*|\w*Cell)(::<.*>)?::', t[2][1]):
                    return 'for_each with ' + short(t[2][1])
    return None


def calls(p):
    """every call in the crate: (body key, callee text, span)"""
    for k, b in p.bodies.items():
        for bb in (b.blocks.values() if isinstance(b.blocks, dict) else b.blocks):
            t = bb['term']
            if t and t[0] == 'call':
                yield k, t[2], t[6]


def exposes(p):
    """casts of an address to a number: (body key, statement)"""
    for k, b in p.bodies.items():
        for bb in (b.blocks.values() if isinstance(b.blocks, dict) else b.blocks):
            for s in bb['stmts']:
                if s[0] == 'assign' and s[2][0] == 'cast' and re.search(r'Expose', str(s[2])):
                    yield k, s


def identity(p, k, seen=()):
    """a method that only compares or hashes for tables looked up by identity, or is only called by such"""
    k = re.sub(r'::\{closure#\d+\}', '', k)
    im = p.impl_of.get(k)
    if im is not None and im.trait is not None and tail(im.trait) in ('Hash', 'PartialEq'):
        return True
    if k in seen:
        return True
    name = re.sub(r'::<.*?>(?=::|$)', '', k).rsplit('::', 1)[-1]
    by = {k2 for k2, c, _ in calls(p) if c[0] == 'fn' and parts(c[1])[2].rsplit('::', 1)[-1] == name and not re.match(r'<?&?(std|core|alloc)::', c[1])}
    return bool(by) and all(identity(p, k2, seen + (k,)) for k2 in by)


@check('X01', rule='no call in the crate has a result that differs between runs on the same document: no order of hash tables, addresses, time, environment, random numbers, '
       'thread identities or shared counters, and parallel operations that give results in the order of their input',
       trusted=('rayon: map, enumerate, collect and par_extend keep the order of their input', 'html5ever, xml-rs, cssparser, selectors and xi-unicode are deterministic'))
def x01(r):
    p = program('victor')
    n = {'calls': 0, 'parallel operations': 0, 'calls that involve hash tables': 0}
    folds = []
    for k, c, span in calls(p):
        if c[0] != 'fn':
            continue
        r.fn(k)
        n['calls'] += 1
        text = c[1]
        w = disp(p, k)
        what = sources(text)
        if what:
            r.violate('source', w, 'a rendering depends on %s: %s' % (what, short(text)), key='source: %s in %s' % (short(text), w))
        if re.search(HASHED + '|' + WALKER, text):
            n['calls that involve hash tables'] += 1
            why = hash_order(text)
            r.ob('hash order', not why, w, 'a rendering depends on the order of a hash table: %s' % why, key='hash order: %s in %s' % (why, w))
        if 'rayon' in text:
            n['parallel operations'] += 1
            why = divided(text) or shared(p, k, text)
            r.ob('parallel', not why, w, 'the result of %s depends on how threads divide the work' % why, key='parallel: %s in %s' % (why, w))
            if parts(text)[2] == 'mapfold_reduce_into':
                folds.append((k, text, w))
    for k, s in exposes(p):
        w = disp(p, k)
        r.ob('address', identity(p, k), w, 'an address becomes a number outside of Hash and PartialEq', key='address: ' + w)
    for name, k in sorted(p.statics.items()):
        b = p.bodies.get(k) or p.plain.get(k)
        r.ob('static', not getattr(b, 'mutable', False) and not re.search(CELLS, str(b.ret)), name, 'state that renderings change and share: %s' % short(str(b.ret)), key='static: ' + name)
    for a, x in n.items():
        r.floor(a, x, {'calls': 500, 'parallel operations': 0, 'calls that involve hash tables': 0}[a])
