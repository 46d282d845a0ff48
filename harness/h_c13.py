# C13: find() selects exactly the elements a path denotes.
from flatland import (Array, DateYYYYMMDD, Dict, Integer, List, SparseDict,
                      String)
from flatland.schema import paths
from flatland.schema.base import Element, Slot

BOUNDS = ('slices with bounds absent or -4..4 and step absent or -2..3 over '
          'sequences of 0..3 members; paths of up to 4 segments out of 15 '
          'kinds, absolute or relative, from 9 start nodes; arbitrary path '
          'text of up to 5 characters over the path metacharacters, digits '
          'and two letters, and of 2 arbitrary BMP characters; '
          'single/strict flags; a full expression cache')
OUTSIDE = 'order of results among the children of a mapping'


def tree():
    S = Dict.of(
        String.named(u'a'),
        Dict.named(u'd').of(String.named(u'a'), Integer.named(u'b')),
        List.named(u'l').of(Dict.of(String.named(u'a'),
                                    Array.named(u'm').of(Integer))),
        List.named(u'e').of(String), SparseDict.named(u's').of(
            String.named(u'a')),
        DateYYYYMMDD.named(u'c'))
    el = S()
    el.set({u'a': u'A', u'd': {u'a': u'B', u'b': 2},
            u'l': [{u'a': u'C', u'm': [1, 2]}, {u'a': u'D'}],
            u'c': u'x'})
    return el


def text(n):
    return u'' if n is None else u'%d' % n


def slices(sym, kind, prefix):
    """[a:b:c] is Python slicing of the children."""
    cls = {'list': List, 'array': Array}[kind]
    S = Dict.of(cls.named(u'l').of(Integer))
    n = sym.pick_int('n', 0, 3)
    el = S({u'l': [10 + i for i in range(n)]})
    a = sym.pick_int('a', -4, 4) if sym.flag('has_a') else None
    b = sym.pick_int('b', -4, 4) if sym.flag('has_b') else None
    form = sym.choice('form', ['two', 'three', 'step'])
    c = None
    spec = text(a) + u':' + text(b)
    if form != 'two':
        if form == 'step':
            c = sym.choice('c', [-2, -1, 1, 2, 3])
        spec += u':' + text(c)
    path = prefix + u'l[' + spec + u']'
    sym.check([e.value for e in el.find(path)]
              == [10 + i for i in range(n)][a:b:c],
              'slice differs from Python')
    got = el.find(path)
    sym.check(all(e.parent is not None and any(e is k for k in el[u'l'])
                  for e in got), 'not members of the sequence')
    sym.cover('sliced')
    sym.observe([e.value for e in got])


def index(sym, kind):
    """l/i and l[i] select one member or nothing."""
    cls = {'list': List, 'array': Array}[kind]
    S = Dict.of(cls.named(u'l').of(Integer))
    n = sym.pick_int('n', 0, 3)
    el = S({u'l': [10 + i for i in range(n)]})
    i = sym.pick_int('i', -5, 5)
    style = sym.choice('style', ['slash', 'bracket'])
    digits = u'%d' % i
    if i == 0 and sym.flag('minus'):
        digits = u'-0'
    path = (u'l/%s' if style == 'slash' else u'l[%s]') % digits
    found = el.find(path, strict=False)
    if -n <= i < n:
        sym.check(len(found) == 1 and found[0] is el[u'l'][i],
                  'wrong member')
        sym.check(el.find(path, single=True) is el[u'l'][i], 'wrong member')
        sym.cover('hit')
    else:
        sym.equal(found, [], 'member out of nowhere')
        if digits[0] != u'-' or style == 'slash':
            try:
                el.find(path)
                sym.fail('missing index accepted')
            except LookupError:
                pass
        sym.cover('miss')
    sym.observe([e.value for e in found])


NAME, SLICE, UP, HERE = 'name', 'slice', 'up', 'here'
SEGS = [(u'.', (HERE, None)), (u'..', (UP, None)), (u'a', (NAME, u'a')),
        (u'd', (NAME, u'd')), (u'l', (NAME, u'l')), (u'e', (NAME, u'e')),
        (u'0', (NAME, u'0')), (u's', (NAME, u's')), (u'm', (NAME, u'm')),
        (u'zz', (NAME, u'zz')), (u'c', (NAME, u'c')),
        (u'[1]', (NAME, u'1')), (u'[:]', (SLICE, (None, None))),
        (u'[1:]', (SLICE, (1, None))), (u'[:0]', (SLICE, (None, 0)))]


def parent_of(el):
    p = el.parent
    if isinstance(p, Slot):
        p = p.parent
    return el if p is None else p


def child_of(el, name):
    if isinstance(el, dict):
        return dict.get(el, name)
    if isinstance(el, list):
        try:
            i = int(name)
        except ValueError:
            return None
        kids = list(el.children)
        if -len(kids) <= i < len(kids):
            return kids[i]
    return None


def denote(start, absolute, segs):
    """-> (elements, None) or (elements found anyway, 'missing')."""
    norm = []
    for op, arg in segs:
        if op == HERE:
            continue
        if op == UP:
            if norm and norm[-1][0] != UP:
                norm.pop()
                continue
            if not norm and absolute:
                continue
        norm.append((op, arg))
    if absolute:
        while start.parent is not None:
            start = start.parent
    now, missing = [start], None
    for op, arg in norm:
        nxt = []
        for el in now:
            if op == UP:
                nxt.append(parent_of(el))
            elif op == NAME:
                c = child_of(el, arg)
                if c is None:
                    missing = 'missing'
                else:
                    nxt.append(c)
            else:
                nxt.extend(list(el.children)[arg[0]:arg[1]])
        now = nxt
    return now, missing


STARTS = [lambda t: t, lambda t: t[u'a'], lambda t: t[u'd'],
          lambda t: t[u'd'][u'a'], lambda t: t[u'l'],
          lambda t: t[u'l'][0], lambda t: t[u'l'][0][u'm'][1],
          lambda t: t[u'e'], lambda t: t[u'c'][u'year']]


def ids(els):
    return [id(e) for e in els]


def walk(sym, count, starts, first):
    """A path is the composition of its segments."""
    t = tree()
    start = STARTS[sym.choice('start', starts)](t)
    absolute = sym.flag('absolute')
    path, ops = u'/' if absolute else u'', []
    for i in range(count):
        txt, op = SEGS[sym.choice('s%d' % i, first if i == 0 else
                                  list(range(len(SEGS))))]
        bracket = txt.startswith(u'[')
        if i and not bracket:
            path += u'/'
        if bracket and (i == 0 and absolute or path.endswith(u'.')):
            sym.assume(False)
        path += txt
        ops.append(op)
    want, missing = denote(start, absolute, ops)
    loose = start.find(path, strict=False)
    sym.check(not any(isinstance(e, Slot) for e in loose),
              'hidden slot found')
    sets = any(op == SLICE for op, a in ops)
    if sets:
        sym.equal(sorted(ids(loose)), sorted(ids(want)), 'elements found')
    else:
        sym.equal(ids(loose), ids(want), 'elements found')
    try:
        strict = start.find(path)
        err = False
    except LookupError:
        err = True
    sym.equal(err, missing is not None, 'refusal of a missing child')
    if not err:
        sym.equal(ids(strict), ids(loose), 'strict and loose differ')
    one = start.find(path, single=True, strict=False)
    if loose:
        sym.check(any(one is e for e in loose), 'single result')
    else:
        sym.check(one is None, 'single result of nothing')
    try:
        solo = start.find(path, single=True)
        sym.check(not err and len(loose) < 2, 'single result not refused')
        sym.check(solo is (loose[0] if loose else None), 'single result')
    except LookupError:
        sym.check(err or len(loose) > 1, 'single result refused')
    sym.cover('missing' if err else 'found')
    sym.observe([len(loose), err])


def nested_order(sym):
    """Results of nested slices come in document order."""
    S = List.of(List.of(Dict.of(Integer.named(u'x'))))
    n = [sym.pick_int('n%d' % i, 0, 2) for i in range(3)]
    el = S([[{u'x': 10 * i + j} for j in range(n[i])] for i in range(3)])
    got = [e.value for e in el.find(u'[:][:]/x')]
    sym.equal(got, [10 * i + j for i in range(3) for j in range(n[i])],
              'order of results')
    sym.equal([e.value for e in el.find(u'[1:][::-1]/x')],
              [10 * i + j for i in (1, 2) for j in reversed(range(n[i]))],
              'order of results')
    sym.cover('found')
    sym.observe(got)


def anytext(sym, maxlen, alphabet, pre):
    """No path text can do anything but select tree nodes or miss."""
    t = tree()
    start = sym.choice('start', [0, 4, 5])
    start = STARTS[start](t)
    path = pre + sym.text('path', maxlen, alphabet=alphabet)
    known = [id(t)] + [id(e) for e in t.all_children]
    loose = start.find(path, strict=False)
    sym.check(all(id(e) in known for e in loose), 'found something that is '
              'not in the tree')
    try:
        strict = start.find(path)
        sym.equal(ids(strict), ids(loose), 'strict and loose differ')
        sym.cover('found')
    except LookupError:
        sym.cover('missing')
    again = start.find(path, strict=False)
    sym.equal(ids(again), ids(loose), 'second evaluation differs')
    sym.observe([len(loose)])


KNOWN = [(u'', False, []), (u'/', True, []), (u'a', False, [u'a']),
         (u'/a', True, [u'a']), (u'd/a', False, [u'd', u'a']),
         (u'/d/a', True, [u'd', u'a']), (u'd', False, [u'd']),
         (u'/d', True, [u'd']), (u'..', False, [UP]), (u'.', False, []),
         (u'../a', False, [UP, u'a']), (u'../d', False, [UP, u'd']),
         (u'/d/../a', True, [u'a']), (u'A', False, [u'A']),
         (u'l/0/a', False, [u'l', u'0', u'a']), (u'l/0', False, [u'l', u'0']),
         (u'l/1/a', False, [u'l', u'1', u'a'])]


def related(sym, steps):
    """Each path means itself, whichever were looked up before."""
    t = tree()
    for i in range(steps):
        start = STARTS[sym.choice('start%d' % i, [0, 2, 3])](t)
        path, absolute, segs = KNOWN[sym.pick_int('path%d' % i, 0,
                                                  len(KNOWN) - 1)]
        if sym.flag('bytes%d' % i):
            path = str(path)
        want, missing = denote(start, absolute, [
            (UP, None) if x is UP else (NAME, x) for x in segs])
        sym.equal(ids(start.find(path, strict=False)), ids(want),
                  'elements found')
        try:
            start.find(path)
            sym.check(not missing, 'a missing element was accepted')
            sym.cover('found')
        except LookupError:
            sym.check(missing, 'refused though nothing is missing')
            sym.cover('missing')
    sym.observe([len(want)])


def full_cache(sym):
    """A full cache changes nothing."""
    t = tree()
    room = sym.pick_int('room', 0, 2)
    if not hasattr(paths, 'expression_cache'):
        return sym.cover('found')
    n = len(paths.expression_cache)
    paths.max_cache_size = n + room
    for p in (u'd/a', u'l/0', u'd/a', sym.choice('p', [u'a', u'c', u'd/b'])):
        found = t.find(p)
        sym.equal(ids(found), ids(denote(t, False, [
            (NAME, s) for s in p.split(u'/')])[0]), 'elements found')
    sym.check(len(paths.expression_cache) <= paths.max_cache_size,
              'cache larger than its maximum')
    sym.cover('found')


ALL = list(range(len(SEGS)))
CASES = [
    ('slice.list', slices, ('list', u''), ['sliced'], 'q'),
    ('slice.array', slices, ('array', u'/'), ['sliced'], 'q'),
    ('index.list', index, ('list',), ['hit', 'miss'], 'q'),
    ('index.array', index, ('array',), ['hit', 'miss'], 'q'),
    ('walk.1', walk, (1, list(range(len(STARTS))), ALL),
     ['found', 'missing'], 'q'),
    ('walk.2', walk, (2, list(range(len(STARTS))), ALL),
     ['found', 'missing'], 'q'),
    ('order', nested_order, (), ['found'], 'q'),
    ('any', anytext, (3, u'/.[]:-01al\\', u''), ['found', 'missing'], 'q'),
    ('any.l', anytext, (3, u'/.[]:-01a\\', u'l['), ['found', 'missing'],
     'q'),
    ('any.d', anytext, (3, u'/.[]:-1a\\', u'd/'), ['found', 'missing'],
     'q'),
    ('any.4', anytext, (4, u'/.[]:-01al\\', u''), ['found', 'missing'],
     't'),
    ('any.bmp', anytext, (2, None, u''), ['found', 'missing'], 'q'),
    ('cache', full_cache, (), ['found'], 'q'),
    ('related', related, (2,), ['found', 'missing'], 'q'),
    ('related.3', related, (3,), ['found', 'missing'], 't'),
] + [('walk.3.%d' % i, walk, (3, [i], ALL), ['missing'], 'q')
     for i in range(len(STARTS))] + [
    ('walk.4.%d.%d' % (i, f), walk, (4, [i], [f]), [], 't')
    for i in (0, 3, 5, 6) for f in ALL]
