# C09: List and Array behave like Python lists of values under any sequence of
# operations, with members' numbering and parents always consistent.
from flatland import Array, Dict, Integer, List, MultiValue, String
from flatland.schema.base import Element
from hlib import wellformed

BOUNDS = ('initial length 0..3; sequences of 2 operations (3 in the thorough '
          'tier) out of 26 kinds with symbolic indexes -5..4, slice bounds '
          'and steps, and symbolic integer values 0..9 given plainly or as '
          'elements; List, Array and MultiValue of scalars and List of Dict; '
          'one operation on members of 1 character, also without value')
ASSUMPTIONS = ['slice reads and deletions of Array and MultiValue start at '
               'or after -len: Jython\'s own list subclasses get those wrong']
OUTSIDE = ('one element object placed at two positions; sort() without key; '
           'comparison operators other than ==')

OPS = ['append', 'extend', 'insert', 'set', 'setslice', 'setstep', 'del',
       'delslice', 'delstep', 'pop', 'poplast', 'remove', 'index', 'count',
       'contains', 'reverse', 'sort', 'rsort', 'iadd', 'get', 'getslice',
       'getstep', 'reversed', 'plus', 'times', 'assign']


class Odd(object):
    """Cannot be iterated."""


def attempt(fn):
    try:
        return fn()
    except (IndexError, ValueError, TypeError) as e:
        return type(e).__name__


def plain(x):
    if isinstance(x, Element):
        return x.value
    if isinstance(x, list):
        return [plain(i) for i in x]
    return x


def step(sym, el, ref, n, ops, wrap, unwrap):
    """Do one operation on both; -> (outcome, reference outcome)."""
    t = '%d.' % n
    op = sym.choice(t + 'op', ops)

    def val(name):
        v = wrap(sym.int(t + name, 0, 9))
        if sym.flag(t + name + '.element'):
            return el.member_schema(v), v
        return v, v

    def idx(name='i'):
        i = sym.pick_int(t + name, -5, 4)
        if not isinstance(el, List) and op in ('getslice', 'delslice'):
            sym.assume(i >= -len(el))
        return i
    sym.cover(op)
    if op == 'append':
        a, b = val('v')
        return attempt(lambda: el.append(a)), ref.append(b)
    if op in ('extend', 'iadd'):
        a, b = val('v')
        two = sym.flag(t + 'two')
        if op == 'extend':
            el.extend(iter([a, wrap(3)]) if two else [a])
        else:
            same = el
            same += [a, wrap(3)] if two else (a,)
            sym.check(same is el, '+= made another object')
        ref.extend([b, wrap(3)] if two else [b])
        return None, None
    if op == 'insert':
        i = idx()
        a, b = val('v')
        return attempt(lambda: el.insert(i, a)), ref.insert(i, b)
    if op == 'set':
        i = idx()
        a, b = val('v')

        def put(x, v):
            x[i] = v
        return attempt(lambda: put(el, a)), attempt(lambda: put(ref, b))
    if op == 'setslice':
        i, j = idx(), idx('j')
        a, b = val('v')
        k = sym.pick_int(t + 'k', 0, 2)

        def put(x, v):
            x[i:j] = [v, wrap(4)][:k]
        return attempt(lambda: put(el, a)), attempt(lambda: put(ref, b))
    if op == 'setstep':
        s = sym.choice(t + 's', [2, -1])
        a, b = val('v')
        k = sym.pick_int(t + 'k', 0, 3)

        def put(x, v):
            x[::s] = [v, wrap(4), wrap(5)][:k]
        return attempt(lambda: put(el, a)), attempt(lambda: put(ref, b))
    if op == 'del':
        i = idx()

        def cut(x):
            del x[i]
        return attempt(lambda: cut(el)), attempt(lambda: cut(ref))
    if op == 'delslice':
        i, j = idx(), idx('j')

        def cut(x):
            del x[i:j]
        return attempt(lambda: cut(el)), attempt(lambda: cut(ref))
    if op == 'delstep':
        s = sym.choice(t + 's', [2, -1])

        def cut(x):
            del x[::s]
        return attempt(lambda: cut(el)), attempt(lambda: cut(ref))
    if op == 'pop':
        i = idx()
        r = attempt(lambda: el.pop(i))
        if not isinstance(r, str):
            sym.check(isinstance(r, el.member_schema), 'pop() returned '
                      'something that is not a member')
        return plain(r), attempt(lambda: ref.pop(i))
    if op == 'poplast':
        r = attempt(lambda: el.pop())
        return plain(r), attempt(lambda: ref.pop())
    if op in ('remove', 'index', 'count', 'contains'):
        a, b = val('v')
        f = {'remove': lambda x, v: x.remove(v),
             'index': lambda x, v: x.index(v),
             'count': lambda x, v: x.count(v),
             'contains': lambda x, v: v in x}[op]
        return attempt(lambda: f(el, a)), attempt(lambda: f(ref, b))
    if op == 'reverse':
        return el.reverse(), ref.reverse()
    if op in ('sort', 'rsort'):
        kinds = []

        by = sym.choice(t + 'by', [lambda v: v, lambda v: v > 4,
                                   lambda v: 0])

        def key(x):
            kinds.append(isinstance(x, el.member_schema))
            return by(unwrap(x.value))
        el.sort(key=key, reverse=op == 'rsort')
        ref.sort(key=lambda v: by(unwrap(v)), reverse=op == 'rsort')
        sym.check(all(kinds), 'sort() key called with something that is not '
                  'a member')
        return None, None
    if op == 'get':
        i = idx()
        return plain(attempt(lambda: el[i])), attempt(lambda: ref[i])
    if op == 'getslice':
        i, j = idx(), idx('j')
        return plain(attempt(lambda: el[i:j])), attempt(lambda: ref[i:j])
    if op == 'getstep':
        i, s = idx(), sym.choice(t + 's', [2, -1, -2])
        return (plain(attempt(lambda: el[i::s])),
                attempt(lambda: ref[i::s]))
    if op == 'reversed':
        return plain(list(reversed(el))), list(reversed(ref))
    if op == 'plus':
        return plain(el + [wrap(8)]), ref + [wrap(8)]
    if op == 'times':
        k = sym.pick_int(t + 'k', -1, 2)
        if sym.flag(t + 'left'):
            return plain(k * el), k * ref
        return plain(el * k), ref * k
    if op == 'assign':
        a, b = val('v')
        how = sym.choice(t + 'how', ['list', 'iter', 'dict', 'bad', 'none'])
        if how == 'bad' or how == 'none':
            del ref[:]
            return el.set(None if how == 'none' else Odd()), False
        if isinstance(b, dict):
            how = 'list'
        ref[:] = [b, wrap(4)] if how != 'dict' else [b]
        # members are set with plain values
        return el.set({'list': [b, wrap(4)], 'iter': iter([b, wrap(4)]),
                       'dict': {b: 1} if how == 'dict' else None}[how]), True


def run(sym, kind, steps, first, second, pure):
    wrap = unwrap = lambda v: v
    if kind == 'list':
        S = List.named(u'l').of(Integer)
    elif kind == 'array':
        S = Array.named(u'l').of(Integer)
    elif kind == 'multi':
        S = MultiValue.named(u'l').of(Integer)
    else:
        S = List.named(u'l').of(Dict.of(Integer.named(u'x')))
        wrap = lambda v: {u'x': v}
        unwrap = lambda v: v[u'x']
    n = sym.pick_int('n', 0, 3)
    init = [wrap(sym.int('init%d' % i, 0, 9)) for i in range(n)]
    el = S(init)
    ref = list(init)
    for k in range(steps):
        ops = (first if k == 0 else second)
        got, want = step(sym, el, ref, k, ops, wrap, unwrap)
        sym.equal(got, want, 'outcome of an operation')
        sym.equal(len(el), len(ref), 'length')
        sym.equal([m.value for m in el], ref, 'members')
        sym.equal([m.value for m in el.children], ref, 'children')
        if kind != 'multi':
            sym.equal(el.value, ref, 'value')
        wellformed(sym, el, S)
    flat = el.flatten()
    sym.equal([v for k, v in flat], [unicode(unwrap(v)) for v in ref],
              'exported texts')
    if kind == 'list':
        sym.equal([k for k, v in flat], [u'l_%d' % i
                                         for i in range(len(ref))],
                  'exported names')
    sym.cover('done')
    sym.observe([plain(list(el)), [k for k, v in flat]])


def odd(sym, kind, op):
    """Members whose text is no value; elements stay the same objects."""
    S = {'list': List, 'array': Array, 'multi': MultiValue}[kind].named(
        u'l').of(Integer)
    M = S.member_schema

    def item(name):
        t = sym.text(name, 1, alphabet=u' 1x')
        e = M(t)
        return e, (e.value, e.u), t
    start = [item('a%d' % i) for i in range(sym.pick_int('n', 1, 2))]
    el = S([i[2] for i in start])
    ref = [i[1] for i in start]
    show = lambda x: [(m.value, m.u) for m in x]
    sym.equal(show(el), ref, 'members')
    e, r, t = item('e')
    given = sym.flag('element')
    v = e if given else t
    where = None
    if op == 'append':
        el.append(v)
        ref.append(r)
        where = -1
    elif op == 'extend':
        el.extend([v])
        ref.extend([r])
        where = -1
    elif op == 'iadd':
        el += [v]
        ref += [r]
        where = -1
    elif op == 'insert':
        el.insert(1, v)
        ref.insert(1, r)
        where = 1
    elif op == 'set':
        el[0] = v
        ref[0] = r
        where = 0
    elif op == 'setslice':
        el[0:1] = [v]
        ref[0:1] = [r]
        where = 0
    elif op == 'remove':
        sym.equal(attempt(lambda: el.remove(v)),
                  attempt(lambda: ref.remove(r)), 'outcome')
    elif op == 'index':
        sym.equal(attempt(lambda: el.index(v)),
                  attempt(lambda: ref.index(r)), 'outcome')
    elif op == 'count':
        sym.equal(el.count(v), ref.count(r), 'outcome')
    elif op == 'contains':
        sym.equal(v in el, r in ref, 'outcome')
    elif op == 'pop':
        m = el[0]
        got = el.pop(0)
        sym.check(got is m, 'pop() gives another object')
        del ref[0]
    elif op == 'sort':
        was = list(el)
        el.sort(key=lambda m: m.u == u'x')
        ref.sort(key=lambda m: m[1] == u'x')
        sym.check(all(any(a is b for b in was) for a in el),
                  'sort() made other objects')
    elif op == 'reverse':
        was = list(el)
        el.reverse()
        ref.reverse()
        sym.check(all(a is b for a, b in zip(el, was[::-1])),
                  'reverse() made other objects')
    sym.equal(show(el), ref, 'members')
    if where is not None and given:
        sym.check(el[where] is e, 'the element given is not the member')
        sym.equal((e.value, e.u, e.raw), r + (t,), 'element changed')
    wellformed(sym, el, S)
    sym.cover('done')
    sym.observe(show(el))


MUT = ['append', 'insert', 'set', 'setslice', 'del', 'delslice', 'pop',
       'remove', 'reverse', 'sort', 'iadd']
VIEW = [o for o in OPS if o not in MUT]

CASES = []
for _k in ('list', 'array'):
    for _o in OPS:
        CASES.append(('%s.%s' % (_k, _o), run,
                      (_k, 1, [_o], None, None), ['done', _o], 'q'))
    for _o in ('append', 'insert', 'setslice', 'del', 'pop', 'remove',
               'reverse', 'sort', 'iadd', 'set'):
        CASES.append(('%s.%s+' % (_k, _o), run,
                      (_k, 2, [_o], ['append', 'pop', 'del', 'reversed']
                       if _o == 'setslice' else
                       ['append', 'pop', 'insert', 'del', 'reversed', 'set'],
                       None),
                      ['done', _o], 'q'))
        CASES.append(('%s.%s++' % (_k, _o), run,
                      (_k, 2, [_o], OPS, None), ['done', _o], 't'))
for _o in OPS:
    CASES.append(('multi.' + _o, run, ('multi', 1, [_o], None, None),
                  ['done', _o], 'q'))
    CASES.append(('dicts.' + _o, run, ('dicts', 1, [_o], None, None),
                  ['done', _o], 'q'))
for _k in ('list', 'array', 'multi'):
    for _o in ('append', 'extend', 'iadd', 'insert', 'set', 'setslice',
               'remove', 'index', 'count', 'contains', 'pop', 'sort',
               'reverse'):
        CASES.append(('odd.%s.%s' % (_k, _o), odd, (_k, _o), ['done'], 'q'))
