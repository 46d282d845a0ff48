# C35: the building blocks of flatland.util do what their documentation says
# for every input.
import re

import flatland
from flatland.util import (Maybe, adict, as_mapping, assignable_class_property,
                           assignable_property, class_cloner, decode_repr,
                           keyslice_pairs, lazy_property, named_int_factory,
                           re_ucompile, re_uescape, symbol, to_pairs)
from flatland.validation.base import as_format_mapping
from hlib import raises

BOUNDS = ('up to 3 pairs with keys of up to 2 characters, 2 included, '
          'omitted or renamed keys; texts of up to 3 characters to escape '
          'and 2 to match against; all truth tables; 3 operations on a '
          'descriptor of 2 classes and 3 instances')
OUTSIDE = 'threads calling symbol() at the same time; documentation texts'
ASSUMPTIONS = []


class Keyed(object):
    def __init__(self, pairs):
        self._p = pairs

    def keys(self):
        return [k for k, v in self._p]

    def __getitem__(self, k):
        for a, v in self._p:
            if a == k:
                return v
        raise KeyError(k)


class Iterated(Keyed):
    def iteritems(self):
        return iter(self._p)


class Tupled(object):
    def __init__(self, pairs):
        self._p = pairs

    def _asdict(self):
        return dict(self._p)

    def __iter__(self):
        return iter([v for k, v in self._p])


def some_pairs(sym, n, m, distinct=True):
    out = []
    for i in range(sym.pick_int('n', 0, n)):
        k = sym.text('k%d' % i, m)
        if distinct:
            for a, b in out:
                sym.assume(a != k)
        out.append((k, i))
    return out


def pairs(sym, shape):
    ps = some_pairs(sym, 3, 1, shape not in ('list', 'iter'))
    src = {'dict': lambda: dict(ps), 'keyed': lambda: Keyed(ps),
           'iterated': lambda: Iterated(ps), 'tupled': lambda: Tupled(ps),
           'list': lambda: ps, 'iter': lambda: iter(ps),
           'lists': lambda: [list(p) for p in ps]}[shape]()
    got = list(to_pairs(src))
    if shape in ('dict', 'tupled'):
        sym.equal(len(got), len(ps), 'number of pairs')
        for p in ps:
            sym.check(p in got, 'pair missing')
    else:
        sym.equal(got, ps, 'pairs')
    sym.cover('some' if ps else 'none')


def slices(sym, how):
    ps = some_pairs(sym, 2, 2, False)
    key = None
    if sym.flag('key'):
        key = lambda k: k + u'!'
    mapped = [(k if key is None else key(k), v) for k, v in ps]
    a = sym.text('a', 3)
    names = [a, u'b!'] if sym.flag('both') else [a]
    ren = {}
    if 'rename' in how:
        ren = {sym.text('r', 2): u'R', u'c': u'S'}
    kw = {}
    if 'include' in how:
        kw['include'] = names if sym.flag('list') else iter(names)
    if 'omit' in how:
        kw['omit'] = names if sym.flag('olist') else iter(names)
    if ren:
        kw['rename'] = ren if sym.flag('dict') else list(ren.items())
    if key is not None:
        kw['key'] = key
    src = list(ps)
    try:
        got = list(keyslice_pairs(iter(src), **kw))
    except TypeError:
        sym.check('include' in how and 'omit' in how, 'refused')
        sym.cover('refused')
        return
    sym.check(not ('include' in how and 'omit' in how), 'conflict accepted')
    want = []
    for k, v in mapped:
        if k in ren:
            want.append((ren[k], v))
        elif 'include' in how and k not in names:
            pass
        elif 'omit' in how and k in names:
            pass
        else:
            want.append((k, v))
    sym.equal(got, want, 'selected pairs')
    sym.equal(src, ps, 'source changed')
    sym.cover('kept' if want else 'nothing')
    sym.observe(got)


def regexes(sym, m, n, alphabet=None):
    t = sym.text('t', m, alphabet=alphabet)
    x = sym.text('x', n, alphabet=alphabet)
    r = re_ucompile(u'^(?:' + re_uescape(t) + u')\\Z')
    sym.equal(r.match(x) is not None, x == t, 'escaped pattern')
    sym.check(r.match(t) is not None, 'does not match itself')
    sym.cover('same' if x == t else 'different')
    if x and t and x != t:
        r = re_ucompile(u'[' + re_uescape(t) + u']\\Z')
        sym.equal(r.match(x) is not None, len(x) == 1 and x in t,
                  'escaped set')
    sym.observe(re_uescape(t))


def classes(sym):
    """re_ucompile adds re.UNICODE to the flags it is given."""
    x = sym.text('x', 1, 1)
    for p in (u'\\d\\Z', u'\\w\\Z', u'\\s\\Z'):
        a = re_ucompile(p)
        b = re.compile(p, re.UNICODE)
        sym.equal(a.match(x) is None, b.match(x) is None, 'class')
    a, b = re_ucompile(u'A\\Z', re.I), re.compile(u'A\\Z', re.I)
    sym.equal(a.match(x) is None, b.match(x) is None, 'flags')
    sym.cover('matched' if a.match(x) else 'not')


def ternary(sym):
    vals = [True, False, Maybe]
    a, b = sym.choice('a', vals), sym.choice('b', vals)
    rank = {True: 2, False: 0}
    num = lambda v: 1 if v is Maybe else rank[v]
    back = [False, Maybe, True]
    if a is Maybe or b is Maybe:
        sym.check((a & b) is back[min(num(a), num(b))], 'and')
        sym.check((a | b) is back[max(num(a), num(b))], 'or')
    sym.check(Maybe.not_(a) is back[2 - num(a)], 'not')
    sym.check(Maybe.truth(a) is (a is not False), 'truth')
    bad = sym.choice('bad', [None, 3, u'x'])
    for f in (Maybe.not_, Maybe.truth, lambda v: Maybe & v,
              lambda v: v | Maybe):
        sym.check(raises(lambda: f(bad), TypeError), 'accepted')
    sym.check(raises(lambda: bool(Maybe), NotImplementedError), 'truth value')
    sym.equal(str(Maybe), 'Maybe', 'name')
    sym.cover('done')


def lazy(sym):
    calls = []

    class A(object):
        @lazy_property
        def p(self):
            calls.append(self)
            return len(calls)

    class B(A):
        pass

    objs = [A(), A(), B()]
    have = {}
    for n in range(4):
        i = sym.pick_int('i%d' % n, 0, 2)
        if sym.flag('assign%d' % n):
            v = sym.int('v%d' % n, 0, 3)
            objs[i].p = v
            have[i] = v
        else:
            if i not in have:
                have[i] = len(calls) + 1
            sym.equal(objs[i].p, have[i], 'value')
    sym.equal(len(calls), len(set(id(c) for c in calls)), 'computed twice')
    sym.check(isinstance(A.p, lazy_property), 'on the class')
    sym.cover('done')


def assignable(sym, kind):
    calls = []
    if kind == 'property':
        class A(object):
            @assignable_property
            def p(self):
                calls.append(self)
                return u'computed'
    elif kind == 'class':
        class A(object):
            @assignable_class_property
            def p(self, cls):
                calls.append((self, cls))
                return u'computed'
    else:
        class A(object):
            @class_cloner
            def p(cls, *a):
                cls.made = a
                return cls

    class B(A):
        pass

    objs = [A(), B()]
    have = {}
    for n in range(3):
        i = sym.pick_int('i%d' % n, 0, 1)
        op = sym.choice('op%d' % n, ['get', 'set', 'del'])
        if op == 'set':
            v = sym.int('v%d' % n, 0, 2)
            objs[i].p = v
            have[i] = v
        elif op == 'del':
            got = raises(lambda: delattr(objs[i], 'p'), AttributeError)
            sym.equal(got is None, i in have, 'deletion')
            have.pop(i, None)
        elif i in have:
            sym.equal(objs[i].p, have[i], 'assigned value')
        elif kind == 'cloner':
            sym.check(raises(lambda: objs[i].p, AttributeError),
                      'visible on instances')
        else:
            sym.equal(objs[i].p, u'computed', 'computed value')
            if kind == 'class':
                sym.check(calls[-1][0] is objs[i] and
                          calls[-1][1] is type(objs[i]), 'arguments')
            else:
                sym.check(calls[-1] is objs[i], 'argument')
    C = sym.choice('C', [A, B])
    if kind == 'property':
        sym.check(C.p is None, 'on the class')
    elif kind == 'class':
        sym.equal(C.p, u'computed', 'on the class')
        sym.check(calls[-1] == (None, C), 'arguments')
    else:
        D = C.p(1, 2)
        sym.check(D.__bases__ == (C,) and D.__name__ == C.__name__,
                  'clone is no direct subclass')
        sym.equal(D.made, (1, 2), 'arguments')
        sym.check(not hasattr(C, 'made'), 'class changed')
        sym.check(D.__module__ == __name__, 'module of the clone')
    sym.cover('done')


def mappings(sym):
    class T(object):
        x = 1

        @property
        def y(self):
            return 2

        def __getattr__(self, name):
            if name == 'u':
                return 4
            raise AttributeError(name)
    t = T()
    t.z = 3
    m = as_mapping(t)
    k = sym.text('k', 1, 1, alphabet=u'uwxyz')
    want = {u'x': 1, u'y': 2, u'z': 3, u'u': 4}
    sym.equal(k in m, k in want, 'membership')
    d = adict(x=1, z=3, y=2, u=4)
    if k in want:
        sym.equal(m[k], want[k], 'item')
        sym.equal(getattr(d, str(k)), want[k], 'attribute')
        sym.cover('there')
    else:
        sym.check(raises(lambda: m[k], KeyError), 'missing item')
        sym.check(raises(lambda: getattr(d, str(k)), AttributeError),
                  'missing attribute')
        sym.cover('missing')
    names = set(m)
    sym.check('x' in names and 'y' in names and 'z' in names, 'iteration')
    sym.equal(u'%(x)s-%(y)s' % m, u'1-2', 'formatting')
    # the formatting view over several targets
    f = as_format_mapping(None, {u'x': 5}, t, **(
        {'transform': lambda v: v + 10} if sym.flag('transform') else {}))
    plus = 10 if f.transform else 0
    sym.equal(k in f, k in want, 'membership of a view')
    if k in want:
        sym.equal(f[k], (5 if k == u'x' else want[k]) + plus, 'item of a view')
    else:
        sym.check(raises(lambda: f[k], KeyError), 'missing in a view')
    sym.check(raises(lambda: as_format_mapping(t, bogus=1), TypeError),
              'unknown argument')


def symbols(sym):
    a = sym.choice('a', ['a', 'b', 'ab'])
    b = sym.choice('b', ['a', 'b', 'ab'])
    x, y = symbol(a), symbol(b)
    sym.equal(x is y, a == b, 'identity')
    sym.check(symbol(a) is x, 'second call')
    sym.equal([repr(x), x.name, x.__name__], [a] * 3, 'name')
    f, args = x.__reduce__()
    sym.check(f(*args) is x, 'copy')
    n = sym.pick_int('n', 0, 2)
    i = named_int_factory(a, n, doc='d')
    sym.check(i == n and bool(i) == bool(n), 'number')
    sym.equal([str(i), repr(i)], [a, a], 'name of a number')
    sym.equal(i & True, n & True, 'arithmetic')
    j = named_int_factory(a, n)
    sym.check(i is not j, 'not unique')
    sym.cover('same' if a == b else 'different')


def package(sym):
    """Exactly the advertised names (and submodules) are attributes."""
    t = sym.choice('t', list(flatland.__all__) + [
        'bogus', 'string', '_symbol', 'String2'])
    if t in flatland.__all__:
        v = getattr(flatland, t)
        sym.check(getattr(flatland, t) is v, 'another object')
        sym.check(t in dir(flatland), 'not listed')
        sym.cover('there')
    else:
        sym.check(raises(lambda: getattr(flatland, t), AttributeError),
                  'unknown name')
        sym.cover('missing')


CASES = [('pairs.' + s, pairs, (s,), ['some', 'none'], 'q') for s in
         ('dict', 'keyed', 'iterated', 'tupled', 'list', 'iter', 'lists')] + [
    ('slice.' + (h or 'plain'), slices, (h,),
     ['refused'] if 'include' in h and 'omit' in h else ['kept'], 'q')
    for h in ('', 'include', 'omit', 'rename', 'include+rename',
              'omit+rename', 'include+omit')] + [
    ('escape', regexes, (2, 2), ['same', 'different'], 'q'),
    ('escape.nul', regexes, (2, 2, u'\0\x0017]'), ['same', 'different'],
     'q'),
    ('escape+', regexes, (3, 3), ['same', 'different'], 't'),
    ('classes', classes, (), ['matched', 'not'], 'q'),
    ('ternary', ternary, (), ['done'], 'q'),
    ('lazy', lazy, (), ['done'], 'q'),
    ('assignable', assignable, ('property',), ['done'], 'q'),
    ('assignable.class', assignable, ('class',), ['done'], 'q'),
    ('cloner', assignable, ('cloner',), ['done'], 'q'),
    ('mappings', mappings, (), ['there', 'missing'], 'q'),
    ('symbols', symbols, (), ['same', 'different'], 'q'),
    ('package', package, (), ['there', 'missing'], 'q'),
]
