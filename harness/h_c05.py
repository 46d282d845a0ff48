# C05: flattening an element tree and loading the pairs into a blank tree of
# the same schema gives the tree back.
from flatland import (Array, Boolean, Date, Dict, Form, Integer, JoinedString,
                      List, MultiValue, SparseDict, String)
from hlib import norm, snapshot

BOUNDS = ('nine tree shapes up to 4 levels deep (Dict, SparseDict, List, '
          'Array, MultiValue, JoinedString, Date, scalars), lists up to 3 '
          'members (12 in one shape), every BMP text of 1..2 characters in '
          'each leaf, integers in +-10**5, five separators, twelve '
          'fixed field names including regex metacharacters, digits and names that '
          'are prefixes of each other, and symbolic names of 1..2 characters')
OUTSIDE = ('schemas whose own flat names collide; byte strings; Float and '
           'Decimal leaves')
ASSUMPTIONS = ['field names are not empty (the library takes an empty name '
               'for no name)',
               'no two leaves of a schema share a flat name and no field '
               'name plus separator is a prefix of a sibling field name']

SEPS = [u'_', u'.', u'--', u'*|', u'(']


def roundtrip(sym, el, sep, how=0):
    """Flatten, load into a blank element, compare."""
    pairs = el.flatten(sep) if sep != u'_' else el.flatten()
    sym.check(all(isinstance(k, unicode) for k, v in pairs),
              'flat key is not text')
    src = list(pairs)
    if how == 1:
        src = [pairs[-1 - i] for i in range(len(pairs))]
    elif how == 2:
        src = dict(pairs)
    back = type(el)()
    if sep != u'_':
        back.set_flat(src, sep)
    elif how == 0:
        back = type(el).from_flat(src)
    else:
        back.set_flat(src)
    again = back.flatten(sep)
    sym.equal(len(again), len(pairs), 'number of pairs after a round trip')
    if how == 0:
        sym.equal(again, pairs, 'pairs after a round trip')
    sym.equal(norm(back), norm(el), 'state after a round trip')
    sym.observe([snapshot(back)])
    sym.cover('trip')
    return back


def leaf(sym, name, maxlen=2):
    return sym.text(name, maxlen, minlen=1)


def full(sym, name):
    """Text that is not empty once stripped."""
    t = sym.text(name, 2, minlen=1)
    sym.assume(t.strip() != u'')
    return t


NAMES = [u'a', u'ab', u'a_b', u'.*', u'(x', u'0', u'1a', u'a.b', u'\xe9',
         u'x y', u'a\\', u'_a']


def scalars(sym):
    """A flat form whose field names are prefixes of each other."""
    sep = sym.choice('sep', SEPS)
    S = Dict.of(String.named(u'a'), String.named(u'ab'),
                Integer.named(u'abc'), Boolean.named(u'b'))
    el = S()
    el.set({u'a': leaf(sym, 'v1'), u'ab': leaf(sym, 'v2', 1),
            u'abc': sym.int('n', -100000, 100000),
            u'b': sym.flag('b')})
    roundtrip(sym, el, sep, sym.choice('how', [0, 1, 2]))


def nested(sym, prefix):
    sep = sym.choice('sep', SEPS)
    Inner = Dict.named(u'a').of(String.named(u'x'), String.named(u'xa'))
    S = Dict.of(Inner, Dict.named(u'ab').of(String.named(u'x')),
                String.named(u'x'))
    if prefix:
        S = S.named(sym.choice('name', NAMES))
    el = S()
    el.set({u'a': {u'x': leaf(sym, 'v1', 1), u'xa': leaf(sym, 'v2', 1)},
            u'ab': {u'x': leaf(sym, 'v3', 1)}, u'x': leaf(sym, 'v4', 1)})
    roundtrip(sym, el, sep, sym.choice('how', [0, 1, 2]))


def lists(sym, prune, child):
    sep = sym.choice('sep', SEPS)
    name = sym.choice('name', [None] + NAMES)
    cname = sym.choice('cname', child)
    S = List.of(String.named(cname)).using(prune_empty=prune).named(name)
    el = S()
    n = sym.pick_int('len', 0, 3)
    text = full if prune else leaf
    el.set([text(sym, 'v%d' % i) if i == 0 else
            sym.text('v%d' % i, 1, minlen=1, alphabet=u'xy') for i in
            range(n)])
    roundtrip(sym, el, sep, sym.choice('how', [0, 1, 2]))


def list_of_dict(sym, prune):
    sep = sym.choice('sep', SEPS)
    S = Dict.of(
        List.named(u'l').using(prune_empty=prune).of(
            Integer.named(u'n'), String.named(u's')),
        List.named(u'l1').of(String))
    el = S()
    n = sym.pick_int('len', 0, 2)
    rows = []
    for i in range(n):
        rows.append({u'n': sym.int('n%d' % i, -99, 99),
                     u's': sym.text('s%d' % i, 1)})
    el.set({u'l': rows, u'l1': [sym.text('t', 1, 1, u'ab01')]})
    roundtrip(sym, el, sep, sym.choice('how', [0, 1, 2]))


def list_of_names(sym):
    """Members are mappings whose field names resemble indexes and
    separators."""
    sep = sym.choice('sep', SEPS)
    x = sym.text('x', 2, 1, alphabet=u'a0_.-*|(')
    sym.assume(apart(x, u'a', sep))
    S = List.named(sym.choice('name', [u'l', None])).of(
        String.named(x), String.named(u'a'))
    el = S()
    el.set([{x: sym.text('v%d' % i, 1, 1, u'ab'), u'a': u'z'}
            for i in range(sym.pick_int('len', 1, 2))])
    roundtrip(sym, el, sep)


def list_of_list(sym):
    sep = sym.choice('sep', SEPS)
    S = List.named(sym.choice('name', [None, u'l', u'0'])).of(
        List.named(sym.choice('inner', [None, u'm', u'1'])).of(
            String.named(sym.choice('leaf', [None, u's', u'2']))))
    el = S()
    n = sym.pick_int('len', 0, 2)
    el.set([[sym.text('v%d%d' % (i, j), 1, 1, [(u'!', u'~')])
             for j in range(sym.pick_int('len%d' % i, 1, 2))]
            for i in range(n)])
    roundtrip(sym, el, sep, sym.choice('how', [0, 1, 2]))


def long_list(sym, prune):
    """Enough members for two-digit indexes."""
    sep = sym.choice('sep', SEPS[:3])
    S = Dict.named(u'f').of(List.named(u'l').using(prune_empty=prune)
                            .of(String.named(u's')))
    el = S()
    el.set({u'l': [sym.text('v%d' % i, 1, 1, [(u'a', u'z')])
                   for i in range(12)]})
    back = roundtrip(sym, el, sep, sym.choice('how', [0, 1, 2]))
    sym.equal(back[u'l'].value, el[u'l'].value, 'order of members')


def arrays(sym, kind, prune):
    sep = sym.choice('sep', SEPS)
    cls = {'array': Array, 'multi': MultiValue}[kind]
    name = sym.choice('name', [None, u'a', u'.*', u'a_b'])
    cname = sym.choice('cname', [None, u'c', u'(', u'a'])
    sym.assume(name is not None or cname is not None)
    A = cls.named(name).using(prune_empty=prune).of(String.named(cname))
    el = A()
    text = full if prune else leaf
    n = sym.pick_int('len', 0, 3)
    el.set([text(sym, 'v%d' % i) if i == 0 else
            sym.text('v%d' % i, 1, 1, [(u'!', u'~')]) for i in range(n)])
    roundtrip(sym, el, sep)


def array_in_tree(sym):
    sep = sym.choice('sep', SEPS)
    S = List.named(u'l').of(Dict.named(u'd').of(
        Array.named(u'a').of(Integer), MultiValue.named(u'ab').of(String)))
    el = S()
    n = sym.pick_int('len', 1, 2)
    el.set([{u'a': [sym.int('n%d' % i, -9, 99), i],
             u'ab': [sym.text('v%d' % i, 1, 1, [(u'!', u'~')])]}
            for i in range(n)])
    roundtrip(sym, el, sep)


def sparse(sym, minimum):
    sep = sym.choice('sep', SEPS)
    S = SparseDict.named(sym.choice('name', [None, u'd'])).using(
        minimum_fields=minimum).of(
            String.named(u'a').using(optional=True),
            Dict.named(u'ab').of(String.named(u'b')).using(optional=True),
            Integer.named(u'abc').using(optional=False))
    el = S()
    v = {}
    if sym.flag('has_a'):
        v[u'a'] = leaf(sym, 'a')
    if sym.flag('has_ab'):
        v[u'ab'] = {u'b': leaf(sym, 'b', 1)}
    if sym.flag('has_abc'):
        v[u'abc'] = sym.int('abc', -50, 50)
    el.set(v)
    back = roundtrip(sym, el, sep, sym.choice('how', [0, 1, 2]))
    sym.equal(set(back.keys()), set(el.keys()), 'keys after a round trip')


def joined(sym):
    sep = sym.choice('sep', SEPS)
    S = Dict.of(JoinedString.named(u'j'), JoinedString.named(u'j2').using(
        prune_empty=False, separator=u';'), String.named(u'j21'))
    el = S()
    el.set({u'j': sym.text('j', 3, alphabet=u'ab,'),
            u'j2': sym.text('j2', 2, alphabet=u'a; '), u'j21': u'k'})
    roundtrip(sym, el, sep, sym.choice('how', [0, 1, 2]))


def dates(sym):
    sep = sym.choice('sep', SEPS)
    S = Dict.named(u'f').of(Date.named(u'd'), List.named(u'l').of(Integer))
    el = S()
    el.set({u'd': u'%04d-%02d-%02d' % (sym.int('y', 1, 9999),
                                       sym.int('m', 1, 12),
                                       sym.int('dd', 1, 28)),
            u'l': [sym.int('n', -100000, 100000)]})
    roundtrip(sym, el, sep, sym.choice('how', [0, 1, 2]))


def apart(a, b, sep):
    return not (a == b or a.startswith(b + sep) or b.startswith(a + sep))


def names(sym, which):
    """One field name is arbitrary."""
    sep = sym.choice('sep', SEPS)
    x = sym.text('x', 2, minlen=1, alphabet=u'ab0_.*(|')
    ns = [u'a', u'ab', u'b0']
    ns[which] = x
    for i in range(3):
        if i != which:
            sym.assume(apart(x, ns[i], sep))
    S = Dict.of(String.named(ns[0]), List.named(ns[1]).of(String),
                Dict.named(ns[2]).of(Integer.named(u'x'),
                                     Array.named(u'y').of(String)))
    el = S()
    el.set({ns[0]: sym.text('v0', 1, 1, u'ab'),
            ns[1]: [sym.text('v1', 1, 1, u'ab')],
            ns[2]: {u'x': sym.int('v2', 0, 9), u'y': [u'p', u'q']}})
    roundtrip(sym, el, sep)


def custom_values(sym):
    """flatten(value=...) pairs every flattenable element exactly once with
    what the callable returns, under the element's own flat name."""
    S = Dict.named(sym.choice('name', [None, u'f'])).of(
        String.named(u'a'), List.named(u'l').of(Integer.named(u'n')),
        Array.named(u'm').of(String), Dict.named(u'd').of(String.named(u'x')))
    el = S()
    n = sym.pick_int('len', 0, 2)
    el.set({u'a': sym.text('a', 1), u'l': [sym.int('n%d' % i, 0, 9)
                                           for i in range(n)],
            u'm': [u'p'] * sym.pick_int('ml', 0, 2), u'd': {u'x': u'y'}})
    seen = []

    def take(e):
        seen.append(e)
        return e
    pairs = el.flatten(sep=u'.', value=take)
    leaves = [e for e in el.all_children if e.flattenable]
    sym.equal([id(e) for k, e in pairs], [id(e) for e in seen],
              'callable results and pairs disagree')
    sym.equal(sorted([id(e) for e in seen]), sorted([id(e) for e in leaves]),
              'leaves exported')
    sym.equal([k for k, e in pairs], [e.flattened_name(u'.')
                                      for k, e in pairs], 'flat names')
    default = el.flatten(u'.')
    sym.equal(default, [(k, e.u) for k, e in pairs], 'default value is text')
    sym.cover('trip')
    sym.observe(sorted([k for k, v in default]))


CASES = [
    ('scalars', scalars, (), ['trip'], 'q'),
    ('nested', nested, (False,), ['trip'], 'q'),
    ('nested.named', nested, (True,), ['trip'], 'q'),
    ('list.prune', lists, (True, [None, u'a', u'0']), ['trip'], 'q'),
    ('list.noprune', lists, (False, [None, u'a', u'0']), ['trip'], 'q'),
    ('list.dict.prune', list_of_dict, (True,), ['trip'], 'q'),
    ('list.dict', list_of_dict, (False,), ['trip'], 'q'),
    ('list.names', list_of_names, (), ['trip'], 'q'),
    ('list.list', list_of_list, (), ['trip'], 'q'),
    ('list.long.prune', long_list, (True,), ['trip'], 'q'),
    ('list.long', long_list, (False,), ['trip'], 'q'),
    ('array.prune', arrays, ('array', True), ['trip'], 'q'),
    ('array', arrays, ('array', False), ['trip'], 'q'),
    ('multi', arrays, ('multi', True), ['trip'], 'q'),
    ('array.tree', array_in_tree, (), ['trip'], 'q'),
    ('sparse', sparse, (None,), ['trip'], 'q'),
    ('sparse.required', sparse, ('required',), ['trip'], 'q'),
    ('joined', joined, (), ['trip'], 'q'),
    ('dates', dates, (), ['trip'], 'q'),
    ('names.scalar', names, (0,), ['trip'], 'q'),
    ('names.list', names, (1,), ['trip'], 'q'),
    ('names.dict', names, (2,), ['trip'], 'q'),
    ('custom', custom_values, (), ['trip'], 'q'),
]
