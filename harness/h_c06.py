# C06: loading arbitrary flat pairs never fails, never leaves the schema and
# touches exactly the elements whose flat names appear.
from flatland import (Array, Boolean, DateYYYYMMDD, Dict, Form, Integer,
                      JoinedString, List, MultiValue, SparseDict, String)
from hlib import snapshot, wellformed

BOUNDS = ('up to 3 pairs; keys of up to 7 characters over the letters of the '
          'schema, digits (ASCII and Arabic-Indic), the separator, regex '
          'metacharacters and one unrelated letter, and of up to 2 arbitrary '
          'BMP characters; values of up to 2 arbitrary BMP characters or '
          'None; schemas of up to 3 levels with every container type; list '
          'cap lowered to 4 where indexes are unbounded')
OUTSIDE = 'keys that are not text; more than 3 pairs at once'


class Items(object):
    """Something like a dict, as web frameworks hand over."""

    def __init__(self, pairs):
        self._p = pairs

    def items(self):
        return list(self._p)

    def __iter__(self):
        return iter([k for k, v in self._p])


def pair(sym, i, klen, alphabet, vlen=1):
    v = sym.text('v%d' % i, vlen)
    return (sym.text('k%d' % i, klen, alphabet=alphabet), v)


def first(pairs, key):
    for k, v in pairs:
        if k == key:
            return v
    return None


def expect_text(sym, el, pairs, key, before):
    """A leaf takes the first value given for its flat name, else nothing."""
    want = before
    for k, v in pairs:
        if k == key:
            want = v.strip()
            sym.cover('hit')
            break
    sym.equal(el.u, want, 'text of ' + key)


def exact(sym, rootname, sep, sparse, filled):
    """A tree of mappings: each leaf is the first pair of its name."""
    leaves = {u'a': ('a',), u'ab': ('ab',), u'a.*': ('a.*',)}
    cls = SparseDict if sparse else Dict
    S = cls.named(rootname).of(
        String.named(u'a'), String.named(u'ab'),
        Dict.named(u'b').of(String.named(u'a'), String.named(u'b')))
    pre = rootname + sep if rootname is not None else u''
    el = S()
    was = {}
    if filled:
        el.set({u'a': u'1', u'ab': u'2', u'b': {u'a': u'3', u'b': u'4'}})
        was = {u'a': u'1', u'ab': u'2', u'ba': u'3', u'bb': u'4'}
    npairs = 2
    pairs = [pair(sym, i, 3 + len(pre) if i == 0 else 2 + len(pre),
                  u'ab' + sep + (rootname or u'') + u'z')
             for i in range(npairs)]
    how = sym.choice('how', ['list', 'iter', 'sep', 'items'])
    r = el.set_flat(iter(pairs) if how == 'iter' else
                    Items(pairs) if how == 'items' else pairs, sep)
    sym.check(el.raw is not pairs, 'raw')
    wellformed(sym, el)
    names = [(u'a', (u'a',)), (u'ab', (u'ab',)),
             (u'b' + sep + u'a', (u'b', u'a')),
             (u'b' + sep + u'b', (u'b', u'b'))]
    for flat, path in names:
        node = el
        for p in path:
            node = (dict.__getitem__(node, p)
                    if node is not None and dict.__contains__(node, p)
                    else None)
        if node is None:
            sym.check(sparse, 'field missing')
            sym.check(first(pairs, pre + flat) is None,
                      'pair of a field ignored')
            sym.cover('absent')
        else:
            if sparse and not filled and len(path) == 1:
                sym.check(any(k == pre + flat
                              or k.startswith(pre + flat + sep)
                              for k, v in pairs),
                          'field created without a pair')
            expect_text(sym, node, pairs, pre + flat,
                        was.get(u''.join(path), u''))
    sym.observe(snapshot(el))


def tree():
    return Dict.of(
        String.named(u'a'),
        List.named(u'l').using(maximum_set_flat_members=4).of(
            Dict.of(String.named(u'x'), Array.named(u'm').of(Integer))),
        SparseDict.named(u's').of(
            String.named(u'x'),
            List.named(u'l').using(prune_empty=False,
                                   maximum_set_flat_members=4).of(
                List.of(String))),
        DateYYYYMMDD.named(u'd'), JoinedString.named(u'j'),
        MultiValue.named(u'm').of(Integer.named(u'x')))


def total(sym, maker, alphabet, n, klen, noprune=False):
    """No pair can make loading fail or build something undeclared."""
    S = maker()
    el = S()
    pairs = [pair(sym, i, klen if i == 0 else klen - 2, alphabet)
             for i in range(n)]
    el.set_flat(pairs)
    wellformed(sym, el, S)
    el.flatten()
    el.u, el.value
    el.validate()
    sym.cover('loaded')
    sym.observe([snapshot(el)])


MEMBERS = {
    'string': lambda: String,
    'named': lambda: String.named(u'x'),
    'dict': lambda: Dict.of(String.named(u'x')),
    'named dict': lambda: Dict.named(u'x').of(String.named(u'y')),
    'list': lambda: List.of(String),
    'named list': lambda: List.named(u'x').of(Integer),
    'array': lambda: Array.of(String),
    'named array': lambda: Array.named(u'x').of(String),
    'array of named': lambda: Array.named(u'x').of(String.named(u'y')),
    'multi': lambda: MultiValue.named(u'x').of(String),
    'date': lambda: DateYYYYMMDD,
    'named date': lambda: DateYYYYMMDD.named(u'x'),
    'joined': lambda: JoinedString,
    'sparse': lambda: SparseDict.of(String.named(u'x'), String.named(u'xy')),
}


def members(sym, kind, prune):
    """Lists of every member type survive every key."""
    S = List.named(sym.choice('name', [u'l', None])).using(
        prune_empty=prune, maximum_set_flat_members=3).of(MEMBERS[kind]())
    el = S()
    pairs = [pair(sym, 0, 6, u'l_0xy'), pair(sym, 1, 3, u'l_0x')]
    el.set_flat(pairs)
    wellformed(sym, el, S)
    el.flatten(), el.u
    el.validate()
    sym.cover('loaded')
    sym.observe([snapshot(el)])


def anykey(sym):
    """Keys of arbitrary characters."""
    S = tree()
    el = S()
    k = sym.text('k', 2)
    v = sym.text('v', 1)
    pre = sym.choice('pre', [u'', u'l_', u's_l_0_', u'd_', u'm_', u'l_0_'])
    el.set_flat([(pre + k, v)])
    wellformed(sym, el, S)
    sym.cover('loaded')
    sym.observe([snapshot(el)])


def alien(sym, where):
    """A pair whose key has no segment structure of the schema changes
    nothing, wherever it stands among the others."""
    S = tree()
    good = [(u'a', sym.text('v', 1)), (u'l_0_x', u'p'), (u'l_3_m', u'4'),
            (u's_x', u'q'), (u's_l_1_0', u'r'), (u'd_year', u'2001'),
            (u'm_x', u'5'), (u'm_x', u'6'), (u'j', u'u,v')]
    k = where + sym.text('k', 3, alphabet=u'alsdmjx_z09')
    # keys that do address something are not aliens
    for p in (u'a', u'l_0', u'l_9', u's_x', u's_l_0', u's_l_9', u'd_year',
              u'd_month', u'd_day', u'j', u'm_x', u's', u's_l'):
        sym.assume(k != p)
    for p in (u'l_0_', u'l_9_', u's_l', u'l_00', u'l_90', u'l_09', u'l_99'):
        sym.assume(not k.startswith(p))
    at = sym.choice('at', [0, 4, 9])
    el, ref = S(), S()
    el.set_flat(good[:at] + [(k, u'alien')] + good[at:])
    ref.set_flat(good)
    sym.equal(snapshot(el), snapshot(ref), 'an unrelated pair changed the '
              'result')
    sym.cover('loaded')


def repeated(sym):
    """Only the first pair of a scalar counts; loading is repeatable."""
    S = tree()
    v = [sym.text('v%d' % i, 1) for i in range(3)]
    pairs = [(u'a', v[0]), (u's_x', v[1]), (u'a', v[2]), (u's_x', v[0])]
    el = S()
    el.set_flat(pairs)
    sym.equal(el[u'a'].u, v[0].strip(), 'first pair wins')
    sym.equal(el[u's'][u'x'].u, v[1].strip(), 'first pair wins')
    one = snapshot(el)
    el.set_flat(pairs)
    sym.equal(snapshot(el), one, 'loading twice')
    sym.cover('loaded')
    sym.observe(one)


def keep(sym):
    """Fields without pairs keep their state, mentioned ones are rebuilt."""
    S = tree()
    el = S()
    el.set({u'a': u'A', u'l': [{u'x': u'X', u'm': [1]}], u's': {u'x': u'S'},
            u'm': [7, 8]})
    before = dict((k, snapshot(el[k])) for k in el.keys())
    k = sym.text('k', 5, alphabet=u'alsmx_0')
    el.set_flat([(k, sym.text('v', 1, 1, [(u'!', u'~')]))])
    for name in before:
        if not (k == name or k.startswith(name + u'_')):
            sym.equal(snapshot(el[name]), before[name],
                      'field without a pair changed')
            sym.cover('kept')
    wellformed(sym, el, S)
    sym.observe(snapshot(el))


CASES = [
    ('exact', exact, (None, u'_', False, False), ['hit'], 'q'),
    ('exact.named', exact, (u'b', u'_', False, False), ['hit'], 'q'),
    ('exact.sep', exact, (u'.*', u'.', False, False), ['hit'], 'q'),
    ('exact.sep2', exact, (None, u'--', False, False), ['hit'], 'q'),
    ('exact.filled', exact, (None, u'_', False, True), ['hit'], 'q'),
    ('exact.sparse', exact, (None, u'_', True, False), ['hit', 'absent'],
     'q'),
    ('exact.sparse.sep', exact, (None, u'--', True, False),
     ['hit', 'absent'], 'q'),
    ('exact.sparse.filled', exact, (u'a', u'_', True, True), ['hit'], 'q'),
    ('total', total, (tree, u'alsdmjx_01', 2, 6), ['loaded'], 'q'),
    ('total.digits', total, (tree, u'l_019\u0663', 2, 6), ['loaded'], 'q'),
    ('anykey', anykey, (), ['loaded'], 'q'),
    ('alien', alien, (u'',), ['loaded'], 'q'),
    ('alien.l', alien, (u'l_',), ['loaded'], 'q'),
    ('alien.s', alien, (u's_',), ['loaded'], 'q'),
    ('repeated', repeated, (), ['loaded'], 'q'),
    ('keep', keep, (), ['kept'], 'q'),
] + [('members.' + k.replace(' ', '.'), members, (k, p), ['loaded'], 'q')
     for k in sorted(MEMBERS) for p in (True,)] + [
    ('members.all.' + k.replace(' ', '.'), members, (k, False), ['loaded'],
     'q') for k in sorted(MEMBERS)]
