# C30: from_defaults() and set_default() give every element its own default,
# completely, whatever it held before, and nothing is shared.
import datetime

from flatland import (Array, Boolean, Compound, DateYYYYMMDD, Dict, Form,
                      Integer, JoinedString, List, MultiValue, SparseDict,
                      String)
from flatland.util import Unspecified
from hlib import snapshot, wellformed

BOUNDS = ('scalars of 3 types with defaults given by class, using(), '
          'constructor or factory; lists with any integer default from -1 to '
          '4 or a list, members with or without defaults, two levels; mappings '
          'of 3 fields (dicts, forms, sparse dicts of both kinds, '
          'compounds) with any mixture of defaults of the fields and of the '
          'whole; earlier contents of up to 2 members')
OUTSIDE = ('defaults that the element itself refuses with an exception; '
           'factories that raise; boolean defaults of lists; defaults that '
           'are elements')
ASSUMPTIONS = []


def default_kind(sym, i, kinds):
    return sym.choice('default%s' % i, kinds)


def scalar(sym, how):
    """A scalar's default is set() on it: the factory's, else the default."""
    T = sym.choice('type', [Integer, String, Boolean])
    given = {'none': lambda: None, 'int': lambda: sym.int('n', -5, 5),
             'text': lambda: sym.text('t', 2, alphabet=u'1x '),
             'true': lambda: True,
             'unspecified': lambda: Unspecified}[default_kind(
                 sym, '', ['none', 'int', 'text', 'true', 'unspecified'])]()
    calls = []

    def factory(el):
        calls.append(el)
        if result is own:
            return el.default
        return result
    own = object()
    made = sym.choice('factory', ['no', 'own', 'value', 'unspecified', 'none'])
    result = {'no': None, 'own': own, 'value': 7, 'none': None,
              'unspecified': Unspecified}[made]
    kw = {'default': given}
    if made != 'no':
        kw['default_factory'] = factory
    S = T.named(u's')
    if how == 'using':
        S = S.using(**kw)
        el = S()
    elif how == 'constructor':
        el = S(**kw)
    elif how == 'class':
        class S(T):
            name = u's'
            default = given
            if made != 'no':
                default_factory = staticmethod(factory)
        el = S()
    else:
        S = S.using(default=3).using(**kw)
        el = S()
    sym.check(el.value is None and el.u == u'', 'a new element has no value')
    sym.check(not calls, 'factory called too early')
    used = sym.flag('used')
    if used:
        el.set(1)
    before = (el.u, el.value)
    want = given if made in ('no', 'own') else result
    sym.check(el.default_value is want or el.default_value == want,
              'default_value')
    del calls[:]
    el.set_default()
    sym.check(len(calls) == (0 if made == 'no' else 1), 'calls of the factory')
    sym.check(all(c is el for c in calls), 'argument of the factory')
    if want is Unspecified:
        sym.equal((el.u, el.value), before, 'no default')
        sym.cover('unspecified')
    else:
        model = T()
        model.set(want)
        sym.equal((el.u, el.value), (model.u, model.value), 'default')
        sym.cover('value' if el.value is not None else 'no value')
    if how != 'constructor':
        other = S.from_defaults()
        if want is Unspecified:
            sym.equal((other.u, other.value), (u'', None), 'from_defaults()')
        else:
            sym.equal((other.u, other.value), (el.u, el.value),
                      'from_defaults()')
    third = T.from_defaults(default=given)
    if given is not Unspecified:
        model = T()
        model.set(given)
        sym.equal(third.value, model.value, 'keyword of from_defaults()')
    sym.check(T.default is None and T.default_factory is None and
              T().default is None, 'the type itself has no default')
    sym.observe([el.u, other.u if how != 'constructor' else None])


def leaf(sym, i):
    """An integer field and the value its default gives."""
    if sym.flag('leaf%s' % i):
        n = sym.int('leafn%s' % i, -9, 9)
        if sym.flag('made%s' % i):
            return Integer.using(default=99, default_factory=lambda el: n), n
        return Integer.using(default=n), n
    return Integer, None


def lists(sym):
    """A list's integer default is a number of members with their own
    defaults; any other is its contents; none leaves it alone."""
    S, v = leaf(sym, 'm')
    nested = sym.flag('nested')
    inner = None
    if nested:
        k = sym.choice('inner', [None, 0, 2])
        S = List.named(u'i').of(S.named(u'm')).using(default=k)
        v = [v] * (k or 0)
    S = S.named(u'm')
    kind = default_kind(sym, '', ['none', 'count', 'list', 'unspecified',
                                  'factory'])
    L = List.named(u'l').of(S)
    given = want = None
    if kind == 'count' or kind == 'factory':
        c = sym.pick_int('count', -1, 4)
        given = c
        want = [v] * max(c, 0)
        if kind == 'factory':
            L = L.using(default=9, default_factory=lambda el: c)
        else:
            L = L.using(default=c)
    elif kind == 'list':
        n = sym.pick_int('n', 0, 2)
        item = [sym.int('x%d' % i, 0, 9) for i in range(n)]
        want = [[x] for x in item] if nested else item
        given = [list(x) for x in want] if nested else list(item)
        L = L.using(default=given)
    elif kind == 'unspecified':
        L = L.using(default=Unspecified)
    el = L()
    sym.check(len(el) == 0, 'a new list is empty')
    m = sym.pick_int('earlier', 0, 2)
    old = [[5]] * m if nested else [5] * m
    if m:
        el.set(old)
    kept = list(list.__iter__(el))
    el.set_default()
    if want is None:
        sym.equal(el.value, old, 'a list without a default')
        want = []
        sym.cover('no default')
    else:
        sym.equal(el.value, want, 'default of a list')
        sym.cover(kind)
        for slot in list.__iter__(el):
            sym.check(not any(slot is k for k in kept), 'an earlier member')
    wellformed(sym, el, L)
    el.append([3] if nested else 3)
    wellformed(sym, el, L)
    again = L.from_defaults()
    sym.equal(again.value, want, 'default of another list')
    if kind == 'list':
        sym.equal(given, want, 'the default itself')
    el.set_default()
    if kind not in ('none', 'unspecified'):
        sym.equal(el.value, want, 'default set twice')
    sym.observe([snapshot(el), snapshot(again)])


def arrays(sym):
    """An array's default is its contents; members' defaults do not count."""
    A = sym.choice('class', [Array, MultiValue])
    S, v = leaf(sym, 'm')
    L = A.named(u'l').of(S)
    kind = default_kind(sym, '', ['none', 'list', 'tuple', 'unspecified'])
    want = given = None
    if kind in ('list', 'tuple'):
        want = [sym.int('x%d' % i, 0, 9)
                for i in range(sym.pick_int('n', 0, 3))]
        given = list(want) if kind == 'list' else tuple(want)
        L = L.using(default=given)
    elif kind == 'unspecified':
        L = L.using(default=Unspecified)
    el = L()
    m = sym.pick_int('earlier', 0, 2)
    if m:
        el.set([5] * m)
    el.set_default()
    sym.equal([c.value for c in el], [5] * m if want is None else want,
              'default of an array')
    wellformed(sym, el, L)
    el.append(4)
    sym.equal([c.value for c in L.from_defaults()], want or [],
              'default of another array')
    if given is not None:
        sym.equal(list(given), want, 'the default itself')
    el.set_default()
    if want is not None:
        sym.equal([c.value for c in el], want, 'default set twice')
        sym.cover('default')
    sym.observe(snapshot(el))


FIELDS = [u'a', u'b', u'c']


def mappings(sym, kind):
    """A mapping's default sets it; without one its fields get theirs."""
    fields, want, optional = [], {}, {}
    for k in FIELDS:
        S, v = leaf(sym, k)
        if kind in ('sparse', 'required'):
            optional[k] = sym.flag('optional' + k)
            S = S.using(optional=optional[k])
        if k == u'c':
            # one level deeper
            S = List.of(S).using(default=2, optional=optional.get(k, False))
            v = [v, v]
        want[k] = v
        fields.append(S.named(k))
    if kind == 'dict':
        S = Dict.of(*fields)
    elif kind == 'form':
        class S(Form):
            field_schema = fields
    elif kind == 'sparse':
        S = SparseDict.of(*fields)
    else:
        S = SparseDict.of(*fields).using(minimum_fields='required')
    own = sym.choice('own', ['none', 'all', 'some', 'empty', 'factory',
                             'unspecified'])
    given = None
    if own in ('all', 'some', 'empty', 'factory'):
        given = {} if own == 'empty' else {u'a': sym.int('a', 0, 3)}
        if own == 'all':
            given[u'b'] = 7
            given[u'c'] = [8]
        blank = {u'a': None, u'b': None, u'c': []}
        want = dict(given)
        for k in FIELDS:
            if k in want:
                continue
            if kind == 'sparse' or (kind == 'required' and optional[k]):
                continue
            want[k] = blank[k]
    elif kind == 'sparse':
        want = {}
    elif kind == 'required':
        want = dict((k, want[k]) for k in want if not optional[k])
    S = S.named(u's')
    if own == 'factory':
        S = S.using(default={u'b': 1}, default_factory=lambda el: dict(given))
    elif own == 'unspecified':
        S = S.using(default=Unspecified)
    elif given is not None:
        S = S.using(default=given)
    outer = sym.flag('outer')
    T = Dict.of(S) if outer else S
    el = T()
    at = el[u's'] if outer else el
    earlier = sym.flag('earlier')
    if earlier:
        at[u'a'] = 44
        at[u'c'] = [4, 4, 4]
    el.set_default()
    at = el[u's'] if outer else el
    sym.equal(at.value, want, 'defaults of a mapping')
    wellformed(sym, el, T)
    again = T.from_defaults()
    sym.equal(snapshot(again), snapshot(el), 'from_defaults()')
    for k in want:
        sym.check((again[u's'] if outer else again)[k] is not at[k],
                  'shared children')
    if u'a' in want:
        at[u'a'] = 55
        sym.cover('set')
    if given is not None:
        sym.check(all(given[k] == want[k] for k in given) and
                  len(given) == {'all': 3, 'empty': 0}.get(own, 1),
                  'the default itself')
    el.set_default()
    sym.equal(snapshot(el), snapshot(again), 'defaults set twice')
    sym.cover(own)
    sym.observe(snapshot(again))


def compounds(sym):
    """A compound's default is the whole's, else its parts'."""
    y, d = sym.int('y', 1, 9999), sym.int('d', 1, 28)
    own = sym.choice('own', ['none', 'date', 'text', 'parts', 'mixed'])
    S = DateYYYYMMDD.named(u'w')
    parts = [Integer.named(n).using(default=v) for n, v in
             ((u'year', y), (u'month', 2), (u'day', d))]
    want = datetime.date(y, 2, d)
    if own in ('parts', 'mixed'):
        S = S.using(field_schema=parts)
    if own in ('date', 'mixed'):
        want = datetime.date(y, 3, d)
        S = S.using(default=want)
    elif own == 'text':
        want = datetime.date(2012, 2, 29)
        S = S.using(default=u'2012-02-29')
    elif own == 'none':
        want = None
    T = Dict.of(S)
    el = T()
    if sym.flag('earlier'):
        el[u'w'].set(datetime.date(1999, 9, 9))
    el.set_default()
    sym.equal(el[u'w'].value, want, 'default of a date')
    sym.equal(el[u'w'][u'day'].value, want and want.day, 'default of a day')
    sym.cover(own)
    sym.observe(el[u'w'].u)


def joined(sym):
    S = JoinedString.named(u'j')
    own = sym.choice('own', ['none', 'text', 'list', 'unspecified',
                             'factory'])
    t = sym.text('t', 3, alphabet=u'ab,')
    want = t
    if own == 'text':
        S = S.using(default=t)
    elif own == 'factory':
        S = S.using(default_factory=lambda el: t)
    elif own == 'list':
        want = u'x,y'
        S = S.using(default=[u'x', u'y'])
    else:
        want = None
        if own == 'unspecified':
            S = S.using(default=Unspecified)
    el = S()
    if sym.flag('earlier'):
        el.set(u'q,r')
    before = el.u
    el.set_default()
    if want is None:
        sym.equal(el.u, before, 'a joined text without a default')
    else:
        model = S()
        model.set(want)
        sym.equal([c.u for c in el], [c.u for c in model],
                  'default of a joined text')
        sym.equal(S.from_defaults().u, el.u, 'from_defaults()')
        sym.cover('several' if len(el) > 1 else 'few')
    sym.observe(el.u)


CASES = [('scalar.' + _h, scalar, (_h,), ['value', 'no value', 'unspecified'],
          'q') for _h in ('using', 'constructor', 'class', 'derived')]
CASES += [
    ('lists', lists, (), ['no default', 'count', 'list', 'factory'], 'q'),
    ('arrays', arrays, (), ['default'], 'q'),
    ('compounds', compounds, (), ['none', 'date', 'text', 'parts', 'mixed'],
     'q'),
    ('joined', joined, (), ['several', 'few'], 'q'),
]
for _k in ('dict', 'form', 'sparse', 'required'):
    CASES.append(('mapping.' + _k, mappings, (_k,),
                  ['set', 'none', 'all', 'some', 'factory', 'unspecified'],
                  'q'))
