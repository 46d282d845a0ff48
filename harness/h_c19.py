# C19: sibling, member count and field equality validators.
from flatland import (Array, Boolean, Dict, Integer, JoinedString, List,
                      MultiValue, String)
from flatland.validation import (HasAtLeast, HasAtMost, HasBetween, MapEqual,
                                 NotDuplicated, UnisEqual, ValuesEqual)

BOUNDS = ('List, Array, MultiValue and JoinedString containers of up to 4 '
          'members; member texts of up to 2 characters, member mappings, a '
          'filtering comparator; limits 0..4; 2 or 3 compared fields given '
          'by name, path or from a nested element')
OUTSIDE = 'comparators that are not symmetric'
ASSUMPTIONS = []


def valids(el):
    return [bool(e.valid) for e in el.children]


def duplicates(sym, make, member, key):
    nd = NotDuplicated(
        failure=u'%(container_label)s|%(label)s|%(position)s')
    if sym.flag('default message'):
        nd = NotDuplicated()
    S = make(member.named(u'm').using(validators=[nd])).named(u'c')
    n = sym.pick_int('n', 0, 4)
    rows = [key(sym, i) for i in range(n)]
    el = S()
    el.set(rows)
    kids = list(el.children)
    sym.assume(len(kids) == n)
    got = el.validate()
    keys = [(k.value, k.u) for k in kids]
    want = []
    for i in range(n):
        want.append(not any(k == keys[i] for k in keys[:i]))
    sym.check(valids(el) == want, 'validity of the members')
    sym.check(got is (all(want) and n > 0), 'validity of the whole')
    for i in range(n):
        text = u'c|m|%d' % (i + 1)
        if nd.failure is NotDuplicated.failure:
            text = u'm may not be repeated within c.'
        sym.equal(list(kids[i].errors), [] if want[i] else [text], 'errors')
    if not all(want):
        sym.cover('repeated')
    elif n > 1:
        sym.cover('distinct')
    sym.observe(want)


def of_list(member):
    return List.of(member)


def of_array(member):
    return Array.of(member)


def of_multi(member):
    return MultiValue.of(member)


def a_text(sym, i):
    return sym.text('t%d' % i, 1 + (i < 2), alphabet=u'ab ')


def an_int(sym, i):
    return sym.choice('t%d' % i, [1, u'1', u'01', u'x', None])


def a_row(sym, i):
    return {u'x': sym.int('x%d' % i, 0, 2), u'y': sym.choice(
        'y%d' % i, [1, u'1'])}


def filtered(sym):
    """A comparator that skips some siblings."""
    def live(a, b):
        if a[u'gone'].value or b[u'gone'].value:
            return False
        return a[u's'].value == b[u's'].value
    S = List.named(u'c').of(Dict.of(
        String.named(u's'), Boolean.named(u'gone')).using(
            validators=[NotDuplicated(comparator=live)]))
    n = sym.pick_int('n', 1, 3)
    rows = [(sym.text('s%d' % i, 1, 1, u'ab'), sym.flag('g%d' % i))
            for i in range(n)]
    el = S([{u's': s, u'gone': g} for s, g in rows])
    el.validate()
    want = [not any(not g and not rows[i][1] and s == rows[i][0]
                    for s, g in rows[:i]) for i in range(n)]
    sym.check(valids(el) == want, 'validity with a comparator')
    sym.cover('distinct' if all(want) else 'repeated')
    try:
        String(u'x', validators=[NotDuplicated()]).validate()
        sym.fail('no parent')
    except TypeError:
        pass
    sym.observe(want)


def ordered(sym):
    """The comparator gets the element, then an earlier sibling."""
    seen = []

    def above(el, sibling):
        seen.append((el.value, sibling.value))
        return el.value < sibling.value
    kind = sym.choice('kind', [List, Array])
    S = kind.named(u'c').of(Integer.using(
        validators=[NotDuplicated(comparator=above)]))
    xs = [sym.int('x%d' % i, 0, 2) for i in range(sym.pick_int('n', 1, 3))]
    el = S(xs)
    el.validate()
    want = [not any(x < y for y in xs[:i]) for i, x in enumerate(xs)]
    sym.check(valids(el) == want, 'validity with a comparator')
    sym.check(all(any(a == x and b in xs[:i] for i, x in enumerate(xs))
                  for a, b in seen), 'compared with a later sibling')
    sym.cover('distinct' if all(want) else 'repeated')
    sym.observe(want)


def counts(sym, which):
    kind = sym.choice('kind', ['list', 'array', 'multi', 'joined', 'ints'])
    member = Integer if kind == 'ints' else String
    S = {'list': List, 'array': Array, 'multi': MultiValue,
         'joined': JoinedString, 'ints': MultiValue}[kind].of(
             member.named(u'it')).named(u'box')
    n = sym.pick_int('n', 0, 4)
    el = S()
    el.set([1 if kind == 'ints' else u'text'] * n)
    low = -1 if which == 'between' else 0
    lo = sym.int('lo', low, 4)
    hi = sym.int('hi', low, 4)
    if which == 'least':
        v, good = HasAtLeast(minimum=lo), n >= lo
        msg = (u'box must contain at least one it' if lo == 1 else
               u'box must contain at least %s its' % lo)
    elif which == 'most':
        v, good = HasAtMost(maximum=hi), n <= hi
        msg = (u'box must contain at most one it' if hi == 1 else
               u'box must contain at most %s its' % hi)
    else:
        try:
            v = HasBetween(minimum=lo, maximum=hi)
        except TypeError:
            sym.check(lo > hi or lo < 0, 'sensible bounds refused')
            sym.cover('refused')
            return
        sym.check(0 <= lo and lo <= hi, 'nonsense bounds accepted')
        good = lo <= n and n <= hi
        if lo == hi:
            msg = (u'box must contain exactly one it' if lo == 1 else
                   u'box must contain exactly %s its' % lo)
        else:
            msg = u'box must contain at least %s and at most %s it%s' % (
                lo, hi, u'' if hi == 1 else u's')
    got = v(el, None)
    sym.check(bool(got) == bool(good), 'verdict')
    sym.equal(list(el.errors), [] if good else [msg], 'errors')
    sym.cover('accept' if good else 'reject')
    sym.observe([bool(good), list(el.errors)])


def reworded(sym):
    """Limits and messages may be given to the constructor or set by a
    subclass; messages may be plain text or counted texts."""
    n = sym.pick_int('n', 0, 4)
    el = List.named(u'box').of(String.named(u'it'))([u'x'] * n)
    lo, hi = sym.choice('lim', [(2, 2), (2, 3), (0, 1), (1, 3)])
    which = sym.choice('which', ['least', 'most', 'between'])
    style = sym.choice('style', ['plain', 'counted', None])
    T, kw, key, good = {
        'least': (HasAtLeast, {'minimum': lo}, 'failure', n >= lo),
        'most': (HasAtMost, {'maximum': hi}, 'failure', n <= hi),
        'between': (HasBetween, {'minimum': lo, 'maximum': hi},
                    'exact' if lo == hi else 'range', lo <= n <= hi),
    }[which]
    count = lo if which == 'least' else hi
    counter = 'minimum' if which == 'least' else 'maximum'
    if style == 'plain':
        kw[key] = u'%(label)s|%(child_label)s|%(' + counter + u')s'
    elif style == 'counted':
        kw[key] = (u'one %(child_label)s', u'%(child_label)ss: %('
                   + counter + u')s', counter)
    else:
        kw[key] = None
    if sym.flag('subclass'):
        v = type('Mine', (T,), kw)()
    else:
        v = T(**kw)
    want = {'plain': u'box|it|%d' % count, None: None,
            'counted': u'one it' if count == 1 else u'its: %d' % count}[style]
    sym.check(bool(v(el, None)) == good, 'verdict')
    sym.equal(list(el.errors), [] if good or want is None else [want],
              'errors')
    sym.check(HasAtLeast.minimum == HasAtMost.maximum == 1
              and HasBetween.minimum == HasBetween.maximum == 1,
              'class attribute changed')
    sym.cover('accept' if good else 'reject')
    sym.observe([good, list(el.errors)])


def defaults(sym):
    """Default limits are one."""
    n = sym.pick_int('n', 0, 3)
    el = List.named(u'box').of(String.named(u'it'))([u'x'] * n)
    sym.check(bool(HasAtLeast()(el, None)) == (n >= 1), 'at least')
    sym.check(bool(HasAtMost()(el, None)) == (n <= 1), 'at most')
    sym.check(bool(HasBetween()(el, None)) == (n == 1), 'between')
    sym.check(len(el.errors) == len(set(el.errors)), 'errors')
    sym.cover('accept')


def equality(sym, which, count):
    kind = sym.choice('kind', ['Integer', 'String'])
    F = {'Integer': Integer, 'String': String.using(strip=False)}[kind]
    names = [u'a', u'b', u'c'][:count]
    labelled = sym.flag('labelled')
    fields = [F.named(n).using(label=n.upper()) if labelled else F.named(n)
              for n in names]
    S = Dict.named(u'd').of(*(fields + [String.named(u'other')]))
    el = S()
    texts = [sym.text(n, 2, alphabet=u'10 x') for n in names]
    for n, t in zip(names, texts):
        el[n].set(t)
    el[u'other'].set(u'zzz')
    style = sym.choice('style', ['names', 'paths', 'sibling'])
    if style == 'names':
        paths, at = names, el
    elif style == 'paths':
        paths, at = [u'/' + n for n in names], el[u'other']
    else:
        paths, at = [u'../' + n for n in names], el[u'other']
    T = {'values': ValuesEqual, 'unis': UnisEqual}.get(which)
    if T is not None and sym.flag('subclass'):
        class Mine(T):
            field_paths = tuple(paths)
        v = Mine()
    elif T is not None:
        v = T(*paths)
    elif which == 'map':
        v = MapEqual(*paths, transform=lambda e: e.u[:1])
    else:
        v = MapEqual(*paths)
    key = {'values': lambda e: e.value, 'unis': lambda e: e.u,
           'map': lambda e: e.u[:1],
           'plain': lambda e: (e.u, e.value)}[which]
    ks = [key(el[n]) for n in names]
    good = all(k == ks[0] for k in ks[1:])
    got = v(at, None)
    sym.check(bool(got) == good, 'verdict')
    ls = [n.upper() if labelled else n for n in names]
    msg = u'%s and %s do not match.' % (u', '.join(ls[:-1]), ls[-1])
    sym.equal(list(at.errors), [] if good else [msg], 'errors')
    sym.check(all(el[n].errors == [] for n in names), 'errors elsewhere')
    sym.cover('accept' if good else 'reject')
    sym.observe([good, list(at.errors)])


def anonymous(sym):
    el = List.named(u'l').of(String)([sym.text('a', 1), sym.text('b', 1)])
    good = el[0].u == el[1].u
    sym.check(bool(UnisEqual(u'0', u'1')(el, None)) == good, 'verdict')
    sym.check(len(el.errors) == (0 if good else 1), 'errors')
    for bad in [(), (u'0',)]:
        try:
            ValuesEqual(*bad)
            sym.fail('too few paths accepted')
        except AssertionError:
            sym.cover('refused')
    sym.observe(list(el.errors))


CASES = [
    ('dup.list', duplicates, (of_list, String, a_text),
     ['repeated', 'distinct'], 'q'),
    ('dup.array', duplicates, (of_array, String, a_text),
     ['repeated', 'distinct'], 'q'),
    ('dup.multi', duplicates, (of_multi, Integer, an_int),
     ['repeated', 'distinct'], 'q'),
    ('dup.rows', duplicates,
     (of_list, Dict.of(Integer.named(u'x'), Integer.named(u'y')), a_row),
     ['repeated', 'distinct'], 'q'),
    ('filtered', filtered, (), ['repeated', 'distinct'], 'q'),
    ('ordered', ordered, (), ['repeated', 'distinct'], 'q'),
] + [('counts.' + w, counts, (w,), ['accept', 'reject'], 'q')
     for w in ('least', 'most', 'between')] + [
    ('reworded', reworded, (), ['accept', 'reject'], 'q'),
    ('defaults', defaults, (), ['accept'], 'q'),
] + [('equal.' + w, equality, (w, 2), ['accept', 'reject'], 'q')
     for w in ('values', 'unis', 'map', 'plain')] + [
    ('equal3.' + w, equality, (w, 3), ['accept', 'reject'], 't')
    for w in ('values', 'unis', 'map', 'plain')] + [
    ('anonymous', anonymous, (), ['refused'], 'q'),
]
