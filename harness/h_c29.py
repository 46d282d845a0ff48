# C29: compound elements are their parts: dates of three fields, texts joined
# from members, and their one-time class preparation.
import datetime
import re

from flatland import (Boolean, Compound, DateYYYYMMDD, Dict, Integer,
                      JoinedString, String)
from hlib import days_in, raises

BOUNDS = ('all dates of the years 1..9999 as dates and parts, part texts of '
          'up to 2 arbitrary characters, histories of up to 3 assignments of '
          'the whole and of parts; 0..3 declared fields; joined texts of up '
          'to 5 characters with five separators and lists of up to 3 members; '
          'histories of up to 4 uses of a family of compound classes')
OUTSIDE = ('date parts that are not integer elements; concurrent preparation '
           'of a class; members that strip to nothing in a joined text')
ASSUMPTIONS = []


def valid(y, m, d):
    return (y is not None and m is not None and d is not None and
            1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= days_in(y, m))


def view(sym, el, parts):
    """The whole agrees with the parts."""
    y, m, d = parts
    names = [f.name for f in el.field_schema]
    got = [el[n].value for n in names]
    sym.equal(got, list(parts), 'parts')
    if valid(y, m, d):
        sym.equal(el.value, datetime.date(y, m, d), 'value')
        sym.equal(el.u, u'%04d-%02d-%02d' % (y, m, d), 'text')
        sym.cover('date')
    else:
        sym.check(el.value is None and el.u == u'', 'value of no date')
        sym.cover('no date')
    sym.check(el.is_empty is all(el[n].u == u'' for n in names), 'is_empty')


def date_of(sym, i):
    y = sym.int('y%d' % i, 1, 9999)
    m = sym.pick_int('m%d' % i, 1, 12)
    d = sym.int('d%d' % i, 1, 31)
    sym.assume(d <= days_in(y, m))
    return datetime.date(y, m, d), (y, m, d)


def part(sym, el, parts):
    """Changing one part changes the whole."""
    v, parts = date_of(sym, 0)
    sym.check(el.set(v) is True and el.raw is v, 'setting a date')
    view(sym, el, parts)
    i = sym.pick_int('part', 0, 2)
    kind = sym.choice('kind', ['int', 'text', 'none'])
    name = el.field_schema[i].name
    new = None
    if kind == 'int':
        new = sym.int('p', -1, 10000 if i == 0 else 32)
        el[name].set(new)
    elif kind == 'text':
        el[name].set(u'x')
    else:
        el[name].set(None)
    parts = list(parts)
    parts[i] = new
    view(sym, el, parts)
    sym.observe([el.u, el.is_empty])


def declared(sym, S, n):
    own = [Integer.named(u'a').using(format=u'%04i', optional=True),
           Integer.named(u'b'), Integer.named(u'c')][:n]
    if n == 0:
        return S, [u'year', u'month', u'day'], []
    return S.using(field_schema=own), ([u'a', u'b', u'c'][:n] +
                        [u'year', u'month', u'day'][n:]), own


def parts(sym):
    S, names, _ = declared(sym, DateYYYYMMDD.named(u'w'),
                           sym.pick_int('declared', 0, 3))
    el = S()
    sym.check([f.name for f in el.field_schema] == names, 'names of parts')
    view(sym, el, (None, None, None))
    part(sym, el, None)


def wholes(sym, steps):
    """Nothing of an earlier date survives the next assignment."""
    el = DateYYYYMMDD.named(u'w')()
    for i in range(steps):
        kind = sym.choice('kind%d' % i, ['date', 'text', 'none', 'junk',
                                         'datetime', 'value', 'u'])
        want = (None, None, None)
        if kind == 'date':
            v, want = date_of(sym, i)
            ok = el.set(v)
            sym.check(ok is True, 'result of a date')
        elif kind == 'text':
            t = sym.choice('t%d' % i, [u'2012-02-29', u' 1999-12-31 ',
                                       u'2011-02-29', u'12-1-1', u''])
            ok = el.set(t)
            want = {u'2012-02-29': (2012, 2, 29),
                    u' 1999-12-31 ': (1999, 12, 31)}.get(t, want)
            sym.check(ok is (want[0] is not None), 'result of a text')
        elif kind == 'none':
            sym.check(el.set(None) is True and el.raw is None,
                      'result of None')
        elif kind == 'junk':
            v = sym.choice('j%d' % i, [5, [], {}, True, 1.5])
            sym.check(el.set(v) is False and el.raw is v, 'result of junk')
        elif kind == 'datetime':
            el.set(datetime.datetime(2001, 2, 3, 4, 5, 6))
            want = (2001, 2, 3)
        elif kind == 'value':
            el.value = datetime.date(1, 1, 1)
            want = (1, 1, 1)
        else:
            el.u = u'9999-12-31'
            want = (9999, 12, 31)
        sym.cover(kind)
        view(sym, el, want)
    sym.observe([el.u, el.is_empty])


def flat(sym):
    """Loading gives parts, and a date only when they make one."""
    S = Dict.of(DateYYYYMMDD.named(u'w').using(optional=True))
    texts = [sym.text('t%d' % i, 2, alphabet=[u'0', u'1', u'9', u' ', u'x',
                                              u'-'])
             for i in range(3)]
    pairs = [(u'w_' + n, t) for n, t in zip([u'year', u'month', u'day'],
                                            texts)]
    if sym.flag('decoy'):
        pairs.append((u'w', u'2000-01-01'))
    el = S.from_flat(pairs)
    want = []
    for i in range(3):
        s = Integer()
        s.set(texts[i])
        want.append(s.value)
    view(sym, el[u'w'], want)
    out = dict(el.flatten())
    sym.check(sorted(out) == [u'w', u'w_day', u'w_month', u'w_year'],
              'flattened names')
    sym.equal(out[u'w'], el[u'w'].u, 'flattened whole')
    again = S.from_flat(list(out.items()))
    sym.equal(again[u'w'].value, el[u'w'].value, 'value of a reloaded date')
    sym.observe([el[u'w'].u, again[u'w'].u])


def optionals(sym, steps):
    """Parts are required as their own date is, whichever classes were used
    before."""
    n = sym.pick_int('declared', 0, 2)
    S, names, own = declared(sym, DateYYYYMMDD.named(u'w'), n)
    first = sym.flag('first')
    if first:
        S = S.using(optional=True)
    family = [(S, first)]
    for i in range(steps):
        op = sym.choice('op%d' % i, ['use', 'derive', 'instance', 'again'])
        S, opt = family[sym.pick_int('at%d' % i, 0, len(family) - 1)]
        if op == 'use':
            el = S()
        elif op == 'derive':
            opt = sym.flag('o%d' % i)
            S = S.using(optional=opt)
            family.append((S, opt))
            continue
        elif op == 'instance':
            opt = sym.flag('o%d' % i)
            el = S(optional=opt)
        else:
            S.__compound_init__()
            el = S()
        sym.cover(op)
        sym.check(el.optional is opt, 'optional of the date')
    for S, opt in family:
        el = S()
        sym.check([f.name for f in el.field_schema] == names, 'names')
        sym.check(el.optional is opt, 'optional of the date')
        for k in range(3):
            part = el[names[k]]
            if k < len(own):
                sym.check(isinstance(part, own[k]), 'a declared part')
            else:
                sym.check(part.optional is opt, 'optional of a part')
        sym.check(el.validate() is (opt and len(own) < 2), 'an empty date')
    sym.observe([bool(o) for _, o in family])


def prepared(sym, steps):
    """A class is prepared once, before its first element."""
    ran = []

    class Pair(Compound):
        field_schema = [Integer.named(u'x')]
        attr = 0

        def __compound_init__(cls):
            ran.append(cls)
            if cls.attr:
                cls.field_schema = [Integer.named(u'x'), Integer.named(u'y')]

        def compose(self):
            return u'', None

        def explode(self, value):
            self[u'x'].set(value)
    family, want = [Pair], []
    for i in range(steps):
        cls = family[sym.pick_int('at%d' % i, 0, len(family) - 1)]
        op = sym.choice('op%d' % i, ['use', 'value', 'derive', 'subclass',
                                     'instance', 'by hand'])
        if op == 'use':
            el = cls()
        elif op == 'value':
            el = cls(5)
            sym.check(el[u'x'].value == 5, 'value given to the constructor')
        elif op == 'derive':
            family.append(cls.using(attr=1))
        elif op == 'subclass':
            class Sub(cls):
                pass
            family.append(Sub)
        elif op == 'instance':
            old = cls.attr
            el = cls(7, attr=1, name=u'q')
            sym.check(type(el) is not cls and isinstance(el, cls) and
                      el.attr == 1 and cls.attr == old and el.name == u'q' and
                      el[u'x'].value == 7, 'a configured element')
            sym.check(ran[-1] is type(el) and len(el) == 2,
                      'preparation of a configured element')
            ran.pop()
        else:
            cls.__compound_init__()
            want.append(cls)
        if op in ('use', 'value'):
            sym.check(type(el) is cls, 'type of an element')
            if cls not in want:
                want.append(cls)
            sym.check(len(el) == (2 if cls.attr else 1), 'prepared fields')
        sym.cover(op)
        sym.check(len(ran) == len(want) and
                  all(a is b for a, b in zip(ran, want)), 'preparations')
    sym.check(raises(lambda: Pair(bogus=1), TypeError) == 'TypeError',
              'unknown argument')
    sym.observe(len(ran))


class Refuses(Compound):
    """Fields of a pair "x-y", or of a tuple."""
    field_schema = [Integer.named(u'x'), Integer.named(u'y')]

    def compose(self):
        x, y = self[u'x'], self[u'y']
        if not x.u and not y.u:
            return u'', None
        return x.u + u'-' + y.u, (x.value, y.value)

    def explode(self, value):
        if isinstance(value, unicode):
            value = value.split(u'-')
        x, y = value
        if x == 13:
            raise KeyError('unlucky')
        ok = self[u'x'].set(x)
        return self[u'y'].set(y) and ok


def exploding(sym, steps):
    """set() is the verdict of explode(), and False if that raises."""
    el = Refuses.named(u'p')()
    for i in range(steps):
        how = sym.choice('how%d' % i, ['pair', 'text', 'junk', 'raises',
                                       'bad part', 'via u', 'via value'])
        n = sym.int('n%d' % i, -5, 5)
        before = (el[u'x'].value, el[u'y'].value)
        want = before
        if how == 'pair':
            v, want, ok = (n, 7), (n, 7), True
        elif how == 'text':
            v, want, ok = u'3-4', (3, 4), True
        elif how == 'junk':
            v = sym.choice('v%d' % i, [5, None, u'', (1, 2, 3), [], u'1'])
            ok = False
        elif how == 'raises':
            v, ok = (13, n), False
        elif how == 'bad part':
            v, want, ok = (u'z', n), (None, n), False
        if how == 'via u':
            el.u, want = u'8-9', (8, 9)
        elif how == 'via value':
            el.value, want = (n, n), (n, n)
        else:
            sym.check(el.set(v) is ok, 'result of set()')
            sym.check(el.raw is v, 'raw')
        sym.equal((el[u'x'].value, el[u'y'].value), want, 'parts')
        if want[0] is None and how != 'bad part' and want[1] is None:
            sym.check(el.value is None and el.u == u'', 'an empty pair')
        elif want[0] is not None:
            sym.equal(el.value, want, 'value of a pair')
            sym.equal(el.u, u'%d-%d' % want, 'text of a pair')
        sym.cover(how)
    sym.observe([el.u])


SEPS = [u',', u', ', u'||', u'.', u'x']


def joined_text(sym, sep, maxlen):
    """Text is split, members joined."""
    prune = sym.flag('prune')
    strip = sym.flag('strip')
    S = JoinedString.named(u'j').using(
        separator=sep, prune_empty=prune).of(String.using(strip=strip))
    t = sym.text('t', maxlen, alphabet=u'ab ' + sep)
    el = S()
    if sym.flag('used before'):
        el.set([u'old', u'er'])
    sym.check(el.set(t) is True and el.raw is t, 'result of a text')
    want, cur, i = [], u'', 0
    while i < len(t):
        if t[i:i + len(sep)] == sep:
            want.append(cur)
            cur = u''
            i += len(sep)
        else:
            cur += t[i]
            i += 1
    want.append(cur)
    want = [p for p in want if p != u'' or not prune]
    if strip:
        want = [p.strip() for p in want]
    members(sym, el, want, sep)
    if u'' not in want and want:
        again = S(el.u)
        if strip and sep == u', ':
            return
        sym.equal([c.u for c in again], want, 'members of its own text')
    flatly = S.from_flat([(u'j_0', u'zz'), (u'j', t), (u'j', u'zz')])
    members(sym, flatly, want, sep)
    sym.cover('several' if len(want) > 1 else 'one' if want else 'none')
    sym.observe([c.u for c in el])


def members(sym, el, want, sep):
    sym.equal([c.u for c in el], want, 'members')
    sym.equal(el.u, sep.join(want), 'joined text')
    sym.equal(el.value, sep.join(want), 'joined value')
    sym.check(el.flatten() == [(u'j', sep.join(want))], 'flattened')
    sym.check(all(c.parent is el for c in list.__iter__(el)), 'parents')


def joined_list(sym):
    """Members of a list, of any type."""
    member = sym.choice('member', [String, Integer, Boolean])
    prune = sym.flag('prune')
    S = JoinedString.named(u'j').of(member).using(prune_empty=prune)
    n = sym.pick_int('n', 0, 3)
    items = []
    for i in range(n):
        k = sym.choice('k%d' % i, ['text', 'int', 'none', 'empty', 'false'])
        items.append({'text': lambda: u'xy', 'int': lambda: sym.int(
            'i%d' % i, -2, 2), 'none': lambda: None, 'empty': lambda: u'',
            'false': lambda: False}[k]())
    how = sym.choice('how', ['list', 'tuple', 'iterator'])
    given = {'list': list, 'tuple': tuple, 'iterator': iter}[how](items)
    el = S()
    ok = el.set(given)
    kept = [x for x in items if not prune or not (x is None or x == u'')]
    models = []
    good = True
    for x in kept:
        m = member()
        good = m.set(x) and good
        models.append(m.u)
    sym.check(ok is good, 'result of a list')
    members(sym, el, models, u',')
    sym.cover('adapted' if good else 'not adapted')
    bad = sym.choice('bad', [None, 5, 1.5, True])
    sym.check(el.set(bad) is False, 'result of junk')
    members(sym, el, [], u',')
    sym.observe([models, bool(good)])


def joined_regex(sym):
    S = JoinedString.named(u'j').using(
        separator=u'; ', separator_regex=re.compile(u'\\s*[;/]\\s*'))
    t = sym.text('t', 4, alphabet=u'ab ;/')
    el = S(t)
    pieces, cur = [], u''
    for c in t:
        if c in u';/':
            pieces.append(cur)
            cur = u''
        else:
            cur += c
    pieces.append(cur)
    want = []
    for i in range(len(pieces)):
        p = pieces[i]
        lo, hi = 0, len(p)
        if i > 0:
            while lo < hi and p[lo] == u' ':
                lo += 1
        if i < len(pieces) - 1:
            while hi > lo and p[hi - 1] == u' ':
                hi -= 1
        if p[lo:hi] != u'':
            want.append(p[lo:hi].strip())
    members(sym, el, want, u'; ')
    sym.cover('split' if len(want) > 1 else 'whole')
    sym.observe(el.u)


_D = ['date', 'no date']
CASES = [
    ('exploding', exploding, (2,), ['pair', 'text', 'junk', 'raises',
                                    'bad part', 'via u', 'via value'], 'q'),
    ('parts', parts, (), _D, 'q'),
    ('wholes', wholes, (2,), _D + ['none', 'junk', 'datetime', 'value', 'u'],
     'q'),
    ('wholes.long', wholes, (3,), _D, 't'),
    ('flat', flat, (), ['no date'], 'q'),
    ('optionals', optionals, (3,), ['use', 'instance', 'again'], 'q'),
    ('prepared', prepared, (3,), ['use', 'value', 'derive', 'subclass',
                                  'instance', 'by hand'], 'q'),
    ('prepared.long', prepared, (4,), ['use'], 't'),
    ('joined.list', joined_list, (), ['adapted', 'not adapted'], 'q'),
    ('joined.regex', joined_regex, (), ['split', 'whole'], 'q'),
]
for _i, _s in enumerate(SEPS):
    CASES.append(('joined.text.%d' % _i, joined_text, (_s, 4),
                  ['several', 'one', 'none'], 'q'))
