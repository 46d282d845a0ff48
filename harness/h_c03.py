# C03: temporal text is accepted exactly when it is a calendar-valid moment in
# the type's fixed-width format, and then means that moment.
import datetime

from flatland import Date, DateTime, Time
from hlib import days_in

BOUNDS = ('text of 0..12 (Date), 0..10 (Time), 17..20 (DateTime) arbitrary '
          'BMP characters; every date/time/datetime value; every year, '
          'month, day, hour, minute, second value')
OUTSIDE = 'Temporal subclasses that replace the regular expression'
SHAPES = {'Date': u'9999-99-99', 'Time': u'99:99:99',
          'DateTime': u'9999-99-99 99:99:99'}
FIELDS = {'Date': [(0, 4), (5, 7), (8, 10)],
          'Time': [(0, 2), (3, 5), (6, 8)],
          'DateTime': [(0, 4), (5, 7), (8, 10), (11, 13), (14, 16),
                       (17, 19)]}


def reference(cls, x, strip):
    """The field values of *x*, or None."""
    kind = cls.__name__
    shape = SHAPES[kind]
    if strip:
        x = x.strip()
    if len(x) != len(shape):
        return None
    for c, s in zip(x, shape):
        if s == u'9':
            if c not in u'0123456789':
                return None
        elif c != s:
            return None
    f = [int(x[a:b]) for a, b in FIELDS[kind]]
    if kind != 'Time':
        y, m, d = f[0], f[1], f[2]
        if y < 1 or m < 1 or m > 12 or d < 1 or d > days_in(y, m):
            return None
    if kind != 'Date':
        h, mi, s = f[-3], f[-2], f[-1]
        if h > 23 or mi > 59 or s > 59:
            return None
    return f


def judge(sym, cls, strip, x):
    el = cls.named(u't').using(strip=strip)()
    ok = el.set(x)
    want = reference(cls, x, strip)
    sym.observe([ok, el.value, el.u])
    if want is None:
        sym.check(not ok, 'malformed or impossible moment accepted')
        sym.check(el.value is None, 'value of a refused moment')
        sym.equal(el.u, x, 'text of a refused moment')
        sym.cover('refused')
    else:
        sym.check(ok, 'valid moment refused')
        sym.equal(el.value, cls.type_(*want), 'another moment')
        sym.equal(el.u, x.strip() if strip else x, 'text of a moment')
        sym.cover('accepted')


def free(sym, cls, strip, lo, hi):
    judge(sym, cls, strip, sym.text('x', hi, lo))


def ascii_(sym, cls, strip, lo, hi):
    judge(sym, cls, strip, sym.text('x', hi, lo, u'0123456789-: T\n/+'))


def shaped(sym, cls, strip):
    """Digits everywhere digits belong; optional blanks around."""
    shape = SHAPES[cls.__name__]
    x = sym.text('lead', 1, 0, u' \n\u00a0')
    for i, s in enumerate(shape):
        x = x + (sym.text('c%d' % i, 1, 1, u'0123456789')
                 if s == u'9' else s)
    x = x + sym.text('trail', 1, 0, u' \n\r\u2028')
    judge(sym, cls, strip, x)


def native(sym, cls, kind):
    """Native values, of this and of the other temporal types."""
    y, m, d = sym.int('y', 1, 9999), sym.int('m', 1, 12), sym.int('d', 1, 28)
    h, mi, s = sym.int('h', 0, 23), sym.int('mi', 0, 59), sym.int('s', 0, 59)
    if kind == 'date':
        x = datetime.date(y, m, d)
    elif kind == 'time':
        x = datetime.time(h, mi, s)
    else:
        x = datetime.datetime(y, m, d, h, mi, s)
    if not isinstance(x, cls.type_):
        # text of a refused native value is its str(); not the subject here
        x = datetime.date(2001, 2, 3) if kind == 'date' else (
            datetime.time(1, 2, 3) if kind == 'time' else
            datetime.datetime(2001, 2, 3, 4, 5, 6))
    el = cls()
    ok = el.set(x)
    mine = isinstance(x, cls.type_)
    sym.observe([ok, el.u])
    sym.equal(ok, mine, 'native value of %s for %s' % (kind, cls.__name__))
    if ok:
        sym.check(el.value == x, 'native value changed')
        again = cls()
        sym.check(again.set(el.u), 'serialized moment refused')
        f = [int(el.u[a:b]) for a, b in FIELDS[cls.__name__]]
        names = ('year', 'month', 'day') if cls is Date else (
            'hour', 'minute', 'second') if cls is Time else (
            'year', 'month', 'day', 'hour', 'minute', 'second')
        for n, v in zip(names, f):
            sym.equal(getattr(x, n), v, 'serialized ' + n)
        sym.equal(len(el.u), len(SHAPES[cls.__name__]), 'width')


def digits(sym, cls):
    """Digits outside ASCII."""
    shape = SHAPES[cls.__name__]
    pos = [i for i, s in enumerate(shape) if s == u'9']
    at = sym.choice('at', pos)
    x = u''
    for i, s in enumerate(shape):
        if i == at:
            x = x + sym.text('odd', 1, 1)
        else:
            x = x + (u'1' if s == u'9' else s)
    judge(sym, cls, True, x)


_b = ['accepted', 'refused']
CASES = []
for _cls, _lo, _hi in ((Date, 0, 12), (Time, 0, 10), (DateTime, 17, 20)):
    _n = _cls.__name__
    CASES.append((_n + '.free', free, (_cls, True, _lo, _hi), _b, 'q'))
    CASES.append((_n + '.free.nostrip', free, (_cls, False, _lo, _hi), _b,
                  'q'))
    CASES.append((_n + '.shaped', shaped, (_cls, True), _b, 'q'))
    CASES.append((_n + '.shaped.nostrip', shaped, (_cls, False), _b, 'q'))
    CASES.append((_n + '.digits', digits, (_cls,), _b, 'q'))
    for _k in ('date', 'time', 'datetime'):
        CASES.append((_n + '.native.' + _k, native, (_cls, _k), [], 'q'))
