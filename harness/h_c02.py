# C02: an element's own text is a fixed point: assigning it back reproduces
# the same text and an equal value.
import datetime

from flatland import (Boolean, Constrained, Date, DateTime, DateYYYYMMDD,
                      Enum, Integer, Long, String, Time)

BOUNDS = ('text inputs: every BMP string up to 4 characters (5 thorough), '
          'every integer in +-10**9, every calendar date of years 1..9999, '
          'every time of day with whole seconds')
OUTSIDE = ('Float and Decimal; sub-second parts, which no text format of the '
           'library carries; empty elements, whose text is empty')


def fixpoint(sym, maker, x):
    a = maker(name=u'a')
    if not a.set(x) or a.value is None:
        sym.cover('refused')
        return
    sym.cover('accepted')
    u, value = a.u, a.value
    sym.observe([u, value])
    b = maker(name=u'a')
    sym.check(b.set(u) is True, 'own text refused')
    sym.equal(b.value, value, 'own text converts to another value')
    sym.equal(b.u, u, 'own text is not canonical')
    # through a flat round trip as well
    c = maker(name=u'a')
    c.set_flat(a.flatten())
    sym.equal(c.value, value, 'flat round trip of the value')
    sym.equal(c.u, u, 'flat round trip of the text')
    # and by assigning the native value back
    d = maker(name=u'a')
    sym.check(d.set(value) is True, 'own value refused')
    sym.equal(d.u, u, 'value serializes differently')
    sym.equal(d.value, value, 'value changes')


def text(sym, maker, maxlen, alphabet):
    fixpoint(sym, maker, sym.text('x', maxlen, alphabet=alphabet))


def number(sym, maker):
    fixpoint(sym, maker, sym.int('n', -10 ** 9, 10 ** 9))


def other(sym, maker):
    fixpoint(sym, maker, sym.choice('x', [True, False, [], None]))


def a_date(sym):
    y = sym.int('y', 1, 9999)
    m = sym.int('m', 1, 12)
    d = sym.int('d', 1, 31)
    try:
        return datetime.date(y, m, d)
    except ValueError:
        sym.assume(False)


def date(sym, maker):
    fixpoint(sym, maker, a_date(sym))


def time(sym):
    fixpoint(sym, Time, datetime.time(sym.int('h', 0, 23),
                                      sym.int('mi', 0, 59),
                                      sym.int('s', 0, 59)))


def dtime(sym):
    d = a_date(sym)
    fixpoint(sym, DateTime, datetime.datetime(
        d.year, d.month, d.day, sym.int('h', 0, 23), sym.int('mi', 0, 59),
        sym.int('s', 0, 59)))


def datetext(sym, maker, fmt):
    # text that matches the shape: digits where digits belong
    out = u''
    for i, ch in enumerate(fmt):
        if ch == u'9':
            out = out + sym.text('c%d' % i, 1, 1, u'0123456789')
        else:
            out = out + ch
    pad = sym.text('pad', 1, 0, u' \t\n\u3000')
    fixpoint(sym, maker, pad + out)


def _in(element, value):
    return value is not None and value % 3 == 1

custom_bool = Boolean.using(true=u'y', true_synonyms=(u'yes', u'Y'),
                            false=u'n', false_synonyms=(u'no',))
div3 = Constrained.using(child_type=Integer, valid_value=staticmethod(_in))
_b = ['accepted', 'refused']
CASES = [
    ('string', text, (String, 4, None), ['accepted'], 'q'),
    ('string.nostrip', text, (String.using(strip=False), 4, None),
     ['accepted'], 'q'),
    ('integer', text, (Integer, 4, None), _b, 'q'),
    ('integer5', text, (Integer, 6, None), _b, 't'),
    ('integer.padded', text, (Integer.using(format=u'%05i'), 4, None), _b,
     'q'),
    ('integer.unsigned', text, (Integer.using(signed=False), 4, None), _b,
     'q'),
    ('long', text, (Long, 4, None), _b, 'q'),
    ('boolean', text, (Boolean, 5, None), _b, 'q'),
    ('boolean.custom', text, (custom_bool, 4, None), _b, 'q'),
    ('enum', text, (Enum.valued(u'a', u'bc', u' d'), 4, None), _b, 'q'),
    ('enum.int', text, (Enum.using(child_type=Integer).valued(1, 20, -3), 4,
                        None), _b, 'q'),
    ('constrained', text, (div3, 4, None), _b, 'q'),
    ('n.integer', number, (Integer,), ['accepted'], 'q'),
    ('n.long', number, (Long,), ['accepted'], 'q'),
    ('n.padded', number, (Integer.using(format=u'%03i'),), ['accepted'],
     'q'),
    ('n.string', number, (String,), ['accepted'], 'q'),
    ('n.boolean', number, (Boolean,), ['accepted'], 'q'),
    ('n.constrained', number, (div3,), _b, 'q'),
    ('o.boolean', other, (Boolean,), ['accepted'], 'q'),
    ('o.string', other, (String,), ['accepted'], 'q'),
    ('date', date, (Date,), ['accepted'], 'q'),
    ('date.compound', date, (DateYYYYMMDD,), ['accepted'], 'q'),
    ('time', time, (), ['accepted'], 'q'),
    ('datetime', dtime, (), ['accepted'], 'q'),
    ('text.date', datetext, (Date, u'9999-99-99'), _b, 'q'),
    ('text.date.compound', datetext, (DateYYYYMMDD, u'9999-99-99'), _b, 'q'),
    ('text.time', datetext, (Time, u'99:99:99'), _b, 'q'),
    ('text.datetime', datetext, (DateTime, u'9999-99-99 99:99:99'), _b, 'q'),
]
