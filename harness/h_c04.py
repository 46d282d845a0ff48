# C04: text and values are accepted exactly when they denote a value of the
# declared domain.
import datetime

from flatland import (Boolean, Constrained, Date, DateTime, Enum, Integer,
                      Long, String, Time)
from hlib import text_of

BOUNDS = ('text inputs: every BMP string up to 3 characters (4 for Integer, '
          '10..11 for temporal types over digits, separators, blanks and '
          'letters); integers in +-10**6; None, bool, list, date inputs; '
          'two consecutive assignments')


class Weird(object):
    def __unicode__(self):
        return u'weird'

    __str__ = __unicode__

    def __repr__(self):
        return 'weird'


def contract(sym, el, x, accept):
    """Assign x; *accept* is None when the input must be refused, else the
    1-tuple of the native value expected."""
    r = el.set(x)
    sym.check(r is True or r is False, 'set() does not return a bool')
    if accept is None:
        sym.check(r is False, 'unusable input accepted')
        sym.check(el.value is None, 'value kept after a failed set()')
        sym.equal(el.u, text_of(x), 'text after a failed set()')
        sym.cover('refused')
    else:
        sym.check(r is True, 'usable input refused')
        sym.equal(el.value, accept[0], 'value after set()')
        if accept[0] is None:
            sym.equal(el.u, u'', 'text of an empty element')
        else:
            sym.equal(el.u, el.serialize(el.value), 'text is not the '
                      'serialization of the value')
        sym.cover('accepted')
    sym.equal(bool(el), bool(el.u and el.value), 'truth value')
    sym.observe([r, el.value, el.u])


def want_string(x, strip):
    if x is None:
        return (None,)
    t = x if isinstance(x, unicode) else unicode(x)
    return (t.strip(),) if strip else (t,)


def want_int(x, signed=True):
    if x is None:
        return (None,)
    try:
        n = int(x.strip()) if isinstance(x, unicode) else int(x)
    except (ValueError, TypeError):
        return None
    if n < 0 and not signed:
        return None
    return (n,)


def want_bool(x, cls):
    if not isinstance(x, unicode):
        return (bool(x),)
    for t in (cls.true,) + tuple(cls.true_synonyms):
        if x == t:
            return (True,)
    for t in (cls.false,) + tuple(cls.false_synonyms):
        if x == t:
            return (False,)
    return None


def any_input(sym, name, maxlen, alphabet=None):
    kind = sym.choice(name + '.kind', ['text', 'int', 'none', 'bool', 'list',
                                       'obj', 'date'])
    if kind == 'text':
        return sym.text(name, maxlen, alphabet=alphabet)
    if kind == 'int':
        return sym.int(name + '.n', -1000000, 1000000)
    if kind == 'none':
        return None
    if kind == 'bool':
        return sym.flag(name + '.b')
    if kind == 'list':
        return []
    if kind == 'date':
        return datetime.date(2001, 2, 3)
    return Weird()


def string(sym, strip):
    x = any_input(sym, 'x', 3)
    el = String.using(strip=strip)(name=u's')
    contract(sym, el, x, want_string(x, strip))


def integer(sym, cls, signed, fmt):
    x = any_input(sym, 'x', 4)
    el = cls.using(signed=signed, format=fmt)(name=u'i')
    contract(sym, el, x, want_int(x, signed))


def boolean(sym, custom):
    x = any_input(sym, 'x', 5)
    cls = Boolean
    if custom:
        cls = Boolean.using(true=u'y', true_synonyms=(u'yes', u'Y'),
                            false=u'n', false_synonyms=(u'no',))
    contract(sym, cls(), x, want_bool(x, cls))


def enum_text(sym):
    x = any_input(sym, 'x', 3)
    el = Enum.valued(u'a', u'bc', u'')()
    w = want_string(x, True)
    if w[0] not in (u'a', u'bc', u''):
        w = None
    contract(sym, el, x, w)


def enum_int(sym):
    x = any_input(sym, 'x', 3)
    el = Enum.using(child_type=Integer).valued(1, 20, 0, -3)()
    w = want_int(x)
    if w is not None and (w[0] is None or w[0] not in (1, 20, 0, -3)):
        w = None
    contract(sym, el, x, w)


def enum_mixed(sym):
    """Members are compared as adapted values, not as text."""
    x = any_input(sym, 'x', 3)
    if sym.flag('text'):
        el = Enum.valued(1, u'a', None)()
        w = want_string(x, True)
        if w[0] is not None and w[0] != u'a':
            w = None
    else:
        el = Enum.using(child_type=Integer).valued(u'1', 2, u'x', None)()
        w = want_int(x)
        if w is not None and w[0] is not None and w[0] != 2:
            w = None
    contract(sym, el, x, w)


def constrained(sym):
    lo = sym.int('lo', -50, 50)

    def inside(element, value):
        return value is not None and value >= lo
    x = any_input(sym, 'x', 3)
    el = Constrained.using(child_type=Integer, valid_value=inside)()
    w = want_int(x)
    if w is not None and (w[0] is None or w[0] < lo):
        w = None
    contract(sym, el, x, w)


def temporal_other(sym, cls, strip):
    """Temporal types given short text or non-text."""
    x = any_input(sym, 'x', 2)
    el = cls.using(strip=strip)()
    w = None
    if x is None:
        w = (None,)
    elif isinstance(x, cls.type_):
        w = (x,)
    contract(sym, el, x, w)


def twice(sym, maker, want):
    """The outcome of an assignment does not depend on the one before."""
    el = maker()
    el.set(any_input(sym, 'first', 2, u'1a -'))
    x = any_input(sym, 'x', 2, u'1a -')
    contract(sym, el, x, want(x))


_ws = lambda x: want_string(x, True)
CASES = [
    ('string.strip', string, (True,), ['accepted'], 'q'),
    ('string.nostrip', string, (False,), ['accepted'], 'q'),
    ('integer', integer, (Integer, True, u'%i'), ['accepted', 'refused'],
     'q'),
    ('integer.unsigned', integer, (Integer, False, u'%04i'),
     ['accepted', 'refused'], 'q'),
    ('long', integer, (Long, True, u'%i'), ['accepted', 'refused'], 'q'),
    ('boolean', boolean, (False,), ['accepted', 'refused'], 'q'),
    ('boolean.custom', boolean, (True,), ['accepted', 'refused'], 'q'),
    ('enum.text', enum_text, (), ['accepted', 'refused'], 'q'),
    ('enum.int', enum_int, (), ['accepted', 'refused'], 'q'),
    ('enum.mixed', enum_mixed, (), ['accepted', 'refused'], 'q'),
    ('constrained', constrained, (), ['accepted', 'refused'], 'q'),
    ('date.other', temporal_other, (Date, True), ['accepted', 'refused'],
     'q'),
    ('date.other.nostrip', temporal_other, (Date, False),
     ['accepted', 'refused'], 'q'),
    ('time.other', temporal_other, (Time, True), ['refused'], 'q'),
    ('datetime.other', temporal_other, (DateTime, True), ['refused'], 'q'),
    ('twice.integer', twice, (Integer, want_int), ['accepted', 'refused'],
     'q'),
    ('twice.string', twice, (String, _ws), ['accepted'], 'q'),
    ('twice.boolean', twice, (Boolean, lambda x: want_bool(x, Boolean)),
     ['accepted', 'refused'], 'q'),
]
