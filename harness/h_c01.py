# C01: scalar assignment never raises and leaves value/text/raw consistent.
import datetime

from flatland import (AdaptationError, Boolean, Constrained, Date, DateTime,
                      Enum, Integer, Long, Scalar, String, Time)
from hlib import text_of

BOUNDS = ('text inputs: every BMP string up to 3 characters (5 in the '
          'thorough tier), two byte strings that are '
          'no ASCII text, temporal text of the exact length over digits, '
          'separators and blank; integers in +-10**6; None, bool, list, '
          'object, date inputs; two consecutive assignments')
OUTSIDE = 'Float and Decimal (floating/decimal text conversion), other '\
    'byte strings'


class Weird(object):
    def __unicode__(self):
        return u'weird'

    __str__ = __unicode__

    def __repr__(self):
        return 'weird'


def contract(sym, el, x):
    """Assign x and look at everything the element shows afterwards."""
    r = el.set(x)
    sym.check(r is True or r is False, 'set() does not return a bool')
    sym.check(el.raw is x, 'raw is not the assigned input')
    if not r:
        sym.check(el.value is None, 'value kept after a failed set()')
        sym.equal(el.u, text_of(x), 'text after a failed set()')
        sym.cover('refused')
    else:
        sym.equal(el.value, el.adapt(x), 'value is not the adapted input')
        if el.value is None:
            sym.equal(el.u, u'', 'text of an empty element')
            sym.cover('empty')
        else:
            sym.equal(el.u, el.serialize(el.value), 'text is not the '
                      'serialization of the value')
            sym.cover('accepted')
    sym.check(isinstance(el.u, unicode), 'text is not unicode')
    sym.equal(bool(el), bool(el.u and el.value), 'truth value')
    sym.observe([r, el.value, el.u])


def any_input(sym, name, maxlen, alphabet=None):
    kind = sym.choice(name + '.kind', ['text', 'int', 'none', 'bool', 'list',
                                       'obj', 'date', 'datetime', 'bytes'])
    if kind == 'text':
        return sym.text(name, maxlen, alphabet=alphabet)
    if kind == 'int':
        return sym.int(name + '.n', -1000000, 1000000)
    if kind == 'none':
        return None
    if kind == 'bytes':
        return sym.choice(name + '.B', [b'\xe9', b' \xff\xe9 '])
    if kind == 'bool':
        return sym.flag(name + '.b')
    if kind == 'list':
        return []
    if kind == 'date':
        return datetime.date(2001, 2, 3)
    if kind == 'datetime':
        return datetime.datetime(2001, 2, 3, 4, 5, 6)
    return Weird()


class Picky(Scalar):
    """A user-defined scalar with its own conversions."""

    def adapt(self, value):
        if value is None:
            return None
        if not isinstance(value, unicode) or u'!' in value:
            raise AdaptationError()
        return value.replace(u'-', u'')

    def serialize(self, value):
        return u'<' + value + u'>'


class Upper(String):
    def adapt(self, value):
        value = String.adapt(self, value)
        if value is not None and value.startswith(u'x'):
            raise AdaptationError()
        return value


def _positive(element, value):
    return value is not None and value > 0

MAKERS = {
    'picky': Picky,
    'string': String,
    'string.nostrip': String.using(strip=False),
    'string.sub': Upper,
    'integer': Integer,
    'integer.unsigned': Integer.using(signed=False, format=u'%04i'),
    'long': Long,
    'boolean': Boolean,
    'boolean.custom': Boolean.using(true=u'y', true_synonyms=(u'yes', u'Y'),
                                    false=u'n', false_synonyms=(u'no',)),
    'enum': Enum.valued(u'a', u'bc', u''),
    'enum.int': Enum.using(child_type=Integer).valued(1, 20, 0, -3),
    'constrained': Constrained.using(child_type=Integer,
                                     valid_value=staticmethod(_positive)),
    'date': Date, 'time': Time, 'datetime': DateTime,
    'date.nostrip': Date.using(strip=False),
}


def single(sym, kind, maxlen):
    el = MAKERS[kind](name=u's')
    contract(sym, el, any_input(sym, 'x', maxlen))


def twice(sym, kind):
    """The outcome of an assignment does not depend on the one before."""
    el = MAKERS[kind]()
    el.set(any_input(sym, 'first', 2, u'1a -'))
    x = any_input(sym, 'x', 2, u'1a -')
    contract(sym, el, x)
    fresh = MAKERS[kind]()
    fresh.set(x)
    sym.equal(el.value, fresh.value, 'value depends on history')
    sym.equal(el.u, fresh.u, 'text depends on history')


def ctor(sym, kind):
    """Construction with a value is assignment."""
    x = any_input(sym, 'x', 2, u'1a -!')
    a = MAKERS[kind](x)
    b = MAKERS[kind]()
    b.set(x)
    sym.equal(a.value, b.value, 'value given at construction')
    sym.equal(a.u, b.u, 'text after construction')
    sym.check(a.raw is x, 'raw after construction')
    sym.observe([a.value, a.u])


def temporal(sym, cls):
    """Well-formed and nearly well-formed temporal text."""
    el = cls()
    n = {'Date': 10, 'Time': 8, 'DateTime': 19}[cls.__name__]
    alpha = u'0123459-: '
    contract(sym, el, sym.text('x', n, n, alphabet=alpha))


_BOTH = ['accepted', 'refused', 'empty']
CASES = []
for _k in sorted(MAKERS):
    _c = _BOTH
    if _k.startswith('string') and _k != 'string.sub':
        _c = ['accepted', 'empty']
    elif _k.startswith('boolean') or _k.startswith('enum') or \
            _k == 'constrained':
        _c = ['accepted', 'refused']
    elif _k in ('time', ):
        _c = ['refused', 'empty']
    CASES.append(('set.' + _k, single, (_k, 3), _c, 'q'))
    CASES.append(('set4.' + _k, single, (_k, 5), _c, 't'))
for _k in ('string', 'integer', 'boolean', 'enum', 'picky', 'date',
           'constrained'):
    CASES.append(('twice.' + _k, twice, (_k,), [], 'q'))
    CASES.append(('ctor.' + _k, ctor, (_k,), [], 'q'))
CASES.extend([
    ('text.Date', temporal, (Date,), ['accepted', 'refused'], 'q'),
    ('text.Time', temporal, (Time,), ['accepted', 'refused'], 'q'),
    ('text.DateTime', temporal, (DateTime,), ['accepted', 'refused'], 'q'),
])
