# Shared helpers of the harnesses (runs under the encoding and under Jython).
import datetime

WS = u' \t\n\u3000'


def text_of(x):
    """The text a failed conversion must leave behind."""
    if x is None:
        return u''
    if isinstance(x, unicode):
        return x
    if isinstance(x, bytes) and not isinstance(x, unicode):
        return unicode(x, errors='replace')
    return unicode(x)


def is_digit(c):
    return c.isdigit() and c in u'0123456789'


def raises(fn, *exc):
    """The name of the exception class among *exc* that fn() raises."""
    try:
        fn()
    except exc as e:
        return type(e).__name__
    return None


def days_in(year, month):
    if month == 2:
        leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
        return 29 if leap else 28
    return 30 if month in (4, 6, 9, 11) else 31


def pairs_sorted(pairs):
    return sorted(pairs)


def same_multiset(a, b):
    b = list(b)
    for x in a:
        if x in b:
            b.remove(x)
        else:
            return False
    return not b


class Obj(object):
    """A bag of attributes."""

    def __init__(self, **kw):
        for k in kw:
            setattr(self, k, kw[k])


def norm(el):
    """The information of a tree, treating blank text and no value alike."""
    if isinstance(el, dict):
        return dict((k, norm(el[k])) for k in el.keys())
    if isinstance(el, list) and el.children_flattenable:
        return [norm(x) for x in el]
    return (el.u, el.value if el.u != u'' else None)


def snapshot(el):
    """Like norm(), in a printable, order-independent form."""
    if isinstance(el, dict):
        return sorted([[k, snapshot(el[k])] for k in el.keys()])
    if isinstance(el, list):
        return [snapshot(x) for x in el]
    return [el.u, el.value]


def wellformed(sym, el, schema=None, parent=None):
    """Every node of the tree is what its schema says, linked to its parent
    and numbered by position."""
    if schema is not None:
        sym.check(isinstance(el, schema), 'node of an undeclared type')
    if isinstance(el, dict):
        fields = dict((f.name, f) for f in el.field_schema)
        for k in dict.keys(el):
            sym.check(k in fields, 'mapping holds an undeclared key')
        for k in fields:
            if not hasattr(el, 'minimum_fields'):
                sym.check(dict.__contains__(el, k), 'declared key missing')
            elif (el.minimum_fields == 'required'
                  and not fields[k].optional):
                sym.check(dict.__contains__(el, k), 'required key missing')
        for k in dict.keys(el):
            c = dict.__getitem__(el, k)
            sym.check(c.parent is el, 'child of a mapping has another parent')
            sym.equal(c.name, k, 'child stored under another name')
            wellformed(sym, c, fields[k])
    elif hasattr(el, '_slots'):
        n = 0
        for slot in el._slots:
            sym.check(slot.parent is el, 'slot has another parent')
            sym.equal(slot.name, unicode(n), 'slot number')
            sym.check(slot.element.parent is slot, 'member is not linked to '
                      'its slot')
            wellformed(sym, slot.element, el.member_schema)
            n += 1
        sym.check(n == len(el), 'length of a list')
    elif isinstance(el, list):
        for c in list.__iter__(el):
            sym.check(c.parent is el, 'member of an array has another parent')
            wellformed(sym, c, el.member_schema)
    else:
        sym.check(isinstance(el.u, unicode), 'text of a leaf is not text')
