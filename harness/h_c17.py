# C17: the validators of one element run in order up to the first that ends
# the chain; optional empty elements are exempt; receivers see every step.
from flatland import (Array, Boolean, DateYYYYMMDD, Dict, Integer,
                      List, MultiValue, Skip, SkipAll, SkipAllFalse,
                      SparseDict, String, Unevaluated)
from flatland.schema.base import NotEmpty, validate_element
from flatland.signals import validator_validated
from flatland.validation import Validator

BOUNDS = ('every element type, empty or not (String and Integer text of up '
          'to 2 arbitrary characters), optional or not; chains of 0..4 '
          'validators whose outcomes are any of True, False, None, the skips or another integer; '
          '0..2 connected signal receivers')
OUTSIDE = 'receivers or validators that raise'
ASSUMPTIONS = ['validators return a bool, an int or None (others: the suite '
               'expects TypeError)']

OUT = [True, False, None, Skip, SkipAll, SkipAllFalse, Unevaluated, 0, 1,
       7, -1]


def empty_by_type(el):
    """Nothing was entered."""
    if isinstance(el, DateYYYYMMDD):
        return all(el[k].u == u'' and el[k].value is None
                   for k in (u'year', u'month', u'day'))
    if isinstance(el, SparseDict):
        return len(el) == 0
    if isinstance(el, dict):
        return False
    if isinstance(el, list):
        return len(el) == 0
    if isinstance(el, String):
        return not el.value and el.u == u''
    return el.value is None and el.u == u''


def ends(x):
    return x is None or x is Skip or x is SkipAll or not x


def outcome(x):
    if x is None:
        return False
    if x is Skip:
        return True
    return x


def chain(sym, make, count, receivers):
    el = make(sym)
    el.optional = sym.flag('optional')
    state = sym.choice('state', [None, (u's',), {}])
    calls, sent = [], []
    n = sym.pick_int('n', 0, count)

    class Ob(Validator):
        def validate(self, element, st):
            return run(element, st, self)

    def run(element, st, who):
        sym.check(element is el and st is state, 'validator arguments')
        r = sym.choice('r%d' % len(calls), OUT)
        calls.append((who, r))
        return r
    fns = []
    for i in range(n):
        if i % 2:
            fns.append(Ob())
        else:
            fns.append((lambda me: lambda e, s: run(e, s, fns[me]))(i))
    rec = []
    for i in range(receivers):
        def receive(sender, element, state, result, i=i):
            sent.append((i, sender, element, state, result))
        rec.append(receive)
        validator_validated.connect(receive, weak=False)
    try:
        kind = sym.choice('seq', ['list', 'tuple', 'none'])
        if kind == 'none':
            sym.assume(n == 0)
            got = validate_element(el, state, None)
        else:
            got = validate_element(el, state,
                                   tuple(fns) if kind == 'tuple' else fns)
    finally:
        for r in rec:
            validator_validated.disconnect(r)
    is_empty = empty_by_type(el)
    sym.check(bool(el.is_empty) == bool(is_empty), 'is_empty')
    steps = []
    if is_empty and el.optional:
        sym.check(not calls, 'validators of an optional empty element')
        sym.check(got is True, 'optional empty element')
        sym.cover('exempt')
    elif not n:
        sym.check(not calls and got is (not is_empty), 'default validation')
        steps = [(NotEmpty, not is_empty)]
        sym.cover('default')
    else:
        k = len(calls)
        sym.check(0 < k <= n and
                  all(c[0] is f for c, f in zip(calls, fns)), 'order')
        sym.check(not any(ends(c[1]) for c in calls[:-1]),
                  'ran past the end of the chain')
        last = calls[-1][1]
        if ends(last):
            sym.check(got is outcome(last), 'outcome of an ended chain')
            sym.cover('ended')
        else:
            sym.check(k == n and got is True, 'outcome of a full chain')
            sym.cover('full')
        steps = calls
    sym.check(len(sent) == len(steps) * receivers, 'number of signals')
    for i in range(receivers):
        mine = [x for x in sent if x[0] == i]
        sym.check(len(mine) == len(steps) and all(
            m[1] is s[0] and m[2] is el and m[3] is state and m[4] is s[1]
            for m, s in zip(mine, steps)), 'signals')
    sym.observe([len(calls), len(sent), bool(got)])


def string(sym):
    el = String(strip=sym.flag('strip'))
    if sym.flag('odd'):
        el.set(sym.choice('v', [None, b'\xff', b'', 0]))
        if sym.flag('typed'):
            # entered by hand, as a widget would
            el.value, el.u = None, u' '
    else:
        el.set(sym.text('t', 2))
    return el


def integer(sym):
    el = Integer()
    el.set(sym.choice('v', [None, u'', 0, u'x', u' ', 5]))
    return el


def boolean(sym):
    el = Boolean()
    if sym.flag('assigned'):
        el.set(sym.choice('v', [None, u'', False, True, u'x']))
    return el


def containers(sym):
    S, v = sym.choice('type', [
        (List.of(String), []), (List.of(String), [u'']),
        (Array.of(Integer), []), (Array.of(Integer), [None]),
        (MultiValue.of(Integer), []), (MultiValue.of(String), [u'', u'x']),
        (Dict.of(String.named(u'a')), {}),
        (SparseDict.of(String.named(u'a')), {}),
        (SparseDict.of(String.named(u'a')), {u'a': None})])
    el = S()
    el.set(v)
    return el


def date(sym):
    el = DateYYYYMMDD.named(u'd')()
    for k in (u'year', u'month', u'day'):
        el[k].set(sym.choice(k, [None, u'', 1]))
    return el


CASES = [
    ('string', chain, (string, 2, 1), ['exempt', 'default', 'ended', 'full'],
     'q'),
    ('integer', chain, (integer, 2, 1),
     ['exempt', 'default', 'ended', 'full'], 'q'),
    ('boolean', chain, (boolean, 1, 2),
     ['exempt', 'default', 'ended', 'full'], 'q'),
    ('containers', chain, (containers, 2, 0),
     ['exempt', 'default', 'ended', 'full'], 'q'),
    ('date', chain, (date, 1, 1), ['exempt', 'default', 'ended', 'full'],
     'q'),
    ('long', chain, (containers, 4, 2),
     ['exempt', 'default', 'ended', 'full'], 't'),
    ('string.long', chain, (string, 3, 1),
     ['exempt', 'default', 'ended', 'full'], 't'),
]
