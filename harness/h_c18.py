# C18: each scalar validator accepts exactly what its condition names and a
# rejection records its message, filled in.
import datetime

from flatland import Boolean, Date, Integer, String
from flatland.validation import (Converted, IsFalse, IsTrue, LengthBetween,
                                 LongerThan, NoLongerThan, Present,
                                 ShorterThan, ValueAtLeast,
                                 ValueAtMost, ValueBetween, ValueGreaterThan,
                                 ValueIn, ValueLessThan)

BOUNDS = ('Integer, String, Boolean and Date elements; texts of up to 5 '
          'arbitrary characters; integers and limits in -30..30; dates in '
          '1999..2001; up to 3 options; labels of up to 2 characters; '
          'one or two passes of the same validator')
OUTSIDE = ('limits of dates without a native value (the comparison raises)'
           ' and upper limits of numbers without one')
ASSUMPTIONS = []


def judge(sym, v, el, good, message):
    """v(el) agrees with *good* and records *message* once."""
    before = (el.u, el.value)
    for i in range(sym.pick_int('passes', 1, 2)):
        got = v(el, None)
        sym.check(bool(got) == bool(good), 'verdict')
        sym.check(got is True or got is False, 'kind of verdict')
        if good:
            sym.check(el.errors == [], 'error on a valid element')
            sym.cover('accept')
        else:
            sym.equal(list(el.errors), [message], 'recorded error')
            sym.cover('reject')
    sym.check(el.warnings == [], 'warning')
    sym.equal((el.u, el.value), before, 'element changed')
    sym.observe([bool(good), list(el.errors)])


def name_of(sym):
    return sym.choice('name', [u'n', u'\xe9%']), sym.choice(
        'label', [None, u'', u'A label'])


def make(sym, S):
    name, label = name_of(sym)
    el = S.named(name)()
    if label is not None:
        el.label = label
    return el, name if label is None else label


def lengths(sym, which):
    el, label = make(sym, String.using(strip=False))
    t = sym.text('t', 4)
    el.set(t)
    lo = sym.int('lo', -1, 5)
    hi = sym.int('hi', -1, 5)
    n = len(t)
    if which == 'ShorterThan':
        v = [ShorterThan, NoLongerThan][sym.pick_int('alias', 0, 1)]
        v = v(hi) if sym.flag('pos') else v(maxlength=hi)
        good = n <= hi
        msg = u'%s may not exceed %s characters.' % (label, hi)
    elif which == 'LongerThan':
        v = LongerThan(lo) if sym.flag('pos') else LongerThan(minlength=lo)
        good = n >= lo
        msg = u'%s must be at least %s characters.' % (label, lo)
    else:
        v = LengthBetween(lo, hi) if sym.flag('pos') else \
            LengthBetween(maxlength=hi, minlength=lo)
        good = lo <= n and n <= hi
        msg = (u'%s must be between %s and %s characters long.'
               % (label, lo, hi))
    judge(sym, v, el, good, msg)


def presence(sym, which):
    kind = sym.choice('kind', ['string', 'integer', 'unset', 'truth'])
    S = {'string': String, 'integer': Integer, 'unset': Boolean,
         'truth': Boolean}[kind]
    if kind == 'truth' and sym.flag('odd'):
        S = S.using(true=u'', false=u'no')
    el, label = make(sym, S)
    if kind == 'truth':
        el.set(sym.choice('b', [True, False, None]))
    elif kind != 'unset':
        el.set(sym.text('t', 3))
    if which == 'Present':
        v, good, msg = Present(), el.u != u'', u'%s may not be blank.'
    elif which == 'Converted':
        v, good, msg = (Converted(), el.value is not None,
                        u'%s is not correct.')
    elif which == 'IsTrue':
        v, good, msg = IsTrue(), el.value, u'%s must be True.'
    else:
        v, good, msg = IsFalse(), not el.value, u'%s must be False.'
    judge(sym, v, el, good, msg % label)


def numbers(sym, which):
    el, label = make(sym, Integer)
    el.set(sym.int('n', -30, 30))
    n = el.value
    a = sym.int('a', -30, 30)
    b = sym.int('b', -30, 30)
    if which == 'lt':
        v, good, msg = ValueLessThan(a), n < a, u'must be less than %s.' % a
    elif which == 'le':
        v, good, msg = (ValueAtMost(maximum=a), n <= a,
                        u'must be less than or equal to %s.' % a)
    elif which == 'gt':
        v, good, msg = (ValueGreaterThan(boundary=a), n > a,
                        u'must be greater than %s.' % a)
    elif which == 'ge':
        v, good, msg = (ValueAtLeast(a), n >= a,
                        u'must be greater than or equal to %s.' % a)
    elif which == 'in':
        v, good, msg = (ValueBetween(a, b), a <= n and n <= b,
                        u'must be in the range %s to %s.' % (a, b))
    else:
        v, good, msg = (ValueBetween(minimum=a, maximum=b, inclusive=False),
                        a < n and n < b,
                        u'must be greater than %s and less than %s.'
                        % (a, b))
    judge(sym, v, el, good, label + u' ' + msg)


def nothing(sym):
    """No value is not greater than anything."""
    el, label = make(sym, Integer)
    bad = sym.flag('bad')
    if bad:
        el.set(u'x')
    a = sym.int('a', -3, 3)
    which = sym.choice('which', ['gt', 'ge', 'in', 'ex'])
    if which == 'gt':
        v, msg = ValueGreaterThan(a), u'must be greater than %s.' % a
    elif which == 'ge':
        v, msg = (ValueAtLeast(a),
                  u'must be greater than or equal to %s.' % a)
    elif which == 'in':
        v, msg = (ValueBetween(a, a),
                  u'must be in the range %s to %s.' % (a, a))
    else:
        v, msg = (ValueBetween(a, a, inclusive=False),
                  u'must be greater than %s and less than %s.' % (a, a))
    judge(sym, v, el, False, label + u' ' + msg)


def dates(sym, which):
    el, label = make(sym, Date)
    mk = lambda n: datetime.date(sym.pick_int(n + 'y', 2000, 2001),
                                 sym.pick_int(n + 'm', 1, 2),
                                 sym.pick_int(n + 'd', 9, 10))
    n, a, b = mk('n'), mk('a'), datetime.date(2001, 1, 9)
    el.set(n)
    num = lambda d: d.year * 400 + d.month * 32 + d.day
    if which == 'lt':
        v, good, msg = (ValueLessThan(a), num(n) < num(a),
                        u'must be less than %s.' % a)
    elif which == 'ge':
        v, good, msg = (ValueAtLeast(a), num(n) >= num(a),
                        u'must be greater than or equal to %s.' % a)
    else:
        v, good, msg = (ValueBetween(a, b),
                        num(a) <= num(n) and num(n) <= num(b),
                        u'must be in the range %s to %s.' % (a, b))
    judge(sym, v, el, good, label + u' ' + msg)


def member(sym, kind):
    if kind == 'text':
        el, label = make(sym, String)
        el.set(sym.text('t', 2, alphabet=u'ab '))
        opts = [sym.text('o%d' % i, 2, alphabet=u'ab')
                for i in range(sym.pick_int('n', 0, 3))]
    else:
        el, label = make(sym, Integer)
        el.set(sym.choice('t', [None, u'x', 0, 3, u'4']))
        opts = [sym.choice('o%d' % i, [None, 0, 3, 4, u'4'])
                for i in range(sym.pick_int('n', 0, 2))]
    wrap = sym.choice('wrap', [list, tuple])
    v = ValueIn(wrap(opts)) if sym.flag('pos') else \
        ValueIn(valid_options=wrap(opts))
    good = False
    for o in opts:
        if o is not None and el.value is not None and o == el.value or (
                o is None and el.value is None):
            good = True
    judge(sym, v, el, good, u'%s is not a valid value for %s.' % (
        el.value, label))


def customized(sym):
    """Constructor arguments override; unknown ones are refused."""
    text = sym.choice('text', [u'no', u'%(label)s/%(u)s', u'100%%',
                               u'%(maxlength)s-%(name)s', None])
    el = String.named(u'nm')(sym.text('t', 2, alphabet=u'a%'))
    sub = sym.flag('subclass')
    if sub:
        class Mine(ShorterThan):
            maxlength = 1
            exceeded = text
        v = Mine()
    else:
        v = ShorterThan(1, exceeded=text)
    sym.check(ShorterThan.maxlength == 0, 'class attribute changed')
    sym.check(ShorterThan().maxlength == 0, 'class attribute changed')
    got = v(el, None)
    good = len(el.u) <= 1
    sym.check(bool(got) == good, 'verdict')
    want = {u'no': u'no', u'100%%': u'100%',
            u'%(label)s/%(u)s': u'nm/' + el.u,
            u'%(maxlength)s-%(name)s': u'1-nm', None: None}[text]
    sym.equal(list(el.errors), [] if good or want is None else [want],
              'errors')
    try:
        ShorterThan(3, **{sym.choice('kw', ['bogus', 'minlength']): 1})
        sym.fail('an unknown attribute was accepted')
    except TypeError:
        sym.cover('refused')
    sym.observe([good, list(el.errors)])


def reworded(sym, which):
    """Messages and limits come from the constructor or a subclass."""
    el, label = make(sym, String.using(strip=False)
                     if which in ('longer', 'length', 'present', 'member')
                     else Boolean if which in ('true', 'false') else Integer)
    sub = sym.flag('subclass')
    text = sym.choice('text', [u'no', u'%(label)s/%(name)s', u'100%%', None])
    want = {u'no': u'no', u'100%%': u'100%', None: None,
            u'%(label)s/%(name)s': label + u'/' + el.name}[text]
    if which in ('longer', 'length', 'present', 'member'):
        t = sym.text('t', 4, alphabet=u'ab')
    elif which in ('true', 'false'):
        t = sym.choice('t', [True, False])
    elif which == 'converted':
        t = sym.choice('t', [u'1', u'x', None])
    else:
        t = sym.int('t', -5, 5)
    el.set(t)
    a = sym.int('a', 0, 3)
    if which == 'longer':
        T, key, kw, good = LongerThan, 'short', {'minlength': a}, len(t) >= a
    elif which == 'length':
        T, key, kw, good = (LengthBetween, 'breached',
                            {'minlength': a, 'maxlength': 3},
                            a <= len(t) and len(t) <= 3)
    elif which == 'present':
        T, key, kw, good = Present, 'missing', {}, len(t) > 0
    elif which == 'member':
        T, key, kw, good = (ValueIn, 'fail', {'valid_options': [u'a', u'b']},
                            t == u'a' or t == u'b')
    elif which == 'true':
        T, key, kw, good = IsTrue, 'false', {}, t
    elif which == 'false':
        T, key, kw, good = IsFalse, 'true', {}, not t
    elif which == 'converted':
        T, key, kw, good = Converted, 'incorrect', {}, t == u'1'
    elif which == 'lt':
        T, key, kw, good = ValueLessThan, 'failure', {'boundary': a}, t < a
    elif which == 'gt':
        T, key, kw, good = ValueGreaterThan, 'failure', {'boundary': a}, t > a
    elif which == 'le':
        T, key, kw, good = ValueAtMost, 'failure', {'maximum': a}, t <= a
    elif which == 'ge':
        T, key, kw, good = ValueAtLeast, 'failure', {'minimum': a}, t >= a
    elif which == 'in':
        T, key, kw, good = (ValueBetween, 'failure_inclusive',
                            {'minimum': a, 'maximum': 3},
                            a <= t and t <= 3)
    else:
        T, key, kw, good = (ValueBetween, 'failure_exclusive',
                            {'minimum': a, 'maximum': 3, 'inclusive': False},
                            a < t and t < 3)
    was = getattr(T, key)
    limits = which in ('longer', 'length', 'member')
    if sub:
        attrs = {key: text}
        for k in sorted(kw):
            if limits and sym.flag('class ' + k):
                attrs[k] = kw.pop(k)
        v = type('Mine', (T,), attrs)(**kw)
    else:
        kw[key] = text
        v = T(**kw)
    sym.check(getattr(T, key) is was, 'class attribute changed')
    got = v(el, None)
    sym.check(bool(got) == bool(good), 'verdict')
    sym.equal(list(el.errors), [] if good or want is None else [want],
              'errors')
    kw['bogus'] = 1
    try:
        T(**kw)
        sym.fail('an unknown attribute was accepted')
    except TypeError:
        pass
    sym.cover('accept' if good else 'reject')
    sym.observe([bool(good), list(el.errors)])


CASES = [('reworded.' + w, reworded, (w,), ['accept', 'reject'], 'q')
         for w in ('longer', 'length', 'present', 'member', 'true', 'false',
                   'converted', 'lt', 'gt', 'le', 'ge', 'in', 'ex')] + [
    ('lengths.' + w, lengths, (w,), ['accept', 'reject'], 'q')
    for w in ('ShorterThan', 'LongerThan', 'LengthBetween')] + [
    ('presence.' + w, presence, (w,), ['accept', 'reject'], 'q')
    for w in ('Present', 'Converted', 'IsTrue', 'IsFalse')] + [
    ('numbers.' + w, numbers, (w,), ['accept', 'reject'], 'q')
    for w in ('lt', 'le', 'gt', 'ge', 'in', 'ex')] + [
    ('dates.' + w, dates, (w,), ['accept', 'reject'], 'q')
    for w in ('lt', 'ge', 'in')] + [
    ('nothing', nothing, (), ['reject'], 'q'),
    ('member.text', member, ('text',), ['accept', 'reject'], 'q'),
    ('member.int', member, ('int',), ['accept', 'reject'], 'q'),
    ('customized', customized, (), ['refused'], 'q'),
]
