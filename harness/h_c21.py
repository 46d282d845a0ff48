# C21: Luhn checksum, card numbers and North American phone numbers.
from flatland import Dict, Integer, String
from flatland.ext.creditcard import (AMEX, DISCOVER, MASTERCARD, VISA,
                                     CreditCardNumber)
from flatland.util import luhn10
from flatland.validation import Luhn10
from flatland.validation.number import NANPnpa_nxx, NANPnxx
from flatland.validation.string import NANPphone
from hlib import Obj

BOUNDS = ('Luhn over all numbers of up to 3 (thorough 5) digits and down to -99999, plus '
          'single digit errors and adjacent transpositions in 16 digit '
          'numbers (quick: 6 digits); card texts of 13..16 symbolic digits with separators '
          'anywhere and texts of up to 3 arbitrary characters padded to '
          'length; phone texts of up to 14 characters of digits and '
          'punctuation; every line exchange number')
OUTSIDE = 'non-ASCII digits; lookups that raise'
ASSUMPTIONS = []


def plain_luhn(digits):
    """Textbook: from the right, double every second digit."""
    total = 0
    for i in range(len(digits)):
        d = digits[len(digits) - 1 - i]
        if i % 2:
            d = d * 2
            if d > 9:
                d = d - 9
        total = total + d
    return total % 10 == 0


def number(ds):
    n = 0
    for d in ds:
        n = n * 10 + d
    return n


def checksum(sym, count):
    ds = [sym.int('d%d' % i, 0, 9) for i in range(count)]
    n = number(ds)
    want = plain_luhn(ds)
    sym.check(luhn10(n) == want, 'checksum')
    el = Integer.named(u'num')(n)
    got = Luhn10()(el, None)
    sym.check(bool(got) == want, 'validator')
    sym.equal(list(el.errors), [] if want else [
        u'The num was not entered correctly.'], 'errors')
    sym.cover('pass' if want else 'fail')
    sym.observe([n, want])


def negative(sym):
    n = sym.int('n', -99999, -1)
    sym.check(luhn10(n) is False, 'negative number')
    el = Integer.named(u'num')(sym.choice('v', [None, u'x', u'-5', -18]))
    sym.check(not Luhn10()(el, None), 'validator')
    sym.check(el.errors == [u'The num was not entered correctly.'], 'errors')
    sym.cover('fail')


FIXED = [4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]


def error_detected(sym, kind, size):
    """Any single wrong digit is caught in a valid number."""
    ds = list(FIXED) if size == 16 else [7, 9, 9, 2, 7, 0]
    last = len(ds) - 1
    at = sym.pick_int('at', 0, last)
    if kind == 'digit':
        d = sym.int('d', 0, 9)
        sym.assume(d != ds[at])
        ds[at] = d
        sym.check(luhn10(number(ds)) is False, 'wrong digit not caught')
    else:
        d = sym.int('d', 0, 9)
        e = sym.int('e', 0, 9)
        i = at if at < last else last - 1
        sym.assume(d != e)
        sym.assume(not (d == 0 and e == 9) and not (d == 9 and e == 0))
        ds[i], ds[i + 1] = d, e
        sym.assume(luhn10(number(ds)))
        ds[i], ds[i + 1] = e, d
        sym.check(luhn10(number(ds)) is False, 'swap not caught')
    sym.cover('caught')


HEADS = [u'4', u'51', u'55', u'56', u'50', u'34', u'37', u'35', u'6011',
         u'6012', u'9', u'0']


def kind_of(t):
    n = len(t)
    if t[:1] == u'4' and n in (13, 16):
        return VISA
    if t[:1] == u'5' and t[1] in u'12345' and n == 16:
        return MASTERCARD
    if t[:2] in (u'34', u'37') and n == 15:
        return AMEX
    if t[:4] == u'6011' and n == 16:
        return DISCOVER
    return None


def card(sym, full):
    head = sym.choice('head', HEADS)
    n = sym.choice('length', [12, 13, 14, 15, 16, 17])
    size = 2 if full else 1
    tail = sym.text('tail', size, size, u'0123456789')
    body = (head + u'1' * 20)[:n - size]
    digits = body + tail
    if full:
        sep = sym.choice('sep', [u'', u'-', u' ', u' - ', u'\t'])
        cut = sym.choice('cut', [0, 4, 9, 12])
    else:
        sep, cut = sym.choice('sep', [(u'', 0), (u'-', 4), (u' ', 12)])
    text = digits[:cut] + sep + digits[cut:]
    accepted = sym.choice('accepted', [
        None, (VISA,), (MASTERCARD, DISCOVER)] + ([
            (MASTERCARD, DISCOVER, AMEX, VISA)] if full else []))
    S = CreditCardNumber.named(u'num')
    if accepted is not None:
        S = S.using(accepted=accepted)
    el = S()
    ok = el.set(text)
    sym.check(ok == (len(text) >= 13), 'set()')
    if not ok:
        sym.check(el.value is None and el.u == text, 'a short number')
        sym.check(el.validate() is False, 'a short number is valid')
        sym.cover('short')
        return
    sym.check(el.value == int(digits), 'value of a card number')
    shown = digits.lstrip(u'0')
    want = shown
    if len(shown) == 16:
        want = u'-'.join([shown[:4], shown[4:8], shown[8:12], shown[12:]])
    elif len(shown) == 15:
        want = u'-'.join([shown[:4], shown[4:10], shown[10:]])
    elif len(shown) == 13:
        want = u'-'.join([shown[:4], shown[4:7], shown[7:10], shown[10:]])
    sym.equal(el.u, want, 'text of a card number')
    got = el.validate()
    luhn = plain_luhn([int(c) for c in shown])
    taken = accepted or (VISA, MASTERCARD, AMEX)
    kind = kind_of(shown)
    good = luhn and any(kind is t for t in taken)
    sym.check(bool(got) == bool(good), 'verdict on a card number')
    if good:
        sym.check(el.errors == [], 'errors')
        sym.cover('accept')
    elif not luhn:
        sym.check(el.errors == [u'The num was not entered correctly.'],
                  'errors')
        sym.cover('luhn')
    else:
        names = [t[0] for t in taken]
        listed = names[0]
        if len(names) == 2:
            listed = u' and '.join(names)
        elif len(names) > 2:
            listed = u', '.join(names[:-1]) + u', and ' + names[-1]
        sym.equal(list(el.errors), [u'We accept ' + listed], 'errors')
        sym.cover('type')
    again = S()
    again.set(el.u)
    if len(el.u) >= 13:
        sym.equal(again.value, el.value, 'text does not read back')
    sym.observe([el.u, bool(got), list(el.errors)])


def grouped(shown):
    cuts = {16: [4, 8, 12], 15: [4, 10], 13: [4, 7, 10]}.get(len(shown), [])
    out, last = u'', 0
    for c in cuts:
        out += shown[last:c] + u'-'
        last = c
    return out + shown[last:]


def natives(sym):
    """Numbers, nothing, and what is no card number at all."""
    el = CreditCardNumber.named(u'num')()
    if sym.flag('used'):
        el.set(u'4111-1111-1111-1111')
    kind = sym.choice('kind', ['int', 'none', 'other'])
    if kind == 'int':
        n = sym.pick_int('length', 1, 17)
        head = sym.choice('head', [u'4', u'51', u'37', u'6011', u'1'])
        shown = (head + u'1' * 20)[:n]
        if n > len(head):
            shown = shown[:-1] + unicode(sym.pick_int('tail', 0, 9))
        v = int(shown)
        sym.check(el.set(v) is True, 'set() of a number')
        sym.check(el.value == v, 'value of a number')
        sym.equal(el.u, grouped(shown), 'text of a number')
        good = plain_luhn([int(c) for c in shown]) and any(
            kind_of(shown) is t for t in (VISA, MASTERCARD, AMEX))
        sym.check(bool(el.validate()) == bool(good), 'verdict on a number')
        sym.cover('good' if good else 'bad')
    elif kind == 'none':
        sym.check(el.set(None) is True, 'set() of None')
        sym.check(el.value is None and el.u == u'', 'an empty number')
        sym.check(el.validate() is False, 'an empty number is valid')
        sym.equal(list(el.errors), [u'num may not be blank.'], 'errors')
        sym.cover('none')
    else:
        v = sym.choice('value', [[], {}, 4.5, (1,), b'x', u''])
        sym.check(el.set(v) is False, 'junk accepted')
        sym.check(el.value is None, 'junk has a value')
        sym.check(el.validate() is False, 'junk is valid')
        sym.cover('other')
    sym.observe([el.u, list(el.errors)])


def junk(sym):
    pad = sym.choice('pad', [u'-' * 13, u'4' * 12, u' ' * 14, u''])
    t = sym.text('t', 3)
    if sym.flag('front'):
        t = t + pad
    else:
        t = pad + t
    el = CreditCardNumber.named(u'num')()
    ok = el.set(t)
    chars = all(c in u'0123456789- \t\n\r\f\v' for c in t)
    digits = u''.join(c for c in t if c in u'0123456789')
    good = len(t) >= 13 and chars and digits != u''
    if not good:
        sym.check(not ok, 'junk accepted')
        sym.check(el.value is None, 'junk has a value')
        sym.check(el.validate() is False, 'junk is valid')
        sym.cover('junk')
    else:
        sym.check(ok and el.value == int(digits), 'digits refused')
        sym.cover('digits')
    sym.observe([ok, el.u])


def phone(sym, lens):
    digits = sym.text('digits', lens[1], lens[0], u'0123456789')
    sep = sym.choice('sep', [u'', u'-', u'. ', u') x'])
    cut = sym.choice('cut', [0, 3, 6])
    text = u'(' + digits[:cut] + sep + digits[cut:]
    ext = sym.choice('extensions', [None, False, True, 'strip'])
    el = String.named(u'ph')(text)
    v = NANPphone() if ext is None else NANPphone(extensions=ext)
    got = v(el, None)
    n = len(digits)
    if n < 10:
        good, err = False, u'The ph is not valid.'
        sym.cover('short')
    elif n > 10 and not ext:
        good, err = False, (u'ph must be a ten-digit phone number '
                            u'without extension.')
        sym.cover('noext')
    else:
        good, err = True, None
        want = u'(%s) %s-%s' % (digits[:3], digits[3:6], digits[6:10])
        if n > 10 and ext is True:
            rest = digits[10:].lstrip(u'0')
            want += u' x' + (rest or u'0')
        sym.equal(el.u, want, 'text of a phone number')
        sym.equal(el.value, want, 'value of a phone number')
        sym.cover('accept')
    sym.check(bool(got) == good, 'verdict')
    sym.equal(list(el.errors), [] if good else [err], 'errors')
    if not good:
        sym.check(el.u == text, 'a refused number changed')
    else:
        el2 = String.named(u'ph')(el.u)
        sym.check(bool(v(el2, None)), 'canonical number refused')
        sym.equal(el2.u, el.u, 'canonical number changed')
    sym.observe([bool(got), el.u])


def long_phone(sym):
    """Extensions of any length."""
    n = sym.pick_int('n', 1, 12)
    d = sym.text('d', 2, 2, u'0123456789')
    rest = (d[1] + u'90123456789')[:n]
    el = String.named(u'ph')(u'20655512' + d[0] + u'4 ext ' + rest)
    ext = sym.choice('extensions', [False, True, 'strip'])
    got = NANPphone(extensions=ext)(el, None)
    sym.check(got is (ext is not False), 'verdict')
    if ext is False:
        sym.cover('noext')
        return
    want = u'(206) 555-12' + d[0] + u'4'
    if ext is True:
        want += u' x' + (rest.lstrip(u'0') or u'0')
    sym.equal((el.u, el.value), (want, want), 'a phone number')
    sym.cover('accept')
    sym.observe(el.u)


def phone_text(sym):
    t = sym.text('t', 3)
    el = String.named(u'ph').using(strip=False)(u'206-555-12' + t)
    got = NANPphone()(el, None)
    digits = u''.join(c for c in t if c in u'0123456789')
    sym.assume(not any(c.isdigit() and c not in u'0123456789' for c in t))
    good = len(digits) == 2
    sym.check(bool(got) == good, 'verdict')
    if good:
        sym.equal(el.u, u'(206) 555-12' + digits, 'text')
        sym.cover('accept')
    else:
        sym.check(len(el.errors) == 1, 'errors')
        sym.cover('short')
    sym.observe(el.u)


def exchange(sym):
    n = sym.int('n', 0, 999)
    el = Integer.named(u'nxx')(n)
    got = NANPnxx()(el, None)
    service = n >= 311 and n <= 911 and n % 100 == 11
    good = n >= 200 and not service and not (
        n == 555 or n == 990 or n == 959 or n == 958 or n == 950
        or n == 700 or n == 976)
    sym.check(bool(got) == bool(good), 'exchange')
    sym.check(not NANPnxx()(Integer(), None), 'no number')
    sym.cover('accept' if good else 'short')


def area(sym):
    S = Dict.named(u'd').of(Integer.named(u'npa'), Integer.named(u'nxx'),
                            String.named(u'msg'))
    el = S({u'npa': sym.choice('npa', [None, u'x', 206, 0]),
            u'nxx': sym.choice('nxx', [None, 555, 0])})
    asks = (el[u'npa'].value, el[u'nxx'].value)
    verdict = sym.flag('verdict')
    asked = []

    def check(npa, nxx):
        asked.append((npa, nxx))
        return verdict
    kw, method = {}, 'valid_npanxx'
    key = 'aq'
    if sym.flag('custom'):
        kw = {'lookup': 'db', 'method': 'ok', 'invalid': u'bad %(label)s',
              'incomplete': u'fill in %(label)s'}
        method, key = 'ok', 'db'
    if sym.flag('errors_to'):
        kw['errors_to'] = u'msg'
    class Tool(Obj):
        def __len__(self):
            return size
    size = sym.pick_int('size', 0, 1)
    tool = Tool(**{method: check})
    state = {key: tool} if sym.flag('item') else Obj(**{key: tool})
    got = NANPnpa_nxx(u'npa', u'nxx', **kw)(el, state)
    whole = el[u'npa'].value is not None and el[u'nxx'].value is not None
    sym.check(asked == ([asks] if whole else []), 'lookup')
    sym.check(bool(got) == (whole and verdict), 'verdict')
    at = el[u'msg'] if 'errors_to' in kw else el
    name = at.name
    want = []
    if not whole and key == 'db':
        want = [u'fill in ' + name]
    elif whole and not verdict:
        want = [u'bad ' + name if key == 'db' else
                u'The %s can not be verified.' % name]
    sym.equal(list(at.errors), want, 'errors')
    sym.cover('accept' if whole and verdict else 'short')


CASES = [('luhn.%d' % n, checksum, (n,), ['pass', 'fail'], 'q')
         for n in (1, 2, 3)] + [
    ('luhn.4', checksum, (4,), ['pass', 'fail'], 't'),
    ('luhn.5', checksum, (5,), ['pass', 'fail'], 't'),
    ('negative', negative, (), ['fail'], 'q'),
    ('error.digit', error_detected, ('digit', 6), ['caught'], 'q'),
    ('error.swap', error_detected, ('swap', 6), ['caught'], 'q'),
    ('error.digit.16', error_detected, ('digit', 16), ['caught'], 't'),
    ('error.swap.16', error_detected, ('swap', 16), ['caught'], 't'),
    ('card.full', card, (True,), ['short', 'accept', 'luhn', 'type'], 't'),
    ('card', card, (False,), ['short', 'accept', 'luhn', 'type'], 'q'),
    ('natives', natives, (), ['good', 'bad', 'none', 'other'], 'q'),
    ('junk', junk, (), ['junk', 'digits'], 'q'),
    ('phone', phone, ((8, 12),), ['short', 'noext', 'accept'], 'q'),
    ('phone.long', phone, ((7, 16),), ['short', 'noext', 'accept'], 't'),
    ('phone.longer', long_phone, (), ['noext', 'accept'], 'q'),
    ('phone.text', phone_text, (), ['short', 'accept'], 'q'),
    ('exchange', exchange, (), ['short', 'accept'], 'q'),
    ('area', area, (), ['short', 'accept'], 'q'),
]
