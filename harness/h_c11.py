# C11: mapping assignment enforces its policy, replaces the whole state and
# reports conversion success.
from collections import namedtuple

from flatland import Dict, Form, Integer, List, SparseDict, String
from flatland.schema.containers import Mapping
from hlib import wellformed

BOUNDS = ('up to 3 pairs with keys of up to 2 arbitrary BMP characters and '
          'texts of up to 2 characters, given as dict, pair list, iterator, '
          'keys()-object or named tuple; policies strict, subset, duck set '
          'on the schema or per call; Dict, Form, SparseDict, '
          'Mapping; one nested mapping')
OUTSIDE = 'arguments that are not dict-like'

FIELDS = (u'x', u'xy', u'i')


class Keyed(object):
    """Dict-like through keys() and indexing only."""

    def __init__(self, pairs):
        self._p = pairs

    def keys(self):
        return [k for k, v in self._p]

    def __getitem__(self, k):
        for a, v in self._p:
            if a == k:
                return v
        raise KeyError(k)


def known(k):
    for f in FIELDS:
        if k == f:
            return f
    return None


def convert(f, v):
    """-> (ok, text)"""
    t = v.strip()
    if f != u'i':
        return True, t
    try:
        return True, u'%i' % int(t)
    except ValueError:
        return False, v


def policy(sym, kind, pol, percall, shape):
    base = {'dict': Dict, 'form': Form, 'sparse': SparseDict,
            'required': SparseDict.using(minimum_fields='required')}[kind]
    S = base.named(u'f').of(String.named(u'x'), String.named(u'xy'),
                            Integer.named(u'i'))
    if pol != 'subset' and not percall:
        S = S.using(policy=pol)
    el = S()
    if sym.flag('filled'):
        el.set({u'x': u'old', u'xy': u'old', u'i': 1}, policy='subset')
    n = sym.pick_int('n', 0, 3)
    pairs = []
    for i in range(n):
        if i < 2:
            k = sym.text('k%d' % i, 2 if i == 0 else 1)
        else:
            k = u'i'
        if i == 0:
            v = sym.text('v%d' % i, 2, alphabet=u'1a ')
        else:
            v = sym.choice('v%d' % i, [u' 1', u'a'])
        pairs.append((k, v))
    if shape != 'pairs' and shape != 'iter':
        for i in range(n):
            for j in range(i):
                sym.assume(pairs[i][0] != pairs[j][0])
    src = {'pairs': pairs, 'iter': iter(pairs), 'keyed': Keyed(pairs)}.get(
        shape)
    if shape == 'dict':
        src = dict(pairs)
    got = None
    try:
        r = el.set(src, policy=pol) if percall else el.set(src)
    except KeyError:
        r, got = None, 'KeyError'
    except TypeError:
        r, got = None, 'TypeError'
    alien = any(known(k) is None for k, v in pairs)
    seen = [f for f in FIELDS if any(k == f for k, v in pairs)]
    want = None
    if alien and pol != 'duck':
        want = 'KeyError'
    elif pol == 'strict' and len(seen) != len(FIELDS):
        want = 'TypeError'
    sym.equal(got, want, 'refusal')
    sym.check(el.raw is src, 'raw is not the assigned object')
    wellformed(sym, el, S)
    if want is None:
        ok = True
        final = {}
        for k, v in pairs:
            f = known(k)
            if f is not None:
                o, t = convert(f, v)
                ok = ok and o
                final[f] = t
        sym.check(r is ok, 'reported success')
        for f in FIELDS:
            if dict.__contains__(el, f):
                sym.equal(el[f].u, final.get(f, u''), 'text of a field')
            else:
                sym.check(f not in final, 'field missing')
            if kind == 'sparse':
                sym.equal(dict.__contains__(el, f), f in final,
                          'presence of a field')
        sym.cover('ok' if ok else 'not ok')
    else:
        sym.cover(want)
    sym.observe([got, r] + (sorted(el.keys()) if want is None else []))


Named = namedtuple('Named', 'x i')
Alien = namedtuple('Alien', 'x i z')


def named(sym, pol):
    """Named tuples are dict-like."""
    S = Dict.of(String.named(u'x'), String.named(u'xy'),
                Integer.named(u'i')).using(policy=pol)
    el = S({u'x': u'old', u'xy': u'old', u'i': 1}) if sym.flag('filled') \
        else S()
    x, i = sym.text('x', 2), sym.text('i', 2)
    alien = sym.flag('alien')
    src = Alien(x, i, u'z') if alien else Named(x, i)
    got = None
    try:
        r = el.set(src)
    except KeyError:
        r, got = None, 'KeyError'
    except TypeError:
        r, got = None, 'TypeError'
    want = None
    if alien and pol != 'duck':
        want = 'KeyError'
    elif pol == 'strict':
        want = 'TypeError'
    sym.equal(got, want, 'refusal')
    if want is None:
        oi, ti = convert(u'i', i)
        sym.check(r is oi, 'reported success')
        sym.equal([el[k].u for k in FIELDS], [x.strip(), u'', ti], 'texts')
        sym.cover('ok' if r else 'not ok')
    wellformed(sym, el, S)


class Plain(Mapping):
    field_schema = (String.named(u'x'), String.named(u'xy'),
                    Integer.named(u'i'))


def base(sym):
    """A plain Mapping takes exactly all its keys."""
    el = Plain()
    if sym.flag('filled'):
        el.set({u'x': u'old', u'xy': u'old', u'i': 1})
    keys = [k for k in FIELDS if sym.flag('has' + k)]
    src = dict((k, sym.text('v' + k, 1, alphabet=u'1a ')) for k in keys)
    if sym.flag('extra'):
        k = sym.text('k', 2)
        for f in FIELDS:
            sym.assume(k != f)
        src[k] = u'z'
        want = 'KeyError'
    else:
        want = None if len(keys) == 3 else 'TypeError'
    got = None
    try:
        r = el.set(src)
    except KeyError:
        got = 'KeyError'
    except TypeError:
        got = 'TypeError'
    sym.equal(got, want, 'refusal')
    sym.check(el.raw is src, 'raw')
    wellformed(sym, el, Plain)
    if want is None:
        for k in FIELDS:
            sym.equal(el[k].u, convert(k, src[k])[1], 'text')
        sym.check(r is convert(u'i', src[u'i'])[0], 'reported success')
        sym.cover('ok' if r else 'not ok')
    else:
        sym.cover(want)


def nested(sym):
    """Failure of a nested field fails the whole; blank fields are reset."""
    S = Dict.of(Dict.named(u'd').of(Integer.named(u'a'), Integer.named(u'b')),
                List.named(u'l').of(Integer), Integer.named(u'i'))
    el = S({u'd': {u'a': 1, u'b': 2}, u'l': [1, 2], u'i': 3})
    v = [sym.text('v%d' % i, 2, alphabet=u'1a ') for i in range(3)]
    arg = {}
    bits = [sym.flag('has%d' % i) for i in range(3)]
    if bits[0]:
        arg[u'd'] = {u'b': v[0]}
    if bits[1]:
        arg[u'l'] = [v[1], u'5']
    if bits[2]:
        arg[u'i'] = v[2]
    r = el.set(arg)
    ok = [convert(u'i', t) for t in v]
    sym.check(r is all(ok[i][0] for i in range(3) if bits[i]),
              'reported success')
    sym.equal(el[u'd'][u'a'].u, u'', 'unmentioned nested field')
    sym.equal(el[u'd'][u'b'].u, ok[0][1] if bits[0] else u'', 'nested field')
    sym.equal([m.u for m in el[u'l']], [ok[1][1], u'5'] if bits[1] else [],
              'list field')
    sym.equal(el[u'i'].u, ok[2][1] if bits[2] else u'', 'scalar field')
    wellformed(sym, el, S)
    sym.cover('ok' if r else 'not ok')
    sym.observe([r, el[u'd'][u'b'].u])


def constructor(sym):
    """Constructing with a value is blank construction plus assignment."""
    S = Dict.of(Integer.named(u'a'), String.named(u'b'))
    v = {u'a': sym.text('a', 2), u'b': sym.text('b', 1)}
    one, two = S(v), S()
    two.set(v)
    sym.equal(one.value, two.value, 'value')
    sym.equal(one[u'a'].u, two[u'a'].u, 'text')
    sym.check(one.raw is v, 'raw')
    wellformed(sym, one, S)
    sym.cover('ok')
    sym.observe([one[u'a'].u])


def refused_policy(sym):
    el = Dict.of(Integer.named(u'a'))()
    p = sym.text('p', 6)
    try:
        el.set({u'a': 1}, policy=p)
        bad = False
    except AssertionError:
        bad = True
    sym.equal(bad, p not in (u'strict', u'subset', u'duck'), 'policy name')
    sym.cover('bad' if bad else 'good')


NAMED = [('named.' + p, named, (p,), ['ok', 'not ok'], 'q')
         for p in ('subset', 'duck')] + [
    ('named.strict', named, ('strict',), [], 'q'),
    ('base', base, (), ['ok', 'not ok', 'KeyError', 'TypeError'], 'q')]
CASES = NAMED + [('%s.%s.%s%s' % (k, p, s, '.call' if c else ''), policy,
          (k, p, c, s), ['ok', 'not ok'], 'q' if s in ('dict', 'iter')
          or k == 'dict' else 't')
         for k in ('dict', 'form', 'sparse', 'required')
         for p in ('strict', 'subset', 'duck') for c in (False, True)
         for s in ('dict', 'iter', 'pairs', 'keyed')
         if not (c and k in ('form', 'required'))] + [
    ('nested', nested, (), ['ok', 'not ok'], 'q'),
    ('constructor', constructor, (), ['ok'], 'q'),
    ('refused', refused_policy, (), ['bad', 'good'], 'q'),
]
