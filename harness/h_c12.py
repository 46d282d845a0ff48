# C12: moving values between elements and objects selects and renames exactly
# as include, omit and rename say.
from flatland import Dict, Form, Integer, SparseDict, String
from flatland.util import keyslice_pairs
from hlib import wellformed

BOUNDS = ('three fields and four candidate object attributes (each present '
          'or not) with integer values, None or text, include/omit lists of up to 2 names '
          'and rename maps of up to 2 entries, all over the same name pool '
          'with one name unknown to the schema; keyslice_pairs over 3 keys '
          'of up to 2 characters from a 4-letter alphabet, exhaustive '
          'renames; Dict, Form, SparseDict; objects of 7 kinds')
OUTSIDE = ('two attributes feeding the same field (the winner depends on '
           'dictionary order); attribute access with side effects')

POOL = ['a', 'b', 'c', 'z']


class Bag(object):
    pass


def selection(sym, lo, hi, pool=None, modes=None):
    """-> (include, omit, rename) keyword dict"""
    pool = pool or POOL
    kw = {}
    mode = sym.choice('mode', modes or ['none', 'include', 'omit', 'both'])
    names = [p for p in pool if sym.flag('pick.' + p)] \
        if mode != 'none' else []
    if len(names) > 2:
        sym.assume(False)
    if mode == 'include':
        kw['include'] = names
    elif mode == 'omit':
        kw['omit'] = names
    elif mode == 'both':
        kw['include'], kw['omit'] = ['a'], names
    n = sym.pick_int('nren', lo, hi)
    ren = []
    for i in range(n):
        ren.append((sym.choice('ren%d' % i, pool),
                    sym.choice('to%d' % i, pool)))
    if n == 2:
        sym.assume(ren[0][0] != ren[1][0])
    if n:
        kw['rename'] = dict(ren) if sym.flag('rendict') else ren
    return kw, ren


def chosen(names, kw, ren):
    """Reference: name -> name it is delivered under."""
    out = []
    for k in names:
        to = None
        for a, b in ren:
            if a == k:
                to = b
        if to is not None:
            out.append((k, to))
        elif kw.get('include'):
            if k in kw['include']:
                out.append((k, k))
        elif kw.get('omit'):
            if k not in kw['omit']:
                out.append((k, k))
        else:
            out.append((k, k))
    return out


def clash(out):
    t = [b for a, b in out]
    return len(set(t)) != len(t)


def both(kw):
    return bool(kw.get('include')) and bool(kw.get('omit'))


def schema(kind):
    base = {'dict': Dict, 'form': Form, 'sparse': SparseDict}[kind]
    return base.of(Integer.named(u'a'), Integer.named(u'b'),
                   Integer.named(u'c'))


def load(sym, kind, how, lo, hi, modes=None):
    """Object to element."""
    S = schema(kind)
    kw, ren = selection(sym, lo, hi, None, modes)
    obj = Bag()
    have = []
    for i, n in enumerate(POOL):
        if n != 'c' and sym.flag('has.' + n):
            v = sym.int('val.' + n, 0, 99)
            if n == 'b':
                v = sym.choice('odd.' + n, [v, None, u'q'])
            setattr(obj, n, v)
            have.append(n)
    el = S()
    if how == 'method':
        el.set({u'c': 5, u'a': 6})
    out = [(k, t) for k, t in chosen(have, kw, ren) if t in ('a', 'b', 'c')]
    if both(kw):
        try:
            el.set_by_object(obj, **kw)
            sym.fail('include and omit together accepted')
        except TypeError:
            sym.cover('both')
        return
    sym.assume(not clash(out))
    if how == 'method':
        el.set_by_object(obj, **kw)
    else:
        el = S.from_object(obj, **kw)
    got = {}
    for k, t in out:
        got[t] = getattr(obj, k)
    wellformed(sym, el, S)
    for f in ('a', 'b', 'c'):
        if dict.__contains__(el, f):
            want = Integer(got.get(f))
            sym.equal((el[f].value, el[f].u), (want.value, want.u),
                      'value of a field')
            sym.check(f not in got or el[f].raw is got[f], 'raw of a field')
        else:
            sym.check(f not in got, 'field missing')
        if kind == 'sparse':
            sym.equal(dict.__contains__(el, f), f in got, 'presence')
    for n in POOL:
        sym.equal(hasattr(obj, n), n in have, 'object changed')
    sym.cover('loaded')
    sym.observe([[f, el[f].value] for f in sorted(el.keys())])


def store(sym, kind, how, lo, hi):
    """Element to object, or to a dict."""
    S = schema(kind)
    kw, ren = selection(sym, lo, hi, ['a', 'b', 'z'])
    vals = [sym.int('val%d' % i, 0, 99) for i in range(2)]
    el = S({u'a': vals[0], u'b': vals[1]})
    ref = {'a': vals[0], 'b': vals[1]}
    if kind != 'sparse':
        ref['c'] = None
    if both(kw):
        try:
            el.slice(**kw)
            sym.fail('include and omit together accepted')
        except TypeError:
            sym.cover('both')
        return
    keys = [k for k in ('a', 'b', 'c') if k in ref]
    out = chosen(keys, kw, ren)
    sym.assume(not clash(out))
    want = dict((t, ref[k]) for k, t in out)
    if how == 'slice':
        got = el.slice(**kw)
    elif how == 'slice.str':
        got = el.slice(key=str, **kw)
        sym.check(all(type(k) is str for k in got), 'keys not converted')
    else:
        obj = Bag()
        obj.keep = 1
        el.update_object(obj, **kw)
        got = dict(obj.__dict__)
        sym.equal(got.pop('keep', None), 1, 'other attribute changed')
    sym.equal(got, want, 'selected values')
    sym.equal(el.value, dict((unicode(k), ref[k]) for k in ref),
              'element changed')
    sym.cover('stored')
    sym.observe(sorted([[unicode(k), got[k]] for k in got]))


def roundtrip(sym):
    """slice -> object -> element gives the element back."""
    S = schema('dict')
    vals = [sym.int('v%d' % i, -99, 99) for i in range(3)]
    el = S(dict(zip((u'a', u'b', u'c'), vals)))
    ren = sym.choice('ren', [None, [('a', 'q')], {'a': 'b2', 'b': 'a2'},
                             [('a', 'x'), ('b', 'y'), ('c', 'a')]])
    obj = Bag()
    el.update_object(obj, rename=ren)
    back = None
    if ren is not None:
        back = [(b, a) for a, b in (ren.items() if isinstance(ren, dict)
                                    else ren)]
    other = S.from_object(obj, rename=back)
    sym.equal(other.value, el.value, 'round trip through an object')
    sym.cover('trip')
    sym.observe([other[u'a'].value, other[u'b'].value, other[u'c'].value])


def target(kind, values):
    """(object with these attributes, function giving an attribute)"""
    if kind == 'plain':
        o = Bag()
        for k in values:
            setattr(o, k, values[k])
        return o, getattr
    if kind == 'class':
        return type('Made', (object,), dict(values))(), getattr
    if kind == 'inherited':
        C = type('Base', (object,), dict(values))
        return type('Made', (C,), {})(), getattr
    if kind == 'computed':
        class Computed(object):
            def __getattr__(self, name):
                if name in values:
                    return values[name]
                raise AttributeError(name)

            def __setattr__(self, name, value):
                values[name] = value
        return Computed(), getattr
    if kind == 'properties':
        class Props(object):
            def _get(self):
                if 'a' not in values:
                    raise AttributeError('a')
                return values['a']

            def _set(self, value):
                values['a'] = value
            a = property(_get, _set)
        o = Props()
        for k in values:
            if k != 'a':
                setattr(o, k, values[k])
        return o, getattr
    if kind == 'slots':
        class Slots(object):
            __slots__ = ('a', 'b', 'c', 'z')
        o = Slots()
        for k in values:
            setattr(o, k, values[k])
        return o, getattr
    # falsy and odd, but still an object
    class Odd(object):
        def __len__(self):
            return 0

        def __eq__(self, other):
            raise TypeError('compared')
        __hash__ = None
    o = Odd()
    for k in values:
        setattr(o, k, values[k])
    return o, getattr


OBJECTS = ['plain', 'class', 'inherited', 'computed', 'properties', 'slots',
           'odd']


def objects(sym, how):
    """Any object with attributes will do, however it comes by them."""
    kind = sym.choice('object', OBJECTS)
    given = {}
    for k in ('a', 'b', 'z'):
        if sym.flag('has.' + k):
            given[k] = sym.choice('val.' + k, [None, 0, 7])
    kw = sym.choice('kw', [{}, {'include': ['a']}, {'omit': ['a']},
                           {'rename': {'z': 'b'}},
                           {'rename': [('a', 'c'), ('b', 'a')]}])
    ren = kw.get('rename', [])
    ren = list(ren.items()) if isinstance(ren, dict) else ren
    S = schema('dict')
    obj, get = target(kind, dict(given))
    if how == 'load':
        out = [(k, t) for k, t in chosen(sorted(given), kw, ren)
               if t in ('a', 'b', 'c')]
        sym.assume(not clash(out))
        el = S({u'a': 1, u'b': 2, u'c': 3})
        el.set_by_object(obj, **kw)
        want = dict((t, given[k]) for k, t in out)
        sym.equal(el.value, dict((unicode(f), want.get(f))
                                 for f in ('a', 'b', 'c')), 'fields')
        sym.cover('loaded')
    else:
        el = S({u'a': 5, u'b': None, u'c': 0})
        ref = {'a': 5, 'b': None, 'c': 0}
        out = chosen(['a', 'b', 'c'], kw, ren)
        sym.assume(not clash(out))
        el.update_object(obj, **kw)
        want = dict(given)
        for k, t in out:
            want[t] = ref[k]
        for k in ('a', 'b', 'c', 'z'):
            sym.check(hasattr(obj, k) == (k in want), 'presence of an '
                      'attribute')
            if k in want:
                sym.equal(get(obj, k), want[k], 'attribute')
        sym.cover('stored')
    sym.observe([kind, el[u'a'].value, el[u'b'].value])


def keyslice(sym, mode, nren, keyfn):
    """The filter itself, over arbitrary keys."""
    pairs = [(sym.text('k%d' % i, 2 if i == 0 else 1, alphabet=u'ab.'), i)
             for i in range(3)]
    names = [sym.text('n%d' % i, 1, alphabet=u'ab.')
             for i in range(sym.pick_int('nn', 0, 2))]
    kw = {}
    if mode != 'none':
        kw[mode] = names if sym.flag('list') else iter(names)
        if not names:
            kw[mode] = names
    ren = [(sym.text('r%d' % i, 1, alphabet=u'ab.'), u't%d' % i)
           for i in range(nren)]
    if ren:
        kw['rename'] = ren
    fn = (lambda k: k + u'') if not keyfn else (lambda k: k.replace(u'.',
                                                                   u''))
    if keyfn:
        kw['key'] = fn
    got = list(keyslice_pairs(pairs, **kw))
    want = []
    for k, v in pairs:
        k = fn(k)
        to = None
        for a, b in ren:
            if a == k:
                to = b
        if to is not None:
            want.append((to, v))
        elif mode == 'include' and names:
            if any(k == n for n in names):
                want.append((k, v))
        elif mode == 'omit' and names:
            if not any(k == n for n in names):
                want.append((k, v))
        else:
            want.append((k, v))
    sym.equal(got, want, 'selected pairs')
    sym.cover('some' if got else 'none')
    sym.observe([[k, v] for k, v in got])


CASES = [('load.%s.%s%s' % (k, h, '.2' if n > 1 else ''), load,
          (k, h, n if n > 1 else 0, n), ['loaded', 'both'],
          'q' if n == 1 and k != 'form' else 't')
         for k in ('dict', 'form', 'sparse')
         for h in ('method', 'factory') for n in (1, 2)] + [
    ('store.%s.%s%s' % (k, h, '.2' if n > 1 else ''), store,
     (k, h, n if n > 1 else 0, n), ['stored', 'both'],
     'q' if n == 1 or (k == 'dict' and h != 'slice') else 't')
    for k in ('dict', 'form', 'sparse')
    for h in ('slice', 'slice.str', 'object') for n in (1, 2)] + [
    ('load.two', load, ('dict', 'method', 2, 2, ['none']), ['loaded'], 'q'),
    ('load.two.omit', load, ('sparse', 'factory', 2, 2, ['omit']),
     ['loaded'], 't'),
    ('objects.load', objects, ('load',), ['loaded'], 'q'),
    ('objects.store', objects, ('store',), ['stored'], 'q'),
    ('roundtrip', roundtrip, (), ['trip'], 'q')] + [
    ('keyslice.%s.%d%s' % (m, n, '.key' if k else ''), keyslice, (m, n, k),
     ['some'], 'q' if n < 2 else 't')
    for m in ('none', 'include', 'omit') for n in (0, 1, 2)
    for k in (False, True)]
