# C10: whatever is done to a mapping element, its keys stay within the schema
# (all of them for Dict, the required ones at least for SparseDict).
from flatland import Dict, Form, Integer, List, SparseDict, String
from flatland.schema.base import Element
from hlib import wellformed

BOUNDS = ('sequences of 2 operations (3 in the thorough tier) out of 14 '
          'kinds; keys of up to 2 arbitrary BMP characters; integer and text '
          'values; Dict, Form, SparseDict with and without required fields, '
          'initially blank or filled')
OUTSIDE = ('dict.__setitem__ and friends called directly on the element; '
           'assigning an element of another schema')

OPS = ['set', 'setel', 'del', 'pop', 'popitem', 'clear', 'setdefault',
       'get', 'update', 'kwupdate', 'reset', 'contains', 'may', 'default']
FIELDS = (u'x', u'xy', u'o')


class Model(object):
    """Reference: declared keys -> integer value or None."""

    def __init__(self, sparse, required):
        self.sparse = sparse
        self.required = required
        self.d = {}
        self.blank()

    def blank(self):
        self.d = {}
        for f in FIELDS:
            if not self.sparse or (self.required and f != u'o'):
                self.d[f] = None

    def known(self, k):
        for f in FIELDS:
            if k == f:
                return f
        return None


def attempt(fn):
    try:
        return fn()
    except KeyError:
        return 'KeyError'
    except TypeError:
        return 'TypeError'
    except NotImplementedError:
        return 'NotImplementedError'


def plain(x):
    return x.value if isinstance(x, Element) else x


def step(sym, el, m, n, ops):
    t = '%d.' % n
    op = sym.choice(t + 'op', ops)
    sym.cover(op)

    def key():
        k = sym.text(t + 'k', 2)
        return k, m.known(k)

    def val():
        return sym.int(t + 'v', -99, 99)
    if op in ('set', 'setel'):
        k, f = key()
        v = val()
        arg = v
        if op == 'setel':
            sym.assume(m.sparse and f is not None)
            arg = el._field_schema_for(f)(v)
        got = attempt(lambda: el.__setitem__(k, arg))
        if f is None:
            return got, 'TypeError'
        m.d[f] = v
        if op == 'setel':
            sym.check(el[f] is arg, 'another element stored')
        return got, None
    if op == 'del':
        k, f = key()

        def cut():
            del el[k]
        got = attempt(cut)
        if not m.sparse:
            return got, 'KeyError' if f is None else 'TypeError'
        if f is None:
            return got, 'TypeError'
        if m.required and f != u'o':
            return got, 'TypeError'
        if f not in m.d:
            return got, 'KeyError'
        del m.d[f]
        return got, None
    if op == 'pop':
        k, f = key()
        got = plain(attempt(lambda: el.pop(k)))
        if f is None or f not in m.d:
            return got, 'KeyError'
        if not m.sparse or (m.required and f != u'o'):
            return got, 'TypeError'
        return got, m.d.pop(f)
    if op == 'popitem':
        got = attempt(lambda: el.popitem())
        return got, 'NotImplementedError' if m.sparse else 'TypeError'
    if op == 'clear':
        got = attempt(lambda: el.clear())
        if not m.sparse:
            return got, 'TypeError'
        m.blank()
        return got, None
    if op == 'setdefault':
        k, f = key()
        v = val()
        got = attempt(lambda: el.setdefault(k, v))
        if not m.sparse or f is None:
            return got, 'TypeError'
        if m.d.get(f) is None:
            m.d[f] = v
        return got, m.d[f]
    if op == 'get':
        k, f = key()
        got = attempt(lambda: el.get(k))
        sym.equal(plain(attempt(lambda: el[k])), plain(got)
                  if f in m.d else 'KeyError', 'get() and indexing differ')
        if f is None or f not in m.d:
            return got, 'KeyError'
        sym.check(got is el[f], 'get() returned another element')
        return plain(got), m.d[f]
    if op in ('update', 'kwupdate'):
        v = val()
        if op == 'kwupdate':
            bad = sym.flag(t + 'bad')
            if bad:
                got = attempt(lambda: el.update(zz=v))
                return got, 'TypeError'
            got = attempt(lambda: el.update({u'x': 1}, xy=v))
            m.d[u'x'], m.d[u'xy'] = 1, v
            return got, None
        k, f = key()
        how = sym.choice(t + 'how', ['dict', 'pairs', 'two'])
        if how == 'two':
            return (attempt(lambda: el.update({u'x': 1}, {u'x': 2})),
                    'TypeError')
        got = attempt(lambda: el.update([(u'x', 1), (k, v)]
                                        if how == 'pairs' else {k: v}))
        if how == 'pairs':
            m.d[u'x'] = 1
        if f is None:
            return got, 'TypeError'
        m.d[f] = v
        return got, None
    if op == 'reset':
        v = val()
        got = attempt(lambda: el.set({u'x': v}))
        m.blank()
        m.d[u'x'] = v
        return got, True
    if op == 'contains':
        k, f = key()
        return k in el, f is not None and f in m.d
    if op == 'may':
        k, f = key()
        return el.may_contain(k), f is not None
    if op == 'default':
        el.set_default()
        if m.sparse:
            m.blank()
            if m.required:
                m.d[u'x'] = 7
        else:
            m.blank()
            m.d[u'x'] = 7
        return None, None


def run(sym, kind, steps, first, second):
    base = {'dict': Dict, 'form': Form, 'sparse': SparseDict,
            'required': SparseDict.using(minimum_fields='required')}[kind]
    S = base.named(u'f').of(
        Integer.named(u'x').using(default=7),
        Integer.named(u'xy'), Integer.named(u'o').using(optional=True))
    m = Model(kind in ('sparse', 'required'), kind == 'required')
    el = S()
    fill = sym.choice('fill', [(), (u'x',), (u'xy', u'o')])
    if fill:
        el.set(dict((k, 5) for k in fill))
        for k in fill:
            m.d[k] = 5
    for n in range(steps):
        got, want = step(sym, el, m, n, first if n == 0 else second)
        sym.equal(got, want, 'outcome of an operation')
        wellformed(sym, el, S)
        sym.equal(sorted(el.keys()), sorted(m.d.keys()), 'keys')
        sym.equal(el.value, m.d, 'values')
        sym.equal(len(el), len(m.d), 'length')
        sym.equal(sorted([c.name for c in el.children]), sorted(m.d.keys()),
                  'children')
    sym.cover('done')
    sym.observe([sorted(el.keys()), [el[k].value for k in sorted(el.keys())]])


def own(sym):
    """A member present is required when it says so itself."""
    S = SparseDict.using(minimum_fields='required').of(
        Integer.named(u'x'), String.named(u'o').using(optional=True),
        List.named(u'l').of(Integer).using(optional=True))
    el = S({u'x': 1, u'o': u'a', u'l': [2]})
    k = sym.choice('k', [u'x', u'o', u'l'])
    opt = sym.flag('opt')
    child = el[k]
    child.optional = opt
    before = el.value
    op = sym.choice('op', ['del', 'pop'])
    got = attempt(lambda: el.__delitem__(k) if op == 'del' else el.pop(k))
    if opt:
        sym.check(got is (None if op == 'del' else child), 'result')
        del before[k]
        sym.cover('removed')
    else:
        sym.equal(got, 'TypeError', 'required member removed')
        sym.check(el[k] is child, 'another element')
        sym.cover('refused')
    sym.equal(el.value, before, 'values')
    el.clear()
    sym.equal(el.value, {u'x': None}, 'values of a cleared mapping')


def shapes(sym, kind):
    """Members of other kinds: what is not empty is kept by setdefault()."""
    S = (Dict if kind == 'dict' else SparseDict).named(u'f').of(
        String.named(u's'), List.named(u'l').of(Integer),
        Dict.named(u'n').of(Integer.named(u'a'), Integer.named(u'b')),
        SparseDict.named(u'p').of(Integer.named(u'a')), Integer.named(u'i'))
    el = S()
    k = sym.choice('k', [u's', u'l', u'n', u'p', u'i'])
    some = {u's': lambda i: sym.text(i, 1), u'l': lambda i: [sym.int(i, 0, 9)]
            if sym.flag(i + 'f') else [],
            u'n': lambda i: {u'a': sym.int(i, 0, 9), u'b': 3},
            u'p': lambda i: {u'a': sym.int(i, 0, 9)} if sym.flag(i + 'f')
            else {}, u'i': lambda i: sym.choice(i, [0, 7, u'x', u''])}[k]
    start = sym.choice('start', ['absent', 'blank', 'set'])
    a, b = some('a'), some('b')
    show = lambda e: (e.value, e.u)
    fresh = lambda v: show(S.field_schema_mapping[k](v))
    if start == 'set':
        el[k] = a
        sym.equal(show(el[k]), fresh(a), 'a member that was set')
        was = el[k]
        full = not was.is_empty
        sym.equal(full, k == u'n' or len(was) > 0 if k in (u'l', u'n', u'p')
                  else was.u != u'', 'emptiness')
    elif start == 'blank' and kind != 'dict':
        el[k] = S.field_schema_mapping[k]()
        full = k == u'n'
    else:
        full = False
    got = attempt(lambda: el.setdefault(k, b))
    if kind == 'dict':
        sym.equal(got, 'TypeError', 'setdefault() of a plain mapping')
        return
    if full:
        now = show(was) if start == 'set' else show(S.field_schema_mapping[k]())
        sym.equal(show(el[k]), now, 'a full member')
        sym.equal(got, now[0], 'result for a full member')
        sym.check(start != 'set' or el[k] is was, 'another element')
        sym.cover('kept')
    else:
        sym.equal(show(el[k]), fresh(b), 'a member that was blank')
        sym.equal(got, b, 'result for a blank member')
        sym.cover('set')
    wellformed(sym, el, S)
    # keyword arguments come after the others
    el.update({k: a}, i=sym.choice('kw', [1, u'y']))
    if k == u'i':
        sym.check(el[k].u in (u'1', u'y'), 'keywords come last')
    else:
        sym.equal(show(el[k]), fresh(a), 'an updated member')
    sym.check(set(el.keys()) == set([k, u'i']), 'keys')


CASES = [('own', own, (), ['removed', 'refused'], 'q'),
         ('shapes.sparse', shapes, ('sparse',), ['kept', 'set'], 'q'),
         ('shapes.dict', shapes, ('dict',), [], 'q')]
for _k in ('dict', 'form', 'sparse', 'required'):
    for _o in OPS:
        if _o == 'setel' and _k in ('dict', 'form'):
            continue
        CASES.append(('%s.%s' % (_k, _o), run, (_k, 1, [_o], None),
                      ['done', _o], 'q'))
        CASES.append(('%s.%s+' % (_k, _o), run, (_k, 2, [_o], OPS),
                      ['done', _o], 'q' if _k in ('dict', 'sparse',
                                                  'required') else 't'))
        if _k in ('sparse', 'required'):
            CASES.append(('%s.%s++' % (_k, _o), run, (_k, 3, [_o], OPS),
                          ['done', _o], 't'))
