# C34: what an element shows of itself: escaped and spelled text, equality,
# labels, validity of a tree, messages and constructor settings.
from flatland import (Array, Boolean, Date, Dict, Integer, List, MultiValue,
                      Skip, SkipAll, SkipAllFalse, SparseDict, String,
                      Unevaluated)

BOUNDS = ('texts of up to 5 arbitrary characters to escape; to spell, one '
          'arbitrary character (2 when thorough) or up to 3 of each kind of '
          'spelling, in nested lists and mappings of up to 3 members; scalar '
          'types String (stripped or not), Integer, Boolean and Date; trees '
          'of up to 6 elements with any validity; up to 4 messages of one '
          'character')
OUTSIDE = 'repr() of values without a text'
ASSUMPTIONS = ['spelled text is read back by a reader of Python 2 literals '
               'in the harness']

ENT = {u'lt': u'<', u'gt': u'>', u'amp': u'&', u'quot': u'"'}


def unescape(sym, t, quoted):
    out, i = u'', 0
    while i < len(t):
        c = t[i]
        sym.check(c != u'<' and c != u'>', 'bare angle bracket')
        if quoted:
            sym.check(c != u'"', 'bare quote')
        if c == u'&':
            for name in (u'lt', u'gt', u'amp', u'quot'):
                if t[i + 1:i + 2 + len(name)] == name + u';':
                    out += ENT[name]
                    i += len(name) + 2
                    break
            else:
                sym.fail('bare ampersand')
        else:
            out += c
            i += 1
    return out


def escaped(sym):
    t = sym.text('t', 5)
    el = String.using(strip=False)(t)
    sym.equal(unescape(sym, el.x, False), t, 'x')
    sym.equal(unescape(sym, el.xa, True), t, 'xa')
    if el.xa != t:
        sym.cover('escaped')
    sym.observe([el.x, el.xa])


HEX = u'0123456789abcdef'


class Reader(object):
    """Reads the literals container texts are made of."""

    def __init__(self, sym, t):
        self.sym, self.t, self.i = sym, t, 0

    def lit(self, s):
        self.sym.equal(self.t[self.i:self.i + len(s)], s, 'punctuation')
        self.i += len(s)

    def more(self, close):
        return self.t[self.i:self.i + 1] != close

    def hexa(self, n):
        v = 0
        for c in self.t[self.i:self.i + n]:
            d = HEX.find(c)
            self.sym.check(d >= 0, 'escape')
            v = v * 16 + d
        self.i += n
        return unichr(v)

    def text(self):
        self.lit(u'u')
        q = self.t[self.i]
        self.sym.check(q == u"'" or q == u'"', 'quote')
        self.i += 1
        out = u''
        while 1:
            self.sym.check(self.i < len(self.t), 'unterminated text')
            c = self.t[self.i]
            self.i += 1
            if c == q:
                return out
            if c != u'\\':
                self.sym.check(c != u'\n', 'newline in a literal')
                out += c
                continue
            c = self.t[self.i]
            self.i += 1
            if c == u'x':
                out += self.hexa(2)
            elif c == u'u':
                out += self.hexa(4)
            elif c in u'nrt':
                out += {u'n': u'\n', u'r': u'\r', u't': u'\t'}[c]
            else:
                self.sym.check(c == u'\\' or c == u"'" or c == u'"',
                               'escape')
                out += c

    def value(self, shape):
        if shape == 'text':
            return self.text()
        if isinstance(shape, list):
            self.lit(u'[')
            out = []
            while self.more(u']'):
                if out:
                    self.lit(u', ')
                out.append(self.value(shape[0]))
            self.lit(u']')
            return out
        self.lit(u'{')
        out = {}
        while self.more(u'}'):
            if out:
                self.lit(u', ')
            k = self.text()
            self.lit(u': ')
            self.sym.check(k in shape, 'key')
            self.sym.check(k not in out, 'key twice')
            out[k] = self.value(shape[k])
        self.lit(u'}')
        return out


ONE = ('one', 'full', 'long')
# letters, all kinds of characters that are spelled in another way
TELLING = list(u'aux\'"\\\n\t\x07\x9f\xe9') + [(u'\u1000', u'\u2fff')]


def spelled(sym, which):
    S = String.using(strip=False)
    n = sym.pick_int('n', 0, 2) if which not in ONE else 1
    m = {'one': 3, 'full': 1, 'long': 2}.get(which, 2)
    ts = [sym.text('t%d' % i, m, alphabet=None if which in ('full', 'long')
                   else TELLING) for i in range(n)]
    if which == 'list' or which in ONE:
        el, shape, want = List.of(S)(ts), ['text'], ts
    elif which == 'array':
        el, shape, want = Array.of(S)(ts), ['text'], ts
    elif which == 'dict':
        names = [u'a\u1234', u"b'\\"]
        el = SparseDict.of(*[S.named(k) for k in names])(zip(names, ts))
        shape, want = dict((k, 'text') for k in names), dict(zip(names, ts))
    else:
        el = List.of(Dict.of(List.named(u'l').of(S), S.named(u's')))(
            [{u'l': [t], u's': t} for t in ts])
        shape = [{u'l': ['text'], u's': 'text'}]
        want = [{u'l': [t], u's': t} for t in ts]
    u = el.u
    sym.check(isinstance(u, unicode), 'kind of text')
    r = Reader(sym, u)
    sym.equal(r.value(shape), want, 'spelled text')
    sym.check(r.i == len(u), 'trailing text')
    if n:
        sym.cover('spelled')
    sym.observe(u)


FEW = u'1x \u0661'


def content(el):
    if isinstance(el, dict):
        return dict((k, content(el[k])) for k in el)
    if isinstance(el, list):
        return [content(x) for x in el]
    return (el.value, el.u)


def equality(sym, which):
    if which == 'scalar':
        kinds = {'s': String, 'r': String.using(strip=False), 'i': Integer,
                 'b': Boolean, 'd': Date}
        ka = sym.choice('ka', ['s', 'r', 'i', 'b'])
        kb = sym.choice('kb', ['s', 'r', 'i', 'b', 'd'])
        a, b = kinds[ka](), kinds[kb]()
        for n, el in (('a', a), ('b', b)):
            if sym.flag(n + 'set'):
                el.set(sym.text(n, 2))
    elif which == 'list':
        kinds = {'l': List, 'a': Array}
        a = kinds[sym.choice('ka', ['l', 'a'])].of(Integer)()
        b = kinds[sym.choice('kb', ['l', 'a'])].of(Integer)()
        for n, el in (('a', a), ('b', b)):
            el.set([sym.text('%s%d' % (n, i), 1, alphabet=FEW)
                    for i in range(sym.pick_int(n, 0, 2))])
    else:
        # the two keys collide in the tables of Jython
        S = SparseDict.of(String.named(u'Aa'), String.named(u'BB'),
                          Integer.named(u'n'))
        a, b = S(), S()
        for n, el in (('a', a), ('b', b)):
            keys = sym.choice(n + 'keys', [
                [u'Aa'], [u'Aa', u'BB'], [u'BB', u'Aa'], [u'n', u'BB']])
            for k in keys:
                el[k] = sym.text(n + k, 1, alphabet=FEW)
        if which == 'nested':
            A = List.of(S)
            a, b = A([a.value]), A([b])
            sym.check(b[0].value is not None, 'member')
    same = content(a) == content(b)
    sym.check((a == b) is same, 'equality')
    sym.check((b == a) is same, 'equality, other way')
    sym.check((a != b) is (not same), 'inequality')
    sym.check(a == a and not a != a, 'equality with itself')
    for x in (None, 3, u'x', [], {}):
        sym.check(not a == x, 'equal to a plain value')
        sym.check(a != x, 'not unequal to a plain value')
    for el in (a, b):
        try:
            hash(el)
            sym.fail('hash of an element')
        except TypeError:
            pass
    sym.cover('same' if same else 'different')
    sym.observe(same)


VALID = [True, False, Unevaluated, Skip, SkipAll, SkipAllFalse, None]


def validity(sym):
    S = Dict.of(Integer.named(u'i'), List.named(u'l').of(
        Dict.of(String.named(u's'))))
    shape = sym.pick_int('members', 0, 2)
    root = S({u'i': 1, u'l': [{u's': u'x'}] * shape})
    els = [root, root['i'], root['l']]
    for m in root['l']:
        els.extend([m, m['s']])
    hot = sym.pick_int('at', 0, len(els) - 1)
    els[hot].valid = sym.choice('valid', VALID)
    if sym.flag('two'):
        els[sym.pick_int('at2', 0, len(els) - 1)].valid = False
    where = sym.choice('where', ['root', 'list', 'leaf'])
    top = {'root': root, 'list': root['l'], 'leaf': root['i']}[where]
    below = {'root': els, 'list': els[2:], 'leaf': els[1:2]}[where]
    want = all(bool(e.valid) for e in below)
    sym.check(top.all_valid is want, 'all_valid')
    sym.cover('valid' if want else 'invalid')
    before = [e.valid for e in els]
    mark = sym.choice('mark', [True, False, Unevaluated])
    top.all_valid = mark
    for e, v in zip(els, before):
        if any(e is x for x in below):
            sym.check(e.valid is mark, 'not marked')
        else:
            sym.check(e.valid is v, 'marked elsewhere')
    sym.check(top.all_valid is bool(mark), 'all_valid after marking')


def labels(sym):
    name = sym.choice('name', [None, u'n', u'm'])
    S = String.named(name)
    if sym.flag('class'):
        S = S.using(label=sym.text('cl', 1))
        want = S.label
    else:
        want = name
        sym.equal(S.label, name, 'label of a class')
    T = S.named(u'other')
    kw = {}
    if sym.flag('kwname'):
        kw['name'] = u'kn'
    if sym.flag('kwlabel'):
        kw['label'] = u'kl'
    el, twin = S(**kw), S()
    if 'label' in kw:
        want = u'kl'
    elif 'name' in kw and S.label is S.name:
        want = u'kn'
    sym.equal(el.label, want, 'label of an element')
    sym.check(twin.name == name and twin.label == S.label,
              'label of another element')
    el.label = l = sym.text('l', 1)
    sym.equal(el.label, l, 'assigned label')
    sym.equal(el.name, kw.get('name', name), 'name')
    sym.equal(twin.label, S.label, 'label of another element, assigned')
    sym.equal(T.label, u'other' if S.label is name else S.label, 'subclass')
    sym.cover('labelled')


def messages(sym):
    S = sym.choice('kind', [String, List.of(String), Dict.of(
        String.named(u'a')), MultiValue.of(String)])
    el, other = S(), S()
    errors, warnings = [], []
    for i in range(sym.pick_int('n', 0, 3)):
        m = sym.text('m%d' % i, 1)
        if sym.flag('w%d' % i):
            el.add_warning(m)
            if m not in warnings:
                warnings.append(m)
        else:
            el.add_error(m)
            if m not in errors:
                errors.append(m)
    sym.equal(list(el.errors), errors, 'errors')
    sym.equal(list(el.warnings), warnings, 'warnings')
    sym.check(other.errors == [] and other.warnings == [], 'shared messages')
    sym.check(S().errors == [] and S().warnings == [], 'shared messages')
    if errors and warnings:
        sym.cover('both')


def settings(sym):
    """Constructor arguments override that element only."""
    yes = lambda e, s: True
    given = {'name': u'x', 'optional': True, 'default': u'd',
             'strip': False, 'validators': [yes],
             'ugettext': yes, 'bogus': 1, 'Strip': 1}
    keys = [k for k in ('name', 'optional', 'default', 'strip', 'validators')
            if sym.flag(k)]
    bad = sym.choice('bad', [None, 'bogus', 'Strip'])
    S = String.named(u's')
    before = dict((k, getattr(S, k)) for k in given if hasattr(S, k))
    kw = dict((k, given[k]) for k in keys)
    if bad:
        kw[bad] = 1
        try:
            S(u'v', **kw)
            sym.fail('unknown argument accepted')
        except TypeError:
            sym.cover('refused')
    else:
        t = sym.text('t', 2)
        parent = Dict.of(S)() if sym.flag('parent') else None
        if parent is not None:
            kw['parent'] = parent
        el = S(t, **kw)
        sym.check(el.parent is parent, 'parent')
        for k in before:
            want = given[k] if k in keys else before[k]
            sym.check(getattr(el, k) == want, 'setting of the element')
        if 'validators' in keys:
            given['validators'].append(None)
            sym.equal(el.validators, [yes], 'validators are shared')
        sym.equal(el.u, t if 'strip' in keys else t.strip(), 'text')
        sym.check(el.valid is Unevaluated, 'validity')
        sym.cover('accepted')
    for k in before:
        sym.check(getattr(S, k) is before[k], 'setting of the class')
        sym.check(getattr(S(), k) == before[k], 'setting of another element')


CASES = [
    ('escaped', escaped, (), ['escaped'], 'q'),
    ('spelled-one', spelled, ('one',), ['spelled'], 'q'),
    ('spelled-full', spelled, ('full',), ['spelled'], 'q'),
    ('spelled-list', spelled, ('list',), ['spelled'], 'q'),
    ('spelled-array', spelled, ('array',), ['spelled'], 'q'),
    ('spelled-dict', spelled, ('dict',), ['spelled'], 'q'),
    ('spelled-nested', spelled, ('nested',), ['spelled'], 'q'),
    ('spelled-long', spelled, ('long',), ['spelled'], 't'),
    ('equal-scalar', equality, ('scalar',), ['same', 'different'], 'q'),
    ('equal-list', equality, ('list',), ['same', 'different'], 'q'),
    ('equal-dict', equality, ('dict',), ['same', 'different'], 'q'),
    ('equal-nested', equality, ('nested',), ['same', 'different'], 'q'),
    ('validity', validity, (), ['valid', 'invalid'], 'q'),
    ('labels', labels, (), ['labelled'], 'q'),
    ('messages', messages, (), ['both'], 'q'),
    ('settings', settings, (), ['refused', 'accepted'], 'q'),
]
