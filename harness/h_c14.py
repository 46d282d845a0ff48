# C14: escaped path text names exactly the child it spells, whatever the name.
from flatland import Array, Dict, List, String
from flatland.schema.paths import NAME, TOP, pathexpr, tokenize

BOUNDS = ('one or two names of up to 3 (2 in pairs) arbitrary BMP '
          'characters, with every choice of escaping or not escaping "]" '
          'and inner dots; relative and absolute; names given as text of 4 '
          'characters over the path metacharacters')
ASSUMPTIONS = ['a backslash in a name is not followed by a character the '
               'syntax escapes and is not the last character of the name: '
               'such names have no spelling']
OUTSIDE = 'empty names'


def good(sym, name):
    """Names that have a spelling."""
    n = len(name)
    for i in range(n):
        if name[i] == u'\\':
            sym.assume(i + 1 < n)
            sym.assume(name[i + 1] not in u'/[].')


def escape(name, full):
    """full: also escape what need not be."""
    out = u''
    for c in name:
        if c in u'/[':
            out += u'\\' + c
        elif c in u'].':
            out += u'\\' + c if full or len(name) < 3 and c == u'.' else c
        else:
            out += c
    return out


def single(sym, maxlen, alphabet):
    name = sym.text('name', maxlen, minlen=1, alphabet=alphabet)
    good(sym, name)
    full = sym.flag('full')
    absolute = sym.flag('absolute')
    path = escape(name, full)
    toks = tokenize((u'/' if absolute else u'') + path)
    sym.equal(toks, ([(TOP, None)] if absolute else []) + [(NAME, name)],
              'tokens of an escaped name')
    S = Dict.of(String.named(name))
    el = S({name: u'v'})
    got = el.find((u'/' if absolute else u'') + path, single=True)
    sym.check(got is el[name], 'found another element')
    sym.cover('named')
    sym.observe([t[1] for t in toks])


def pair(sym, alphabet):
    """Two escaped names joined by a separator are two steps."""
    a = sym.text('a', 2, minlen=1, alphabet=alphabet)
    b = sym.text('b', 2, minlen=1, alphabet=alphabet)
    good(sym, a)
    good(sym, b)
    full = sym.flag('full')
    tail = sym.choice('tail', [u'', u'/', u'/.'])
    path = escape(a, full) + u'/' + escape(b, full) + tail
    toks = tokenize(path)
    sym.equal(toks, [(NAME, a), (NAME, b)], 'tokens of two escaped names')
    sym.cover('named')
    sym.observe([t[1] for t in toks])


def siblings(sym):
    """Metacharacters in a name never reach a sibling or a grandchild."""
    name = sym.text('name', 3, minlen=1, alphabet=u'ab/.[]0:')
    good(sym, name)
    sym.assume(name not in (u'a', u'b', u'l'))
    S = Dict.of(String.named(name), String.named(u'b'),
                Dict.named(u'a').of(String.named(u'b'), String.named(u'a')),
                List.named(u'l').of(String))
    el = S({name: u'v', u'b': u'1', u'a': {u'b': u'2', u'a': u'3'},
            u'l': [u'4']})
    got = el.find(escape(name, True))
    sym.check(len(got) == 1 and got[0] is el[name], 'found another element')
    got = el[u'a'][u'b'].find(u'../../' + escape(name, True))
    sym.check(len(got) == 1 and got[0] is el[name], 'found another element')
    sym.cover('named')


def expression(sym):
    """Compiled expressions keep their text."""
    p = sym.text('p', 2, alphabet=u'ab/.')
    e = pathexpr(p)
    sym.equal(e.__unicode__(), p, 'text of an expression')
    sym.equal(e.ops, tokenize(p), 'operations of an expression')
    sym.cover('named')


META = u'a/.[]:0\\'
CASES = [
    ('single', single, (3, None), ['named'], 'q'),
    ('single.meta', single, (4, META), ['named'], 'q'),
    ('single.long', single, (5, META), ['named'], 't'),
    ('pair', pair, (None,), ['named'], 'q'),
    ('pair.meta', pair, (META,), ['named'], 'q'),
    ('siblings', siblings, (), ['named'], 'q'),
    ('expression', expression, (), ['named'], 'q'),
]
