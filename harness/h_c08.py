# C08: arrays and multi-values gather repeated flat pairs completely, in order
# and only their own; a multi-value doubles as a scalar over its first member.
from flatland import Array, Dict, Integer, List, MultiValue, String
from hlib import snapshot, wellformed

BOUNDS = ('3 pairs; keys chosen from the element\'s own flat name and of up '
          'to 5 characters over its letters, separator and one other letter; '
          'values of up to 2 arbitrary BMP characters; pruning on and off; '
          'the four named/anonymous combinations of array and member; five '
          'separators and names with regex metacharacters')
OUTSIDE = 'arrays of containers (unsupported by the library)'

KINDS = {'array': Array, 'multi': MultiValue}
NAMES = [u'a', u'.*', u'a_b', u'(', u'0']
SEPS = [u'_', u'.', u'--', u'*|', u'(']


def gather(sym, kind, named, cnamed, prune):
    """Exactly the pairs under the array's own flat name, in order."""
    name = sym.choice('name', NAMES) if named else None
    cname = sym.choice('cname', [u'c', u'a', u'.']) if cnamed else None
    sep = sym.choice('sep', SEPS)
    S = KINDS[kind].named(name).of(String.named(cname)).using(
        prune_empty=prune)
    own = sep.join([n for n in (name, cname) if n is not None])
    el = S()
    other = sym.text('other', 3, alphabet=u'ac_.z')
    # a trailing separator with no member name is read as the plain name
    if named and not cnamed:
        sym.assume(other != name + sep)
    pairs = [(own, sym.text('v0', 1)), (other, u'x'),
             (own, sym.text('v1', 1, alphabet=u'y ')), (own, u'z')]
    el.set_flat(pairs, sep)
    want = [v.strip() for k, v in pairs
            if k == own and not (prune and v == u'')]
    sym.equal([m.u for m in el], want, 'members')
    wellformed(sym, el, S)
    sym.cover('gathered')
    if other == own:
        sym.cover('same key')
    sym.observe(snapshot(el))


def siblings(sym):
    """Two arrays whose names are prefixes of each other do not mix."""
    S = Dict.of(Array.named(u'a').of(String), Array.named(u'ab').of(String),
                MultiValue.named(u'a_b').of(Integer.named(u'c')))
    keys = [u'a', u'ab', u'a_b_c', u'a_', u'abc', u'a_b']
    el = S()
    pairs = [(sym.choice('k%d' % i, keys), u'%d' % (i + 1)) for i in range(3)]
    el.set_flat(pairs)
    sym.equal([m.u for m in el[u'a']], [v for k, v in pairs
                                        if k in (u'a', u'a_')], 'array a')
    sym.equal([m.u for m in el[u'ab']], [v for k, v in pairs if k == u'ab'],
              'array ab')
    sym.equal([m.u for m in el[u'a_b']], [v for k, v in pairs
                                          if k == u'a_b_c'], 'multi')
    wellformed(sym, el, S)
    sym.cover('gathered')
    sym.observe(snapshot(el))


def in_list(sym, prune, named):
    """Arrays inside list members gather per member."""
    A = Array.named(u'a' if named else None).using(prune_empty=prune)
    S = List.named(u'l').of(A.of(String)).using(prune_empty=False)
    tail = u'_a' if named else u''
    i, j = sym.int('i', 0, 2), sym.int('j', 0, 2)
    v = sym.text('v', 1)
    el = S()
    pairs = [(i, v), (j, u'p'), (i, u'q')]
    el.set_flat([(u'l_%d' % n + tail, t) for n, t in pairs])
    sym.equal(len(el), max(i, j) + 1, 'members of the list')
    for n in range(len(el)):
        sym.equal([m.u for m in el[n]],
                  [t.strip() for k, t in pairs if k == n
                   and not (prune and t == u'')], 'members of an array')
    wellformed(sym, el, S)
    sym.cover('gathered')
    sym.observe(snapshot(el))


def reload(sym, kind, prune):
    """Loading replaces whatever was gathered before."""
    S = KINDS[kind].named(u'a').of(Integer).using(prune_empty=prune)
    el = S([1, 2])
    n = sym.pick_int('n', 0, 2)
    v = [sym.text('v%d' % i, 2, alphabet=u'1- ') for i in range(n)]
    el.set_flat([(u'a', t) for t in v])
    want = [t for t in v if not (prune and t == u'')]
    sym.equal([m.u for m in el], [Integer(t).u for t in want], 'texts')
    sym.equal([m.value for m in el], [Integer(t).value for t in want],
              'values')
    if n == 0:
        sym.equal(len(el), 0, 'no data')
    sym.cover('gathered')
    sym.observe(snapshot(el))


def scalar_view(sym):
    """A multi-value reads as its first member and writes to it."""
    S = MultiValue.named(u'm').of(String)
    n = sym.pick_int('n', 0, 3)
    el = S([sym.text('v%d' % i, 1) for i in range(n)])
    sym.equal(len(el), n, 'members')
    sym.equal(el.u, el[0].u if n else u'', 'text is the first text')
    sym.equal(el.value, el[0].value if n else None, 'value of the first')
    sym.check(bool(el) is (n > 0), 'truth value')
    rest = [m.u for m in el][1:]
    t = sym.text('t', 1)
    if sym.flag('by_value'):
        el.value = t
        sym.equal(el[0].value, t, 'value written to the first member')
    else:
        el.u = t
        sym.equal(el[0].u, t, 'text written to the first member')
        sym.equal(el.u, t, 'text after writing')
    sym.equal([m.u for m in el][1:], rest, 'other members changed')
    sym.equal(len(el), max(n, 1), 'members after writing')
    sym.check(el[0].parent is el, 'parent of the first member')
    sym.cover('written')
    sym.observe(snapshot(el))


CASES = [
    ('%s.%s%s%s' % (k, 'n' if n else '-', 'c' if c else '-',
                    '.prune' if p else ''), gather, (k, n, c, p),
     ['gathered', 'same key'] if not n or c is False else ['gathered'], 'q')
    for k in ('array', 'multi') for n in (True, False) for c in (True, False)
    for p in (True, False)] + [
    ('siblings', siblings, (), ['gathered'], 'q'),
    ('list.prune', in_list, (True, False), ['gathered'], 'q'),
    ('list', in_list, (False, False), ['gathered'], 'q'),
    ('list.named.prune', in_list, (True, True), ['gathered'], 'q'),
    ('list.named', in_list, (False, True), ['gathered'], 'q'),
    ('reload.prune', reload, ('array', True), ['gathered'], 'q'),
    ('reload', reload, ('multi', False), ['gathered'], 'q'),
    ('scalar', scalar_view, (), ['written'], 'q'),
]
