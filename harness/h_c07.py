# C07: indexed flat keys rebuild a list in numeric order, with documented
# pruning, gap filling and size cap.
from flatland import Dict, Integer, List, String
from hlib import snapshot, wellformed

BOUNDS = ('3 pairs with symbolic indexes 0..1200 (0..6 when gaps are kept), '
          'ASCII and other decimal digits, up to two leading zeros, indexes '
          'of up to 40 digits; values of up to 1..2 arbitrary BMP '
          'characters; size cap 1..4 symbolic and the default 1024; members: '
          'anonymous and named scalars, mappings; five name/separator pairs')
OUTSIDE = 'more than 3 symbolic indexes at once'

SHAPES = [(u'l', u'_'), (None, u'_'), (u'.*', u'.'), (u'(a', u'--'),
          (u'0', u'_')]


def reference(pairs, prune, cap):
    """pairs: (index, childkey, value).  -> list of lists of (child, value),
    None for a member nothing was given for."""
    if prune:
        pairs = [p for p in pairs if p[2] != u'']
    if not pairs:
        return []
    if prune:
        out = []
        last = -1
        while len(out) < cap:
            nxt = None
            for i, c, v in pairs:
                if i > last and (nxt is None or i < nxt):
                    nxt = i
            if nxt is None:
                break
            out.append([(c, v) for i, c, v in pairs if i == nxt])
            last = nxt
        return out
    top = 0
    for i, c, v in pairs:
        if i + 1 > top:
            top = i + 1
    if top > cap:
        top = cap
    return [[(c, v) for i, c, v in pairs if i == n] for n in range(top)]


def compare_scalar(sym, el, want, child):
    sym.equal(len(el), len(want), 'number of members')
    for m, group in zip(list(el), want):
        text = u''
        for c, v in group:
            if c == child:
                text = v.strip()
                break
        sym.equal(m.u, text, 'text of a member')


def flatkey(name, sep, idx, child):
    k = idx if name is None else name + sep + idx
    return k if child is None else k + sep + child


def order(sym, prune, named):
    """Symbolic indexes in any order, repeated or not."""
    name, sep = sym.choice('shape', SHAPES)
    child = u'c' if named else None
    hi = 1200 if prune else 6
    idx = [sym.int('i%d' % n, 0, hi) for n in range(3)]
    vals = [sym.text('v0', 1), sym.text('v1', 1, alphabet=u'x '), u'z']
    S = List.named(name).of(String.named(child)).using(prune_empty=prune)
    el = S()
    pairs = [(flatkey(name, sep, u'%d' % i, child), v)
             for i, v in zip(idx, vals)]
    el.set_flat(pairs, sep)
    wellformed(sym, el, S)
    compare_scalar(sym, el, reference(
        [(i, child, v) for i, v in zip(idx, vals)], prune, 1024), child)
    sym.cover('built')
    sym.observe(snapshot(el))


def cap(sym, prune):
    """Never more members than the configured maximum."""
    n = sym.int('cap', 0 if prune else 1, 4)
    idx = [sym.int('i%d' % k, 0, 30) for k in range(3)]
    S = List.named(u'l').of(String).using(prune_empty=prune,
                                          maximum_set_flat_members=n)
    el = S()
    vals = [u'p', u'q', u'r']
    el.set_flat([(u'l_%d' % i, v) for i, v in zip(idx, vals)])
    wellformed(sym, el, S)
    sym.check(len(el) <= n, 'more members than the maximum')
    want = reference([(i, None, v) for i, v in zip(idx, vals)], prune, n)
    compare_scalar(sym, el, want, None)
    sym.cover('capped' if len(el) == n else 'built')
    sym.observe(snapshot(el))


def default_cap(sym, prune):
    i = sym.choice('i', [1022, 1023, 1024, 5000, 10 ** 30])
    v = sym.text('v', 1, 1, [(u'!', u'~')])
    S = List.named(u'l').of(String).using(prune_empty=prune)
    el = S()
    el.set_flat([(u'l_%d' % i, v), (u'l_1', u'one')])
    if prune:
        sym.equal([m.u for m in el], [u'one', v], 'sparse indexes')
    else:
        sym.equal(len(el), min(i + 1, 1024), 'size')
        sym.equal(el[1].u, u'one', 'member 1')
        if i < 1024:
            sym.equal(el[i].u, v, 'last member')
    sym.cover('built')


def prune_cap(sym):
    """The maximum also bounds pruned lists."""
    S = List.named(u'l').of(String)
    el = S()
    n = sym.choice('n', [1023, 1024, 1030])
    pairs = [(u'l_%d' % (5000 - i), u'v') for i in range(n)]
    pairs.insert(500, (u'l_3', sym.text('v', 1, 1, u'ab')))
    el.set_flat(pairs)
    sym.equal(len(el), min(n + 1, 1024), 'size')
    sym.check(el[0].u in (u'a', u'b'), 'lowest index first')
    sym.cover('built')


def spelling(sym):
    """Leading zeros and other decimal digits name the same member."""
    zeros = sym.choice('zeros', [u'', u'0', u'00'])
    d = sym.text('d', 2, 1, [(u'0', u'9'), (u'\u0660', u'\u0669'),
                             (u'\u0966', u'\u096f')])
    i = sym.int('i', 0, 99)
    S = List.named(u'l').of(Dict.of(String.named(u'x'), String.named(u'y')))
    el = S()
    el.set_flat([(u'l_' + zeros + d + u'_x', u'1'), (u'l_%d_y' % i, u'2')])
    if int(d) == i:
        sym.equal([m.u for m in (el[0][u'x'], el[0][u'y'])], [u'1', u'2'],
                  'same index')
        sym.equal(len(el), 1, 'same index')
        sym.cover('same')
    else:
        sym.equal(len(el), 2, 'distinct indexes')
        lo = 0 if int(d) < i else 1
        sym.equal(el[lo][u'x'].u, u'1', 'numeric order')
        sym.equal(el[1 - lo][u'y'].u, u'2', 'numeric order')
        sym.cover('distinct')
    wellformed(sym, el, S)
    sym.observe(snapshot(el))


def longindex(sym):
    """Indexes of any length are taken without failing."""
    n = sym.pick_int('len', 1, 40)
    lead = sym.text('lead', 1, 1, u'0123456789')
    for prune in (True, False):
        S = List.named(u'l').of(String).using(prune_empty=prune,
                                              maximum_set_flat_members=2)
        el = S()
        el.set_flat([(u'l_' + lead + u'0' * (n - 1), u'v'), (u'l_1', u'w')])
        wellformed(sym, el, S)
        want = [u'v', u'w'] if (lead == u'0') else (
            [u'w', u'v'] if prune else [u'', u'w'])
        if n == 1 and lead == u'1':
            want = [u'v'] if prune else [u'', u'v']
        sym.equal([m.u for m in el], want, 'members')
    sym.cover('built')


def grouped(sym, prune):
    """Pairs of one member may be scattered; each keeps its own."""
    name, sep = sym.choice('shape', SHAPES)
    idx = [sym.int('i%d' % n, 0, 12 if prune else 3) for n in range(3)]
    S = List.named(name).using(prune_empty=prune).of(
        Dict.of(String.named(u'x'), Integer.named(u'xy')))
    v = [sym.text('v', 1), u'7', u'q']
    kids = [u'x', u'xy', u'x']
    el = S()
    el.set_flat([(flatkey(name, sep, u'%d' % i, c), t)
                 for i, c, t in zip(idx, kids, v)], sep)
    wellformed(sym, el, S)
    want = reference([(i, c, t) for i, c, t in zip(idx, kids, v)], prune,
                     1024)
    sym.equal(len(el), len(want), 'number of members')
    for m, group in zip(list(el), want):
        for field in (u'x', u'xy'):
            text = u''
            for c, t in group:
                if c == field:
                    text = t.strip()
                    break
            sym.equal(m[field].u, text, 'text of a grandchild')
    sym.cover('built')
    sym.observe(snapshot(el))


def unmatched(sym):
    """Keys that do not name an index are not data for the list."""
    k = sym.text('k', 5, alphabet=u'l_01x-')
    S = List.named(u'l').of(String)
    el = S([u'old'])
    el.set_flat([(k, u'v')])
    sym.equal(bool(len(el)),
              (k in (u'l_0', u'l_1', u'l_00', u'l_01', u'l_10', u'l_11',
                     u'l_000', u'l_001', u'l_010', u'l_011', u'l_100',
                     u'l_101', u'l_110', u'l_111'))
              or k[:4] in (u'l_0_', u'l_1_')
              or k[:5] in (u'l_00_', u'l_01_', u'l_10_', u'l_11_'),
              'key taken as a member')
    if k in (u'l_0', u'l_1', u'l_00', u'l_11', u'l_010'):
        sym.equal([m.u for m in el], [u'v'], 'member')
        sym.cover('member')
    elif not len(el):
        sym.cover('ignored')
    sym.observe(snapshot(el))


def replaces(sym, prune):
    """Loading replaces earlier members, also when nothing is loaded."""
    S = List.named(u'l').of(String).using(prune_empty=prune)
    el = S([u'a', u'b', u'c'])
    n = sym.pick_int('n', 0, 2)
    v = [sym.text('v%d' % i, 1, alphabet=u'x') for i in range(n)]
    el.set_flat([(u'l_%d' % i, t) for i, t in enumerate(v)])
    sym.equal([m.u for m in el], [t for t in v if t != u'' or not prune],
              'members')
    wellformed(sym, el, S)
    sym.cover('built')
    sym.observe(snapshot(el))


def deep(sym):
    """Lists of lists: both levels are ordered independently."""
    i, j = sym.int('i', 0, 15), sym.int('j', 0, 15)
    k = sym.int('k', 0, 15)
    S = List.named(u'a').of(List.named(u'b').of(Integer.named(u'c')))
    el = S()
    el.set_flat([(u'a_%d_b_%d_c' % (i, j), u'1'),
                 (u'a_%d_b_%d_c' % (i, k), u'2'), (u'a_2_b_0_c', u'3')])
    wellformed(sym, el, S)
    sym.assume(j != k)
    inner = [1, 2] if j < k else [2, 1]
    if i == 2:
        sym.equal(len(el), 1, 'one outer member')
        if j != 0 and k != 0:
            sym.equal(el.value, [[3] + inner], 'nested members')
        sym.cover('same')
    else:
        sym.equal(el.value, [inner, [3]] if i < 2 else [[3], inner],
                  'nested members')
        sym.cover('apart')
    sym.observe(snapshot(el))


CASES = [
    ('order.prune', order, (True, False), ['built'], 'q'),
    ('order.prune.named', order, (True, True), ['built'], 'q'),
    ('order', order, (False, False), ['built'], 'q'),
    ('order.named', order, (False, True), ['built'], 'q'),
    ('cap.prune', cap, (True,), ['built', 'capped'], 'q'),
    ('cap', cap, (False,), ['built', 'capped'], 'q'),
    ('default_cap.prune', default_cap, (True,), ['built'], 'q'),
    ('default_cap', default_cap, (False,), ['built'], 'q'),
    ('prune_cap', prune_cap, (), ['built'], 'q'),
    ('spelling', spelling, (), ['same', 'distinct'], 'q'),
    ('longindex', longindex, (), ['built'], 'q'),
    ('grouped.prune', grouped, (True,), ['built'], 'q'),
    ('grouped', grouped, (False,), ['built'], 'q'),
    ('unmatched', unmatched, (), ['member', 'ignored'], 'q'),
    ('replaces.prune', replaces, (True,), ['built'], 'q'),
    ('replaces', replaces, (False,), ['built'], 'q'),
    ('deep', deep, (), ['same', 'apart'], 'q'),
]
