# C31: a reference always shows its target and writes to it only as told.
from flatland import (Boolean, Dict, Form, Integer, List, Ref, SparseDict,
                      String)
from hlib import raises, snapshot

BOUNDS = ('references at the root or one level down to integer, text and '
          'boolean targets that are siblings, nested, members of a list or '
          'references themselves, given by five spellings of the path; the '
          'three settings of writable; histories of up to 3 operations on '
          'the target, the reference and the tree with symbolic values')
OUTSIDE = ('references inside lists; missing targets; loading a pair named '
           'for a reference that is declared not writable; assigning target '
           'and reference in one mapping; writing to container targets')
ASSUMPTIONS = []


PATHS = ['plain', 'absolute', 'slashes', 'names', 'own']


def tree(sym, where, T, writable, paths):
    """A schema with one reference, and functions finding both ends."""
    how = sym.choice('path', paths)
    names = {'sibling': [u'm'], 'nested': [u'd', u'm'],
             'inside': [u'd', u'm'], 'member': [u'l', u'1'],
             'chain': [u'n']}[where]

    def to(R, names):
        if how == 'plain':
            return R.to(u'.'.join(names))
        elif how == 'absolute':
            return R.to(u'.' + u'.'.join(names))
        elif how == 'slashes':
            return R.to(u'/' + u'/'.join(names), sep=u'/')
        elif how == 'names':
            return R.to(list(names))
        return R.using(sep=u'->').to(u'->'.join(names))
    R = Ref.named(u'r')
    if writable is not None:
        R = R.using(writable=writable)
    R = to(R, names)
    T = T.named(u'm')
    if where == 'sibling':
        S = Dict.of(T, R, T.named(u'o'))
    elif where == 'nested':
        S = Dict.of(Dict.named(u'd').of(T), R)
    elif where == 'inside':
        S = Dict.of(Dict.named(u'd').of(T, R), T)
    elif where == 'member':
        S = Dict.of(List.named(u'l').of(T).using(default=2), R)
    else:
        via = to(Ref.named(u'n').using(writable=True), [u'm'])
        S = Dict.of(T, via, R)

    def ref(el):
        return el[u'd'][u'r'] if where == 'inside' else el[u'r']

    def target(el):
        if where in ('nested', 'inside'):
            return el[u'd'][u'm']
        return el[u'l'][1] if where == 'member' else el[u'm']
    return S, ref, target


def agree(sym, el, ref, target, model):
    r, t = ref(el), target(el)
    sym.equal((t.u, t.value), model, 'the target')
    sym.equal((r.u, r.value), model, 'the reference')
    sym.check(r == t and t == r and not r != t, 'comparison')
    sym.check(r.target is t or r.target.target is t, 'target')
    sym.check(r.is_empty is (model == (u'', None)), 'is_empty')
    sym.check(bool(r) is bool(t), 'truth')
    sym.check(all(not k.endswith(u'r') and not k.endswith(u'n')
                  for k, _ in el.flatten()), 'a reference is not flattened')


def history(sym, where, steps, types, paths):
    T = sym.choice('type', types)
    writable = sym.choice('writable', [None, 'ignore', True, False])
    S, ref, target = tree(sym, where, T, writable, paths)
    el = S.from_defaults()

    def adapted(v):
        e = T()
        ok = e.set(v)
        return ok, (e.u, e.value)
    model = adapted(None)[1]
    if sym.flag('look'):
        agree(sym, el, ref, target, model)
    for i in range(steps):
        op = sym.choice('op%d' % i, ['target', 'set', 'u', 'value', 'tree',
                                     'flat', 'validate', 'default'])
        v = None
        if op in ('target', 'set', 'tree'):
            v = sym.choice('v%d' % i, ['int', 'junk', 'none'])
            v = {'int': lambda: sym.int('n%d' % i, 0, 9),
                 'junk': lambda: u'x', 'none': lambda: None}[v]()
        if op == 'target':
            target(el).set(v)
            model = adapted(v)[1]
        elif op == 'set':
            if writable is False:
                sym.check(raises(lambda: ref(el).set(v), TypeError) ==
                          'TypeError', 'a reference that is not writable')
            else:
                ok, new = adapted(v)
                sym.check(ref(el).set(v) is ok, 'result')
                if writable is True:
                    model = new
        elif op in ('u', 'value'):
            new = u'77' if op == 'u' else adapted(8)[1][1]

            def write():
                if op == 'u':
                    ref(el).u = new
                else:
                    ref(el).value = new
            if writable is False:
                sym.check(raises(write, TypeError) == 'TypeError',
                          'a reference that is not writable')
            else:
                write()
                if writable is True:
                    model = (new, model[1]) if op == 'u' else (model[0], new)
        elif op == 'tree':
            x = {'sibling': {u'm': v, u'o': None}, 'nested': {u'd': {u'm': v}},
                 'inside': {u'd': {u'm': v}, u'm': None},
                 'member': {u'l': [None, v]}, 'chain': {u'm': v}}[where]
            if where == 'inside':
                el[u'd'].update(x[u'd'])
            else:
                el.update(x)
            model = adapted(v)[1]
        elif op == 'flat':
            pairs = [({'sibling': u'm', 'nested': u'd_m', 'inside': u'd_m',
                       'member': u'l_1_m', 'chain': u'm'}[where], u'7')]
            if where == 'member':
                pairs.append((u'l_0_m', u'1'))
            mine = writable is not False and sym.flag('mine%d' % i)
            if mine:
                pairs = [(u'd_r' if where == 'inside' else u'r', u'7')]
            el.set_flat(pairs)
            if not mine or writable is True:
                model = adapted(u'7')[1]
        elif op == 'validate':
            r = ref(el)
            got = r.validate(recurse=False)
            sym.check(got is (model != (u'', None)), 'validity of a reference')
        else:
            el.set_default()
            model = adapted(None)[1]
        sym.cover(op)
        if sym.flag('look%d' % i):
            agree(sym, el, ref, target, model)
    agree(sym, el, ref, target, model)
    sym.observe([model[0], snapshot(target(el))])


def defaults(sym):
    """Defaults are the target's, whatever the reference may write."""
    writable = sym.choice('writable', [None, True, False])
    n = sym.int('n', -5, 5)
    R = Ref.named(u'r').to(u'm')
    if writable is not None:
        R = R.using(writable=writable)
    fields = [Integer.named(u'm').using(default=n), R]
    if sym.flag('first'):
        fields.reverse()
    if sym.flag('form'):
        class S(Form):
            field_schema = fields
    elif sym.flag('sparse'):
        S = SparseDict.of(*fields).using(minimum_fields='required')
    else:
        S = Dict.of(*fields)
    el = S.from_defaults()
    sym.equal([el[u'm'].value, el[u'r'].value, el[u'r'].u],
              [n, n, u'%d' % n], 'default of target and reference')
    el[u'm'] = 9
    el.set_default()
    sym.equal([el[u'm'].value, el[u'r'].value], [n, n], 'defaults set again')
    sym.cover('writable' if writable else 'not writable')
    sym.observe(snapshot(el[u'm']))


def factories(sym):
    """A default factory is called once, with the reference."""
    calls = []
    n = sym.choice('n', [None, sym.int('i', 0, 99)])

    def factory(element):
        calls.append(element)
        return n
    R = Ref.named(u'r').to(u'm').using(default_factory=factory,
                                       default=5)
    writable = sym.choice('writable', [True, 'ignore'])
    el = Dict.of(Integer.named(u'm').using(default=3),
                 R.using(writable=writable))()
    el[u'm'] = 4
    el[u'r'].set_default()
    sym.check(len(calls) == 1 and calls[0] is el[u'r'], 'factory calls')
    sym.equal(el[u'm'].value, 4 if n is None or writable == 'ignore' else n,
              'default of a reference')
    sym.cover('done')


def derived(sym):
    """The separator belongs to one path only."""
    A = Ref.named(u'r')
    B = A.to(u'd/m', sep=u'/')
    C = B.to(u'd.n')
    sym.equal([A.sep, B.sep, C.sep], [u'.', u'.', u'.'], 'separators')
    D = A.using(sep=u'/').to(u'd/n')
    sym.equal([D.sep, D.to(u'd.m', sep=u'.').sep], [u'/', u'/'],
              'separators')
    R = sym.choice('R', [B, C, D, D.to(u'd.m', sep=u'.'), D.to([u'd', u'm'])])
    el = Dict.of(Dict.named(u'd').of(Integer.named(u'm'),
                                     Integer.named(u'n')), R)()
    x = sym.int('x', 0, 9)
    el.set({u'd': {u'm': x, u'n': 11}})
    sym.equal(el[u'r'].value, 11 if R is C or R is D else x, 'value')
    sym.check(A.target_path is None, 'class changed')
    sym.cover('done')


def replaced(sym):
    """A reference follows its path, not the element once found there."""
    member, K = Integer.named(u'x'), Integer.named(u'k')
    S = Dict.of(List.named(u'l').of(member),
                SparseDict.named(u's').of(K),
                Ref.named(u'a').to(u'l.0').using(writable=True),
                Ref.named(u'b').to(u's.k').using(writable=True))
    el = S({u'l': [1, 2, 3], u's': {u'k': 4}})
    items, k = [1, 2, 3], 4
    if sym.flag('look'):
        sym.equal([el[u'a'].value, el[u'b'].value], [1, 4], 'values')
    for i in range(2):
        op = sym.choice('op%d' % i, ['insert', 'delete', 'reverse', 'assign',
                                     'again', 'element', 'through'])
        n = sym.int('n%d' % i, 0, 9)
        l, s = el[u'l'], el[u's']
        if op == 'insert':
            l.insert(0, n)
            items.insert(0, n)
        elif op == 'delete':
            del l[0]
            del items[0]
        elif op == 'reverse':
            l.reverse()
            items.reverse()
        elif op == 'assign':
            l[0] = n
            items[0] = n
        elif op == 'again':
            del s[u'k']
            s[u'k'] = n
            k = n
        elif op == 'element':
            s[u'k'] = K(n)
            k = n
        else:
            el[u'a'] = n
            el[u'b'] = n + 1
            items[0], k = n, n + 1
        sym.cover(op)
        sym.equal([el[u'a'].value, el[u'b'].value], [items[0], k], 'values')
        sym.equal(l.value, items, 'the list')
    el.set({u'l': [n], u's': {u'k': 5}})
    sym.equal([el[u'a'].value, el[u'b'].value], [n, 5], 'values')
    sym.observe([items, k])


_W = ['target', 'set', 'u', 'value', 'tree', 'flat', 'validate', 'default']
CASES = [
    ('factories', factories, (), ['done'], 'q'),
    ('derived', derived, (), ['done'], 'q'),
    ('defaults', defaults, (), ['writable', 'not writable'], 'q'),
    ('replaced', replaced, (), ['insert', 'delete', 'reverse', 'assign',
                                'again', 'element', 'through'], 'q'),
]
_T = [Integer, String, Boolean]
for _w in ('sibling', 'nested', 'inside', 'member', 'chain'):
    CASES.append(('history.' + _w, history, (_w, 1, _T, PATHS), _W, 'q'))
    CASES.append(('history.two.' + _w, history, (_w, 2, [Integer], ['plain']),
                  _W, 'q'))
    CASES.append(('history.all.' + _w, history, (_w, 2, _T, PATHS), _W, 't'))
