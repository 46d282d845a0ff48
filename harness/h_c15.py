# C15: names and links of a tree: every element is found under its qualified
# name, flat names follow the path, parents/path/root/children agree.
from flatland import (Array, Boolean, DateYYYYMMDD, Dict, Form, Integer,
                      JoinedString, List, MultiValue, SparseDict, String)
from hlib import Obj

BOUNDS = ('six tree shapes of up to 5 levels with every container type and '
          'lists of 0..3 members, after up to two structural changes (append, '
          'insert, delete, replace, pop, sort, reverse, sparse add and '
          'remove); field names of up to 2 arbitrary characters from the name '
          'alphabet and fixed odd names (empty ones for flat names and key lists); six separators; el() paths of up to '
          '6 characters over names, digits, signs and the separator')
OUTSIDE = 'anonymous fields of mappings; one element placed at two positions'
ASSUMPTIONS = ['field names are not empty where fq_name() is to be found again, '
               'and contain no character of the separator given to '
               'fq_name()/el()']

SEPS = [u'.', u'_', u'/', u'--', u'*', u'|+']


class Node(object):
    def __init__(self, el, parent, keys, flat, chain):
        self.el, self.parent = el, parent
        self.keys, self.flat, self.chain = keys, flat, chain


def walk(el, parent=None, keys=(), flat=(), chain=()):
    """Every element with its key path, flat name parts and ancestors."""
    if el.name is not None:
        flat = flat + (el.name,)
    chain = chain + (el,)
    out = [Node(el, parent, keys, flat, chain)]
    if isinstance(el, dict):
        for k in sorted(el.keys()):
            out.extend(walk(el[k], el, keys + (k,), flat, chain))
    elif isinstance(el, List):
        for i in range(len(el)):
            slot = list.__getitem__(el, i)
            out.extend(walk(el[i], el, keys + (unicode(i),),
                            flat + (unicode(i),), chain + (slot,)))
    elif isinstance(el, list):
        for i in range(len(el)):
            out.extend(walk(el[i], el, keys + (unicode(i),), flat, chain))
    return out


def breadth(root):
    out, level = [], [root]
    while level:
        nxt = []
        for e in level:
            nxt.extend(list(e.children))
        out.extend(nxt)
        level = nxt
    return out


def examine(sym, root, sep):
    nodes = walk(root)
    for n in nodes:
        el = n.el
        sym.check(el.root is root, 'root')
        path = list(el.path)
        sym.check(len(path) == len(n.chain) and
                  all(a is b for a, b in zip(path, n.chain)), 'path')
        up = list(el.parents)
        sym.check(len(up) == len(path) - 1 and
                  all(a is b for a, b in zip(reversed(up), path)), 'parents')
        sym.equal(el.flattened_name(sep), sep.join(n.flat), 'flat name')
        if sep == u'_':
            sym.equal(el.flattened_name(), sep.join(n.flat), 'flat name')
        fq = el.fq_name(sep)
        sym.equal(fq, sep + sep.join(n.keys), 'qualified name')
        sym.check(root.el(fq, sep) is el, 'el() of the qualified name')
        other = nodes[len(nodes) // 2].el
        sym.check(other.el(fq, sep) is el, 'el() from elsewhere')
        if n.keys:
            sym.check(root.el(sep.join(n.keys), sep) is el, 'relative el()')
            sym.check(root.el(list(n.keys)) is el, 'el() of a key list')
            sym.check(n.parent.el([n.keys[-1]]) is el, 'el() of a parent')
        if sep == u'.':
            sym.check(root.el(el.fq_name()) is el, 'default separator')
        kids = [c.el for c in nodes if c.parent is el]
        mine = list(el.children)
        sym.check(len(kids) == len(mine) and
                  all(any(a is b for b in mine) for a in kids), 'children')
        if isinstance(el, list):
            sym.check(all(a is b for a, b in zip(kids, mine)),
                      'order of children')
    every = list(root.all_children)
    sym.check(len(every) == len(nodes) - 1, 'number of descendants')
    want = breadth(root)
    sym.check(len(every) == len(want) and
              all(a is b for a, b in zip(every, want)),
              'breadth-first descendants')
    sym.cover('walked')
    sym.observe([len(nodes), sorted([n.el.fq_name(sep) for n in nodes])])


def shapes(sym, a, b, root):
    """(schema, value) choices."""
    which = sym.choice('shape', ['dict', 'lists', 'arrays', 'sparse',
                                 'nested', 'scalar'])
    n = sym.pick_int('n', 0, 2) if which in ('lists', 'nested', 'arrays') \
        else 1
    if which == 'dict':
        S = Dict.named(root).of(String.named(a), Dict.named(b).of(
            String.named(a), Integer.named(u'z')))
        v = {a: u'1', b: {a: u'2'}}
    elif which == 'lists':
        S = Dict.named(root).of(List.named(a).of(String.named(b)),
                                List.named(b).of(List.of(Integer)))
        v = {a: [u'x'] * n, b: [[1, 2]] * n}
    elif which == 'arrays':
        S = List.named(root).of(Dict.named(b).of(
            Array.named(a).of(String), MultiValue.named(b).of(
                Integer.named(u'z')), JoinedString.named(u'j')))
        v = [{a: [u'p'] * n, b: [1] * n, u'j': u'x,y'}]
    elif which == 'sparse':
        S = SparseDict.named(root).of(
            List.named(a).of(SparseDict.named(b).of(String.named(a))),
            DateYYYYMMDD.named(b))
        v = {a: [{a: u'1'}, {}], b: None}
        if sym.flag('drop'):
            del v[a]
    elif which == 'nested':
        S = List.named(root).of(List.named(a).of(List.named(b).of(
            Array.of(String.named(a)))))
        v = [[[[u'q'], []]] * n] * n
    else:
        S = Integer.named(root)
        v = 4
    return S, v


def tree(sym, symbolic):
    sep = sym.choice('sep', SEPS)
    if symbolic:
        a = sym.text('a', 2, 1, u'ab01-_. ')
        b = u'b'
        sym.assume(a != b and a != u'z' and a != u'j')
        sym.assume(all(c not in a for c in sep))
    else:
        a, b = sym.choice('ab', [(u'a', u'ab'), (u'0', u'1'), (u'\xe9', u'b '),
                                 (u'year', u'month'), (u'-1', u'a.*')])
        sym.assume(sep not in a and sep not in b)
    root = sym.choice('root', [None, u'root', u'a'])
    S, v = shapes(sym, a, b, root)
    el = S()
    el.set(v)
    examine(sym, el, sep)


def form(sym):
    class Inner(Form):
        x = String
        y = List.of(Boolean.named(u'ignored'))

    class Outer(Form):
        inner = Inner.named(u'renamed')
        rows = List.of(Inner.named(u'row'))
        tags = Array.of(String)
    el = Outer()
    el.set({u'rows': [{u'y': [True, False]}] * sym.pick_int('n', 0, 2),
            u'tags': [u't'] * sym.pick_int('m', 0, 2),
            u'inner': {u'x': u'X', u'y': [True]}})
    examine(sym, el, sym.choice('sep', SEPS))


def change(sym, el, i):
    op = sym.choice('op%d' % i, ['append', 'insert', 'del', 'delslice', 'pop',
                                 'setel', 'setitem', 'setslice', 'reverse',
                                 'sort', 'remove', 'extend'])
    n = len(el)
    at = sym.pick_int('at%d' % i, -1, 2)
    new = lambda: {u'm': [u'n'], u'k': 5}
    if op == 'append':
        el.append(new())
    elif op == 'insert':
        el.insert(at, el.member_schema(new()))
    elif op == 'extend':
        el += [new(), new()]
    elif op == 'setslice':
        el[0:1] = [new(), el.member_schema(new())]
    elif op == 'reverse':
        el.reverse()
    elif op == 'sort':
        el.sort(key=lambda e: -(e[u'k'].value or 0))
    elif op == 'delslice':
        del el[at:]
    elif -n <= at < n:
        if op == 'del':
            del el[at]
        elif op == 'pop':
            gone = el.pop(at)
            sym.check(gone.parent is None, 'removed member keeps a parent')
            sym.check(gone.root is gone, 'removed member keeps a root')
        elif op == 'setel':
            el[at] = el.member_schema(new())
        elif op == 'setitem':
            el[at] = new()
        elif op == 'remove':
            el.remove(el[at])


def changed(sym, count):
    S = Dict.named(u'f').of(
        List.named(u'l').of(List.named(u'm').of(String), Integer.named(u'k')),
        String.named(u's'))
    root = S()
    root.set({u'l': [{u'm': [u'a', u'b'], u'k': 1}, {u'm': [], u'k': 2}]})
    for i in range(count):
        change(sym, root[u'l'], i)
    examine(sym, root, u'_')


def sparse_changes(sym, count):
    S = SparseDict.named(u'd').of(
        SparseDict.named(u'a').of(String.named(u'x'), String.named(u'y')),
        List.named(u'l').of(SparseDict.of(String.named(u'x'))),
        String.named(u's'))
    root = S()
    for i in range(count):
        op = sym.choice('op%d' % i, ['a', 'l', 's', 'el', 'row', 'del', 'pop',
                                     'setdefault', 'set'])
        k = sym.choice('k%d' % i, [u'a', u'l', u's'])
        if op == 'a':
            root[u'a'] = {u'x': u'1'}
        elif op == 'l':
            root[u'l'] = [{u'x': u'1'}, {}]
        elif op == 's':
            root[u's'] = u's'
        elif op == 'el':
            root[k] = S()._field_schema_for(k)()
        elif op == 'row' and u'l' in root:
            root[u'l'].append({})
            root[u'l'][0][u'x'] = u'0'
        elif op == 'del' and k in root:
            del root[k]
        elif op == 'pop' and k in root:
            root.pop(k)
        elif op == 'setdefault':
            root.setdefault(u's', u't')
        elif op == 'set':
            root.set({u'a': {u'y': u'2'}})
    examine(sym, root, u'.')


def resolve(root, el, path, sep):
    """What el() of a text path denotes (None: nothing)."""
    if path == sep:
        return root
    if path.startswith(sep):
        node, parts = root, path[len(sep):].split(sep)
    else:
        node, parts = el, path.split(sep)
    for p in parts:
        if isinstance(node, dict):
            if not any(p == k for k in node.keys()):
                return None
            node = [node[k] for k in node.keys() if p == k][0]
        elif isinstance(node, list):
            s = p.strip()
            neg = s[:1] == u'-'
            if s[:1] == u'-' or s[:1] == u'+':
                s = s[1:]
            if not s or not all(c in u'0123456789' for c in s):
                return None
            i = int(s)
            if neg:
                i = -i
            if not -len(node) <= i < len(node):
                return None
            node = node[i]
        else:
            return None
    return node


def any_path(sym, sep, start):
    S = Dict.named(u'r').of(
        List.named(u'a').of(Dict.of(String.named(u'b'), Array.named(u'a').of(
            String))), String.named(u'b'), SparseDict.named(u'ab').of(
                String.named(u'b')), Dict.named(u'').of(String.named(u'b')))
    root = S()
    root.set({u'a': [{u'b': u'1', u'a': [u'x', u'y']}, {}], u'b': u'3'})
    el = {'root': root, 'list': root[u'a'], 'row': root[u'a'][0],
          'scalar': root[u'b']}[start]
    path = sym.text('path', 5 if start == 'root' else 4,
                    alphabet=u'ab01-z' + sep)
    want = resolve(root, el, path, sep)
    try:
        got = el.el(path, sep)
    except KeyError:
        got = None
    sym.check(got is want, 'el() of a path')
    if want is not None:
        sym.cover('found')
    else:
        sym.cover('nothing')
    sym.observe(got is not None and got.fq_name(u'/'))


def blank_names(sym):
    names = [sym.choice('n%d' % i, [None, u'', u'x', u'y z'])
             for i in range(4)]
    sep = sym.choice('sep', [u'_', u'.', u''])
    leaf = String.named(names[3] or u'')
    S = Dict.named(names[0]).of(List.named(names[1] or u'').of(
        Dict.named(names[2]).of(leaf)))
    root = S()
    rows = root[names[1] or u'']
    rows.append({})
    rows.append({})
    want = [n for n in (names[0], names[1] or u'', u'1', names[2],
                        names[3] or u'') if n is not None]
    el = rows[1][names[3] or u'']
    sym.equal(el.flattened_name(sep), sep.join(want), 'flat name')
    sym.equal(el.flatten(sep), [(sep.join(want), u'')], 'flat pair')
    sym.cover('blank')


CASES = [
    ('blank', blank_names, (), ['blank'], 'q'),
    ('tree', tree, (False,), ['walked'], 'q'),
    ('tree.names', tree, (True,), ['walked'], 'q'),
    ('form', form, (), ['walked'], 'q'),
    ('changed', changed, (2,), ['walked'], 'q'),
    ('changed.3', changed, (3,), ['walked'], 't'),
    ('sparse', sparse_changes, (3,), ['walked'], 'q'),
    ('sparse.4', sparse_changes, (4,), ['walked'], 't'),
] + [('path.%s' % s, any_path, (u'.', s), ['found', 'nothing'], 'q')
     for s in ('root', 'list', 'row')] + [
    ('path.scalar', any_path, (u'.', 'scalar'), ['found', 'nothing'], 'q'),
    ('path.sep2', any_path, (u'--', 'root'), ['found', 'nothing'], 'q'),
]
