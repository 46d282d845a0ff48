# C37: elements are independent of each other, and reading them changes nothing.
from flatland import (Array, Boolean, DateYYYYMMDD, Dict, Enum, Integer,
                      JoinedString, List, MultiValue, SparseDict, String)
from flatland.out.markup import Generator
from flatland.signals import validator_validated
from flatland.validation import IsTrue, Present
from hlib import raises

BOUNDS = ('a form of 11 kinds of fields; pairs of forms made in five ways '
          'from the same defaults, values or pairs; histories of up to 2 of '
          '26 changes to any of 17 nodes; reads of any of 36 kinds of any '
          'node, and changes of what they returned; the built-in changes '
          'take values of up to 1 arbitrary character or small integers')
OUTSIDE = ('changes to the objects that a class holds (its default, its list '
           'of validators) and to raw input; concurrent use')
ASSUMPTIONS = []

DEFAULT_ITEMS = [3, 4]
DEFAULT_DICT = {u'x': u'dx'}
ROW = Dict.named(u'row').of(String.named(u'x'), Integer.named(u'y'))
SHARED = ['of a class']


def grumble(el, state):
    el.add_warning(u'hmm')
    return el.add_error(u'no') or False


class Schema(object):
    """Classes for one path, and what they looked like."""

    def __init__(self):
        Sparse = SparseDict.named(u'sp')
        self.S = Dict.named(u'f').of(
            String.named(u's').using(validators=[grumble]),
            Integer.named(u'i').using(default=7, optional=True),
            Boolean.named(u'b').validated_by(IsTrue()),
            Enum.named(u'e').using(valid_values=[u'p', u'q']),
            List.named(u'l').of(Integer.named(u'm')).using(
                default=list(DEFAULT_ITEMS)),
            List.named(u'rows').of(ROW.with_properties(k=1)).using(default=2),
            Array.named(u'a').of(String).using(default=[u'z']),
            MultiValue.named(u'v').of(String),
            Dict.named(u'd').of(String.named(u'x')).using(
                default=dict(DEFAULT_DICT)),
            Sparse.of(String.named(u'x'), Integer.named(u'y')),
            DateYYYYMMDD.named(u'w'),
            JoinedString.named(u'j')).validated_by(Present()).with_properties(
                p=u'1')
        self.fields = dict((f.name, f) for f in self.S.field_schema)

    def classes(self):
        f = self.fields
        return [self.S, String, List, Dict, ROW, f[u'd'],
                f[u's'], f[u'i'], f[u'l'], f[u'l'].member_schema, f[u'rows'],
                f[u'rows'].member_schema, f[u'a'], f[u'v'], f[u'sp']]

    def state(self):
        """What a user can see of the classes."""
        return [[c.name, c.label, c.optional, list(c.validators), c.default,
                 c.u if c in (String, self.fields[u's']) else None, c.raw,
                 sorted(c.properties.items()),
                 hasattr(c, 'errors'), hasattr(c, 'valid'),
                 [x.name for x in getattr(c, 'field_schema', ())]]
                for c in self.classes()]


VALUE = {u's': u'S', u'i': 5, u'b': True, u'e': u'p', u'l': [1, 2],
         u'rows': [{u'x': u'r', u'y': 1}, {u'x': u'r', u'y': 2}],
         u'a': [u'q', u'r'], u'v': [u'q', u'r'], u'd': {u'x': u'D'},
         u'sp': {u'x': u'P'}, u'j': u'j,k'}


def copied(x):
    if isinstance(x, dict):
        return dict((k, copied(x[k])) for k in x)
    if isinstance(x, list):
        return [copied(y) for y in x]
    return x


def image(el):
    """Everything a user can see of a tree."""
    node = [type(el), el.name, el.label, el.u, el.value, el.valid,
            list(el.errors), list(el.warnings), el.optional, el.default,
            list(el.validators), sorted(el.properties.items()), el.is_empty]
    if isinstance(el, dict):
        below = [[k, image(dict.__getitem__(el, k))]
                 for k in sorted(dict.keys(el))]
    elif isinstance(el, List):
        below = [[s.name, image(s.element)] for s in el._slots]
    elif isinstance(el, list):
        below = [image(c) for c in list.__iter__(el)]
    else:
        below = []
    return [node, below]


def objects(el):
    """The objects a tree consists of, parents included."""
    out = [el, el.parent]
    if isinstance(el, dict):
        for k in sorted(dict.keys(el)):
            out.extend(objects(dict.__getitem__(el, k)))
    elif isinstance(el, List):
        for s in el._slots:
            out.append(s)
            out.extend(objects(s.element))
    elif isinstance(el, list):
        for c in list.__iter__(el):
            out.extend(objects(c))
    return out


def same_objects(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def plain(el):
    return dict((k, v) for k, v in el.value.items()
                if k not in (u'w', u'v', u'i'))


def two(sym, sc):
    """Two forms with the same history."""
    how = sym.choice('made', ['blank', 'defaults', 'value', 'copy', 'flat'])
    S = sc.S
    given = None
    if how == 'blank':
        a, b = S(), S()
    elif how == 'defaults':
        a, b = S.from_defaults(), S.from_defaults()
    elif how == 'value':
        given = copied(VALUE)
        a, b = S(given), S(given)
    elif how == 'copy':
        a = S(copied(VALUE))
        given = plain(a)
        b = S(given)
    else:
        given = S(copied(VALUE)).flatten()
        a, b = S.from_flat(given), S.from_flat(given)
    return how, given, a, b


PATHS = [[], [u's'], [u'i'], [u'e'], [u'l'], [u'l', 0], [u'rows'],
         [u'rows', 0], [u'rows', 0, u'x'], [u'a'], [u'a', 0], [u'd'],
         [u'sp'], [u'w'], [u'w', u'year'], [u'j'], [u'v']]


def node(el, path):
    for p in path:
        if isinstance(p, int) and len(el) <= p:
            return None
        el = el[p]
    return el


ANY = ['error', 'warning', 'errors', 'property', 'properties', 'delete',
       'label', 'attributes', 'flat', 'default', 'validate', 'again',
       'own default']
LISTS = ['append', 'insert', 'pop', 'slice', 'sort', 'extend']
ROWS = ['append row', 'pop', 'slice', 'extend']
MAPS = ['field', 'update']


def ops_for(el):
    if isinstance(el, JoinedString) or isinstance(el, DateYYYYMMDD):
        return ANY + ['text']
    if isinstance(el, list):
        rows = hasattr(el.member_schema, 'field_schema')
        return ANY + (ROWS if rows else LISTS)
    if isinstance(el, SparseDict):
        return ANY + MAPS + ['remove', 'clear']
    if isinstance(el, dict):
        return ANY + MAPS
    return ANY + ['text']


def change(sym, el, op, i):
    """One change of an element through its public interface."""
    if op == 'error':
        el.add_error(u'e')
    elif op == 'warning':
        el.add_warning(u'w')
    elif op == 'errors':
        el.errors.append(u'a')
        el.warnings.extend([u'b', u'c'])
        el.valid = False
    elif op == 'property':
        el.properties[u'k'] = u'changed'
        el.properties[u'p'] = u'changed'
    elif op == 'properties':
        el.properties.update({u'k': 2, u'new': 3})
        el.properties.setdefault(u'other', 1)
    elif op == 'delete':
        el.properties[u'k'] = 0
        del el.properties[u'k']
        el.properties.clear()
    elif op == 'label':
        el.label = u'L'
    elif op == 'attributes':
        el.optional = not el.optional
        el.validators = [grumble]
        el.default = None
    elif op == 'flat':
        el.set_flat([(u'f_s', u'1'), (u's', u'1'), (u'l_0_m', u'9'),
                     (u'x', u'9'), (u'rows_0_row_x', u'9'), (u'a', u'9')])
    elif op == 'default':
        el.set_default()
    elif op == 'validate':
        el.validate()
    elif op == 'again':
        el.set(el.value)
    elif op == 'own default':
        el.default = None
        el.default_factory = lambda e: None
        el.set_default()
    elif op == 'text':
        el.set(sym.text('t%d' % i, 1))
    elif op == 'append':
        el.append(sym.int('n%d' % i, 0, 3))
    elif op == 'insert':
        el.insert(0, sym.int('n%d' % i, 0, 3))
    elif op == 'append row':
        el.append({u'x': u'new', u'y': 1})
    elif op == 'pop':
        if len(el):
            el.pop()
    elif op == 'slice':
        del el[:1]
    elif op == 'sort':
        el.sort(key=lambda e: e.u)
        el.reverse()
    elif op == 'extend':
        el.extend(list(el.value) if el.value and
                  isinstance(el.value, list) else [])
    elif op == 'field':
        for k in sorted(el.keys()):
            if k in (u's', u'x'):
                el[k] = u'changed'
    elif op == 'update':
        k = u'x' if any(f.name == u'x' for f in el.field_schema) else u's'
        el.update({k: u'up'})
    elif op == 'remove':
        if u'x' in el:
            del el[u'x']
    elif op == 'clear':
        el.clear()


def apart(sym, steps):
    """Nothing done to one form shows in another, in its class, or in a
    form made later."""
    sc = Schema()
    classes = sc.state()
    fresh = image(sc.S())
    usual = image(sc.S.from_defaults())
    how, given, a, b = two(sym, sc)
    kept = copied(given)
    before, parts = image(b), objects(b)
    mine = [x for x in objects(a) if x is not None]
    sym.check(not any(x is y for x in mine for y in parts),
              'two elements share a part')
    sym.check(all(x.default is type(x).default for x in mine
                  if hasattr(x, 'default')), 'the default of an element')
    path = PATHS[sym.pick_int('node', 0, len(PATHS) - 1)]
    for i in range(steps):
        el = node(a, path)
        sym.assume(el is not None)
        op = sym.choice('op%d' % i, ops_for(el))
        change(sym, el, op, i)
        sym.cover(op)
    sym.equal(image(b), before, 'the other element')
    sym.check(same_objects(objects(b), parts), 'parts of the other element')
    sym.equal(sc.state(), classes, 'classes')
    sym.equal(given, kept, 'what they were made from')
    sym.equal(image(sc.S()), fresh, 'an element made later')
    sym.equal(image(sc.S.from_defaults()), usual, 'defaults used later')
    sym.observe([a.u, b.u])


def members(sym, steps):
    """Two members of a list are as independent as two forms."""
    sc = Schema()
    kind = sym.choice('made', ['value', 'same', 'flat', 'default', 'insert'])
    R = sc.fields[u'rows']
    row = {u'x': u'r', u'y': 1}
    if kind == 'value':
        l = R([dict(row), dict(row)])
    elif kind == 'same':
        l = R([row, row])
    elif kind == 'flat':
        l = R.from_flat([(u'rows_0_row_x', u'1'), (u'rows_1_row_x', u'1')])
    elif kind == 'default':
        l = R.from_defaults()
    else:
        l = R()
        l.extend([row])
        l.insert(0, row)
    sym.check(len(l) == 2, 'members')
    b = l[1]
    before, parts = image(b), objects(b)
    for i in range(steps):
        el = l[0][u'x'] if sym.flag('field%d' % i) else l[0]
        op = sym.choice('op%d' % i, ops_for(el))
        change(sym, el, op, i)
        sym.cover(op)
    sym.equal(image(b), before, 'the other member')
    sym.check(same_objects(objects(b), parts), 'parts of the other member')
    sym.equal(row, {u'x': u'r', u'y': 1}, 'the value given')
    sym.observe([l.u])


def destroy(x):
    """Change a plain structure as much as possible."""
    if isinstance(x, dict):
        for k in list(x):
            destroy(x[k])
        x.clear()
    elif isinstance(x, list):
        for y in x:
            destroy(y)
        x[:] = [None]


def listed(el):
    return [m for m in el.all_children]


READS = ['value', 'u', 'escaped', 'names', 'flags', 'default', 'flatten',
         'flatten value', 'children', 'ancestors', 'find', 'find one', 'el',
         'equal', 'repr', 'hash', 'properties', 'property copy', 'input',
         'choice', 'body', 'label', 'opened']
SEQ = ['slice', 'search', 'iterate', 'added', 'remove missing', 'bad index']
MAP = ['items', 'get', 'may contain', 'schema', 'select', 'update_object',
       'refused']


class Bag(object):
    pass


def read(sym, el, how):
    """One read, spoiling whatever it hands out."""
    if how == 'value':
        destroy(copied_out(el.value))
    elif how == 'u':
        sym.check(isinstance(el.u, unicode), 'text')
    elif how == 'escaped':
        el.x, el.xa
    elif how == 'names':
        el.name, el.label, el.fq_name(), el.flattened_name(u'.')
    elif how == 'flags':
        el.is_empty, el.valid, el.all_valid, bool(el), el.optional
    elif how == 'default':
        el.default_value
    elif how == 'flatten':
        destroy(el.flatten())
    elif how == 'flatten value':
        for _, v in el.flatten(value=lambda e: e.value):
            destroy(v)
    elif how == 'children':
        a, b = list(el.children), list(el.all_children)
        del a[:], b[:]
    elif how == 'ancestors':
        a = list(el.path)
        list(el.parents), el.root
        del a[:]
    elif how == 'find':
        for path in [u'/', u'.', u'..', u'[:]', u'[:]/x', u'l[0]', u'x']:
            r = el.find(path, strict=False)
            del r[:]
    elif how == 'find one':
        raises(lambda: el.find(u'nowhere', single=True), LookupError)
        el.find(u'/', single=True)
    elif how == 'el':
        for path in [u'.', u'x', u'0', u's', u'l.0', [u'rows', u'0', u'x']]:
            raises(lambda: el.el(path), KeyError)
    elif how == 'equal':
        el == el, el != el, el == 1, el == u'', el == el.parent
    elif how == 'repr':
        repr(el)
    elif how == 'hash':
        sym.check(raises(lambda: hash(el), TypeError) == 'TypeError',
                  'an element was hashed')
    elif how == 'properties':
        p = el.properties
        p.get(u'k'), u'k' in p, p.get(u'no', 1)
        raises(lambda: p[u'no'], KeyError)
        sorted(p.keys()), sorted(p.items()), sorted(p.values())
    elif how == 'property copy':
        destroy(el.properties.copy())
    elif how == 'input':
        g = Generator()
        g.set(auto_domid=True, auto_tabindex=True, auto_for=True)
        if not isinstance(el, (dict, List)):
            g.input(el), g.button(el), g.input(el, type=u'password')
        g.form(el)
    elif how == 'choice':
        g = Generator()
        if not isinstance(el, (dict, List)):
            g.input(el, type=u'checkbox', value=u'1')
            g.option(el, value=u'p')
            g.select.open(el)
            g.select.close()
    elif how == 'body':
        g = Generator()
        if not isinstance(el, (dict, List)):
            g.textarea(el)
    elif how == 'label':
        g = Generator()
        g.label(el, contents=u'x')
    elif how == 'opened':
        g = Generator()
        g.begin(auto_name=False)
        g.form.open(el)
        g.form.close()
        g.end()
    elif how == 'slice':
        for r in [el[:], el[:1], el[::-1], el[5:]]:
            r[:] = []
    elif how == 'search':
        v = {u'x': u'r', u'y': 1} if hasattr(el.member_schema,
                                             'field_schema') else u'q'
        v in el, el.count(v)
        raises(lambda: el.index(v), ValueError)
    elif how == 'iterate':
        list(el), list(reversed(el)), len(el)
    elif how == 'added':
        r = el[:] + [1]
        r[:] = []
        s = el[:] * 2
        s[:] = []
    elif how == 'remove missing':
        v = {u'x': u'no', u'y': 0} if hasattr(el.member_schema,
                                              'field_schema') else u'99'
        sym.check(raises(lambda: el.remove(v), ValueError) == 'ValueError',
                  'a value that is not there was removed')
    elif how == 'bad index':
        sym.check(raises(lambda: el[99], IndexError) == 'IndexError' and
                  raises(lambda: el.pop(99), IndexError) == 'IndexError',
                  'an index that is not there')
    elif how == 'items':
        sorted(el.keys()), len(el), list(el), list(el.values())
        r = list(el.items())
        r[:] = []
    elif how == 'get':
        raises(lambda: el.get(u'x'), KeyError)
        raises(lambda: el[u'no'], KeyError)
        u'x' in el
    elif how == 'may contain':
        el.may_contain(u'x'), el.may_contain(u'no')
    elif how == 'schema':
        destroy(el.field_schema_mapping)
        destroy(type(el).field_schema_mapping)
    elif how == 'select':
        if hasattr(el, 'slice'):
            destroy(el.slice())
            destroy(el.slice(omit=[u'x']))
    elif how == 'update_object':
        if hasattr(el, 'update_object'):
            o = Bag()
            el.update_object(o)
            for v in vars(o).values():
                destroy(v)
    elif how == 'refused':
        raises(lambda: el.update({u'no': 1}), TypeError, KeyError)
        raises(lambda: el.__setitem__(u'no', 1), TypeError, KeyError)
        raises(lambda: el.__delitem__(u'no'), TypeError, KeyError)


def copied_out(x):
    return x


def reads_for(el):
    if isinstance(el, JoinedString):
        return READS
    if isinstance(el, list):
        return READS + SEQ
    if isinstance(el, dict):
        return READS + MAP
    return READS


def reading(sym, steps):
    """Reading a node, or a failed attempt, leaves the whole form alone."""
    sc = Schema()
    classes = sc.state()
    how = 'validated'
    if steps == 1:
        how = sym.choice('made', ['blank', 'defaults', 'value', 'validated'])
    if how == 'blank':
        a = sc.S()
    elif how == 'defaults':
        a = sc.S.from_defaults()
    else:
        a = sc.S(copied(VALUE))
        if how == 'validated':
            a.validate()
            a[u's'].properties[u'k'] = [1]
    before, parts = image(a), objects(a)
    usual = image(sc.S(copied(VALUE))) if steps == 1 else None
    raws = [x.raw for x in parts if hasattr(x, 'raw')]
    path = PATHS[sym.pick_int('node', 0, len(PATHS) - 1)]
    for i in range(steps):
        el = node(a, path)
        sym.assume(el is not None)
        what = sym.choice('read%d' % i, reads_for(el))
        read(sym, el, what)
        sym.cover(what)
    sym.equal(image(a), before, 'an element that was only read')
    sym.check(same_objects(objects(a), parts), 'parts of an element that was '
              'only read')
    again = [x.raw for x in parts if hasattr(x, 'raw')]
    sym.check(same_objects(raws, again), 'raw input')
    sym.equal(sc.state(), classes, 'classes')
    if steps == 1:
        sym.equal(image(sc.S(copied(VALUE))), usual, 'an element made later')
    sym.observe([a.u])


def foreign(sym):
    """Searching with an element, or comparing, leaves that element alone."""
    A, B = [sym.choice(n, [List, Array, MultiValue]) for n in 'AB']
    a = A.named(u'a').of(String)([u'x', u'y', u'x'])
    b = B.named(u'b').of(String)([sym.choice('t', [u'x', u'z']), u'y'])
    m = b[0]
    before, parts = image(b), objects(b)
    mine = image(a)
    op = sym.choice('op', ['in', 'index', 'count', 'remove', 'equal', 'set',
                           'assign', 'value'])
    if op == 'in':
        m in a
    elif op == 'index':
        raises(lambda: a.index(m), ValueError)
    elif op == 'count':
        a.count(m)
    elif op == 'remove':
        raises(lambda: a.remove(m), ValueError)
    elif op == 'equal':
        m == a[0], a == b, m != a, a[0] == m
    elif op == 'set':
        a[0].set(m)
    elif op == 'assign':
        a[1].set(m.u)
        a[0].value = m.value
        a[0].u = m.u
    else:
        a[0].default = m.value
        a[0].set_default()
    sym.equal(image(b), before, 'the element searched for')
    sym.check(same_objects(objects(b), parts), 'parts of the element '
              'searched for')
    if op in ('in', 'index', 'count', 'equal'):
        sym.equal(image(a), mine, 'the list searched')
    sym.cover(op)
    sym.observe([a[0].u])


def transfer(sym):
    """A list set from another, or from its members, has its own."""
    A = sym.choice('A', [List, Array, MultiValue])
    B = sym.choice('B', [List, Array, MultiValue])
    a = A.named(u'a').of(String)([sym.text('t', 1), u'y'])
    S = B.named(u'b').of(String)
    before, parts = image(a), objects(a)
    how = sym.choice('how', ['constructor', 'set', 'slice', 'iterator',
                             'value', 'field', 'mapping'])
    if how == 'constructor':
        b = S(a)
    elif how == 'value':
        b = S(a.value if A is not MultiValue else [m.value for m in a])
    elif how == 'field':
        d = Dict.of(S)()
        d[u'b'] = a
        b = d[u'b']
    elif how == 'mapping':
        b = Dict.of(S)({u'b': a[:]})[u'b']
    else:
        b = S([u'old'])
        b.set({'set': a, 'slice': a[:], 'iterator': iter(a)}[how])
    sym.equal([m.u for m in b], [m.u for m in a], 'members')
    sym.check(not any(x is y for x in objects(b) for y in parts
                      if x is not None), 'two lists share a member')
    b[0].set(u'changed')
    b[0].add_error(u'e')
    b[1].properties[u'k'] = 1
    b[:] = [u'1', u'2']
    del b[0]
    sym.equal(image(a), before, 'the other list')
    sym.check(same_objects(objects(a), parts), 'parts of the other list')
    sym.cover(how)
    sym.observe([b.u])


CASES = [
    ('foreign', foreign, (), ['in', 'index', 'count', 'remove', 'set'], 'q'),
    ('transfer', transfer, (), ['constructor', 'set', 'field'], 'q'),
    ('apart', apart, (1,), ['error', 'property', 'append', 'clear',
                            'default', 'append row'], 'q'),
    ('apart.two', apart, (2,), ['error', 'property', 'append'], 't'),
    ('members', members, (1,), ['error', 'field', 'text'], 'q'),
    ('members.two', members, (2,), ['error', 'field', 'text'], 'q'),
    ('reading', reading, (1,), READS + SEQ + MAP, 'q'),
    ('reading.two', reading, (2,), READS + SEQ + MAP, 't'),
]
