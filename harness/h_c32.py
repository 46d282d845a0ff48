# C32: declarative forms: declarations become fields, inheritance follows
# Python's attribute rules, and nothing else changes.
from flatland import Dict, Form, Integer, List, SparseDict, String
from hlib import raises, wellformed

BOUNDS = ('hierarchies of up to 4 forms over 1 or 2 bases each, declaring '
          'any of two names with any of three types, as attributes, as a '
          'field_schema or both; up to one configured or re-filled class '
          'among them; 1..2 level embedding')
OUTSIDE = ('plain mix-in classes with schema attributes; attributes that '
           'hide a field without being schemas; the same class object '
           'declared twice for one name in a hierarchy; order of the fields')
ASSUMPTIONS = []


class Model(object):
    """A form, and a plain class of the same shape holding its fields."""

    def __init__(self, cls, plain, names):
        self.cls, self.plain, self.names = cls, plain, names

    def want(self):
        return dict((n, getattr(self.plain, n)) for n in self.names)


def view(sym, m, why):
    fields = list(m.cls.field_schema)
    want = m.want()
    sym.check(sorted(f.name for f in fields) == sorted(want),
              'names of the fields ' + why)
    for f in fields:
        sym.check(issubclass(f, want[f.name]), 'type of a field ' + why)
    for n in want:
        sym.check(not hasattr(m.cls, n), 'a declaration stays an attribute')


def hierarchy(sym, steps, names, kinds):
    family = []
    for i in range(steps):
        bases = [None]
        if family:
            k = sym.choice('bases%d' % i, kinds)
            last = len(family) - 1
            if k == 'one':
                bases = [family[sym.pick_int('b%d' % i, 0, last)]]
            elif k == 'two':
                b1 = sym.pick_int('b%d' % i, 0, last)
                b2 = sym.pick_int('c%d' % i, 0, last)
                sym.assume(b1 != b2)
                bases = [family[b1], family[b2]]
            elif k == 'clone':
                m = family[sym.pick_int('b%d' % i, 0, last)]

                class P(m.plain):
                    pass
                family.append(Model(m.cls.using(optional=True), P, m.names))
                sym.cover('clone')
                continue
            elif k == 'refill':
                m = family[sym.pick_int('b%d' % i, 0, last)]

                class P(m.plain):
                    pass
                n = names[0]
                f = Integer.named(n)
                setattr(P, n, f)
                family.append(Model(m.cls.of(f), P, set([n])))
                sym.cover('refill')
                continue
        real, plain = {}, {}
        for n in names:
            if not sym.flag('has%d%s' % (i, n)):
                continue
            S = sym.choice('type%d%s' % (i, n), [String, Integer])
            S = S.using(default=i)
            real[str(n)] = S
            plain[n] = S
        above = set()
        for b in bases:
            if b is not None:
                above |= b.names
        try:
            P = type('P', tuple(b.plain if b else object for b in bases),
                     dict(plain))
        except TypeError:
            # no consistent order of the bases
            sym.assume(False)
        if not real and not above:
            sym.assume(False)
        C = type(Form)('C', tuple(b.cls if b else Form for b in bases),
                       dict(real))
        family.append(Model(C, P, above | set(plain)))
        sym.cover('two' if len(bases) == 2 else 'one')
        for m in family:
            view(sym, m, 'after a declaration')
    for m in family:
        view(sym, m, 'at the end')
        el = m.cls()
        sym.check(sorted(el.keys()) == sorted(m.names), 'keys of an element')
        wellformed(sym, el, m.cls)
    sym.observe([len(m.names) for m in family])


def declared(sym):
    """Attributes are fields under their own name; originals stay."""
    given = Integer.named(u'z').using(optional=True)
    same = String.named(u'b')
    inner = List.named(u'i').of(Integer)
    listed = Integer.named(u'a')
    upper = String.named(u'u')
    members = {'plain': 5, 'a': given, 'b': same, 'name': u'f', 'U': upper}
    want = {u'a': given, u'b': same, u'U': upper}
    if sym.flag('nested'):
        class In(Form):
            x = inner
        members['c'] = In
        want[u'c'] = In
    mine = []
    if sym.flag('listed'):
        mine = [listed, Integer.named(u'd')][sym.pick_int('from', 0, 1):]
        members['field_schema'] = mine
        want[u'd'] = mine[-1]
    had = list(mine)
    if sym.flag('named field'):
        members['name'] = String
        want[u'name'] = String
    F = type(Form)('F', (Form,), members)
    sym.check(mine == had, 'a list of the caller was changed')
    sym.check(sorted(f.name for f in F.field_schema) == sorted(want), 'names')
    for f in F.field_schema:
        sym.check(issubclass(f, want[f.name]), 'type of a field')
        if f.name == u'b':
            sym.check(f is same, 'a field that has its name is kept')
    sym.check(given.name == u'z' and upper.name == u'u' and same.name == u'b' and
              String.name is None and inner.name == u'i', 'the originals')
    sym.check(F.plain == 5, 'other attributes')
    sym.check(not hasattr(F, 'a') and not hasattr(F, 'b'), 'attributes')
    sym.check(F.name == (None if u'name' in want else u'f'), 'name')
    n = sym.int('n', 0, 9)
    el = F({u'a': n, u'b': u'y'})
    sym.equal([el[u'a'].value, el[u'b'].value], [n, u'y'], 'values')
    sym.check(el[u'a'].optional is True, 'configuration of a field')
    wellformed(sym, el, F)
    if u'c' in want:
        el[u'c'][u'x'].append(n)
        wellformed(sym, el, F)
        sym.equal(el.value[u'c'], {u'x': [n]}, 'embedded value')
        sym.cover('nested')
    sym.check(raises(lambda: el.__setitem__(u'q', 1), TypeError) ==
              'TypeError', 'an undeclared key')
    sym.check(not list(Form.field_schema), 'fields of Form itself')
    sym.check(raises(Form, TypeError) == 'TypeError', 'a form of no fields')
    sym.observe(sorted(want))


def both(sym):
    """An attribute wins over the list, a class over its bases, over a plain
    mapping too."""
    a0 = Integer.named(u'a').using(default=0)
    a1 = Integer.named(u'a').using(default=1)
    a2 = Integer.using(default=2)
    b0 = String.named(u'b')
    base = sym.choice('base', ['form', 'dict', 'list', 'sparse'])
    if base == 'form':
        class B(Form):
            a = a0
            b = b0
    elif base == 'list':
        class B(Form):
            field_schema = [a0, b0]
    elif base == 'dict':
        B = Dict.of(a0, b0)
    else:
        B = SparseDict.of(a0, b0)
    members = {}
    want = 0
    mine = [a1]
    if sym.flag('listed'):
        members['field_schema'] = mine
        want = 1
    if sym.flag('attr'):
        members['a'] = a2
        want = 2
    bases = {'form': (B,), 'list': (B,), 'dict': (B, Form),
             'sparse': (Form, B)}[base]
    if base == 'sparse':
        # a Dict and a SparseDict have a common order
        bases = (B, Form) if sym.flag('order') else (Form, B)
    try:
        F = type(Form)('F', bases, members)
    except TypeError:
        sym.cover('no order')
        return
    sym.check(mine == [a1], 'a list of the caller was changed')
    sym.check(sorted(f.name for f in F.field_schema) == [u'a', u'b'], 'names')
    for f in F.field_schema:
        if f.name == u'a':
            sym.check(f.default == want, 'which declaration')
        else:
            sym.check(f is b0, 'an inherited field')
    sym.check(list(B.field_schema)[0].default == 0 or
              list(B.field_schema)[1].default == 0, 'fields of the base')
    sym.check(len(B.field_schema) == 2, 'fields of the base')
    sym.cover(base)
    sym.observe(want)


CASES = [
    ('declared', declared, (), ['nested'], 'q'),
    ('both', both, (), ['form', 'dict', 'list'], 'q'),
    ('one.name', hierarchy, (4, [u'a'], ['one', 'two', 'clone', 'refill']),
     ['one', 'two', 'clone', 'refill'], 'q'),
    ('two.names', hierarchy, (3, [u'a', u'b'], ['one', 'two', 'refill']),
     ['one', 'two', 'refill'], 'q'),
    ('diamonds', hierarchy, (4, [u'a', u'b'], ['one', 'two']),
     ['one', 'two'], 't'),
]
