# C23: schema cloning: a derived class has its overrides, nothing else changes.
from flatland import (Array, Constrained, Dict, Enum, Integer, List,
                      SparseDict, String)
from flatland.schema.properties import Properties
from hlib import raises

BOUNDS = ('a family of classes grown by up to 3 clonings, each of any earlier '
          'class, by every cloning method with symbolic arguments (names of '
          'up to 2 characters, defaults, validator lists of 0..2, splice '
          'positions from before the first to past the last), over scalar, '
          'enumeration, sequence and mapping bases')
OUTSIDE = 'splice positions below -(number of validators + 1)'
ASSUMPTIONS = []


def va(element, state):
    return True


def vb(element, state):
    return True


def vc(element, state):
    return False


LISTS = [(), (va,), (vb, vc)]
KEYS = ('name', 'label', 'optional', 'default', 'validators',
        'descent_validators', 'properties', 'valid_values', 'content')


class Model(object):
    def __init__(self, cls, parent, attrs):
        self.cls, self.parent, self.attrs = cls, parent, attrs


def model_of(base):
    attrs = {'name': None, 'label': None, 'optional': False, 'default': None,
             'validators': [], 'descent_validators': [], 'properties': {},
             'valid_values': (), 'content': None}
    return Model(base, None, attrs)


def names_of(content):
    if content is None:
        return None
    return [f for f in content]


def actual_content(cls):
    if issubclass(cls, dict):
        return list(cls.field_schema)
    if issubclass(cls, list):
        m = cls.member_schema
        return [m] if isinstance(m, type) else None
    return None


def compare(sym, m, why):
    cls, at = m.cls, m.attrs
    sym.equal(cls.name, at['name'], 'name ' + why)
    if at['name'] is not None:
        sym.check(isinstance(cls.name, unicode), 'type of the name')
    label = at['label'] if at['label'] is not None else at['name']
    sym.equal(cls.label, label, 'label ' + why)
    sym.check(cls.optional is at['optional'], 'optional ' + why)
    sym.equal(cls.default, at['default'], 'default ' + why)
    got = list(cls.validators)
    sym.check(len(got) == len(at['validators']) and
              all(a is b for a, b in zip(got, at['validators'])),
              'validators ' + why)
    sym.check(cls.properties == at['properties'], 'properties ' + why)
    if issubclass(cls, (list, dict)):
        got = list(cls.descent_validators or ())
        sym.check(len(got) == len(at['descent_validators']) and
                  all(a is b for a, b in zip(got, at['descent_validators'])),
                  'descent validators ' + why)
        got = actual_content(cls)
        if at['content'] is not None:
            sym.check(len(got) == len(at['content']) and
                      all(a is b for a, b in zip(got, at['content'])),
                      'contents ' + why)
        else:
            sym.check(not got, 'contents ' + why)
    if issubclass(cls, Enum):
        sym.equal(tuple(cls.valid_values), at['valid_values'],
                  'valid values ' + why)
    if m.parent is not None:
        sym.check(cls is not m.parent.cls and cls.__bases__ ==
                  (m.parent.cls,), 'lineage ' + why)


def as_instance(sym, m, i):
    """Elements take the class attributes; overrides stay on the element."""
    cls, at = m.cls, m.attrs
    if issubclass(cls, (dict, list)) and not at['content']:
        sym.check(raises(cls, TypeError) == 'TypeError', 'a container of '
                  'nothing')
        return
    el = cls()
    sym.equal(el.name, at['name'], 'name of an element')
    sym.check(el.optional is at['optional'], 'optional of an element')
    sym.check(len(el.validators) == len(at['validators']),
              'validators of an element')
    sym.check(el.properties == at['properties'], 'properties of an element')
    mine = [vc]
    el = cls(name=u'zz', optional=True, validators=mine, default=9)
    mine.append(va)
    sym.check(el.name == u'zz' and el.optional is True and
              list(el.validators) == [vc] and el.default == 9,
              'overrides of an element')
    el.properties['p9'] = i
    sym.check(el.properties['p9'] == i, 'properties of an element')
    sym.check(raises(lambda: cls(bogus=1), TypeError) == 'TypeError',
              'unknown argument of an element')


def splice(old, new, position):
    if position < 0:
        position = len(old) + 1 + position
    return old[:position] + list(new) + old[position:]


def derive(sym, m, i, ops):
    op = sym.choice('op%d' % i, ops)
    cls = m.cls
    at = dict(m.attrs)
    at['properties'] = dict(at['properties'])
    if op == 'named':
        kind = sym.choice('namekind%d' % i, ['text', 'none', 'int'])
        if kind == 'text':
            n = sym.text('n%d' % i, 2 if i == 0 else 1)
            new, at['name'] = cls.named(n), n
        elif kind == 'none':
            new, at['name'] = cls.named(None), None
        else:
            new, at['name'] = cls.named(7), u'7'
    elif op == 'using':
        o = sym.flag('o%d' % i)
        d = sym.int('d%d' % i, -3, 3)
        new = cls.using(optional=o, default=d)
        at['optional'], at['default'] = o, d
    elif op == 'label':
        new = cls.using(label=u'L%d' % i)
        at['label'] = u'L%d' % i
    elif op == 'using validators':
        vs = list(sym.choice('v%d' % i, LISTS))
        at['validators'] = list(vs)
        new = cls.using(validators=vs)
        vs.append(vb)
    elif op == 'validated_by':
        vs = list(sym.choice('v%d' % i, LISTS))
        at['validators'] = vs
        new = cls.validated_by(*vs)
        for bad in (String, object):
            sym.check(raises(lambda: cls.validated_by(va, bad), TypeError)
                      == 'TypeError', 'a type as a validator')
    elif op in ('including', 'including descent'):
        which = 'validators' if op == 'including' else 'descent_validators'
        old = list(at[which])
        vs = list(sym.choice('v%d' % i, LISTS))
        fn = (cls.including_validators if op == 'including' else
              cls.including_descent_validators)
        if sym.flag('at%d' % i):
            p = sym.pick_int('p%d' % i, -len(old) - 1, len(old) + 1)
            at[which] = splice(old, vs, p)
            new = fn(*vs, position=p)
        else:
            at[which] = old + vs
            new = fn(*vs)
        sym.check(raises(lambda: fn(va, bogus=1), TypeError) == 'TypeError',
                  'unknown argument')
    elif op == 'descent':
        vs = list(sym.choice('v%d' % i, LISTS))
        at['descent_validators'] = vs
        new = cls.descent_validated_by(*vs)
        sym.check(raises(lambda: cls.descent_validated_by(String), TypeError)
                  == 'TypeError', 'a type as a descent validator')
    elif op == 'with_properties':
        how = sym.choice('how%d' % i, ['kw', 'dict', 'pairs'])
        x = sym.int('x%d' % i, 0, 3)
        k = sym.choice('k%d' % i, ['p', 'q'])
        if how == 'kw':
            new = cls.with_properties(**{k: x})
        elif how == 'dict':
            new = cls.with_properties({k: x}, r=i)
            at['properties']['r'] = i
        else:
            new = cls.with_properties([(k, x)])
        at['properties'][k] = x
    elif op == 'using properties':
        x = sym.int('x%d' % i, 0, 3)
        d = {'q': x}
        at['properties'] = dict(d)
        new = cls.using(properties=Properties(d) if sym.flag('made%d' % i)
                        else d)
        d['z'] = 1
    elif op == 'valued':
        vals = tuple(sym.choice('vals%d' % i, [(), (u'a',), (u'a', u'b')]))
        at['valid_values'] = vals
        new = cls.valued(*vals)
    elif op == 'of':
        A = String.named(u'a').using(optional=True)
        B = Integer.named(u'b')
        if issubclass(cls, dict):
            content = sym.choice('of%d' % i, [[], [A], [A, B]])
            sym.check(raises(lambda: cls.of(A, B, Integer.named(u'a')),
                             TypeError) == 'TypeError', 'repeated field name')
            sym.check(raises(lambda: cls.of(A()), TypeError) == 'TypeError',
                      'an element as a field')
            new = cls.of(*content)
        else:
            content = sym.choice('of%d' % i, [[A], [B]])
            new = cls.of(*content)
            sym.check(raises(lambda: cls.of(A()), TypeError) == 'TypeError',
                      'an element as a member')
            sym.check(raises(lambda: cls.of(), TypeError) == 'TypeError',
                      'no member at all')
        at['content'] = content
    else:
        sym.check(raises(lambda: cls.using(bogus=1), TypeError) == 'TypeError',
                  'unknown attribute')
        sym.check(raises(lambda: cls.using(optional=True, bogus=1), TypeError)
                  == 'TypeError', 'unknown attribute')
        new = cls.using()
    sym.cover(op)
    return Model(new, m, at)


ELEMENT_OPS = ['named', 'using', 'label', 'using validators', 'validated_by',
               'including', 'with_properties', 'using properties', 'bogus']
BASES = {
    'String': (String, ELEMENT_OPS),
    'Enum': (Enum, ['named', 'using', 'including', 'valued']),
    'Constrained': (Constrained, ['using', 'validated_by', 'including']),
    'List': (List, ['named', 'including descent', 'including', 'descent',
                    'of']),
    'Array': (Array, ['using', 'including descent', 'of',
                      'with_properties']),
    'Dict': (Dict, ['named', 'including descent', 'validated_by', 'descent',
                    'of', 'using properties']),
    'SparseDict': (SparseDict, ['using', 'of', 'including descent']),
}


def family(sym, base, steps):
    cls, ops = BASES[base]
    family = [model_of(cls)]
    for i in range(steps):
        m = family[0] if i == 0 else family[
            sym.pick_int('from%d' % i, 0, len(family) - 1)]
        family.append(derive(sym, m, i, ops))
        sym.check(cls.name is None and not cls.validators and
                  cls.optional is False, 'the base changed')
        compare(sym, family[-1], 'of a new class')
    for m in family:
        compare(sym, m, 'after all clonings')
    as_instance(sym, family[-1], steps)
    for m in family:
        compare(sym, m, 'after use')
    sym.observe([[m.cls.name, m.cls.label, bool(m.cls.optional),
                  m.cls.default, [v.__name__ for v in m.cls.validators],
                  sorted(m.cls.properties.items())] for m in family])


def twice(sym):
    """Field names must be unique and a clone's methods see the clone."""
    a = sym.text('a', 1, alphabet=u'ab')
    b = sym.text('b', 1, alphabet=u'ab')
    S = sym.choice('S', [Dict, SparseDict])
    first = String.named(a)
    second = first if a == b and sym.flag('again') else String.named(b)
    got = raises(lambda: S.of(first, Integer.named(u'c'), second),
                 TypeError)
    sym.check((got == 'TypeError') == (a == b), 'uniqueness of field names')
    L = List.of(String.named(a), Integer.named(u'c'))
    sym.check(issubclass(L.member_schema, Dict) and
              [f.name for f in L.member_schema.field_schema] == [a, u'c'],
              'several members make a mapping')
    sym.check(not List.member_schema and S.field_schema == (),
              'the base changed')

    def only(element, value):
        return value == a
    C = Constrained.using(valid_value=only, child_type=String)
    el = C(b)
    sym.check((el.value is not None) == (a == b), 'a callable override')
    sym.check(C.named(b)(a).value == a, 'a callable override is inherited')
    el = String(None)
    sym.check(raises(lambda: el.named, AttributeError) == 'AttributeError',
              'cloners of an element')
    sym.cover('same' if a == b else 'different')
    sym.observe(got)


CASES = []
for _b in sorted(BASES):
    CASES.append(('two.' + _b, family, (_b, 2), BASES[_b][1], 'q'))
    if len(BASES[_b][1]) < 6:
        CASES.append(('three.' + _b, family, (_b, 3), BASES[_b][1],
                      'q' if _b in ('Constrained', 'SparseDict')
                      else 't'))
CASES.append(('unique', twice, (), ('same', 'different'), 'q'))
CASES.append(('three.String', family, ('String', 3), ELEMENT_OPS, 't'))
