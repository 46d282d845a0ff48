# C24: properties: every class and element sees a dictionary that overlays
# the ones above it; a change is seen below it and nowhere else.
from flatland import Dict, Integer, String
from flatland.schema.properties import Properties
from hlib import raises

BOUNDS = ('histories of up to 3 dictionary operations with symbolic values on '
          'any level of a class hierarchy (three levels, a subclass with its '
          'own properties, a diamond), on elements, and on schema clones; up '
          'to 2 keys per level')
OUTSIDE = ('deleting the attribute; whether a key of an element alone that '
           'was cleared (not deleted) stays hidden when the class sets it '
           'later; properties shared by unrelated classes')
ASSUMPTIONS = []

GONE = object()
K = ('a', 'b')


class Level(object):
    """The model: its own overlay and the ones it looks through."""

    def __init__(self, get, above):
        self.get, self.above = get, above
        self.frame = {}

    def visible(self):
        out = {}
        for f in reversed([self.frame] + [x.frame for x in self.above]):
            for k in f:
                if f[k] is GONE:
                    out.pop(k, None)
                else:
                    out[k] = f[k]
        return out


def outcome(fn):
    try:
        return ('got', fn())
    except KeyError:
        return ('missing', None)


def act(sym, lv, i, ops):
    """One operation: same result as on a plain dictionary."""
    op = sym.choice('op%d' % i, ops)
    k = sym.choice('k%d' % i, K)
    v = sym.int('v%d' % i, 0, 9)
    props = lv.get()
    d = lv.visible()
    before = dict(d)
    touched = (k,) if op in ('set', 'update') else ()
    if op == 'set':
        props[k] = d[k] = v
        got = want = None
    elif op == 'del':
        got = outcome(lambda: props.__delitem__(k))
        want = outcome(lambda: d.__delitem__(k))
    elif op == 'pop':
        got, want = outcome(lambda: props.pop(k)), outcome(lambda: d.pop(k))
    elif op == 'pop default':
        got, want = ('got', props.pop(k, v)), ('got', d.pop(k, v))
    elif op == 'setdefault':
        got = ('got', props.setdefault(k, v))
        want = ('got', d.setdefault(k, v))
    elif op == 'update':
        how = sym.choice('how%d' % i, ['dict', 'pairs', 'kw'])
        if how == 'dict':
            props.update({k: v})
        elif how == 'pairs':
            props.update([(k, 0)], **{k: v})
        else:
            props.update(**{'a': v, 'b': 1})
            d.update(a=v, b=1)
            touched = K
        if how != 'kw':
            d[k] = v
        got = want = None
    else:
        props.clear()
        d.clear()
        got = want = None
    sym.equal(got, want, 'result of an operation')
    for key in K:
        if key in d:
            if key not in before or before[key] != d[key] or \
                    key in touched:
                lv.frame[key] = d[key]
        elif key in before:
            lv.frame[key] = GONE
    sym.cover(op)


def seen(sym, props, want):
    for k in K + ('zz',):
        if k in want:
            sym.equal(props[k], want[k], 'value')
            sym.check(k in props, 'membership')
            sym.equal(props.get(k, 11), want[k], 'get')
        else:
            sym.check(raises(lambda: props[k], KeyError) == 'KeyError',
                      'value of a missing key')
            sym.check(k not in props, 'membership of a missing key')
            sym.check(props.get(k, 11) == 11 and props.get(k) is None,
                      'get of a missing key')
    ks = sorted(want)
    sym.check(sorted(props.keys()) == ks, 'keys')
    sym.check(sorted(props.iterkeys()) == ks, 'iterkeys')
    sym.check(sorted(k for k, _ in props.items()) == ks, 'items')
    sym.check(len(list(props.values())) == len(ks), 'values')
    sym.check(dict(props.items()) == want, 'items')
    sym.check(props.copy() == want, 'copy')
    sym.check(props == want and not (props != want), 'equality')
    sym.check(bool(props) is bool(want), 'truth')
    if want:
        sym.check(not (props == {}) and props != {}, 'inequality')


def hierarchy(sym, shape):
    x = sym.int('x', 0, 9)
    if shape == 'line':
        class A(object):
            properties = Properties(a=x)

        class B(A):
            pass

        class C(B):
            pass
        chain = [(A, []), (B, [A]), (C, [B, A])]
        other = []
    elif shape == 'own':
        class A(object):
            properties = Properties(a=x)

        class B(A):
            properties = Properties({'b': 2})

        class C(B):
            pass
        chain = [(A, []), (B, []), (C, [B])]
        other = []
    elif shape == 'deep':
        class A(object):
            properties = Properties(a=x)

        class B(A):
            pass

        class C(A):
            pass

        class D(B):
            pass

        class E(D, C):
            pass
        chain = [(A, []), (B, [A]), (C, [A]), (D, [B, A]), (E, [D, B, C, A])]
    elif shape == 'diamond':
        class A(object):
            properties = Properties([('a', x)])

        class B(A):
            pass

        class C(A):
            pass

        class D(B, C):
            pass
        chain = [(A, []), (B, [A]), (C, [A]), (D, [B, C, A])]
    else:
        A = String.using(properties={'a': x})
        B = A.using(optional=True)
        C = B.named(u'c').with_properties(b=1)
        chain = [(A, []), (B, [A]), (C, [B, A])]
    levels = []
    for cls, above in chain:
        lv = Level((lambda cls: lambda: cls.properties)(cls),
                   [l for c in above for l in levels if l.cls is c])
        lv.cls = cls
        levels.append(lv)
    levels[0].frame['a'] = x
    if shape == 'own':
        levels[1].frame['b'] = 2
    if shape == 'clone':
        levels[2].frame['b'] = 1
    return levels


def history(sym, shape, steps, instances, ops):
    levels = hierarchy(sym, shape)
    if instances:
        n = len(levels)
        for i in range(n - (shape == 'line'), n):
            for _ in range(1 + (i == n - 1)):
                el = levels[i].cls()
                levels.append(Level(
                    (lambda el: lambda: el.properties)(el),
                    [levels[i]] + levels[i].above))
    for i in range(steps):
        which = sym.pick_int('at%d' % i, 0, len(levels) - 1)
        act(sym, levels[which], i, ops)
        for lv in levels if i == steps - 1 else [levels[which]]:
            seen(sym, lv.get(), lv.visible())
    sym.observe([sorted(lv.get().items()) for lv in levels])
    sym.check(not Integer.properties and not String.properties,
              'an unrelated class')


def masked(sym, shape):
    """What was deleted at a level stays hidden there, whoever sets it."""
    levels = hierarchy(sym, shape)
    top = levels[-1]
    el = top.cls()
    levels.append(Level(lambda: el.properties, [top] + top.above))
    n = len(levels)
    here = sym.pick_int('here', 1, n - 1)
    act(sym, levels[here], 0, ['set', 'update', 'setdefault'])
    act(sym, levels[here], 1, ['del', 'pop', 'pop default'])
    act(sym, levels[sym.pick_int('there', 0, n - 1)], 2, ['set', 'del'])
    for lv in levels:
        seen(sym, lv.get(), lv.visible())
    sym.observe([sorted(lv.get().items()) for lv in levels])


def replaced(sym):
    """Assigning a whole dictionary to an element detaches it."""
    x, y, z = [sym.int(n, 0, 9) for n in 'xyz']
    S = Dict.of(String.named(u's').with_properties(a=x)).with_properties(b=y)
    el = S()
    before = sym.flag('touched')
    if before:
        el.properties['k'] = 1
    if sym.flag('in constructor'):
        el = S(properties={'a': z})
    else:
        el.properties = {'a': z}
    S.properties['late'] = 5
    sym.check(el.properties == {'a': z}, 'an assigned dictionary')
    el.properties['q'] = 1
    sym.check(S.properties == {'b': y, 'late': 5}, 'the class changed')
    sym.check(S().properties == {'b': y, 'late': 5}, 'a sibling changed')
    kid = el[u's']
    sym.check(kid.properties == {'a': x}, 'properties of a child')
    kid.properties['a'] = z
    sym.check(S()[u's'].properties == {'a': x}, 'properties of another child')
    sym.cover('done')
    sym.observe(sorted(S.properties.items()))


def aliased(sym):
    """Initial properties are copied from what they are given as."""
    x, y = sym.int('x', 0, 9), sym.int('y', 0, 9)
    source = {'a': x}
    how = sym.choice('how', ['class', 'using', 'with', 'update', 'element',
                             'two'])
    other = None
    if how == 'class':
        class A(object):
            properties = Properties(source)
    elif how == 'using':
        A = String.using(properties=source)
    elif how == 'with':
        A = String.with_properties(**source)
    elif how == 'two':
        A = String.with_properties(source)
        other = String.with_properties(source)
    else:
        A = String.with_properties()
        if how == 'update':
            A.properties.update(source)
    props = A.properties
    if how == 'element':
        el = A()
        el.properties.update(source)
        props = el.properties
    if sym.flag('first'):
        sym.check(props == {'a': x}, 'what was given')
    deed = sym.choice('deed', ['source', 'class', 'copy'])
    want = {'a': x}
    if deed == 'source':
        source['a'] = y
        source['b'] = 1
    elif deed == 'class':
        props['a'] = y
        want = {'a': y}
        sym.check(source == {'a': x}, 'what was given changed')
    else:
        c = props.copy()
        c['a'] = y
        del c['a']
    sym.check(props == want, 'properties')
    if other is not None:
        sym.check(other.properties == {'a': x}, 'properties of another class')
    sym.cover('done')
    sym.observe(sorted(props.items()))


ALL = ['set', 'del', 'pop', 'pop default', 'setdefault', 'update', 'clear']
SOME = ['set', 'del', 'pop', 'setdefault']
CASES = [
    ('line.two', history, ('line', 2, False, ALL), ALL, 'q'),
    ('own.two', history, ('own', 2, True, SOME), SOME, 'q'),
    ('diamond.two', history, ('diamond', 2, False, ALL), ALL, 'q'),
    ('clone.two', history, ('clone', 2, True, ALL), ALL, 'q'),
    ('line.elements', history, ('line', 2, True, ALL), ALL, 'q'),
    ('line.three', history, ('line', 3, True, SOME), SOME, 't'),
    ('clone.three', history, ('clone', 3, True, SOME), SOME, 't'),
    ('diamond.three', history, ('diamond', 3, True, SOME), SOME, 't'),
    ('masked.line', masked, ('line',), ['set', 'pop', 'del'], 'q'),
    ('masked.clone', masked, ('clone',), ['set', 'pop', 'del'], 'q'),
    ('masked.diamond', masked, ('diamond',), ['set', 'pop', 'del'], 't'),
    ('deep.two', history, ('deep', 2, False, SOME), SOME, 'q'),
    ('aliased', aliased, (), ['done'], 'q'),
    ('replaced', replaced, (), ['done'], 'q'),
]
