# C38: the native value of a tree is its members' values, and setting it
# builds the same tree again, whatever was there before.
import datetime

from flatland import (Array, Boolean, Date, DateYYYYMMDD, Dict, Enum, Form,
                      Integer, JoinedString, List, SparseDict, String)
from flatland.util import Unspecified
from hlib import snapshot, wellformed

BOUNDS = ('13 shapes of trees of dicts, forms, sparse dicts of both kinds, '
          'lists, arrays, compounds and five types of leaves, up to three '
          'levels and 2 members per sequence; leaf inputs are texts of 1 '
          'arbitrary character, integers, booleans, None, dates and choices '
          'in and out of range; dicts, pairs, lists, tuples and iterators')
OUTSIDE = ('multi-values and references (their value is another element\'s); '
           'unset booleans and None, which reads back as no')
ASSUMPTIONS = []

LEAVES = {
    's': String.named(u's'),
    'i': Integer.named(u'i'),
    'b': Boolean.named(u'b'),
    'd': Date.named(u'd'),
    'e': Enum.named(u'e').using(valid_values=[u'p', u'q']),
    'w': DateYYYYMMDD.named(u'w'),
    'j': JoinedString.named(u'j'),
}


class Node(object):
    """A schema, how to make input for it, and what it must then be."""

    def __init__(self, schema, kind, parts):
        self.schema, self.kind, self.parts = schema, kind, parts


def leaf(k):
    return Node(LEAVES[k], k, None)


def mapping(name, base, parts, **kw):
    S = base.named(name).of(*[p.schema for p in parts])
    if kw:
        S = S.using(**kw)
    return Node(S, 'sparse' if base is SparseDict else 'map', parts)


def sequence(name, base, part):
    return Node(base.named(name).of(part.schema), 'seq', part)


def forms():
    class F(Form):
        s = String
        i = Integer
    return Node(F.named(u'f'), 'map', [Node(F.field_schema_mapping[u's'],
                                            's', None),
                                       Node(F.field_schema_mapping[u'i'],
                                            'i', None)])


SHAPES = {
    'dict': lambda: mapping(u'm', Dict, [leaf('s'), leaf('i'), leaf('b')]),
    'form': forms,
    'typed': lambda: mapping(u'm', Dict, [leaf('d'), leaf('e'), leaf('w')]),
    'joined': lambda: mapping(u'm', Dict, [leaf('j'), leaf('i')]),
    'sparse': lambda: mapping(u'm', SparseDict, [leaf('s'), leaf('i')]),
    'required': lambda: mapping(u'm', SparseDict, [leaf('s'), leaf('i')],
                                minimum_fields='required'),
    'list': lambda: sequence(u'l', List, leaf('i')),
    'array': lambda: sequence(u'a', Array, leaf('s')),
    'lists': lambda: sequence(u'l', List, sequence(u'k', List, leaf('i'))),
    'rows': lambda: sequence(u'l', List, mapping(None, Dict, [
        leaf('s'), leaf('i')])),
    'nested': lambda: mapping(None, Dict, [
        leaf('s'), mapping(u'm', Dict, [leaf('i'),
                                        sequence(u'a', Array, leaf('s'))])]),
    'table': lambda: mapping(None, Dict, [
        sequence(u'l', List, mapping(u'r', Dict, [
            sequence(u'k', List, leaf('i'))])), leaf('b')]),
    'thin': lambda: sequence(u'l', List, mapping(u'r', SparseDict, [
        leaf('s'), sequence(u'k', Array, leaf('i'))])),
}
NAMES = sorted(SHAPES)


def leaf_input(sym, k, at, full):
    if not full and k == 's':
        return sym.text(at + '.t', 1, minlen=1)
    if not full and k == 'i':
        return sym.choice(at, [u'x', 12]) if len(at) > 3 else sym.int(
            at + '.n', -99, 99)
    if k == 's':
        kind = sym.choice(at, ['text', 'int', 'none'])
        if kind == 'text':
            return sym.text(at + '.t', 1)
        return 5 if kind == 'int' else None
    if k == 'i':
        kind = sym.choice(at, ['text', 'int', 'none'])
        if kind == 'text':
            return sym.text(at + '.t', 1, alphabet=u'7x ')
        return sym.int(at + '.n', -99, 99) if kind == 'int' else None
    if k == 'b':
        return sym.choice(at, [True, False, u'on', u'off', u'x'])
    if k == 'd':
        return sym.choice(at, [datetime.date(2012, 2, 29), u'2011-02-29',
                               u'0001-12-31', None])
    if k == 'w':
        return sym.choice(at, [datetime.date(2012, 2, 29), None,
                               u'1999-12-31', 5])
    if k == 'j':
        return sym.choice(at, [u'a, b', [u'a', u'b'], u'', []])
    return sym.choice(at, [u'p', u'q', u'z', None])


def spell_map(sym, at, d, simple):
    shape = 'dict' if simple else sym.choice(at + '.as', [
        'dict', 'pairs', 'iter', 'reversed'])
    if shape == 'dict':
        return d
    pairs = [(k, d[k]) for k in sorted(d)]
    if shape == 'reversed':
        pairs.reverse()
    return iter(pairs) if shape == 'iter' else pairs


def spell_seq(sym, at, items, simple):
    shape = 'list' if simple else sym.choice(at + '.as', [
        'list', 'tuple', 'iter'])
    return {'list': list, 'tuple': tuple, 'iter': iter}[shape](items)


def given(sym, node, at, full):
    """(input, expected value, all accepted, members have texts)"""
    if node.parts is None:
        x = leaf_input(sym, node.kind, at, full)
        model = node.schema()
        ok = model.set(x)
        return x, model.value, ok, (model.u,)
    if node.kind == 'seq':
        n = sym.pick_int(at + '.n', 0, 2)
        items, want, ok, texts = [], [], True, []
        for i in range(n):
            x, v, o, t = given(sym, node.parts, at + str(i), full)
            items.append(x)
            want.append(v)
            texts.append(t)
            ok = ok and o
        return (spell_seq(sym, at, items, full < 2 or len(at) > 1), want, ok,
                texts)
    items, want, ok, texts = {}, {}, True, {}
    for i, p in enumerate(node.parts):
        name = p.schema.name
        there = not (full > 1 or node.kind == 'sparse') or sym.flag(
            at + 'has' + name)
        if there:
            x, v, o, t = given(sym, p, at + name, full)
            items[name] = x
            want[name], texts[name] = v, t
            ok = ok and o
        elif node.kind == 'map' or (node.schema.minimum_fields == 'required'
                                    and not p.schema.optional):
            el = p.schema()
            want[name] = el.value
            texts[name] = None
    return (spell_map(sym, at, items, full < 2 or len(at) > 1), want, ok,
            texts)


def deep_plain(sym, v):
    """Only plain Python containers."""
    if isinstance(v, dict):
        sym.check(type(v) is dict, 'a mapping in a value')
        for k in v:
            deep_plain(sym, v[k])
    elif isinstance(v, list):
        sym.check(type(v) is list, 'a sequence in a value')
        for x in v:
            deep_plain(sym, x)


def texts_of(el):
    if isinstance(el, JoinedString) or isinstance(el, DateYYYYMMDD):
        return (el.u,)
    if isinstance(el, dict):
        return dict((k, texts_of(el[k])) for k in el.keys())
    if isinstance(el, list):
        return [texts_of(x) for x in el]
    return (el.u,)


def match_texts(sym, got, want):
    if want is None:
        return
    if isinstance(want, dict):
        for k in want:
            match_texts(sym, got[k], want[k])
    elif isinstance(want, list):
        for a, b in zip(got, want):
            match_texts(sym, a, b)
    else:
        sym.equal(got, want, 'text of a leaf')


def value(sym, shape, full):
    """set() gives each leaf its own value; the value gives the tree back."""
    node = SHAPES[shape]()
    S = node.schema
    x, want, ok, texts = given(sym, node, 'x', full)
    el = S()
    r = el.set(x)
    sym.check(r is True or r is False or r == 0 or r == 1, 'result of set()')
    sym.check(bool(r) is bool(ok), 'result of set()')
    sym.check(el.raw is x, 'raw is not what was set')
    sym.equal(el.value, want, 'value of a tree')
    match_texts(sym, texts_of(el), texts)
    wellformed(sym, el, S)
    sym.cover('accepted' if ok else 'refused')
    v, w = el.value, el.value
    deep_plain(sym, v)
    sym.check(v is not w, 'the same container handed out twice')
    how = sym.choice('back', ['constructor', 'set', 'again', 'over'])
    if how == 'constructor':
        other = S(v)
    elif how == 'set':
        other = S()
        other.set(v)
    elif how == 'again':
        other = el
        other.set(v)
    else:
        other = S()
        filled(other)
        other.set(v)
    sym.equal(v, w, 'the value that was set')
    sym.equal(blanked(other.value), blanked(w), 'value set again')
    wellformed(sym, other, S)
    if ok and 'b' not in shape:
        sym.equal(snapshot(S(other.value)), snapshot(other),
                  'tree of the same value')
    sym.observe([el.u, other.u])


def single(sym):
    """A leaf that is set again keeps nothing of what it was."""
    k = sym.choice('kind', sorted(LEAVES))
    S = LEAVES[k]
    el = S()
    old = leaf_input(sym, k, 'old', True)
    el.set(old)
    sym.check(el.raw is old, 'raw is not what was set')
    x = leaf_input(sym, k, 'x', True)
    r = el.set(x)
    other = S()
    sym.check(bool(other.set(x)) is bool(r), 'result of set()')
    sym.check(el.raw is x, 'raw is not what was set')
    sym.equal(snapshot(el), snapshot(other), 'a leaf set again')
    sym.equal([el.value, el.u, el.is_empty],
              [other.value, other.u, other.is_empty], 'a leaf set again')
    sym.cover(k)
    sym.observe([el.u])


def blanked(v):
    """No value and False are the same to a boolean."""
    if isinstance(v, dict):
        return dict((k, blanked(v[k])) for k in v)
    if isinstance(v, list):
        return [blanked(x) for x in v]
    return None if v is False else v


def filled(el):
    """Earlier contents of all fields."""
    if isinstance(el, DateYYYYMMDD):
        el.set(datetime.date(2000, 1, 1))
    elif isinstance(el, JoinedString):
        el.set(u'old,older')
    elif isinstance(el, dict):
        for f in el.field_schema:
            if f.name not in el:
                el[f.name] = f()
            filled(el[f.name])
    elif isinstance(el, list):
        for i in range(3):
            el.append(el.member_schema())
            filled(el[i])
    else:
        el.set({u'i': 41, u'b': True, u'd': u'2000-01-01', u'e': u'p'}.get(
            el.name, u'old'))
        el.add_error(u'old')


def unchanged(sym):
    """A value may be changed freely; setting one takes a copy."""
    node = SHAPES[sym.choice('shape', ['rows', 'nested', 'table', 'lists',
                                       'thin'])]()
    S = node.schema
    el = S()
    filled(el)
    before = snapshot(el)
    v = el.value
    spoil(v)
    sym.equal(snapshot(el), before, 'element whose value was changed')
    v = el.value
    other = S(v)
    before = snapshot(other)
    spoil(v)
    sym.equal(snapshot(other), before, 'element set from a changed value')
    v = el.value
    kept = el.value
    third = S(v)
    spoil_element(third)
    sym.equal(v, kept, 'value of which the element was changed')
    sym.cover('apart')
    sym.observe(before)


def spoil(v):
    if isinstance(v, dict):
        for k in list(v):
            spoil(v[k])
            v[k] = 17
        v[u'new'] = 1
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        v.append(None)


def spoil_element(el):
    if isinstance(el, dict):
        for k in list(el.keys()):
            spoil_element(el[k])
    elif isinstance(el, list):
        for x in el:
            spoil_element(x)
        del el[:1]
    else:
        el.set(u'1')


def values(sym, steps, full):
    """After any history, only the last value counts."""
    node = SHAPES[sym.choice('shape', ['dict', 'list', 'rows', 'required',
                                       'sparse', 'array'])]()
    S = node.schema
    el = S()
    for i in range(steps):
        x, want, ok, texts = given(sym, node, 'xyz'[i], full)
        if sym.flag('filled%d' % i):
            filled(el)
        if isinstance(el, dict) and sym.flag('flat%d' % i):
            el.set_flat([(u'm_s', u'flat'), (u'm_i', u'8')])
        r = el.set(x)
        sym.check(bool(r) is bool(ok), 'result of set()')
        sym.check(el.raw is x, 'raw is not what was set last')
        sym.equal(el.value, want, 'value of a tree')
        match_texts(sym, texts_of(el), texts)
    sym.equal(snapshot(el), snapshot(S(x)), 'tree of the last value')
    sym.cover('accepted' if ok else 'refused')
    sym.observe([el.u])


LEVEL = {'dict': 2, 'form': 2, 'typed': 1, 'joined': 2, 'sparse': 2,
         'required': 2, 'list': 2, 'array': 2, 'lists': 1, 'rows': 0,
         'nested': 0, 'table': 0, 'thin': 0}
ALWAYS = ('array', 'joined', 'nested', 'rows')
CASES = [('value.' + s, value, (s, LEVEL[s]),
          ['accepted'] + ([] if s in ALWAYS else ['refused']), 'q')
         for s in NAMES] + [
    ('value.%s.full' % s, value, (s, LEVEL[s] + 1), ['accepted', 'refused'],
     't') for s in ('typed', 'rows', 'nested', 'table')] + [
    ('single', single, (), sorted(LEAVES), 'q'),
    ('unchanged', unchanged, (), ['apart'], 'q'),
    ('values', values, (1, 1), ['accepted', 'refused'], 'q'),
    ('values.two', values, (2, 0), ['accepted'], 't'),
]
